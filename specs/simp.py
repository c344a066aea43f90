"""Contracts for the simplification of a clause picked for processing: tautologies, cutting by ground units and by
two-literal ground clauses (Reasoner/derive.c, subsume.c, simp.c)."""
from tables import *
from subsume import Units, both_kb
from resolve import small

SIF = 'Reasoner/simp.c'
DREC = 'Reasoner/derive.c'


class Cl(Site):
    """a clause being simplified; the other clauses are two-literal ground clauses"""

    def other(self, nm, n=2):
        c, st, T = z3.BitVec(nm, 64), self.st, self.T
        st.assume(z3.And(c != 0, (c & 7) == 0, WF(c), z3.ULT(c, 1 << 46), self.rule(c), T.length(c) == n * self.LW + self.EX))
        return c

    def at(self, c, i):
        return z3.Select(self.T.dbarr, c + ((bv(i) * self.LW + self.HG + self.EX + self.k['LIT_ATOM_POS']) << 3))

    def mt(self, c, i):
        return z3.Select(self.T.dbarr, c + ((bv(i) * self.LW + self.HG + self.EX + self.k['LIT_META_POS']) << 3))

    def isneg(self, m):
        return (m & self.k['ATOM_META_NEG_RAWMASK']) != 0

    def wfl(self, c, i):
        return z3.And(WF(self.at(c, i)), isrec(self.at(c, i)))


TAUT = z3.Function('OPPOSITE', BV64, BV64, B)    # literals i and j have opposite signs and equal atoms


@contract('wr_tautology_cl', DREC, label='drop:tautology', props=['C25'], timeout=60)
def c_taut(x):
    """reported only for a clause with a literal and its negation, and for each such clause whose two literals have the same meta"""
    S = Cl(x)
    st, T, c, n = S.st, S.T, S.c, S.n
    x.calls['wr_equal_term'] = h_eqterm(T, fz)
    k = x.build.probe(HDR, ['(ATOM_META_CANSUBS_MASK<<SMALLINTSHFT)'])
    M = k['(ATOM_META_CANSUBS_MASK<<SMALLINTSHFT)']
    EX = z3.Bool('TAUTOLOGY')
    I, J = z3.BitVecs('I!lit J!lit', 64)

    def opp(i, j):
        return z3.And(S.isneg(S.mt(c, i)) != S.isneg(S.mt(c, j)), fz(S.at(c, i)) == fz(S.at(c, j)))

    def is_taut(i, j):
        return z3.Implies(z3.And(S.rule(c), i >= 0, i < n, j >= 0, j < n, opp(i, j)), EX)
    seen = z3.And(opp(I, J), (S.mt(c, I) & M) == (S.mt(c, J) & M))

    def inv_i(X, s, l):
        i = sx(l.var('i'))
        return [('range', z3.And(i >= 0, i <= n, S.rule(c))), ('none-among-those-seen', z3.Implies(z3.And(I >= 0, I < i, J > I, J < n), z3.Not(seen)))]

    def inv_j(X, s, l):
        i, j = sx(l.var('i')), sx(l.var('j'))
        return [('range', z3.And(i >= 0, i < n - 1, j > i, j <= n, S.rule(c))), ('literal', z3.And(bv(l.var('xatom')) == S.at(c, i), bv(l.var('xmeta')) == S.mt(c, i), (sx(l.var('xisneg')) != 0) == S.isneg(S.mt(c, i)))),
                ('none-among-those-seen', z3.Implies(z3.And(I >= 0, z3.Or(I < i, z3.And(I == i, J < j)), J > I, J < n), z3.Not(seen)))]

    def head_j(X, s, l, ph):
        i, j = sx(l.var('i')), sx(l.var('j'))
        s.assume(z3.Implies(z3.And(i >= 0, i < n), S.wfl(c, i)))
        s.assume(z3.Implies(z3.And(j >= 0, j < n), S.wfl(c, j)))
        s.assume(is_taut(i, j))
    x.loops['wr_tautology_cl'] = [LoopSpec(inv_i), LoopSpec(inv_j, head_j)]
    f = start(x, 'wr_tautology_cl')
    x.run(f, st, [Ptr(T.G, 0), Ptr(T.DB, c)],
          ret_check(x, lambda s, v: [('dropped-only-if-it-has-a-literal-and-its-negation', z3.Implies(bv(v, 32) != 0, EX)),
                                     ('found-if-the-literals-have-the-same-meta', z3.Implies(z3.And(bv(v, 32) == 0, S.rule(c), I >= 0, J > I, J < n), z3.Not(seen)))]))


@contract('wr_atom_cut_and_subsume', 'Reasoner/subsume.c', label='simplify:unit', props=['C25'], timeout=60)
@both_kb
def c_unit_cut(x, kb):
    Un = Units(x, kb)
    st, T = Un.st, Un.T
    k = x.build.probe(HDR, ['ATOM_META_NEG_RAWMASK'])
    a, m = z3.BitVecs('atom meta', 64)
    sub = z3.BitVec('subsflag', 32)
    st.assume(z3.And(isrec(a), WF(a)))
    FB = x.region(st, 'found', size=8)
    x.store(st, Ptr(FB, 0), 8, bv(0))
    u = fz(a)
    pos = z3.Or(Un.intab('hash_pos_groundunits', u), Un.intab('hash_pos_active_groundunits', u))
    ngs = z3.Or(Un.intab('hash_neg_groundunits', u), Un.intab('hash_neg_active_groundunits', u))
    neg = (m & k['ATOM_META_NEG_RAWMASK']) != 0
    f = start(x, 'wr_atom_cut_and_subsume')

    def posts(s, v):
        r = bv(v, 32)
        fb = x.load(s, Ptr(FB, 0), 8, ('int', 64))
        return [('result', z3.Or(r == 0, r == 1, r == -1)), ('cut-only-if-the-complement-is-a-unit', z3.Implies(r == 1, z3.If(neg, pos, ngs))),
                ('subsumed-only-if-the-literal-is-a-unit', z3.Implies(r == -1, z3.And(sub != 0, z3.If(neg, ngs, pos)))),
                ('cutting-clause-is-recorded', z3.Implies(r == 1, bv(ptr_int(fb) if isinstance(fb, Ptr) else fb) != 0))]
    x.run(f, st, [Ptr(T.G, 0), a, m, Ptr(FB, 0), sub], ret_check(x, posts))


def same(S, m1, a1, m2, a2):
    return z3.And(S.isneg(m1) == S.isneg(m2), fz(a1) == fz(a2))


def compl(S, m1, a1, m2, a2):
    return z3.And(S.isneg(m1) != S.isneg(m2), fz(a1) == fz(a2))


KEEP = z3.Function('OTHERLIT', U, B, B)     # the clause has a literal with this atom and sign besides the one to be cut


def doublecut(S, y, xa, xm):
    """one literal of the double clause is the complement of the literal, the other one occurs in the rest of the clause"""
    one = lambda i: z3.And(compl(S, S.mt(y, i), S.at(y, i), xm, xa), KEEP(fz(S.at(y, 1 - i)), S.isneg(S.mt(y, 1 - i))))
    return z3.Or(one(0), one(1))


@contract('wr_atom_doublecut_aux', 'Reasoner/subsume.c', label='simplify:double-clause', props=['C25'], timeout=120)
def c_daux(x):
    S = Cl(x)
    st, T, c, n = S.st, S.T, S.c, S.n
    st.assume(S.rule(c))
    y = S.other('double')
    x.calls['wr_equal_term'] = h_eqterm(T, fz)
    xa, xm = z3.BitVecs('xatom xmeta', 64)
    st.assume(z3.And(WF(xa), isrec(xa), S.wfl(y, 0), S.wfl(y, 1)))
    P = lambda i: KEEP(fz(S.at(y, i)), S.isneg(S.mt(y, i)))
    N = lambda i: compl(S, S.mt(y, i), S.at(y, i), xm, xa)

    def state(l):
        p, q, iu = sx(l.var('posmatch')), sx(l.var('negmatch')), sx(l.var('iused'))
        return [('not-both', z3.Or(p == 0, q == 0)), ('literal-of-the-rest', z3.Implies(p != 0, z3.Or(z3.And(iu == 0, P(0)), z3.And(iu == 1, P(1))))),
                ('complement-of-the-literal', z3.Implies(q != 0, z3.Or(z3.And(iu == 0, N(0)), z3.And(iu == 1, N(1)))))]

    def inv_i(X, s, l):
        i = sx(l.var('i'))
        return [('range', z3.And(i >= 0, i <= 2))] + state(l)

    def inv_j(X, s, l):
        i, j = sx(l.var('i')), sx(l.var('j'))
        return [('range', z3.And(i >= 0, i < 2, j >= 0, j <= n)), ('literal-of-the-double', z3.And(bv(l.var('yclatom')) == S.at(y, i), bv(l.var('yclmeta')) == S.mt(y, i)))] + state(l)

    def head_j(X, s, l, ph):
        j = sx(l.var('j'))
        inn = z3.And(j >= 0, j < n)
        s.assume(z3.Implies(inn, S.wfl(c, j)))
        s.assume(z3.Implies(z3.And(inn, S.at(c, j) != xa), KEEP(fz(S.at(c, j)), S.isneg(S.mt(c, j)))))
    x.loops['wr_atom_doublecut_aux'] = [LoopSpec(inv_i), LoopSpec(inv_j, head_j)]
    f = start(x, 'wr_atom_doublecut_aux')
    x.run(f, st, [Ptr(T.G, 0), xa, xm, Ptr(T.DB, c), z3.BitVec('pos', 32), Ptr(T.DB, y)],
          ret_check(x, lambda s, v: [('cut-only-if-the-rest-of-the-double-occurs', z3.Implies(bv(v, 32) != 0, doublecut(S, y, xa, xm)))]))


DCUT = z3.Function('DOUBLECUT', BV64, BV64, BV64, B)   # that clause of a double table cuts the literal (atom, meta) of the clause being simplified


@contract('wr_atom_doublecut', 'Reasoner/subsume.c', label='simplify:double-table', props=['C25'], timeout=120)
def c_dcut(x):
    S = Cl(x, fields=['hash_pos_grounddoubles', 'hash_neg_grounddoubles'])
    st, T, c = S.st, S.T, S.c
    xa, xm = z3.BitVecs('xatom xmeta', 64)
    st.assume(z3.And(S.rule(c), WF(xa), isrec(xa), xa != 0))
    tabs = {}
    for q in ('hash_pos_grounddoubles', 'hash_neg_grounddoubles'):
        tabs[q] = r = x.region(st, q, size=None)
        st.mem[T.G.id].cells[T.off[q]] = (8, norm(r.base - T.DB.base))
    ln, nx = z3.BitVecs('len!bucket next!bucket', 64)
    st.assume(z3.And(ln >= 2, ln < (1 << 26), nx >= 2, (nx & 1) == 0, nx <= ln + 1))
    BK = x.region(st, 'bucket', size=norm((ln + 1) << 3))
    b0 = x.arr(st, BK)
    st.assume(z3.And(z3.Select(b0, bv(0)) == ln, z3.Select(b0, bv(8)) == nx, BK.base != T.DB.base))
    x.calls['wr_lit_hash'] = lambda X, s, a, ins: LITHASH(bv(a[1])) if ins['ty'] == ('int', 64) else z3.Extract(31, 0, LITHASH(bv(a[1])))
    FB = x.region(st, 'found', size=8)
    x.store(st, Ptr(FB, 0), 8, bv(0))

    def bucket(X, s, a, ins):
        """hash:bucket"""
        g, tab, t, h = a
        p = X.resolve_ptr(s, tab, 'call')
        neg = S.isneg(xm)
        X.oblig(s, 'looks-in-the-table-of-the-opposite-sign', z3.And(bv(p.off) == 0, z3.If(neg, z3.BoolVal(p.r is tabs['hash_pos_grounddoubles']), z3.BoolVal(p.r is tabs['hash_neg_grounddoubles']))), 'call')
        X.oblig(s, 'under-the-hash-of-the-literal', z3.And(bv(h, 32) == z3.Extract(31, 0, LITHASH(xa)), dboff(T, t) == xa), 'call')
        f = s.copy()
        return [(f, bv(0)), (s, norm(BK.base - T.DB.base))]
    x.calls['wr_find_offset_termbucket'] = bucket

    def aux(X, s, a, ins):
        """simplify:double-clause"""
        g, at, me, cl, pos, y = a
        X.oblig(s, 'the-literal-and-its-clause', z3.And(bv(at) == xa, bv(me) == xm, dboff(T, cl) == c), 'call')
        yo = X.resolve_ptr(s, y, 'call')
        yo = dboff(T, yo)
        js = [(o >> 3) - 1 for o in s.ghost.get('read', [])]
        X.oblig(s, 'clause-of-an-entry', z3.Or(*[z3.And(j >= 2, j < nx, (j & 1) == 0, yo == z3.Select(b0, (j + 1) << 3)) for j in js]), 'call')
        r = X.fresh('cut', 32)
        s.assume(z3.Implies(r != 0, DCUT(yo, xa, xm)))
        return r
    x.calls['wr_atom_doublecut_aux'] = aux

    def inv(X, s, l):
        j = sx(l.var('j'))
        return [('range', z3.And(j >= 2, (j & 1) == 0, j <= nx))]

    def entry(X, s, off, n, v):
        o = bv(off)
        e = z3.Select(b0, o)
        s.assume(z3.Implies(z3.And(o >= 24, o < nx << 3, (o & 15) == 8), z3.And(e != 0, (e & 7) == 0, z3.ULT(e, 1 << 46))))
        if not any(z3.eq(o, p) for p in s.ghost.get('read', [])):
            s.ghost['read'] = s.ghost.get('read', [])[-7:] + [o]
    BK.on_load = entry
    f = start(x, 'wr_atom_doublecut')
    x.loops['wr_atom_doublecut'] = lambda X, fn: [LoopSpec(inv) for q in fn.loop_order]

    def posts(s, v):
        r = bv(v, 32)
        p = x.load(s, Ptr(FB, 0), 8, ('ptr',))
        p = dboff(T, p) if isinstance(p, Ptr) else bv(p) - T.DB.base
        return [('result', z3.Or(r == 0, r == 1)), ('cut-only-by-the-clause-named', z3.Implies(r == 1, DCUT(p, xa, xm)))]
    x.run(f, st, [Ptr(T.G, 0), xa, xm, Ptr(T.DB, c), z3.BitVec('pos', 32), Ptr(FB, 0)], ret_check(x, posts))


# ---- the simplified clause: every literal is copied or was cut for a reason
import process as PR

FIELDS2 = ['use_rewrite_terms_strat', 'have_rewrite_terms']
POS = z3.Function('POS', BV64, BV64)          # the place reached when literal i is looked at
CUTBY = z3.Function('CUTFORREASON', BV64, B)  # literal i was found redundant: cut by a unit, by a double clause, or computed to be false
BUILT = z3.Function('COMPUTED', BV64, BV64)   # literal i after computing and rewriting
TRUE_, FALSE_ = z3.Function('CTRUE', BV64, B), z3.Function('CFALSE', BV64, B)


class Simp(PR.Proc):
    FIELDS = PR.Proc.FIELDS + [f for f in FIELDS2 if f not in PR.Proc.FIELDS]

    def __init__(self, x):
        super().__init__(x, ['cl'])
        self.c, self.n = self.cl['cl']
        self.K = z3.BitVec('K!lit', 64)
        self.st.assume(z3.And(self.K >= 0, self.K < self.n))
        self.cst = x.build.probe(HDR, ['ACONST_TRUE', 'ACONST_FALSE', 'WG_ILLEGAL'])
        x.calls['wr_atom_doublecut'] = self.h_double
        x.calls['wr_atom_cut_and_subsume'] = self.h_unit
        x.calls['wr_build_calc_term'] = self.h_calc
        x.calls['wr_set_history'] = lambda X, s, a, i: X.fresh('set', 64)
        x.calls['wr_computable_termptr'] = lambda X, s, a, i: X.fresh('computable', 32)

    def at(self, i):
        return z3.If(self.rule(self.c), z3.Select(self.T.dbarr, self.c + ((bv(i) * self.LW + self.HG + self.EX + self.k['LIT_ATOM_POS']) << 3)), self.c)

    def mt(self, i):
        return z3.Select(self.T.dbarr, self.c + ((bv(i) * self.LW + self.HG + self.EX + self.k['LIT_META_POS']) << 3))

    def isneg(self, m):
        return (m & self.k['ATOM_META_NEG_RAWMASK']) != 0

    def head(self, X, s, l, ph):
        i = sx(l.var('i'))
        s.ghost['i'] = i
        s.ghost['dc'] = (False, sx(l.var('doublecut_found')))
        s.ghost['cur'] = None
        s.ghost['cutnow'] = False
        s.ghost['rw'] = None
        s.assume(z3.Implies(z3.And(i >= 0, i < self.n), z3.And(isrec(self.at(i)), WF(self.at(i)), self.at(i) != 0)))
        s.assume(POS(i) == sx(l.var('rpos')))      # names the place

    def stored(self, s, r):
        """literal K is in the new clause of r literals"""
        R = s.ghost['lits'][0]
        a = self.x.arr(s, R)
        p = POS(self.K)
        return z3.And(p >= 0, p < r, z3.Select(a, (p * self.LW + self.k['LIT_META_POS']) << 3) == self.mt(self.K),
                      z3.Or(z3.Select(a, (p * self.LW + self.k['LIT_ATOM_POS']) << 3) == self.at(self.K), z3.Select(a, (p * self.LW + self.k['LIT_ATOM_POS']) << 3) == BUILT(self.K)))

    def inv(self, X, s, l):
        i, r, cuts, df = sx(l.var('i')), sx(l.var('rpos')), sx(l.var('cuts')), sx(l.var('doublecut_found'))
        cc = sx(l.var('calccuts')) if l.has('calccuts') else bv(0)
        dc, fp = s.ghost.get('dc', (False, None))
        out = [] if not l.has('prev_rewrites') else [('no-rewrites-yet', z3.Implies(i == 0, sx(l.var('prev_rewrites')) == sx(self.T.gget(s, 'tmp_rewrites'))))]
        out += [('range', z3.And(i >= 0, i <= self.n, r >= 0, cuts >= 0, cc >= 0, r + cuts + cc == i)),
               ('one-double-cut-at-most', z3.And(z3.BoolVal(True) if fp is None else z3.Implies(fp != 0, df != 0), (df != 0) if dc else z3.BoolVal(True))),
               ('literal-kept-or-cut-for-a-reason', z3.Implies(self.K < i, z3.Or(CUTBY(self.K), self.stored(s, r))))]
        return out

    def this(self, X, s, a, m, what):
        i = s.ghost['i']
        X.oblig(s, what + ':literal', z3.And(i >= 0, i < self.n, bv(m) == self.mt(i), z3.Or(bv(a) == self.at(i), z3.BoolVal(s.ghost['cur'] is not None) if s.ghost['cur'] is None else bv(a) == s.ghost['cur'])), 'call')
        return i

    def h_double(self, X, s, args, ins):
        """simplify:double-table"""
        g, a, m, cl, pos, found = args
        i = self.this(X, s, a, m, 'double-cut')
        X.oblig(s, 'double-cut:of-this-clause', dboff(self.T, cl) == self.c, 'call')
        X.oblig(s, 'double-cut:only-one', s.ghost['dc'][1] == 0, 'call')
        R = X.region(s, 'double', size=None)
        t = s.copy()
        X.store(t, found, 8, Ptr(R, 0))
        t.assume(CUTBY(i))
        t.ghost['dc'] = (True, s.ghost['dc'][1])
        return [(t, z3.BitVecVal(1, 32)), (s, z3.BitVecVal(0, 32))]

    def h_unit(self, X, s, args, ins):
        """simplify:unit"""
        g, a, m, found, sub = args
        i = self.this(X, s, a, m, 'unit-cut')
        X.oblig(s, 'unit-cut:a-unit-does-not-subsume-itself', z3.Implies(z3.And(self.n == 1, z3.BoolVal(s.ghost['cur'] is None) if s.ghost['rw'] is None else z3.Not(s.ghost['rw'])), bv(sub, 32) == 0), 'call')
        t, d = s.copy(), s.copy()
        R = X.region(t, 'unit', size=None)
        X.store(t, found, 8, Ptr(R, 0))
        t.assume(CUTBY(i))
        d.assume(bv(sub, 32) != 0)
        d.ghost['dead'] = 'subsumed'
        return [(t, z3.BitVecVal(1, 32)), (d, z3.BitVecVal(0xffffffff, 32)), (s, z3.BitVecVal(0, 32))]

    def h_calc(self, X, s, args, ins):
        """C06, C07, C17: the atom with functions computed and equations applied"""
        g, a = args
        T = self.T
        fact = 'i' not in s.ghost
        i = bv(0) if fact else s.ghost['i']
        X.oblig(s, 'computed:literal', z3.And(i >= 0, i < self.n, bv(a) == self.at(i)), 'call')
        rw0 = T.gget(s, 'tmp_rewrites')
        rw1 = X.fresh('rewrites', 64)
        s.assume(z3.And(rw1 >= sx(rw0), rw1 < (1 << 30)))
        T.sset(s, 'tmp_rewrites', z3.Extract(8 * T.fsz['tmp_rewrites'] - 1, 0, rw1))
        neg = z3.BoolVal(False) if fact else self.isneg(self.mt(i))
        c = self.cst
        o, t, f = s.copy(), s.copy(), s.copy()
        o.ghost['dead'] = 'memory'
        t.assume(CUTBY(i) == neg)                # true: a negative literal is false
        t.ghost['dead'] = ('tautology', z3.Not(neg))
        f.assume(CUTBY(i) == z3.Not(neg))
        f.ghost['dead'] = ('tautology', neg)
        y = BUILT(i)
        s.assume(z3.And(isrec(y), WF(y), y != 0, y != c['WG_ILLEGAL'], y != c['ACONST_TRUE'], y != c['ACONST_FALSE']))
        s.ghost['cur'] = y
        s.ghost['rw'] = rw1 != sx(rw0)
        return [(o, bv(c['WG_ILLEGAL'])), (t, bv(c['ACONST_TRUE'])), (f, bv(c['ACONST_FALSE'])), (s, y)]

    def h_isrule(self, x, s, args, ins):
        r = x.fresh('isrule', 32)
        s.ghost['flag'] = r
        return r

    def h_build(self, x, s, args, ins):
        """resolve:build-clause"""
        g, rp, n, fl, h = args
        T = self.T
        x.oblig(s, 'built-from-the-literals-kept', z3.And(self.islits(s, rp), sx(n) >= 1, z3.Or(CUTBY(self.K), self.stored(s, sx(n)))), 'call')
        x.oblig(s, 'fact-or-rule-decided', z3.BoolVal(s.ghost['flag'] is not None) if s.ghost['flag'] is None else (sx(fl) != 0) == (sx(s.ghost['flag']) != 0), 'call')
        buf = x.load(s, Ptr(T.G, T.off['build_buffer']), 8, ('ptr',))
        x.oblig(s, 'built-in-the-queue-buffer', z3.And(T.gget(s, 'build_subst') == 0, z3.BoolVal(isinstance(buf, Ptr) and buf.r is self.B['queue_termbuf'])), 'call')
        return self.made(x, s, bv(h))

    def posts(self, s, v):
        T, gh = self.T, s.ghost
        pf = T.gget(s, 'proof_found') != 0
        null = isinstance(v, Ptr) and v.r is None and is_c(v.off) and v.off == 0
        dead = gh['dead']
        why = z3.BoolVal(False)
        if isinstance(dead, tuple):
            why = dead[1]
        elif dead is not None:
            why = z3.BoolVal(True)
        nohist = gh['hist'] == 0 if gh['hist'] is not None else z3.BoolVal(False)
        fact = z3.Not(self.rule(self.c))
        allcut = z3.And(z3.BoolVal(gh['built'] is None), CUTBY(self.K))
        out = [('proof-only-if-all-literals-were-cut', z3.Implies(pf, z3.Or(allcut, z3.And(z3.BoolVal(gh['built'] is not None and gh['proof'] == 'clause'), ANSW_)))),
               ('registered-with-the-proof', z3.Implies(pf, z3.BoolVal(gh['proof'] in ('empty', 'clause'))))]
        if null:
            out.append(('dropped-only-for-a-reason', z3.Or(pf, why, nohist)))
        else:
            isself = dboff(T, v) == self.c if not (isinstance(v, Ptr) and v.r is not T.DB) else z3.BoolVal(False)
            isnew = self.isres(s, v) if isinstance(v, Ptr) and v.r is not T.DB and gh['res'] is not None else z3.BoolVal(False)
            # a rewritten fact is its computed term
            isfact = z3.And(fact, bv(ptr_int(v) if isinstance(v, Ptr) else v) - T.DB.base == BUILT(bv(0)))
            out.append(('result-is-the-clause-or-the-simplified-one', z3.And(z3.Not(pf), z3.Or(isself, isnew, isfact))))
        return out


ANSW_ = PR.ANSW


@contract('wr_simplify_doublecut_cl', SIF, label='simplify:doubles', files=['Reasoner/derive.c', 'Reasoner/clterm.c'], props=['C25'], timeout=200)
def c_simpd(x):
    P = Simp(x)
    x.loops['wr_simplify_doublecut_cl'] = [LoopSpec(P.inv, P.head)]
    f = start(x, 'wr_simplify_doublecut_cl')
    x.run(f, P.st, P.args(Ptr(P.T.DB, P.c), NULL), ret_check(x, P.posts))


@contract('wr_simplify_cl', SIF, label='simplify:clause', files=['Reasoner/derive.c', 'Reasoner/clterm.c'], props=['C25'], timeout=300)
def c_simp(x):
    P = Simp(x)
    x.loops['wr_simplify_cl'] = [LoopSpec(P.inv, P.head)]
    f = start(x, 'wr_simplify_cl')
    x.run(f, P.st, P.args(Ptr(P.T.DB, P.c), NULL), ret_check(x, P.posts))
