"""Contracts for Reasoner/derive.c and subsume.c: assembling derived clauses and cutting literals with units."""
from subsume import *

RF = 'Reasoner/derive.c'
PRES = z3.Function('PRES', A, BV64, B, U, B)            # some literal among the first n has this sign and atom
PRESX = z3.Function('PRESX', A, BV64, BV64, BV64, B)    # some literal among the first n is exactly this meta and atom
NCUT = z3.Function('NCUT', A, BV64, BV64)                  # number of literals among the first n marked as cut
SRC = z3.Function('SRC', B, U, B)                       # such a literal is an instance of a kept literal of the parent clause
RES = z3.Function('RES', BV64, U)                       # the atom after applying the substitution
RESP = z3.Function('RESP', BV64, U)                     # ... with the paramodulated subterm replaced
DROPOK = z3.Bool('DROPOK')                              # there is a reason to drop the derived clause


def small(name, bits=24):
    return z3.ZeroExt(64 - bits, z3.BitVec(name, bits))


class Lits:
    """a half-built clause: pairs of meta and atom in a temporary buffer"""

    def __init__(self, x, fields=(), vals=(fz,), cap=None, ro=False, rules=True):
        x.incremental = True
        st, T, gh = setup(x, fields=list(fields), vals=list(vals))
        self.init(x, st, T, cap, ro)

    def init(self, x, st, T, cap=None, ro=False, rules=True):
        self.x, self.st, self.T = x, st, T
        k = self.k = x.build.probe(HDR, ['RECORD_HEADER_GINTS', 'CLAUSE_EXTRAHEADERLEN', 'LIT_WIDTH', 'LIT_META_POS', 'LIT_ATOM_POS', 'RECORD_META_RULE_CLAUSE', 'RECORD_META_FACT_CLAUSE', 'RECORD_META_POS',
                                         'ATOM_META_NEG_RAWMASK', 'ACONST_TRUE', 'ACONST_FALSE', 'WG_ILLEGAL'])
        self.HG, self.EX, self.LW = k['RECORD_HEADER_GINTS'], k['CLAUSE_EXTRAHEADERLEN'], k['LIT_WIDTH']
        self.M, self.AP = k['LIT_META_POS'], k['LIT_ATOM_POS']
        self.cap = cap if cap is not None else z3.BitVec('cap!lits', 64)
        st.assume(z3.And(self.cap >= 0, self.cap < (1 << 25)))
        self.RP = x.region(st, 'rptr', size=norm(self.cap * (8 * self.LW)), ro=ro)
        self.rp0 = x.arr(st, self.RP)
        if rules:
            self.rules(x.defs_)

    def rpos_cell(self, st, n):
        self.N = self.x.region(st, 'rpos', size=4, kind='bytes')
        st.mem[self.N.id].cells[0] = (4, z3.Extract(31, 0, n))

    def rpos(self, st):
        return sx(self.x.load(st, Ptr(self.N, 0), 4, ('int', 32)))

    def lits(self, st):
        return self.x.arr(st, self.RP)

    def neg(self, meta):
        return (meta & self.k['ATOM_META_NEG_RAWMASK']) != 0

    def meta(self, a, i):
        return z3.Select(a, ((bv(i) * self.LW) + self.M) << 3)

    def atom(self, a, i):
        return z3.Select(a, ((bv(i) * self.LW) + self.AP) << 3)

    def rules(self, D):
        def unf(fn, test, zero=False, plus=False):
            def cb(a, n, *r):
                out = []
                F = lambda a, n: fn(a, n, *r)
                b = a
                while b.decl().kind() == z3.Z3_OP_STORE:
                    b0, i, v = b.children()
                    # lemma: writes at or after position n do not matter
                    out.append(z3.Implies(z3.And((i & 7) == 0, i >= 0, n >= 0, n < (1 << 40), (i >> 3) >= n * self.LW), F(b, n) == F(b0, n)))
                    b = b0
                if zero:
                    out += [z3.Implies(n <= 0, F(a, n) == 0), z3.Implies(n > 0, F(a, n) == F(a, n - 1) + z3.If(test(a, n - 1), bv(1), bv(0))), F(a, n) >= 0, z3.Implies(n >= 0, F(a, n) <= n)]
                else:
                    out += [z3.Implies(n <= 0, z3.Not(F(a, n))), z3.Implies(n > 0, F(a, n) == z3.Or(F(a, n - 1), test(a, n - 1, *r)))]
                return out
            return cb
        D.rule(PRES, unf(PRES, lambda a, i, s, u: z3.And(self.neg(self.meta(a, i)) == s, fz(self.atom(a, i)) == u)))
        D.rule(PRESX, unf(PRESX, lambda a, i, m, t: z3.And(self.meta(a, i) == m, self.atom(a, i) == t)))
        D.rule(NCUT, unf(NCUT, lambda a, i: self.meta(a, i) == 0, zero=True))

    def intro(self, a, n, j):
        """lemma:literal-found: a literal below n is present (induction on n)"""
        m, t = self.meta(a, j), self.atom(a, j)
        return z3.Implies(z3.And(j >= 0, j < n), z3.And(PRES(a, n, self.neg(m), fz(t)), PRESX(a, n, m, t)))

    # the parent clause
    def parent(self, st):
        T = self.T
        self.c = c = z3.BitVec('cl', 64)
        self.n = small('atomnr')
        st.assume(z3.And(c != 0, (c & 7) == 0, WF(c), z3.ULT(c, 1 << 46), T.length(c) >= 1, T.length(c) < T.MAXLEN, self.n >= 1, self.n < T.MAXLEN,
                         z3.If(self.rule(), T.length(c) == self.n * self.LW + self.EX, self.n == 1)))

    def rule(self):
        return (z3.Select(self.T.dbarr, self.c + 8 * self.k['RECORD_META_POS']) & self.k['RECORD_META_RULE_CLAUSE']) != 0

    def pos(self, i):
        return (bv(i) * self.LW + self.HG + self.EX) << 3

    def patom(self, i):
        return z3.If(self.rule(), z3.Select(self.T.dbarr, self.c + self.pos(i) + 8 * self.AP), self.c)

    def pneg(self, i):
        return z3.And(self.rule(), self.neg(z3.Select(self.T.dbarr, self.c + self.pos(i) + 8 * self.M)))

    def pmeta0(self, i):
        return z3.And(self.rule(), z3.Select(self.T.dbarr, self.c + self.pos(i) + 8 * self.M) == 0)


def builder(Ls, para):
    def h(x, st, args, ins):
        if para:
            # C30: at the position and with the term handed in, counting from the atom itself
            pos, path, rterm, rl, idx = Ls.para
            x.require(st, 'decoded-position', z3.And(z3.Extract(31, 0, bv(args[2], 32)) == pos), 'call')
            x.require(st, 'replacement-term', bv(args[3]) == rterm, 'call')
            x.require(st, 'counting-from-the-atom', bv(x.load(st, args[4], 4), 32) == 0, 'call')
            if 'i' in st.ghost:
                x.require(st, 'literal-of-the-path', st.ghost['i'][0] == rl, 'call')
        """C17: the built term is the instance; all earlier terms stay as they are"""
        x.oblig(st, 'pre:build', WF(bv(args[1])), 'call')
        if 'i' in st.ghost:
            i, cpos = st.ghost['i']
            x.require(st, 'not-the-cut-literal', i != cpos, 'call')
        r = x.fresh('built', 64)
        ill = bv(Ls.k['WG_ILLEGAL'])
        f = st.copy()
        if 'DROP' in st.ghost:
            f.assume(z3.And(r == ill, DROPOK))
        else:
            f.assume(r == ill)
        st.assume(z3.And(r != ill, WF(r), fz(r) == (RESP if para else RES)(bv(args[1]))))
        return [(f, r), (st, r)]
    return h


@contract('wr_process_resolve_result_aux', RF, label='resolve:copy-literals', props=['C20'], timeout=240)
def c_aux(x):
    for para in (False, True):
        copy_lits(x, para)


def copy_lits(x, para):
    Ls = Lits(x, fields=['tmp1', 'tmp3', 'stat_internlimit_discarded_cl', 'stat_tautologies_discarded'], cap=z3.BitVec('cap!lits', 64))
    st, T = Ls.st, Ls.T
    Ls.parent(st)
    n, c = Ls.n, Ls.c
    cut = z3.BitVec('cutatom', 64)
    cpos, r0, rl = small('cutindex'), small('rpos0'), small('repllit')
    J, K, D1, D2 = z3.BitVecs('J!lit K!entry D1!entry D2!entry', 64)
    DP = z3.Bool('DROPOK')
    st.ghost['DROP'] = True
    # the literal cut: at index cutindex (n: none)
    st.assume(z3.And(cpos >= 0, cpos <= n, z3.Implies(cpos < n, Ls.patom(cpos) == cut), r0 >= 0, r0 < T.MAXLEN,
                     Ls.cap == r0 + n - z3.If(cpos < n, bv(1), bv(0))))
    st.assume(z3.And(J >= 0, J < n, K >= r0))
    # two different positions hold different atoms (before: for the literals collected from the other parent)
    st.assume(z3.And(D1 >= 0, D1 < D2, z3.Implies(D2 < r0, fz(Ls.atom(Ls.rp0, D1)) != fz(Ls.atom(Ls.rp0, D2)))))
    Ls.rpos_cell(st, r0)
    CP = x.region(st, 'cutpos', size=4, kind='bytes')
    path, rterm = z3.BitVecs('replpath replterm', 64)
    st.assume(path >= 0 if para else path < 0)
    if para:
        st.assume(z3.And(rl >= 0, rl < n))
        pos = z3.BitVec('replpos', 32)
        Ls.para = (pos, path, rterm, rl, None)

        def dec(v):
            def h(X, s, a, ins):
                X.require(s, 'the-path-handed-in', z3.Extract(31, 0, bv(a[1])) == z3.Extract(31, 0, path), 'call')
                return v
            return h
        x.calls['wr_decode_para_termpath_litnr'] = dec(z3.Extract(31, 0, rl))
        x.calls['wr_decode_para_termpath_pos'] = dec(pos)
    x.calls['wr_build_calc_term'] = builder(Ls, False)
    x.calls['wr_build_calc_term_replace'] = builder(Ls, True)
    inst = (lambda i: z3.If(i == rl, RESP(Ls.patom(i)), RES(Ls.patom(i)))) if para else (lambda i: RES(Ls.patom(i)))
    tru, fal = fz(bv(Ls.k['ACONST_TRUE'])), fz(bv(Ls.k['ACONST_FALSE']))

    def h_eq(X, s, args, ins):
        r = X.fresh('eq', 64)
        s.assume((r != 0) == (fz(bv(args[1])) == fz(bv(args[2]))))
        return r
    x.calls['wr_equal_term'] = h_eq
    # literals already in the buffer are well-formed
    Ls.RP.on_load = lambda X, s, off, nb, v: s.assume(z3.Implies((z3.LShR(bv(off), 3) & (Ls.LW - 1)) == Ls.AP, WF(bv(v)))) if Ls.LW == 2 else None

    def kept(i):
        return z3.And(Ls.patom(i) != cut, z3.Not(z3.And(inst(i) == tru, Ls.pneg(i))), z3.Not(z3.And(inst(i) == fal, z3.Not(Ls.pneg(i)))))

    def facts(i):
        s_i = z3.Implies(z3.And(i >= 0, i < n), WF(Ls.patom(i)))
        return [s_i,
                z3.Implies(z3.And(i >= 0, i < n, kept(i)), SRC(Ls.pneg(i), inst(i))),
                # reasons to drop the whole clause
                z3.Implies(z3.And(i >= 0, i < n, z3.Or(Ls.pmeta0(i), z3.And(inst(i) == tru, z3.Not(Ls.pneg(i))), z3.And(inst(i) == fal, Ls.pneg(i)))), DP)]
    for i in (J, cpos):
        st.assume(facts(i)[0])

    def posts(s, r):
        a = Ls.lits(s)
        return [('every-remaining-literal-present', z3.Implies(kept(J), PRES(a, r, Ls.pneg(J), inst(J)))) if s is not None else None,
                ('every-literal-comes-from-the-parent', z3.Implies(K < r, SRC(Ls.neg(Ls.meta(a, K)), fz(Ls.atom(a, K))))),
                ('earlier-literals-kept', z3.Implies(z3.And(z3.BitVec('E!', 64) >= 0, z3.BitVec('E!', 64) < r0), z3.And(Ls.meta(a, z3.BitVec('E!', 64)) == Ls.meta(Ls.rp0, z3.BitVec('E!', 64)),
                                                                                                                      Ls.atom(a, z3.BitVec('E!', 64)) == Ls.atom(Ls.rp0, z3.BitVec('E!', 64))))),
                ('no-two-equal-atoms', z3.Implies(D2 < r, fz(Ls.atom(a, D1)) != fz(Ls.atom(a, D2)))),
                ('count-not-reduced', r >= r0)]

    def inv_i(X, s, l):
        i = sx(l.var('i'))
        r = Ls.rpos(s)
        a = Ls.lits(s)
        p = posts(s, r)
        p[0] = ('remaining-literals-so-far', z3.Implies(z3.And(J < i, kept(J)), PRES(a, r, Ls.pneg(J), inst(J))))
        return [('range', z3.And(i >= 0, i <= n, r >= r0, r <= r0 + i - z3.If(cpos < i, bv(1), bv(0))))] + p

    def head_i(X, s, l, ph):
        i = sx(l.var('i'))
        for f in facts(i):
            s.assume(f)
        s.ghost['i'] = (i, cpos)

    def inv_j(X, s, l):
        j = sx(l.var('j'))
        r = Ls.rpos(s)
        return [('range', z3.And(j >= 0, j <= r)), ('no-equal-atom-so-far', z3.Implies(D1 < j, fz(Ls.atom(Ls.lits(s), D1)) != fz(bv(l.var('newatom')))))]

    def head_j(X, s, l, ph):
        i, j = sx(l.var('i')), sx(l.var('j'))
        a, r = Ls.lits(s), Ls.rpos(s)
        s.assume(Ls.intro(a, r, j))
        t = fz(Ls.atom(a, j))
        # a complementary pair of equal atoms makes the clause a tautology
        s.assume(z3.Implies(z3.And(j >= 0, j < r, t == fz(bv(l.var('newatom'))), Ls.neg(Ls.meta(a, j)) != Ls.neg(bv(l.var('meta')))), DP))
    x.loops['wr_process_resolve_result_aux'] = [LoopSpec(inv_i, head_i), LoopSpec(inv_j, head_j)]
    f = start(x, 'wr_process_resolve_result_aux')

    def final(s, v):
        ok = bv(v, 32) != 0
        return [(nm, z3.Implies(ok, g)) for nm, g in posts(s, Ls.rpos(s))] + [('dropped-only-with-a-reason', z3.Implies(z3.Not(ok), DP))]
    x.run(f, st, [Ptr(T.G, 0), Ptr(T.DB, c), cut, z3.Extract(31, 0, n), Ptr(Ls.RP, 0), Ptr(Ls.N, 0), Ptr(CP, 0), path, rterm], ret_check(x, final))


@contract('wr_process_resolve_result_remove_cuts', RF, label='resolve:remove-cuts', props=['C20'], timeout=120)
def c_remove(x):
    Ls = Lits(x)
    st, T = Ls.st, Ls.T
    r0 = small('rpos0')
    cuts = z3.BitVec('cuts', 32)
    a0 = Ls.rp0
    J, K = z3.BitVecs('J!lit K!entry', 64)
    st.assume(z3.And(r0 >= 0, r0 <= Ls.cap, J >= 0, J < r0, K >= 0, sx(cuts) == NCUT(a0, r0)))
    Ls.rpos_cell(st, r0)
    st.assume(Ls.intro(a0, r0, J))

    def kept(a, p, i):
        m, t = Ls.meta(a0, J), Ls.atom(a0, J)
        return [('uncut-literal-kept', z3.Implies(z3.And(J < i, m != 0), PRESX(a, p, m, t))),
                ('only-uncut-literals-remain', z3.Implies(K < p, z3.And(Ls.meta(a, K) != 0, PRESX(a0, r0, Ls.meta(a, K), Ls.atom(a, K)))))]

    def inv(X, s, l):
        i, p = sx(l.var('i')), sx(l.var('storepos'))
        a = Ls.lits(s)
        return [('range', z3.And(i >= 0, i <= r0, p >= 0, p <= i, Ls.rpos(s) == r0, p == i - NCUT(a0, i))),
                ('not-yet-moved', z3.Implies(z3.And(z3.BitVec('E!', 64) >= i, z3.BitVec('E!', 64) < r0), z3.And(Ls.meta(a, z3.BitVec('E!', 64)) == Ls.meta(a0, z3.BitVec('E!', 64)),
                                                                                                                Ls.atom(a, z3.BitVec('E!', 64)) == Ls.atom(a0, z3.BitVec('E!', 64)))))] + kept(a, p, i)

    def head(X, s, l, ph):
        i = sx(l.var('i'))
        a = Ls.lits(s)
        # the arbitrary not-yet-moved position instantiated at i
        s.assume(z3.Implies(z3.And(i >= 0, i < r0), z3.And(Ls.meta(a, i) == Ls.meta(a0, i), Ls.atom(a, i) == Ls.atom(a0, i))))
        s.assume(Ls.intro(a0, r0, i))
    x.loops['wr_process_resolve_result_remove_cuts'] = [LoopSpec(inv, head)]
    f = start(x, 'wr_process_resolve_result_remove_cuts')

    def posts(s, v):
        r = Ls.rpos(s)
        return [('length-reduced-by-the-cuts', r == r0 - NCUT(a0, r0))] + kept(Ls.lits(s), r, r0)
    x.run(f, st, [Ptr(T.G, 0), Ptr(Ls.RP, 0), Ptr(Ls.N, 0), cuts], ret_check(x, posts))


@contract('wr_derived_build_cl_from_initial_cl', RF, label='resolve:build-clause', files=['Reasoner/history.c'], props=['C20'], timeout=120)
def c_build(x):
    for rule in (True, False):
        build_cl(x, rule)


def build_cl(x, rule):
    Ls = Lits(x, fields=['build_buffer', 'stat_internlimit_discarded_cl', 'stat_built_cl', 'store_history'], ro=True)
    st, T, k = Ls.st, Ls.T, Ls.k
    r0 = small('rpos0')
    K = z3.BitVec('K!entry', 64)
    a0 = Ls.rp0
    st.assume(z3.And(r0 >= 1, r0 <= Ls.cap, K >= 0, K < r0))
    Ls.RP.on_load = lambda X, s, off, nb, v: s.assume(z3.Implies((z3.LShR(bv(off), 3) & (Ls.LW - 1)) == Ls.AP, WF(bv(v)))) if Ls.LW == 2 else None
    BB = x.region(st, 'build_buffer', size=None)
    T.sset(st, 'build_buffer', Ptr(BB, 0))
    ln = Ls.EX + (r0 * Ls.LW if rule else bv(1 << 20))
    RS = x.region(st, 'result', size=norm((ln + Ls.HG) << 3))
    made = {}

    def raw(X, s, args, ins):
        g, n, m, b = args
        X.oblig(s, 'pre:create-record', z3.And(bv(n) == ln, bv(m) == k['RECORD_META_RULE_CLAUSE'], z3.BoolVal(isinstance(b, Ptr) and b.r is BB)), 'call')
        f = s.copy()
        X.store(s, Ptr(RS, 8 * k['RECORD_META_POS']), 8, bv(m))
        s.ghost['made'] = True
        return [(f, NULL), (s, Ptr(RS, 0))]
    x.calls['wr_create_raw_record'] = raw
    if rule:
        x.calls['wr_build_calc_term'] = builder(Ls, False)
    else:
        def bld(X, s, args, ins):
            X.oblig(s, 'pre:build', WF(bv(args[1])), 'call')
            f = s.copy()
            s.ghost['made'] = True
            r = norm(RS.base - T.DB.base)
            s.assume(z3.And(fz(r) == RES(bv(args[1])), r != k['WG_ILLEGAL']))
            return [(f, bv(k['WG_ILLEGAL'])), (s, r)]
        x.calls['wr_build_calc_term'] = bld
    res = lambda s: x.arr(s, RS)
    at = lambda i: (bv(i) * Ls.LW + Ls.HG + Ls.EX) << 3

    def done(s, i):
        b = res(s)
        return [('literal-meta-kept', z3.Implies(K < i, z3.Select(b, at(K) + 8 * Ls.M) == Ls.meta(a0, K))),
                ('literal-atom-is-its-copy', z3.Implies(K < i, fz(z3.Select(b, at(K) + 8 * Ls.AP)) == RES(Ls.atom(a0, K)))),
                ('clause-kind', z3.Select(b, bv(8 * k['RECORD_META_POS'])) == k['RECORD_META_RULE_CLAUSE'])]
    x.loops['wr_derived_build_cl_from_initial_cl'] = {1: LoopSpec(lambda X, s, l: [('range', z3.And(sx(l.var('i')) >= 0, sx(l.var('i')) <= r0))] + done(s, sx(l.var('i'))))}
    f = start(x, 'wr_derived_build_cl_from_initial_cl')

    def posts(s, v):
        ok = z3.BoolVal(isinstance(v, Ptr) and v.r is not None)
        if isinstance(v, Ptr) and v.r is None and is_c(v.off) and v.off == 0:
            return []
        v = x.resolve_ptr(s, v, 'post')
        isres = z3.And(z3.BoolVal(v.r is RS), bv(v.off) == 0)
        if rule:
            return [('result-is-the-new-record', isres)] + done(s, r0)
        return [('result-is-the-built-atom', z3.And(isres, fz(norm(RS.base - T.DB.base)) == RES(Ls.atom(a0, 0)), z3.BoolVal(bool(s.ghost.get('made'))))),
                ('clause-kind', z3.Select(res(s), bv(8 * k['RECORD_META_POS'])) == k['RECORD_META_FACT_CLAUSE'])]
    x.run(f, st, [Ptr(T.G, 0), Ptr(Ls.RP, 0), z3.Extract(31, 0, r0), 1 if rule else 0, z3.BitVec('history', 64)], ret_check(x, posts))


@contract('wr_process_resolve_result_isrulecl', RF, label='resolve:fact-or-rule', props=['C20'], timeout=60)
def c_isrule(x):
    Ls = Lits(x, ro=True)
    st, T = Ls.st, Ls.T
    r0 = small('rpos0')
    K = z3.BitVec('K!arg', 64)
    st.assume(z3.And(r0 >= 1, r0 <= Ls.cap))
    t = Ls.atom(Ls.rp0, 0)
    st.assume(z3.And(WF(t), K >= T.FIRST, K < T.length(t)))

    def flat(i):
        v = T.argt(t, i)
        return z3.And(z3.Not(isrec(v)), z3.Not(isvar(v)))
    x.loops['wr_process_resolve_result_isrulecl'] = [LoopSpec(lambda X, s, l: [('range', z3.And(sx(l.var('i')) >= T.FIRST, sx(l.var('i')) <= T.length(t), sx(l.var('len')) == T.length(t))),
                                                                               ('constants-so-far', z3.Implies(K < sx(l.var('i')), flat(K)))])]
    f = start(x, 'wr_process_resolve_result_isrulecl')
    x.run(f, st, [Ptr(T.G, 0), Ptr(Ls.RP, 0), z3.Extract(31, 0, r0)],
          ret_check(x, lambda s, v: [('fact-only-if-single-positive-ground-literal', z3.Implies(bv(v, 32) == 0, z3.And(r0 == 1, isrec(t), z3.Not(Ls.neg(Ls.meta(Ls.rp0, 0))), flat(K))))]))


# ---- cutting and dropping literals with unit clauses
class Cut(Units, Lits):
    def __init__(self, x, kb, fields=()):
        Units.__init__(self, x, kb, fields=['cut_clvec', 'forward_subsume_derived', 'prop_hash_clauses'] + list(fields))
        st, T = self.st, self.T
        Lits.init(self, x, st, T)
        self.cvn = z3.BitVec('n!cutvec', 64)
        st.assume(z3.And(self.cvn >= 2, self.cvn < (1 << 28)))
        self.CV = x.region(st, 'cut_clvec', size=norm((self.cvn + 1) << 3))
        self.CV.no_head = True
        st.assume(z3.Select(x.arr(st, self.CV), bv(0)) == self.cvn)
        T.sset(st, 'cut_clvec', Ptr(self.CV, 0))
        self.r0 = small('rpos0')
        self.J = z3.BitVec('J!lit', 64)
        st.assume(z3.And(self.r0 >= 0, self.r0 <= self.cap, self.J >= 0, self.J < self.r0))

    def cutby(self, J):
        """the complement of literal J is a known ground unit clause"""
        a = fz(self.atom(self.rp0, J))
        return z3.If(self.neg(self.meta(self.rp0, J)), self.intab('hash_pos_groundunits', a), self.intab('hash_neg_groundunits', a))

    def subby(self, J):
        a = fz(self.atom(self.rp0, J))
        return z3.If(self.neg(self.meta(self.rp0, J)), self.intab('hash_neg_groundunits', a), self.intab('hash_pos_groundunits', a))

    def cvok(self, s):
        return z3.Select(self.x.arr(s, self.CV), bv(0)) == self.cvn


SUBBED = z3.Bool('SUBSUMED_BY_UNIT')
PROPFOUND = z3.Function('PROPFOUND', A, BV64, B)


@contract('wr_derived_cl_cut_and_subsume', SF, label='cut:ground-units', props=['C24'], timeout=420)
@both_kb
def c_cut(x, kb):
    C = Cut(x, kb)
    st, T = C.st, C.T
    r0, J, a0 = C.r0, C.J, C.rp0
    E = z3.BitVec('E!lit', 64)
    st.assume(z3.Implies(z3.And(E >= 0, E < r0), C.meta(a0, E) != 0))     # metas are never 0 before cutting (checked by resolve:copy-literals)
    PH = x.region(st, 'prop_hash', size=None)
    T.sset(st, 'prop_hash_clauses', norm(PH.base - T.DB.base))

    def prop(X, s, args, ins):
        r = X.fresh('propfound', 32)
        s.assume((r != 0) == PROPFOUND(C.lits(s), r0))
        return r
    x.calls['wr_find_prop_clausehash'] = prop
    C.RP.on_load = lambda X, s, off, nb, v: s.assume(z3.Implies((z3.LShR(bv(off), 3) & (C.LW - 1)) == C.AP, z3.And(WF(bv(v)), isrec(bv(v)))))

    def st_of(s, i):
        a = C.lits(s)
        return [('cut-only-by-complementary-units', z3.And(C.atom(a, J) == C.atom(a0, J), z3.Or(C.meta(a, J) == C.meta(a0, J), z3.And(C.meta(a, J) == 0, J < i, C.cutby(J))))),
                ('cut-vector', C.cvok(s))]

    def inv(X, s, l):
        i, cuts = sx(l.var('i')), sx(l.var('cuts'))
        a = C.lits(s)
        return [('range', z3.And(i >= 0, i <= r0, cuts >= 0, cuts <= i)), ('cuts-counted', cuts == NCUT(a, i)),
                ('not-yet-visited', z3.Implies(z3.And(E >= i, E < r0), z3.And(C.meta(a, E) == C.meta(a0, E), C.atom(a, E) == C.atom(a0, E))))] + st_of(s, i)

    def head(X, s, l, ph):
        i = sx(l.var('i'))
        a = C.lits(s)
        s.assume(z3.Implies(z3.And(i >= 0, i < r0), z3.And(C.meta(a, i) == C.meta(a0, i), C.atom(a, i) == C.atom(a0, i), C.meta(a0, i) != 0)))
        s.assume(z3.Implies(z3.And(i >= 0, i < r0, C.subby(i)), SUBBED))
    x.loops['wr_derived_cl_cut_and_subsume'] = [LoopSpec(inv, head)]
    f = start(x, 'wr_derived_cl_cut_and_subsume')
    CH = x.region(st, 'clhash', size=8)

    def posts(s, v):
        r = sx(v)
        a = C.lits(s)
        return [(n, z3.Implies(r >= 0, g)) for n, g in st_of(s, r0)] + [
            ('number-of-cuts', z3.Implies(r >= 0, r == NCUT(a, r0))),
            ('subsumed-only-by-a-unit-or-an-equal-clause', z3.Implies(r < 0, z3.And(r == -1, z3.Or(SUBBED, PROPFOUND(a, r0)))))]
    for p in (NULL, Ptr(CH, 0)):
        s = st.copy()
        x.run(f, s, [Ptr(T.G, 0), Ptr(C.RP, 0), z3.Extract(31, 0, r0), p], ret_check(x, posts))


HASV = z3.Function('HASV', BV64, B)                    # the atom contains a variable
UNITOF = z3.Function('UNITOF', BV64, BV64, B, BV64, B)  # table, atom, by matching only: clause in the table whose atom unifies (matches)
BYUNIT = z3.Function('BYUNIT', BV64, BV64, B, B)        # ... there is such a clause
USTR = ('hash_pos_units', 'hash_neg_units')


@contract('wr_derived_cl_strong_cut', SF, label='cut:units', props=['C24'], timeout=420)
def c_strong(x):
    C = Cut(x, False, fields=USTR)
    st, T = C.st, C.T
    r0, J, a0 = C.r0, C.J, C.rp0
    J2, E = z3.BitVecs('J2!lit E!lit', 64)
    UT = {}
    for f in USTR:
        UT[f] = x.region(st, f, size=None)
        T.sset(st, f, norm(UT[f].base - T.DB.base))
    pc = z3.BitVec('prevcuts', 32)
    st.assume(z3.And(J2 >= 0, J2 < r0, J < J2, E >= 0, sx(pc) == NCUT(a0, r0)))
    C.RP.on_load = lambda X, s, off, nb, v: s.assume(z3.Implies((z3.LShR(bv(off), 3) & (C.LW - 1)) == C.AP, z3.And(WF(bv(v)), isrec(bv(v)))))
    for j in (J, J2):
        st.assume(C.intro(a0, r0, j))

    def hasvars(X, s, args, ins):
        r = X.fresh('hasvars', 32)
        s.assume((r != 0) == HASV(bv(args[1])))
        return r
    x.calls['wr_term_has_vars'] = hasvars
    open2 = z3.And(C.meta(a0, J) != 0, C.meta(a0, J2) != 0, HASV(C.atom(a0, J)), HASV(C.atom(a0, J2)))

    def cutter(X, s, args, ins):
        g, xa, t, um = args
        t = X.resolve_ptr(s, t, 'call')
        um = sx(um) != 0
        X.oblig(s, 'pre:strongly-cut', z3.And(WF(bv(xa)), z3.BoolVal(t.r in UT.values()), bv(t.off) == 0), 'call')
        # with two open literals that contain variables a unit may not bind variables of the clause
        X.oblig(s, 'binds-no-shared-variables', z3.Implies(open2, um), 'call')
        f = s.copy()
        r = X.fresh('cutter', 64)
        s.assume(z3.And(r != 0, BYUNIT(t.r.base, bv(xa), um)))
        return [(f, NULL), (s, Ptr(None, r))]
    x.calls['strongly_cut_atom'] = cutter

    def cutby(J):
        t = C.atom(a0, J)
        m = z3.If(C.neg(C.meta(a0, J)), bv(0), bv(1))
        P, N = UT['hash_pos_units'].base, UT['hash_neg_units'].base
        by = lambda um: z3.If(C.neg(C.meta(a0, J)), BYUNIT(P, t, um), BYUNIT(N, t, um))
        return z3.Or(by(z3.BoolVal(True)), by(z3.BoolVal(False)))

    def st_of(s, i):
        a = C.lits(s)
        return [('cut-only-by-complementary-units', z3.And(C.atom(a, J) == C.atom(a0, J), z3.Or(C.meta(a, J) == C.meta(a0, J), z3.And(C.meta(a, J) == 0, J < i, cutby(J))))),
                ('cut-vector', C.cvok(s))]
    N0 = NCUT(a0, r0)
    nz = lambda j: C.meta(a0, j) != 0

    def inv_count(X, s, l):
        i, n = sx(l.var('i')), sx(l.var('storecount'))
        return [('range', z3.And(i >= 0, i <= r0, n >= 0, n == i - NCUT(a0, i))), ('counts-both', z3.And(z3.Implies(z3.And(nz(J), J < i), n >= 1), z3.Implies(z3.And(nz(J), nz(J2), J2 < i), n >= 2)))]

    def inv_vars(X, s, l):
        i, n = sx(l.var('i')), sx(l.var('nongroundcount'))
        v = lambda j: z3.And(nz(j), HASV(C.atom(a0, j)))
        return [('range', z3.And(i >= 0, i <= r0, n >= 0, n <= i)), ('counts-both', z3.And(z3.Implies(z3.And(v(J), J < i), n >= 1), z3.Implies(z3.And(v(J), v(J2), J2 < i), n >= 2)))]

    def inv_cut(X, s, l):
        i, cuts = sx(l.var('i')), sx(l.var('cuts'))
        a = C.lits(s)
        return [('range', z3.And(i >= 0, i <= r0, cuts >= 0, cuts <= i)), ('cuts-counted', cuts == NCUT(a, i) - NCUT(a0, i)),
                ('not-yet-visited', z3.Implies(z3.And(E >= i, E < r0), z3.And(C.meta(a, E) == C.meta(a0, E), C.atom(a, E) == C.atom(a0, E))))] + st_of(s, i)

    def head_cut(X, s, l, ph):
        i = sx(l.var('i'))
        a = C.lits(s)
        s.assume(z3.Implies(z3.And(i >= 0, i < r0), z3.And(C.meta(a, i) == C.meta(a0, i), C.atom(a, i) == C.atom(a0, i))))
        s.assume(z3.And(sx(pc) >= 0, sx(pc) <= r0))
    x.loops['wr_derived_cl_strong_cut'] = [LoopSpec(inv_count), LoopSpec(inv_vars), LoopSpec(inv_cut, head_cut)]
    f = start(x, 'wr_derived_cl_strong_cut')

    def posts(s, v):
        return st_of(s, r0) + [('number-of-cuts', sx(v) == NCUT(C.lits(s), r0) - N0)]
    x.run(f, st, [Ptr(T.G, 0), Ptr(C.RP, 0), z3.Extract(31, 0, r0), pc], ret_check(x, posts))


@contract('strongly_cut_atom', SF, label='cut:find-unit', props=['C24'], timeout=120)
def c_find(x):
    x.incremental = True
    st, T, gh = setup(x, fields=['unify_funarg1pos', 'unify_funarg2pos'], vals=[val, fz], satm=True)
    k = x.build.probe(HDR, ['CLTERM_HASHNODE_TERM_POS', 'CLTERM_HASHNODE_CL_POS', 'CLTERM_HASHNODE_NEXT_POS'])
    st.mem[T.G.id].cells.pop(T.off['tmp_unify_vc'], None)
    xa = z3.BitVec('xatom', 64)
    um = z3.BitVec('usematch', 32)
    NODE = z3.Function('NODE', BV64, B)       # node of some list of the table
    UNI = z3.Function('UNI', BV64, BV64, B)
    MAT = z3.Function('MAT', BV64, BV64, B)
    GOOD = z3.Function('GOODCL', BV64, B)     # clause of a node whose atom unifies / matches
    s0 = Snap(T, st)
    st.assume(z3.And(WF(xa), isrec(xa), s0.top == 2))
    HV = x.region(st, 'hashvec', size=None)

    def prefh(X, s, args, ins):
        p = args[2]
        X.havoc_region(s, p.r)
        r = X.fresh('preflen', 32)
        s.assume(z3.And(r >= 0, r <= 3))
        return r
    x.calls['wr_atom_calc_prefhashes'] = prefh
    x.calls['wr_clterm_hashlist_len'] = lambda X, s, a, i: X.fresh('hlen', 32)
    x.noop.append('wr_sys_exiterr')

    def nodeof(X, s, args, ins):
        r = X.fresh('node', 64)
        s.assume(z3.Implies(r != 0, z3.And(NODE(r), (r & 7) == 0, z3.ULT(r, 1 << 46))))
        return r
    x.calls['wr_clterm_hashlist_start'] = nodeof
    x.calls['wr_clterm_hashlist_next'] = nodeof
    fld = lambda n, p: z3.Select(T.dbarr, n + 8 * k[p])

    def attempt(fn):
        def h(X, s, args, ins):
            g, a, b, u = args
            X.oblig(s, 'pre:variables-unbound', T.top(s) == 2, 'call')
            X.havoc_region(s, T.VB)
            X.havoc_region(s, T.VS)
            r = X.fresh('ures', 64 if fn is MAT else 32)
            s.assume((r != 0) == fn(bv(a), bv(b)))
            return r
        return h
    x.calls['wr_match_term'] = attempt(MAT)
    x.calls['wr_unify_term'] = attempt(UNI)

    def clear(X, s, args, ins):
        X.havoc_region(s, T.VB)
        X.store(s, Ptr(T.VS, 8), 8, bv(2))
        return None
    x.calls['wr_clear_varstack'] = clear

    def inv_p(X, s, l):
        p = sx(l.var('plen'))
        return [('range', z3.And(p >= 0, p <= 3)), ('variables-unbound', T.top(s) == 2)]

    def inv_n(X, s, l):
        n = bv(l.var('node'))
        return [('node', z3.Implies(n != 0, z3.And(NODE(n), (n & 7) == 0, z3.ULT(n, 1 << 46)))), ('variables-unbound', T.top(s) == 2)]

    def head_n(X, s, l, ph):
        n = bv(l.var('node'))
        y, c = fld(n, 'CLTERM_HASHNODE_TERM_POS'), fld(n, 'CLTERM_HASHNODE_CL_POS')
        s.assume(z3.Implies(z3.And(NODE(n), z3.If(um != 0, MAT(y, xa), UNI(xa, y))), GOOD(c)))
        s.assume(z3.Implies(NODE(n), z3.And(WF(y), isrec(y))))
    x.loops['strongly_cut_atom'] = [LoopSpec(inv_p), LoopSpec(inv_n, head_n)]
    f = start(x, 'strongly_cut_atom')

    def posts(s, v):
        if isinstance(v, Ptr) and v.r is None and is_c(v.off) and v.off == 0:
            return [('variables-unbound', T.top(s) == 2)]
        return [('cutter-is-a-unit-that-unifies', GOOD(v.off if isinstance(v, Ptr) and v.r is T.DB else bv(0))), ('variables-unbound', T.top(s) == 2)]
    x.run(f, st, [Ptr(T.G, 0), xa, Ptr(HV, 0), um], ret_check(x, posts))


@lemma('literals-frame')
def l_lits(x, st, T):
    """writes at or after position n do not change what is present, or cut, among the first n literals"""
    W = 2
    a = z3.Array('a!lits', BV64, BV64)
    i, v, n, m, t = z3.BitVecs('i v n m t', 64)
    s, u = z3.Bool('sgn'), z3.Const('u!atom', U)
    k = x.build.probe(HDR, ['LIT_WIDTH', 'LIT_META_POS', 'LIT_ATOM_POS', 'ATOM_META_NEG_RAWMASK'])
    W = k['LIT_WIDTH']
    b = z3.Store(a, i, v)
    st.assume(z3.And((i & 7) == 0, i >= 0, n >= 0, n < (1 << 40), (i >> 3) >= n * W))
    cell = lambda a, p: z3.Select(a, ((n - 1) * W + k[p]) << 3)
    meta, atom = (lambda a: cell(a, 'LIT_META_POS')), (lambda a: cell(a, 'LIT_ATOM_POS'))
    neg = lambda a: (meta(a) & k['ATOM_META_NEG_RAWMASK']) != 0
    for nm, F, test in (('present', lambda a, n: PRES(a, n, s, u), lambda a: z3.And(neg(a) == s, fz(atom(a)) == u)),
                        ('present-exactly', lambda a, n: PRESX(a, n, m, t), lambda a: z3.And(meta(a) == m, atom(a) == t))):
        for c in (a, b):
            st.assume(z3.If(n <= 0, z3.Not(F(c, n)), F(c, n) == z3.Or(F(c, n - 1), test(c))))
        st.assume(z3.Implies(n > 0, F(b, n - 1) == F(a, n - 1)))
        x.oblig(st, 'step:' + nm, F(b, n) == F(a, n), 'induction on the number of literals', kind='lemma')
    for c in (a, b):
        st.assume(z3.If(n <= 0, NCUT(c, n) == 0, NCUT(c, n) == NCUT(c, n - 1) + z3.If(meta(c) == 0, bv(1), bv(0))))
    st.assume(z3.Implies(n > 0, z3.And(NCUT(b, n - 1) == NCUT(a, n - 1), NCUT(a, n - 1) >= 0, NCUT(a, n - 1) <= n - 1)))
    x.oblig(st, 'step:cuts', NCUT(b, n) == NCUT(a, n), 'induction on the number of literals', kind='lemma')
    x.oblig(st, 'step:cuts-range', z3.And(NCUT(a, n) >= 0, NCUT(a, n) <= n), 'induction on the number of literals', kind='lemma')


@lemma('literal-found')
def l_found(x, st, T):
    """a literal at position j below n is present among the first n"""
    k = x.build.probe(HDR, ['LIT_WIDTH', 'LIT_META_POS', 'LIT_ATOM_POS', 'ATOM_META_NEG_RAWMASK'])
    a = z3.Array('a!lits', BV64, BV64)
    j, n = z3.BitVecs('j n', 64)
    cell = lambda i, p: z3.Select(a, (i * k['LIT_WIDTH'] + k[p]) << 3)
    meta, atom = (lambda i: cell(i, 'LIT_META_POS')), (lambda i: cell(i, 'LIT_ATOM_POS'))
    neg = lambda i: (meta(i) & k['ATOM_META_NEG_RAWMASK']) != 0
    st.assume(z3.And(j >= 0, j < n))
    for nm, F, test in (('sign-and-value', lambda n: PRES(a, n, neg(j), fz(atom(j))), lambda i: z3.And(neg(i) == neg(j), fz(atom(i)) == fz(atom(j)))),
                        ('exact', lambda n: PRESX(a, n, meta(j), atom(j)), lambda i: z3.And(meta(i) == meta(j), atom(i) == atom(j)))):
        st.assume(F(n) == z3.Or(F(n - 1), test(n - 1)))
        st.assume(z3.Implies(j < n - 1, F(n - 1)))
        x.oblig(st, 'step:' + nm, F(n), 'induction on the number of literals', kind='lemma')
