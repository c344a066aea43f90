"""Contracts for Reasoner/subsume.c: clause subsumption is sound."""
from unify import *

SF = 'Reasoner/subsume.c'
SUBS = z3.Function('SUBS', BV64, A, B)        # the literals of clause 1 from i on match different unused literals of clause 2
ANSL = z3.Function('ANSL', BV64, B)           # answer literal
SUBSUMES = z3.Function('SUBSUMES', BV64, BV64, B)   # clause t subsumes clause u
EMPTY = z3.K(BV64, bv(0))


class Sub:
    def __init__(self, x, fields=()):
        x.incremental = True
        st, T, gh = setup(x, fields=['instgen_strat', 'required_answer_nr', 'tmp_litinf_vec'] + list(fields), vals=[val, fz], satm=True)
        self.x, self.st, self.T, self.gh = x, st, T, gh
        k = self.k = x.build.probe(HDR, ['RECORD_HEADER_GINTS', 'CLAUSE_EXTRAHEADERLEN', 'LIT_WIDTH', 'LIT_META_POS', 'LIT_ATOM_POS', 'RECORD_META_RULE_CLAUSE', 'RECORD_META_POS',
                                         'ATOM_META_NEG_RAWMASK', '((ATOM_META_GROUND_MASK<<ATOM_META_GROUND_SHIFT)<<SMALLINTSHFT)'])
        self.HG, self.EX, self.LW = k['RECORD_HEADER_GINTS'], k['CLAUSE_EXTRAHEADERLEN'], k['LIT_WIDTH']
        self.c1, self.c2 = z3.BitVecs('cl1 cl2', 64)
        T.sset(st, 'instgen_strat', 0)
        self.ran = z3.BitVec('ran', 8 * T.fsz['required_answer_nr'])
        T.sset(st, 'required_answer_nr', self.ran)
        self.J = z3.BitVec('J!lit', 64)
        self.n = {1: self.nlits(self.c1), 2: self.nlits(self.c2)}
        for c, n in ((self.c1, self.n[1]), (self.c2, self.n[2])):
            st.assume(z3.And(c != 0, (c & 7) == 0, WF(c), z3.ULT(c, 1 << 46), T.length(c) >= 1, T.length(c) < T.MAXLEN,
                             z3.Implies(self.rule(c), z3.And((T.length(c) - self.EX) % self.LW == 0, T.length(c) >= self.EX + self.LW)),
                             n >= 1, n < T.MAXLEN))
            # ground facts: the term denotes itself
            st.assume(z3.Implies(z3.Not(self.rule(c)), val(c) == fz(c)))
        self.LI = x.region(st, 'litinf', size=norm((self.n[2] + 1) << 3))
        T.sset(st, 'tmp_litinf_vec', Ptr(self.LI, 0))
        x.calls['wr_answer_lit'] = self.h_ans
        x.calls['wr_sort_meta_bigger'] = lambda X, s, a, i: X.fresh('smb', 32)
        x.calls['wr_matchable_lit_meta'] = lambda X, s, a, i: X.fresh('mlm', 32)
        x.calls['wr_match_term_aux'] = self.h_match(T)
        x.calls['wr_match_term'] = self.h_match(T)
        x.calls['wr_equal_term'] = h_eqterm(T, fz)
        x.calls['wr_clear_varstack_topslice'] = lambda X, s, a, i: self.undo(X, s, a[1], sx(a[2]))
        x.calls['wr_clear_varstack'] = lambda X, s, a, i: self.undo(X, s, a[1], bv(2))
        x.calls['wr_subsume_cl_aux'] = self.h_aux
        x.defs_.rule(SUBS, lambda i, L: [z3.Implies(i >= self.n[1], SUBS(i, L))])
        x.fuel = 4
        x.assumptions += ['instgen_strat=0 (instance generation strategy is off)', 'clause records: a fact clause is one ground positive atom, a rule clause holds n>=1 pairs of meta and well-formed atom',
                          'the trail holds fewer than 2^30 entries (at most one per variable, see new-log-only-unassigned)', 'the literal marks vector has at least as many elements as the clause has literals (wr_vec_store extends it)',
                          'lemma: satisfaction of the bindings depends only on the variable cells (used when an arbitrary cell is shown unchanged)']

    def rule(self, c):
        return (z3.Select(self.T.dbarr, c + 8 * self.k['RECORD_META_POS']) & self.k['RECORD_META_RULE_CLAUSE']) != 0

    def nlits(self, c):
        return z3.If(self.rule(c), z3.UDiv(self.T.length(c) - self.EX, bv(self.LW)), bv(1))

    def pos(self, i):
        return (bv(i) * self.LW + self.HG + self.EX) << 3

    def atom(self, c, i):
        return z3.If(self.rule(c), z3.Select(self.T.dbarr, c + self.pos(i) + 8 * self.k['LIT_ATOM_POS']), c)

    def neg(self, c, i):
        return z3.And(self.rule(c), (z3.Select(self.T.dbarr, c + self.pos(i) + 8 * self.k['LIT_META_POS']) & self.k['ATOM_META_NEG_RAWMASK']) != 0)

    def litmatch(self, i, j):
        a, b = self.atom(self.c1, i), self.atom(self.c2, j)
        return z3.And(self.neg(self.c1, i) == self.neg(self.c2, j),
                      z3.Or(val(a) == fz(b), z3.And(self.ran == 1, ANSL(a), ANSL(b))))

    def intro(self, i, j, L):
        """defining property of SUBS: literal i matches the unused literal j, the rest match others"""
        o = (j + 1) << 3
        return z3.Implies(z3.And(j >= 0, j < self.n[2], z3.Select(L, o) == 0, self.litmatch(i, j), SUBS(i + 1, z3.Store(L, o, bv(1)))), SUBS(i, L))

    def lit(self, st):
        return self.x.arr(st, self.LI)

    def is_li(self, p):
        return bv(p.off) == 0 if isinstance(p, Ptr) and p.r is self.LI else z3.BoolVal(False)

    def vec(self, st):
        return self.x.load(st, Ptr(self.T.G, self.T.off['tmp_litinf_vec']), 8, ('ptr',))

    def h_ans(self, x, st, args, ins):
        r = x.fresh('ansl', 32)
        st.assume((r != 0) == ANSL(bv(args[1])))
        return r

    def posts(self, s0, s1, own=None):
        """trail posts for the arbitrary position LO and for the position at entry"""
        T, gh = self.T, self.gh
        return trail_posts(T, gh, s0, s1)

    def instances(self, st, s0, s1):
        """further instances of the callee's universally quantified postconditions: LO := the trail top at entry; lemma:log-frame over the kept entries"""
        T, gh = self.T, self.gh
        st.assume(s1.top < (1 << 30))

        class G2:
            C, K, addr = gh.C, gh.K, gh.addr
            LO = s0.top
        for n, f in trail_posts(T, G2, s0, s1):
            st.assume(f)
        for lo in (gh.LO, st.ghost.get('mark')):
            if lo is not None:
                st.assume(LOG(s1.vs, lo, s0.top, gh.addr) == LOG(s0.vs, lo, s0.top, gh.addr))

    def litwf(self, c, i):
        return z3.Implies(z3.And(self.rule(c), i >= 0, i < self.nlits(c)), WF(self.atom(c, i)))

    def h_match(self, T):
        base = h_match(T, self.gh)

        def h(x, st, args, ins):
            s0 = Snap(T, st)
            if ins and 'wr_match_term' in str(ins.get('callee', '')) and 'aux' not in str(ins.get('callee', '')):
                T.sset(st, 'tmp_unify_vc', Ptr(T.VS, 8))
            st.ghost['mark'] = s0.top
            r = base(x, st, args, ins)
            self.instances(st, s0, Snap(T, st))
            return r
        return h

    def undo(self, x, st, vp, lo):
        T, gh = self.T, self.gh
        s0 = Snap(T, st)
        x.oblig(st, 'pre:undo', z3.And(z3.BoolVal(vp.r is T.VS and vp.off == 0), lo >= 2, lo <= s0.top, cell_pre(T, s0.vs, gh.K, lo, s0.top)), 'call')
        st.ghost['vb_undone'] = s0.vb
        x.havoc_region(st, T.VB)
        v1 = T.vb(st)
        c0, c1 = z3.Select(s0.vb, gh.C), z3.Select(v1, gh.C)
        st.assume(c1 == z3.If(LOG(s0.vs, lo, s0.top, gh.addr), bv(UNASSIGNED), c0))
        st.assume(z3.Implies(WFB(s0.vb), WFB(v1)))
        x.store(st, Ptr(T.VS, 8), 8, lo)
        return None

    def ext(self, st, v0, v1):
        """cells of v0 and v1 agree at the arbitrary cell: by generalisation everywhere"""
        st.assume(z3.And(SATM(v1) == SATM(v0), WFB(v1) == WFB(v0)))

    def pre_aux(self, st, litind1):
        T = self.T
        s = Snap(T, st)
        return z3.And(litind1 >= 0, litind1 < self.n[1], WFB(s.vb), s.top >= 2, self.rule(self.c1), self.rule(self.c2))

    def h_aux(self, x, st, args, ins):
        T, gh = self.T, self.gh
        g, v1, v2, p1, p2, l1, l2, n1, n2, u = args
        l1 = sx(l1)
        s0 = Snap(T, st)
        L0 = self.lit(st)
        isp = lambda p, c, i: z3.And(z3.BoolVal(isinstance(p, Ptr) and p.r is T.DB), bv(p.off) == c + self.pos(i))
        lv = self.vec(st)
        x.oblig(st, 'pre:subsume_cl_aux', z3.And(self.pre_aux(st, l1), isp(p1, self.c1, l1), isp(p2, self.c2, 0), sx(n1) == self.n[1], sx(n2) == self.n[2], sx(u) != 0,
                                                 s0.top < (1 << 40), z3.BoolVal(vc_ok(T, st)), self.is_li(lv)), 'call')
        if st.ghost.get('top-level'):
            x.oblig(st, 'no-literal-used-yet', z3.Implies(z3.And(self.J >= 1, self.J <= self.n[2]), z3.Select(L0, self.J << 3) == 0), 'call')
            st.ghost['L'] = L0
        x.havoc_region(st, T.VB)
        x.havoc_region(st, T.VS)
        x.havoc_region(st, self.LI)
        s1 = Snap(T, st)
        st.assume(s1.top < (1 << 30))
        r = x.fresh('sub', 64)
        for n, f in self.aux_posts(s0, s1, l1, L0, self.lit(st), r != 0):
            st.assume(f)
        self.instances(st, s0, s1)
        m = st.ghost['mark']
        for lo, hi in ((gh.LO, s0.top), (gh.LO, m), (m, s0.top)):
            st.assume(z3.Implies(hi <= s0.top, LOG(s1.vs, lo, hi, gh.addr) == LOG(s0.vs, lo, hi, gh.addr)))
        st.assume(z3.Implies(r == 0, z3.And(SATM(s1.vb) == SATM(s0.vb), WFB(s1.vb) == WFB(s0.vb))))
        return r

    def aux_posts(self, s0, s1, l1, L0, L1, ok):
        gh = self.gh
        c0, c1 = z3.Select(s0.vb, gh.C), z3.Select(s1.vb, gh.C)
        return [('subsumption-really-exists', z3.Implies(z3.And(ok, SATM(s1.vb)), z3.And(SATM(s0.vb), SUBS(l1, L0)))),
                ('bindings-wellformed', WFB(s1.vb)),
                ('failure-leaves-bindings', z3.Implies(z3.Not(ok), z3.And(c0 == c1, s0.top == s1.top))),
                ('failure-leaves-literal-marks', z3.Implies(z3.Not(ok), L0 == L1))] + trail_posts(self.T, gh, s0, s1)


@contract('wr_subsume_cl_aux', SF, label='subsume:literals', props=['C05'], timeout=300)
def c_aux(x):
    S = Sub(x)
    st, T, gh = S.st, S.T, S.gh
    i1 = z3.BitVec('litind1', 32)
    i2_ = z3.BitVec('litind2', 32)
    s0 = Snap(T, st)
    st.assume(z3.And(S.pre_aux(st, sx(i1)), s0.top < (1 << 30)))
    L0 = S.lit(st)
    st.ghost['mark'] = s0.top
    st.assume(S.litwf(S.c1, sx(i1)))

    def inv(X, s, l):
        i2 = sx(l.var('i2'))
        p2 = l.var('pt2')
        s1 = Snap(T, s)
        c0, c1 = z3.Select(s0.vb, gh.C), z3.Select(s1.vb, gh.C)
        return [('range', z3.And(i2 >= 0, i2 <= S.n[2], z3.BoolVal(isinstance(p2, Ptr) and p2.r is T.DB), bv(p2.off) == S.c2 + S.pos(i2))),
                ('bindings-as-at-entry', z3.And(c0 == c1, s0.top == s1.top)),
                ('marks-as-at-entry', S.lit(s) == L0)] + trail_posts(T, gh, s0, s1)

    def head(X, s, l, ph):
        i2 = sx(l.var('i2'))
        s1 = Snap(T, s)
        S.ext(s, s0.vb, s1.vb)
        s.assume(S.intro(sx(i1), i2, L0))
        s.assume(S.litwf(S.c2, i2))
        s.ghost['mark'] = s1.top
        s.assume(LOG(s1.vs, gh.LO, s1.top, gh.addr) == LOG(s0.vs, gh.LO, s1.top, gh.addr))
    x.loops['wr_subsume_cl_aux'] = [LoopSpec(inv, head)]
    f = start(x, 'wr_subsume_cl_aux')
    n32 = lambda n: z3.Extract(31, 0, n)
    x.run(f, st, [Ptr(T.G, 0), Ptr(T.DB, S.c1), Ptr(T.DB, S.c2), Ptr(T.DB, S.c1 + S.pos(sx(i1))), Ptr(T.DB, S.c2 + S.pos(0)), i1, i2_, n32(S.n[1]), n32(S.n[2]), 1],
          ret_check(x, lambda s, v: S.aux_posts(s0, Snap(T, s), sx(i1), L0, S.lit(s), bv(v) != 0)))


@contract('wr_subsume_cl', SF, label='subsume:clauses', props=['C05'], timeout=300)
def c_cl(x):
    S = Sub(x)
    st, T, gh = S.st, S.T, S.gh
    st.mem[T.G.id].cells.pop(T.off['tmp_unify_vc'], None)
    s0 = Snap(T, st)
    st.assume(z3.And(WFB(s0.vb), s0.top == 2))
    st.ghost['top-level'] = True
    st.ghost['mark'] = s0.top

    def vecstore(X, s, args, ins):
        g, v, i, e = args
        i = sx(i)
        X.oblig(s, 'pre:vec_store', z3.And(i >= 1, i <= S.n[2], S.is_li(v)), 'call')
        X.store(s, Ptr(S.LI, norm(i << 3)), 8, bv(e))
        return Ptr(S.LI, 0)
    x.calls['wr_vec_store'] = vecstore
    st.assume(z3.And(S.intro(bv(0), bv(0), EMPTY), S.litwf(S.c1, bv(0)), S.litwf(S.c2, bv(0))))

    def restored(s):
        s1 = Snap(T, s)
        c0, c1 = z3.Select(s0.vb, gh.C), z3.Select(s1.vb, gh.C)
        return [('bindings-restored', z3.And(c0 == c1, s1.top == 2))]

    def range_(l, lo):
        i2 = sx(l.var('i2'))
        return ('range', z3.And(i2 >= lo, i2 <= S.n[2] + lo))

    def inv(X, s, l):
        s1 = Snap(T, s)
        return [range_(l, 0), ('wfb', WFB(s1.vb))] + restored(s)

    def inv_vec(X, s, l):
        i2 = sx(l.var('i2'))
        return [range_(l, 1), ('marks-vector', S.is_li(S.vec(s))), ('marks-cleared', z3.Implies(z3.And(S.J >= 1, S.J < i2), z3.Select(S.lit(s), S.J << 3) == 0))] + restored(s)

    def head(X, s, l, ph):
        i2 = sx(l.var('i2'))
        S.ext(s, s0.vb, T.vb(s))
        s.assume(S.intro(bv(0), i2, EMPTY))
        s.assume(S.litwf(S.c2, i2))
        s.ghost.pop('vb_undone', None)

    def head_vec(X, s, l, ph):
        S.ext(s, s0.vb, T.vb(s))
    x.loops['wr_subsume_cl'] = [LoopSpec(inv, head), LoopSpec(inv, head), LoopSpec(inv_vec, head_vec)]
    f = start(x, 'wr_subsume_cl')

    def posts(s, v):
        m = s.ghost.get('vb_undone')
        m = T.vb(s) if m is None else m
        L = s.ghost.get('L')
        return [('reported-only-if-it-subsumes', z3.Implies(z3.And(bv(v) != 0, SATM(m)), SUBS(bv(0), EMPTY if L is None else L)))] + restored(s)
    x.run(f, st, [Ptr(T.G, 0), Ptr(T.DB, S.c1), Ptr(T.DB, S.c2), 1], ret_check(x, posts))


# ---- clause lists and ground unit tables
GIVEN = z3.Function('GIVENSUB', BV64, B)      # some listed clause or ground unit subsumes the clause
INTAB = z3.Function('INTAB', BV64, U, B)      # the hash table (given by its address) holds the atom
BLK = z3.Function('BLK', BV64, B)             # position is the start of a block of a clause list
LITHASH = z3.Function('LITHASH', BV64, BV64)
TABS = ('hash_neg_active_groundunits', 'hash_pos_active_groundunits', 'hash_neg_groundunits', 'hash_pos_groundunits')


class Units:
    """hash tables of ground units of g and, when kb, of the external knowledge base"""

    def __init__(self, x, kb, fields=()):
        x.incremental = True
        fields = list(fields) + [f for f in TABS + ('kb_g',) if f not in fields]
        st, T, gh = setup(x, fields=fields, vals=[val, fz], satm=True)
        self.x, self.st, self.T, self.gh, self.kb = x, st, T, gh, kb
        self.KB = x.region(st, 'kb_glb', size=T.k['sizeof(glb)']) if kb else None
        T.sset(st, 'kb_g', Ptr(self.KB, 0) if kb else NULL)
        self.tab = {}
        for f in TABS:
            for own in (True, False) if kb else (True,):
                r = x.region(st, f + ('' if own else '_kb'), size=None)
                self.tab[r.id] = (f, own)
                self.setf(st, f, r, own)
        x.calls['wr_find_termhash'] = self.find
        x.calls['wr_lit_hash'] = self.h_lithash
        x.calls['wr_term_hash'] = self.h_lithash
        x.assumptions += ['unit hash tables are separate blocks addressed relative to the database start; table lookup by contract hash:find']

    def setf(self, st, f, r, own):
        T = self.T
        st.mem[(T.G if own else self.KB).id].cells[T.off[f]] = (8, norm(r.base - T.DB.base))

    def intab(self, f, u):
        """the atom is in that table, local or external"""
        out = [INTAB(r.base, u) for r in self.st.regions.values() if r.id in self.tab and self.tab[r.id][0] == f]
        return z3.Or(*out)

    def h_lithash(self, x, st, args, ins):
        r = LITHASH(bv(args[1]))
        return r if ins['ty'] == ('int', 64) else z3.Extract(31, 0, r)

    def find(self, x, st, args, ins):
        g, t, p, h = args
        t = x.resolve_ptr(st, t, 'call')
        ok = isinstance(t, Ptr) and t.r is not None and t.r.id in self.tab
        x.oblig(st, 'pre:find-in-a-unit-table', z3.And(z3.BoolVal(ok), bv(t.off) == 0, z3.BoolVal(isinstance(p, Ptr) and p.r is self.T.DB)), 'call')
        if not ok:
            return x.fresh('bucket', 64)
        x.oblig(st, 'pre:find-uses-own-hash', z3.Extract(31, 0, bv(h, 32)) == z3.Extract(31, 0, LITHASH(bv(p.off))), 'call')
        r = x.fresh('bucket', 64)
        st.assume(z3.Implies(r != 0, INTAB(t.r.base, fz(bv(p.off)))))
        return r


def both_kb(c):
    def run(x):
        for kb in (False, True):
            c(x, kb)
    return run


@contract('wr_active_subsumed_lit', SF, label='subsume:active-unit', props=['C05'], timeout=60)
@both_kb
def c_actlit(x, kb):
    Un = Units(x, kb)
    st, T = Un.st, Un.T
    a = z3.BitVec('atom', 64)
    neg = z3.BitVec('negflag', 32)
    st.assume(z3.And(isrec(a), WF(a)))
    f = start(x, 'wr_active_subsumed_lit')

    def posts(s, v):
        return [('subsumed-only-by-a-unit-of-the-same-sign', z3.Implies(bv(v, 32) != 0, z3.If(neg != 0, Un.intab('hash_neg_active_groundunits', fz(a)), Un.intab('hash_pos_active_groundunits', fz(a))))),]
    x.run(f, st, [Ptr(T.G, 0), a, neg], ret_check(x, posts))


class Lists(Units):
    """the list(s) of active clauses used for subsumption"""

    def __init__(self, x, kb):
        stats = ['stat_clsubs_fact_groundunit_found', 'stat_clsubs_rule_groundunit_found', 'stat_clsubs_top_meta_attempted', 'stat_clsubs_top_meta_failed', 'stat_backward_subsumed']
        Units.__init__(self, x, kb, fields=['clactivesubsume'])
        st, T = self.st, self.T
        k = self.k = x.build.probe(HDR, ['RECORD_HEADER_GINTS', 'CLAUSE_EXTRAHEADERLEN', 'LIT_WIDTH', 'LIT_META_POS', 'LIT_ATOM_POS', 'RECORD_META_RULE_CLAUSE', 'RECORD_META_POS',
                                         'ATOM_META_NEG_RAWMASK', '((ATOM_META_GROUND_MASK<<ATOM_META_GROUND_SHIFT)<<SMALLINTSHFT)', 'CLMETABLOCK_ELS', 'CLMETABLOCK_CL_POS', 'CVEC_START', 'CLMETABLOCK_LENGTHS_POS'])
        self.HG, self.EX, self.LW = k['RECORD_HEADER_GINTS'], k['CLAUSE_EXTRAHEADERLEN'], k['LIT_WIDTH']
        self.els, self.clpos, self.cstart = k['CLMETABLOCK_ELS'], k['CLMETABLOCK_CL_POS'], k['CVEC_START']
        self.c = z3.BitVec('given', 64)
        self.act = {}
        for own in (True, False) if kb else (True,):
            n = z3.BitVec('n!active' + ('' if own else '_kb'), 64)
            st.assume(z3.And(n >= self.cstart, n < (1 << 28), BLK(bv(self.cstart)), BLK(n)))
            r = x.region(st, 'active' + ('' if own else '_kb'), size=norm(n << 3), ro=True)
            st.assume(z3.Select(x.arr(st, r), bv(8)) == n)
            r.on_load = self.act_load
            self.act[own] = (r, n)
            self.setf(st, 'clactivesubsume', r, own)
        c = self.c
        st.assume(z3.And(c != 0, (c & 7) == 0, WF(c), z3.ULT(c, 1 << 46), T.length(c) >= 1, T.length(c) < T.MAXLEN,
                         z3.Implies(self.rule(c), z3.And((T.length(c) - self.EX) % self.LW == 0, T.length(c) >= self.EX + self.LW))))
        self.nl = z3.UDiv(T.length(c) - self.EX, bv(self.LW))
        st.assume(z3.And(self.nl >= 0, self.nl < T.MAXLEN))
        self.MB = x.region(st, 'metablock', size=8 * self.els)
        x.calls['wr_clmetablock_can_subsume'] = self.can
        x.calls['wr_subsume_cl'] = self.subs
        x.calls['wr_active_subsumed_lit'] = self.actlit
        x.calls['wr_set_cl_backsubsumed'] = self.mark
        x.assumptions += ['lists of active clauses hold whole blocks of %d elements naming well-formed clauses' % self.els, 'the variable banks are clear when clause lists are searched (restored by wr_subsume_cl, subsume:clauses)']

    rule, pos = Sub.rule, Sub.pos

    def atom(self, i):
        return z3.Select(self.T.dbarr, self.c + self.pos(i) + 8 * self.k['LIT_ATOM_POS'])

    def meta(self, i):
        return z3.Select(self.T.dbarr, self.c + self.pos(i) + 8 * self.k['LIT_META_POS'])

    def ground(self, i):
        return (self.meta(i) & self.k['((ATOM_META_GROUND_MASK<<ATOM_META_GROUND_SHIFT)<<SMALLINTSHFT)']) != 0

    def neg(self, i):
        return (self.meta(i) & self.k['ATOM_META_NEG_RAWMASK']) != 0

    def act_load(self, x, st, off, n, v):
        j = bv(off) >> 3
        st.assume(z3.Implies(z3.And(j >= self.cstart, BLK(j - self.clpos), (bv(off) & 7) == 0), z3.And(WF(bv(v)), (bv(v) & 7) == 0, z3.ULT(bv(v), 1 << 46))))

    def can(self, x, st, args, ins):
        ok = [isinstance(p, Ptr) and p.r is not None for p in args[1:3]]
        x.oblig(st, 'pre:metablocks', z3.BoolVal(all(ok)), 'call')
        return x.fresh('cansub', 32)

    def subs(self, x, st, args, ins):
        g, a, b, u = args
        a, b = x.resolve_ptr(st, a, 'call'), x.resolve_ptr(st, b, 'call')
        x.oblig(st, 'pre:subsume_cl', z3.And(z3.BoolVal(a.r is self.T.DB and b.r is self.T.DB), WF(bv(a.off)), WF(bv(b.off))), 'call')
        r = x.fresh('subsumes', 64)
        st.assume((r != 0) == SUBSUMES(bv(a.off), bv(b.off)))
        return r

    def actlit(self, x, st, args, ins):
        g, a, neg = args
        a = bv(a)
        x.oblig(st, 'pre:active_subsumed_lit', z3.And(isrec(a), WF(a)), 'call')
        r = x.fresh('unitsub', 32)
        st.assume(z3.Implies(r != 0, z3.If(sx(neg) != 0, self.intab('hash_neg_active_groundunits', fz(a)), self.intab('hash_pos_active_groundunits', fz(a)))))
        return r

    def mark(self, x, st, args, ins):
        p = x.resolve_ptr(st, args[1], 'call')
        x.oblig(st, 'marks-only-subsumed-clauses', z3.And(z3.BoolVal(p.r is self.T.DB), SUBSUMES(self.c, bv(p.off))), 'call')
        return None

    def which(self, s, l):
        p = l.var('actptr')
        if not (isinstance(p, Ptr) and p.r in [self.act[o][0] for o in self.act]):
            p = self.x.resolve_ptr(s, p, 'inv')
        for own in self.act:
            if isinstance(p, Ptr) and p.r is self.act[own][0]:
                return own
        return None

    def listed(self, own, k):
        r, n = self.act[own]
        return z3.Select(self.x.arr(self.st, r), (k + self.clpos) << 3)

    def intro(self, st, own=None, k=None, i=None):
        """defining rules of GIVENSUB"""
        c, pos, neg = self.c, 'hash_pos_active_groundunits', 'hash_neg_active_groundunits'
        st.assume(z3.Implies(z3.And(z3.Not(self.rule(c)), self.intab(pos, fz(c))), GIVEN(c)))
        if i is not None:
            st.assume(z3.Implies(z3.And(self.rule(c), i >= 0, i < self.nl, self.ground(i), z3.If(self.neg(i), self.intab(neg, fz(self.atom(i))), self.intab(pos, fz(self.atom(i))))), GIVEN(c)))
        if k is not None:
            n = self.act[own][1]
            # definition of BLK (starts of the blocks of the list; a list consists of whole blocks)
            st.assume(z3.Implies(z3.And(k >= self.cstart, k < n, BLK(k)), z3.And(BLK(k + self.els), k + self.els <= n)))
            st.assume(z3.Implies(z3.And(k >= self.cstart, k < n, BLK(k), SUBSUMES(self.listed(own, k), c)), GIVEN(c)))


@contract('wr_given_cl_subsumed', SF, label='subsume:forward', props=['C05'], timeout=120)
@both_kb
def c_given(x, kb):
    L = Lists(x, kb)
    st, T = L.st, L.T
    f = start(x, 'wr_given_cl_subsumed')

    def inv_lit(X, s, l):
        i = sx(l.var('i'))
        return [('range', z3.And(i >= 0, i <= L.nl))]

    def head_lit(X, s, l, ph):
        i = sx(l.var('i'))
        L.intro(s, i=i)
        s.assume(z3.Implies(z3.And(i >= 0, i < L.nl), z3.And(WF(L.atom(i)), isrec(L.atom(i)))))

    def inv_db(X, s, l):
        d = sx(l.var('dbused'))
        return [('range', z3.And(d >= 0, d <= 2))]

    def inv_act(X, s, l):
        i = sx(l.var('iactive'))
        own = L.which(s, l)
        if own is None:
            return [('list', z3.BoolVal(False))]
        n = L.act[own][1]
        return [('range', z3.And(i >= L.cstart, i <= n, BLK(i), sx(l.var('iactivelimit')) == n))]

    def head_act(X, s, l, ph):
        own = L.which(s, l)
        if own is not None:
            L.intro(s, own=own, k=sx(l.var('iactive')))
    x.loops['wr_given_cl_subsumed'] = [LoopSpec(inv_lit, head_lit), LoopSpec(inv_db), LoopSpec(inv_act, head_act)]
    L.intro(st)
    for mb in (Ptr(L.MB, 0), NULL):
        x.run(f, st.copy(), [Ptr(T.G, 0), Ptr(T.DB, L.c), mb],
              ret_check(x, lambda s, v: [('discarded-only-if-subsumed', z3.Implies(bv(v, 32) != 0, GIVEN(L.c)))]))


@contract('wr_given_cl_backsubsume', SF, label='subsume:backward', props=['C05'], timeout=120)
def c_back(x):
    L = Lists(x, False)
    st, T = L.st, L.T
    f = start(x, 'wr_given_cl_backsubsume')
    n = L.act[True][1]

    def inv_act(X, s, l):
        i = sx(l.var('iactive'))
        return [('range', z3.And(i >= L.cstart, i <= n, BLK(i), sx(l.var('iactivelimit')) == n, z3.BoolVal(L.which(s, l) is not None)))]
    x.loops['wr_given_cl_backsubsume'] = [LoopSpec(inv_act, lambda X, s, l, ph: L.intro(s, own=True, k=sx(l.var('iactive'))))]
    for mb in (Ptr(L.MB, 0), NULL):
        x.run(f, st.copy(), [Ptr(T.G, 0), Ptr(T.DB, L.c), mb], ret_check(x, lambda s, v: []))
