"""Contracts for the functions that file clauses in the ground unit and ground double tables, and for the bucket lookup."""
from vecs import *
from hashes import Table, both, HASH
from index import NELS
from sites import Site, SITEF
from subsume import LITHASH
from para import dboff

DF = 'Reasoner/derive.c'
GF = 'Reasoner/rgenloop.c'


@contract('wr_find_offset_termbucket', HF, label='hash:bucket', props=['C19', 'C24'], timeout=60)
@both
def c_bucket(x, empty):
    Tb = Table(x, empty)
    st, T = Tb.st, Tb.T
    f = start(x, 'wr_find_offset_termbucket')
    x.run(f, st, [Ptr(T.G, 0), Ptr(Tb.HA, 0), Ptr(T.DB, Tb.t), Tb.h],
          ret_check(x, lambda s, v: [('the-bucket-of-the-hash', bv(v) == Tb.s0), ('table-unchanged', z3.And(x.arr(s, Tb.HA) == Tb.ha0, x.arr(s, Tb.BK) == Tb.bk0))]))


def pusher(x, fn, names, meta, want):
    """want(S, i): literal i has to be filed; n: literals to be filed"""
    S = Site(x, fields=list(names))
    st, T = S.st, S.T
    x.noop += ['wr_sys_exiterr*']
    k = S.k = dict(S.k, **x.build.probe(HDR, ['RECORD_META_FACT_CLAUSE', 'ATOM_META_GROUND_MASK', 'ATOM_META_GROUND_SHIFT', 'SMALLINTSHFT']))
    m = z3.Select(T.dbarr, S.c + 8 * S.k['RECORD_META_POS'])
    st.assume(((m & k['RECORD_META_FACT_CLAUSE']) != 0) == z3.Not(S.rule(S.c)))
    tabs, regs = {}, []
    for q in names:
        r = x.region(st, q, size=None)
        for o in regs:
            st.assume(r.base != o.base)
        regs.append(r)
        tabs['neg' in q] = r
        st.mem[T.G.id].cells[T.off[q]] = (8, norm(r.base - T.DB.base))
    for j in range(2):
        st.assume(S.lit(st, bv(j)))
    GH = x.region(st, 'filed', size=16)
    for o in (0, 8):
        x.store(st, Ptr(GH, o), 8, bv(0))
    gv = lambda s, o: bv(x.load(s, Ptr(GH, o), 8, ('int', 64)))

    def hashof(X, s, a, ins):
        r = LITHASH(bv(a[1]))
        s.assume(z3.And(r >= 0, r < NELS(x)))       # hash:term
        return r if ins['ty'] == ('int', 64) else z3.Extract(31, 0, r)
    x.calls['wr_lit_hash'] = hashof
    x.calls['wr_term_hash'] = hashof
    mt = z3.BitVec('clmeta', 64)
    NEGM = S.k['ATOM_META_NEG_RAWMASK']

    def neg(j):
        return (mt & NEGM) != 0 if meta else S.neg(j)

    def push(X, s, a, ins):
        g, tab, h, t, cl = a
        n = gv(s, 0)
        X.oblig(s, 'no-more-entries-than-literals', n < S.n, 'call')
        X.oblig(s, 'files-the-next-literal', z3.And(dboff(T, t) == S.atom(n), dboff(T, cl) == S.c), 'call')
        X.oblig(s, 'under-the-hash-of-the-literal', bv(h, 32) == z3.Extract(31, 0, LITHASH(S.atom(n))), 'call')
        p = X.resolve_ptr(s, tab, 'call')
        want = {b: z3.BoolVal(isinstance(p, Ptr) and p.r is tabs[b]) for b in tabs}
        X.oblig(s, 'in-the-table-of-its-sign', z3.And(z3.If(neg(n), want[True], want[False]), bv(p.off) == 0), 'call')
        X.store(s, Ptr(GH, 0), 8, n + 1)
        return X.fresh('table', 64)
    x.calls['wr_push_termhash'] = push
    if fn == 'wr_add_cl_to_doublehash':
        def inv(X, s, l):
            i = sx(l.var('pos'))
            return [('range', z3.And(i >= 0, i <= 2, S.n == 2, S.rule(S.c))), ('filed-so-far', gv(s, 0) == i)]

        def head(X, s, l, ph):
            s.assume(S.lit(s, sx(l.var('pos'))))
        x.loops[fn] = [LoopSpec(inv, head)]
    f = start(x, fn)
    args = [Ptr(T.G, 0), Ptr(T.DB, S.c)] + ([mt] if meta else [])
    x.run(f, st, args, ret_check(x, lambda s, v: want(S, s, v, gv(s, 0))))


@contract('wr_add_cl_to_unithash', DF, label='store:ground-unit', props=['C19', 'C24'], timeout=60)
def c_unit(x):
    pusher(x, 'wr_add_cl_to_unithash', ('hash_pos_groundunits', 'hash_neg_groundunits'), True,
           lambda S, s, v, n: [('a-unit-is-filed', z3.If(S.n == 1, n == 1, n == 0)), ('hash-returned', bv(v) == z3.If(S.n == 1, LITHASH(S.atom(0)), bv(-1)))])


@contract('wr_add_cl_to_doublehash', DF, label='store:ground-double', props=['C19', 'C24'], timeout=60)
def c_double(x):
    pusher(x, 'wr_add_cl_to_doublehash', ('hash_pos_grounddoubles', 'hash_neg_grounddoubles'), False,
           lambda S, s, v, n: [('both-literals-are-filed', z3.If(z3.And(S.rule(S.c), S.n == 2), n == 2, n == 0))])


@contract('wr_add_cl_to_active_unithash', GF, label='store:active-unit', props=['C19', 'C24'], timeout=60)
def c_active(x):
    def want(S, s, v, n):
        k = S.k
        m = z3.Select(S.T.dbarr, S.pos(0) + 8 * S.k['LIT_META_POS'])
        ground = z3.Or(z3.Not(S.rule(S.c)), (m & (k['ATOM_META_GROUND_MASK'] << (k['ATOM_META_GROUND_SHIFT'] + k['SMALLINTSHFT']))) != 0)
        return [('a-ground-unit-is-filed', z3.If(z3.And(S.n == 1, ground), n == 1, n == 0))]
    pusher(x, 'wr_add_cl_to_active_unithash', ('hash_pos_active_groundunits', 'hash_neg_active_groundunits'), False, want)
