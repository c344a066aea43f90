"""Contracts for the literal and term indexes: what is stored where, what is looked for where (Reasoner/hash.c, clstore.c, resolve.c, subsume.c).

A literal is stored under hashes of prefixes of its symbols (in the order they are written, up to the first variable, at
most three), and looked for under hashes of prefixes of the other literal.  W is that prefix as a function of the term."""
from sites import *
from para import dboff, tables, Para

HF = 'Reasoner/hash.c'
CSF = 'Reasoner/clstore.c'
KH = z3.Function('KH', U, BV64)            # hash of a constant
STRH4 = z3.Function('STRH4', BV64, BV64, BV64, BV64, z3.BitVecSort(32))
STRHL = z3.Function('STRHL', BV64, z3.BitVecSort(32))
IHASH = z3.Function('IHASH', z3.BitVecSort(32), z3.BitVecSort(32))
DHASH = z3.Function('DHASH', F64, z3.BitVecSort(32))
PS = z3.Datatype('Prefix')
PS.declare('mk', ('k', BV64), ('h0', BV64), ('h1', BV64), ('h2', BV64), ('go', B))
PS = PS.create()
W = z3.Function('W', U, PS, PS)            # the prefix after the symbols of a term
WA = z3.Function('WA', U, BV64, PS, PS)    # ... of the arguments below i
HADD = lambda a, o: a + (o << 6) + (o << 16) - o
hat = lambda p, i: z3.If(i == 0, PS.h0(p), z3.If(i == 1, PS.h1(p), PS.h2(p)))
EMPTY = PS.mk(bv(0), bv(0), bv(0), bv(0), z3.BoolVal(True))
PREF = lambda t: W(fz(t), EMPTY)


BK = z3.Function('BK', BV64, BV64, BV64)     # bucket of a prefix hash h, for literals with j+1 symbols


def bucket(n, j, h):
    """WR_HASH_NORM(WR_HASH_ADD(j, h), n)"""
    a = z3.Extract(31, 0, HADD(j, h))
    r = z3.SRem(a, z3.BitVecVal(n - 2, 32))
    return z3.SignExt(32, 1 + z3.If(r < 0, -r, r))


def srems(t, acc=None, seen=None):
    acc, seen = ([], set()) if acc is None else (acc, seen)
    if t.get_id() not in seen:
        seen.add(t.get_id())
        if z3.is_app(t) and t.decl().kind() in (z3.Z3_OP_BSREM, z3.Z3_OP_BSREM_I) and z3.is_bv_value(t.arg(1)):
            acc.append(t)
        for c in t.children():
            srems(c, acc, seen)
    return acc


def hash_oblig(X, s, name, N, h, key, j):
    """h == bucket(N, j, key): the arguments of the remainder are equal, then the forms around it are"""
    h, b = z3.simplify(bv(h)), bucket(N, j, key)
    rs = srems(h)
    rb = srems(b)[0]
    if len(rs) == 1 and rs[0].arg(1).as_long() == N - 2:
        X.oblig(s, name, rs[0].arg(0) == rb.arg(0), 'call')
        r = z3.FreshConst(z3.BitVecSort(32), 'rem')
        f = s.copy()
        f.assume(z3.And(r < N - 2, r > 2 - N))
        h2, b2 = z3.substitute(h, (rs[0], r)), z3.substitute(b, (rb, r))
        X.oblig(f, name + ':form', h2 == b2, 'call')
        X.oblig(f, 'bucket-inside-the-table', z3.And(h2 >= 1, h2 < N), 'call')
    else:
        X.oblig(s, name, h == b, 'call')
        X.oblig(s, 'bucket-inside-the-table', z3.And(h >= 1, h < N), 'call')


def step(p, h):
    """one more symbol"""
    k = PS.k(p)
    return PS.mk(k + 1, z3.If(k == 0, h, PS.h0(p)), z3.If(k == 1, HADD(h, PS.h0(p)), PS.h1(p)), z3.If(k == 2, HADD(h, PS.h1(p)), PS.h2(p)), k + 1 < 3)


def stop(p):
    return PS.mk(PS.k(p), PS.h0(p), PS.h1(p), PS.h2(p), z3.BoolVal(False))


def rules(D, FIRST):
    D.rule(W, lambda u, s: [z3.Implies(kind(u) == 6, W(u, s) == stop(s)), z3.Implies(z3.And(kind(u) >= 1, kind(u) <= 4), W(u, s) == step(s, KH(u))),
                            z3.Implies(kind(u) == 5, W(u, s) == WA(u, nargs(u), s))])
    D.rule(WA, lambda u, i, s: [z3.Implies(i <= FIRST, WA(u, i, s) == s),
                                z3.Implies(i > FIRST, WA(u, i, s) == z3.If(PS.go(WA(u, i - 1, s)), W(arg(u, i - 1), WA(u, i - 1, s)), WA(u, i - 1, s)))])


@contract('wr_term_basehash', HF, label='index:constant-hash', files=['Db/dbdata.c'], props=['C12'], timeout=120)
def c_base(x):
    for tag in (0b100, 0b001, 0b010, 0b110, 0b011, 0b111):
        for kb in ((False, True) if tag == 4 else (False,)):
            base(x, kb, tag)


def base(x, kb, tag):
    """equal constants have equal hashes, inside the range of the tables"""
    st, T, gh = setup(x, fields=['use_prop_constant', 'prop_constant'], vals=[fz])
    x.incremental = True
    a, b = z3.BitVecs('a b', 64)
    k = x.build.probe(HDR, ['NROF_CLTERM_HASHVEC_ELS'])
    N = k['NROF_CLTERM_HASHVEC_ELS']
    st.assume(z3.And(isc(a), isc(b), WF(a), WF(b), fz(a) == fz(b)))
    st.assume((a & 7) == tag)
    x.oblig(st, 'equal-constants-are-of-one-kind', (b & 7) == tag, 'entry')
    st.assume((b & 7) == tag)
    if tag in (0b100, 0b011, 0b111):
        x.oblig(st, 'equal-immediate-constants-are-identical', a == b, 'entry')
        b = a
    if tag == 4:
        kk = x.build.probe(HDR, ['LONGSTR_META_POS', 'LONGSTR_META_TYPEMASK', 'WG_STRTYPE', 'WG_XMLLITERALTYPE', 'WG_URITYPE', 'WG_BLOBTYPE'])
        ty = z3.Select(T.dbarr, (a & bv(~7 & (2**64 - 1))) + 8 * kk['LONGSTR_META_POS']) & kk['LONGSTR_META_TYPEMASK']
        st.assume(z3.Or(*[ty == kk[n] for n in ('WG_STRTYPE', 'WG_XMLLITERALTYPE', 'WG_URITYPE', 'WG_BLOBTYPE')]))
        x.assumptions.append('an interned string is a string, URI, XML literal or blob')
    for t in (a, b):
        st.assume(z3.Implies((t & 7) == 2, z3.Not(z3.fpIsNaN(z3.fpBVToFP(z3.Select(T.dbarr, t & bv(~7 & (2**64 - 1))), F64)))))

    def uni(X, s, args, ins):
        """the characters of a string constant: a place in the database"""
        s.ghost['str'] = bv(args[1])
        return Ptr(None, X.fresh('chars', 64))
    x.calls['wg_decode_unistr'] = uni
    x.calls['wg_decode_unistr_lang'] = lambda X, s, a_, i: Ptr(None, X.fresh('lang', 64))

    def once(X, s, e):
        """the hash of the value of the second constant is that of the first"""
        if 'first' in s.ghost:
            X.require(s, 'hashes-the-same-value', e == s.ghost['first'][1], 'call')
            return s.ghost['first'][0]
        v = X.fresh('valuehash', 32)
        s.assume(v == e)
        s.ghost['first'] = (v, e)
        return v

    def strh(X, s, args, ins):
        t = s.ghost['str']
        o3 = t & bv(~7 & (2**64 - 1))
        return once(X, s, z3.If((t & 7) == 6, STRH4(*[z3.Select(T.dbarr, o3 + 8 * j) for j in range(4)]), STRHL(t)))
    x.calls['str_hash'] = strh
    x.calls['str_dual_hash'] = strh
    x.calls['wg_set_uri_rhash'] = lambda X, s, a_, i: bv(0)
    SEG = x.region(st, 'kbsegment', size=1 << 20)

    def ghook(X, s, r, name):
        if 'attached_kb' in name:
            s.mem[r.id].cells[0] = (8, Ptr(SEG, 0) if kb else NULL)
    x.global_hook = ghook
    x.noop += ['wr_printf', 'wr_print_*']

    def inr(X, s, v):
        s.assume(z3.And(v >= 0, v < N))
        return v
    x.calls['int_hash'] = lambda X, s, a_, i: inr(X, s, once(X, s, IHASH(bv(a_[0], 32))))

    def dh(X, s, a_, i):
        v = a_[0]
        return inr(X, s, once(X, s, DHASH(z3.If(z3.fpIsZero(v), z3.FPVal(0.0, F64), v))))
    x.calls['double_hash'] = dh
    x.calls['wr_term_basehash'] = lambda X, s, a_, i: (X.oblig(s, 'pre:only-for-a-variable', z3.Or(isvar(a), isvar(b)), 'call'), X.fresh('hash', 64))[1]
    f = start(x, 'wr_term_basehash')
    x.assumptions += ['the cached hash of an interned string, once set, does not change']

    def second(X, s, v1):
        X.oblig(s, 'post:in-range', z3.And(bv(v1) >= 1, bv(v1) <= N - 2), 'return', kind='contract')
        X.run(f, s, [Ptr(T.G, 0), b], ret_check(X, lambda q, v: [('equal-constants-have-equal-hashes', bv(v) == bv(v1))]))
    x.run(f, st, [Ptr(T.G, 0), a], second)


@contract('int_hash', HF, label='index:number-hash', props=['C12'], timeout=60)
def c_num(x):
    """hashes of numbers: in range, equal for equal numbers (also for the two zeros)"""
    st, T, gh = setup(x, vals=[fz])
    N = x.build.probe(HDR, ['NROF_CLTERM_HASHVEC_ELS'])['NROF_CLTERM_HASHVEC_ELS']
    v = z3.BitVec('v', 32)
    x.fptosi_total = True
    x.assumptions.append('converting a real too large for an int yields some value that depends on the real only')
    f = start(x, 'int_hash')
    x.run(f, st.copy(), [v], ret_check(x, lambda s, r: [('in-range', z3.And(bv(r, 32) >= 0, bv(r, 32) < N))]))
    a, b = z3.FP('a', F64), z3.FP('b', F64)
    st.assume(z3.fpEQ(a, b))
    x.calls['int_hash'] = lambda X, s, a_, i: IHASH(bv(a_[0], 32))
    for zero in (True, False):
        s = st.copy()
        s.assume(z3.fpIsZero(a) == zero)
        if zero:
            s.assume(z3.fpIsZero(b))
        else:
            x.oblig(s, 'equal-numbers-are-identical', a == b, 'entry')
        f = start(x, 'double_hash')

        def second(X, s, v1):
            X.run(f, s, [b if zero else a], ret_check(X, lambda q, v: [('equal-numbers-have-equal-hashes', bv(v, 32) == bv(v1, 32))]))
        x.run(f, s, [a], second)


def h_base(x, T):
    def h(X, s, args, ins):
        """index:constant-hash"""
        t = bv(args[1])
        X.oblig(s, 'pre:hash-of-a-constant', z3.And(isc(t), WF(t)), 'call')
        r = KH(fz(t))
        s.assume(z3.And(r >= 1, r <= NELS(x) - 2))
        return r
    return h


def NELS(x):
    return x.build.probe(HDR, ['NROF_CLTERM_HASHVEC_ELS'])['NROF_CLTERM_HASHVEC_ELS']


class PMem:
    """the prefix held in memory"""

    def __init__(self, x, st, name='prefhashes'):
        self.x = x
        self.R = x.region(st, name, size=8 * x.build.probe('#include "Reasoner/rincludes.h"\n#include "Reasoner/resolve.h"\n', ['ATOM_PREFHASH_MAXLEN'])['ATOM_PREFHASH_MAXLEN'] + 8)
        self.L = x.region(st, 'preflen', size=4)

    def set(self, s, p):
        for i, a in enumerate((PS.h0, PS.h1, PS.h2)):
            self.x.store(s, Ptr(self.R, 8 * i), 8, z3.simplify(a(p)))
        self.x.store(s, Ptr(self.L, 0), 4, z3.simplify(z3.Extract(31, 0, PS.k(p))))

    def get(self, s, go):
        h = [bv(self.x.load(s, Ptr(self.R, 8 * i), 8, ('int', 64))) for i in range(3)]
        return PS.mk(sx(self.x.load(s, Ptr(self.L, 0), 4, ('int', 32))), h[0], h[1], h[2], go)


def newprefix(n):
    """a prefix with at most three symbols"""
    k = z3.ZeroExt(62, z3.BitVec('k!' + n, 2))
    return PS.mk(k, *[z3.BitVec('h%d!%s' % (i, n), 64) for i in range(3)], z3.Bool('go!' + n))


@contract('wr_atom_calc_prefhashes_aux', HF, label='index:prefix', files=['Reasoner/clterm.c'], props=['C12'], timeout=120)
def c_prefix(x):
    st, T, gh = setup(x, vals=[fz])
    x.incremental = True
    rules(x.defs_, T.FIRST)
    x.calls['wr_term_basehash'] = h_base(x, T)
    M = PMem(x, st)
    t = z3.BitVec('x', 64)
    k0 = z3.ZeroExt(62, z3.BitVec('k0', 2))
    p0 = PS.mk(k0, *[z3.BitVec('h%d' % i, 64) for i in range(3)], z3.BoolVal(True))
    st.assume(z3.And(WF(t), k0 < 3))
    M.set(st, p0)

    def rec(X, s, args, ins):
        g, tt, pl, ph = args
        tt = bv(tt)
        p = M.get(s, z3.BoolVal(True))
        X.oblig(s, 'pre:prefix-not-complete', z3.And(WF(tt), PS.k(p) >= 0, PS.k(p) < 3, z3.BoolVal(pl.r is M.L and ph.r is M.R and pl.off == 0 and ph.off == 0)), 'call')
        q = z3.FreshConst(PS, 'q')
        s.assume(q == W(fz(tt), p))
        s.assume(z3.And(PS.k(q) >= PS.k(p), PS.k(q) <= 3, z3.Implies(PS.go(q), PS.k(q) < 3)))
        i = s.ghost['i']
        w = WA(fz(t), i + 1, p0)
        s.assume(z3.Implies(z3.And(z3.Not(PS.go(w)), i + 1 <= nargs(fz(t))), WA(fz(t), nargs(fz(t)), p0) == w))      # lemma:prefix-stops
        M.set(s, q)
        r = X.fresh('more', 32)
        s.assume((r != 0) == PS.go(q))
        return r
    fn = 'wr_atom_calc_prefhashes_aux'
    x.calls[fn] = rec

    def inv(X, s, l):
        i = sx(l.var('i'))
        p = M.get(s, z3.BoolVal(True))
        return [('range', z3.And(i >= 3 + T.FIRST, i <= T.length(t) + 3, isrec(t))), ('prefix-of-the-arguments-so-far', z3.And(p == WA(fz(t), i - 3, p0), PS.k(p) >= k0, PS.k(p) < 3))]

    def head(X, s, l, ph):
        s.ghost['i'] = sx(l.var('i')) - 3
    x.loops[fn] = [LoopSpec(inv, head)]
    f = start(x, fn)

    def posts(s, v):
        go = bv(v, 32) != 0
        p = M.get(s, go)
        return [('prefix-of-the-term', p == W(fz(t), p0)), ('at-most-three', z3.And(PS.k(p) >= k0, PS.k(p) <= 3, z3.Implies(go, PS.k(p) < 3)))]
    x.run(f, st, [Ptr(T.G, 0), t, Ptr(M.L, 0), Ptr(M.R, 0)], ret_check(x, posts))


@contract('wr_atom_calc_prefhashes', HF, label='index:prefix-start', files=['Reasoner/clterm.c'], props=['C12'], timeout=60)
def c_prefix0(x):
    st, T, gh = setup(x, vals=[fz])
    M = PMem(x, st)
    t = z3.BitVec('x', 64)
    st.assume(WF(t))
    out = {}

    def aux(X, s, args, ins):
        g, tt, pl, ph = args
        h = [bv(X.load(s, Ptr(ph.r, 8 * i), 8, ('int', 64))) for i in range(3)]
        X.oblig(s, 'starts-with-the-empty-prefix', z3.And(bv(tt) == t, sx(X.load(s, pl, 4, ('int', 32))) == 0, *[q == 0 for q in h], z3.BoolVal(ph.r is M.R and ph.off == 0)), 'call')
        q = z3.FreshConst(PS, 'q')
        s.assume(q == PREF(t))
        s.assume(z3.And(PS.k(q) >= 0, PS.k(q) <= 3))
        for i, a in enumerate((PS.h0, PS.h1, PS.h2)):
            X.store(s, Ptr(ph.r, 8 * i), 8, a(q))
        X.store(s, pl, 4, z3.Extract(31, 0, PS.k(q)))
        return X.fresh('more', 32)
    x.calls['wr_atom_calc_prefhashes_aux'] = aux
    f = start(x, 'wr_atom_calc_prefhashes')

    def posts(s, v):
        p = PREF(t)
        h = [bv(x.load(s, Ptr(M.R, 8 * i), 8, ('int', 64))) for i in range(3)]
        return [('prefix-of-the-atom', z3.And(sx(v) == PS.k(p), h[0] == PS.h0(p), h[1] == PS.h1(p), h[2] == PS.h2(p)))]
    x.run(f, st, [Ptr(T.G, 0), t, Ptr(M.R, 0)], ret_check(x, posts))


# ---- two atoms with a common instance meet in the index

def agree(p, q):
    """prefixes of two terms with a common instance"""
    m = z3.If(PS.k(p) <= PS.k(q), PS.k(p), PS.k(q))
    return z3.And(PS.k(p) >= 0, PS.k(q) >= 0, z3.Implies(m > 0, PS.h0(p) == PS.h0(q)), z3.Implies(m > 1, PS.h1(p) == PS.h1(q)), z3.Implies(m > 2, PS.h2(p) == PS.h2(q)),
                  z3.Implies(z3.And(PS.go(p), PS.go(q)), p == q), z3.Implies(z3.And(PS.go(q), z3.Not(PS.go(p))), PS.k(p) <= PS.k(q)), z3.Implies(z3.And(PS.go(p), z3.Not(PS.go(q))), PS.k(q) <= PS.k(p)))


def longer(p, q):
    """q continues p"""
    return z3.And(PS.k(q) >= PS.k(p), z3.Implies(PS.k(p) > 0, PS.h0(p) == PS.h0(q)), z3.Implies(PS.k(p) > 1, PS.h1(p) == PS.h1(q)), z3.Implies(PS.k(p) > 2, PS.h2(p) == PS.h2(q)))


def inside(p):
    return z3.And(PS.k(p) >= 0, PS.k(p) <= 3, z3.Implies(PS.go(p), PS.k(p) < 3))


@lemma('prefix-grows')
def l_grow(x, st, T):
    rules(x.defs_, T.FIRST)
    u = z3.Const('u', U)
    s0 = newprefix('s')
    i = z3.BitVec('i', 64)
    st.assume(z3.And(inside(s0), PS.go(s0), kind(u) >= 1, kind(u) <= 6, i >= T.FIRST, i < (1 << 40)))
    # arguments: induction on i, the terms below u by the induction hypothesis
    p = WA(u, i, s0)
    s1 = st.copy()
    s1.assume(z3.And(inside(p), longer(s0, p)))
    w = W(arg(u, i), p)
    s1.assume(z3.Implies(PS.go(p), z3.And(inside(w), longer(p, w))))
    n = WA(u, i + 1, s0)
    x.oblig(s1, 'step:arguments', z3.And(inside(n), longer(s0, n)), 'induction on the argument position', kind='lemma')
    x.oblig(st, 'base:arguments', z3.And(inside(WA(u, bv(T.FIRST), s0)), longer(s0, WA(u, bv(T.FIRST), s0))), 'induction on the argument position', kind='lemma')
    s2 = st.copy()
    e = WA(u, nargs(u), s0)
    s2.assume(z3.And(inside(e), longer(s0, e)))
    x.oblig(s2, 'step:term', z3.And(inside(W(u, s0)), longer(s0, W(u, s0))), 'induction on the term', kind='lemma')


@lemma('prefix-stops')
def l_stops(x, st, T):
    rules(x.defs_, T.FIRST)
    u = z3.Const('u', U)
    s0 = newprefix('s')
    i, n = z3.BitVecs('i n', 64)
    st.assume(z3.And(n >= i, i >= T.FIRST, n < (1 << 40), z3.Not(PS.go(WA(u, i, s0)))))
    s1 = st.copy()
    s1.assume(WA(u, n, s0) == WA(u, i, s0))
    x.oblig(s1, 'step', WA(u, n + 1, s0) == WA(u, i, s0), 'induction on the argument position', kind='lemma')
    x.oblig(st, 'base', z3.Implies(n == i, WA(u, n, s0) == WA(u, i, s0)), 'induction on the argument position', kind='lemma')


@lemma('prefix-agrees')
def l_agree(x, st, T):
    """terms with equal instances: their prefixes agree as far as both go"""
    rules(x.defs_, T.FIRST)
    a, b, i = z3.BitVecs('a b i', 64)
    s0 = newprefix('s')
    grow = lambda t, p: z3.Implies(PS.go(p), z3.And(inside(W(t, p)), longer(p, W(t, p))))
    st.assume(z3.And(inside(s0), PS.go(s0), WF(a), WF(b), val(a) == val(b), kind(val(a)) >= 1, kind(val(a)) <= 6))
    fa, fb = fz(a), fz(b)
    s1 = st.copy()
    p, q = WA(fa, i, s0), WA(fb, i, s0)
    c, d = z3.BitVecs('c d', 64)        # argument i of a and of b
    s1.assume(z3.And(isrec(a), isrec(b), i >= T.FIRST, i < T.length(a), arg(fa, i) == fz(c), arg(fb, i) == fz(d), arg(val(a), i) == val(c), arg(val(b), i) == val(d), WF(c), WF(d)))
    s1.assume(z3.And(agree(p, q), inside(p), inside(q)))
    s1.assume(z3.And(grow(fz(c), p), grow(fz(d), q)))
    # induction hypothesis for the smaller terms c, d and one prefix
    s1.assume(z3.Implies(z3.And(PS.go(p), val(c) == val(d)), agree(W(fz(c), p), W(fz(d), p))))
    n, m = WA(fa, i + 1, s0), WA(fb, i + 1, s0)
    x.oblig(s1, 'step:arguments', z3.And(agree(n, m), inside(n), inside(m)), 'induction on the argument position', kind='lemma')
    x.oblig(st, 'base:arguments', z3.And(agree(WA(fa, bv(T.FIRST), s0), WA(fb, bv(T.FIRST), s0))), 'induction on the argument position', kind='lemma')
    s2 = st.copy()
    ea, eb = WA(fa, nargs(fa), s0), WA(fb, nargs(fb), s0)
    s2.assume(z3.Implies(z3.And(isrec(a), isrec(b)), z3.And(agree(ea, eb))))
    s2.assume(z3.And(grow(fa, s0), grow(fb, s0)))
    x.oblig(s2, 'step:term', agree(W(fa, s0), W(fb, s0)), 'induction on the term', kind='lemma')


@lemma('buckets-meet')
def l_meet(x, st, T):
    """a literal stored under its prefixes is looked for under one of them by every literal whose prefix agrees"""
    rules(x.defs_, T.FIRST)
    N = NELS(x)
    p, q = newprefix('p'), newprefix('q')
    st.assume(z3.And(agree(p, q), inside(p), inside(q), PS.k(p) >= 1, PS.k(q) >= 1))
    j = z3.If(PS.k(p) <= PS.k(q), PS.k(p) - 1, PS.k(q) - 1)
    stored = BK(PS.k(p) - 1, hat(p, j))
    look = looked(q, PS.k(p) - 1)
    x.oblig(st, 'same-bucket', z3.And(j >= 0, j < PS.k(p), PS.k(p) - 1 < 3, stored == look), 'lookup', kind='lemma')


def looked(p, plen):
    """where a literal with that prefix looks for literals with plen+1 symbols"""
    last = PS.k(p) - 1
    return BK(plen, hat(p, z3.If(plen <= last, plen, last)))


# ---- storing

def h_prefs(S, note=None):
    """index:prefix-start"""
    x, T = S.x, S.T

    def h(X, s, args, ins):
        g, t, ph = args
        t = bv(t)
        X.oblig(s, 'pre:prefix-of-a-term', z3.And(WF(t), z3.BoolVal(is_c(ph.off) and ph.off == 0)), 'call')
        h.region = ph.r
        p = PREF(t)
        s.assume(z3.And(PS.k(p) >= 1, PS.k(p) <= 3))
        for i, a in enumerate((PS.h0, PS.h1, PS.h2)):
            X.store(s, Ptr(ph.r, norm(bv(ph.off) + 8 * i)), 8, a(p))
        if note:
            note(X, s, t, p)
        return z3.Extract(31, 0, PS.k(p))

    def kept(s, t):
        """the prefix hashes computed last are those of t"""
        if not hasattr(h, 'region'):
            return z3.BoolVal(True)
        return z3.And(*[bv(x.load(s, Ptr(h.region, 8 * i), 8, ('int', 64))) == a(PREF(t)) for i, a in enumerate((PS.h0, PS.h1, PS.h2))])
    h.kept = kept
    return h


NOPREF = 'the predicate of a literal is a constant (its prefix has at least one symbol)'


@contract('wr_cl_store_res_terms', CSF, label='store:literals', files=['Reasoner/clterm.c'], props=['C12', 'C33'], timeout=200)
def c_store_lits(x):
    store_lits(x, 'wr_cl_store_res_terms', ('hash_pos_atoms', 'hash_neg_atoms'), False)


@contract('wr_cl_store_res_units', CSF, label='store:units', files=['Reasoner/clterm.c'], props=['C12', 'C24'], timeout=200)
def c_store_units(x):
    store_lits(x, 'wr_cl_store_res_units', ('hash_pos_units', 'hash_neg_units'), True)


def store_lits(x, fn, names, units):
    S = Site(x, fields=['hash_pos_units', 'hash_neg_units'])
    st, T = S.st, S.T
    x.collapse = True
    x.noop += ['wr_sys_exiterr*', 'wr_print*']
    N = NELS(x)
    tabs = {}
    regs = []
    for f in names:
        r = x.region(st, f, size=None)
        for q in regs:
            st.assume(r.base != q.base)
        regs.append(r)
        tabs['neg' in f] = r
        st.mem[T.G.id].cells[T.off[f]] = (8, norm(r.base - T.DB.base))
    # the literal (0: literal number, 8: how many entries were made for it, 16: failed)
    GH = x.region(st, 'entries', size=24)
    for o in (0, 8, 16):
        x.store(st, Ptr(GH, o), 8, bv(-1 if o == 0 else 0))
    gv = lambda s, o: bv(x.load(s, Ptr(GH, o), 8, ('int', 64)))
    args = [Ptr(T.G, 0), Ptr(T.DB, S.c)]
    if not units:
        RV = x.region(st, 'resolvability', size=None)
        args.append(Ptr(RV, 0))
        rv0 = x.arr(st, RV)
        wanted = lambda s, i: z3.Or(z3.Select(rv0, (bv(i) + 1) << 3) != 0, T.gget(s, 'queryfocus_strat') != 0)
    else:
        wanted = lambda s, i: z3.BoolVal(True)

    def note(X, s, t, p):
        i = s.ghost['i']
        X.oblig(s, 'prefix-of-the-literal', t == S.atom(i), 'call')
        X.store(s, Ptr(GH, 0), 8, i)
        X.store(s, Ptr(GH, 8), 8, bv(0))
    x.calls['wr_atom_calc_prefhashes'] = h_prefs(S, note)

    def add(X, s, a, ins):
        g, v, h, t, cl = a[:5]
        i, n = s.ghost['i'], gv(s, 8)
        p = PREF(S.atom(i))
        X.oblig(s, 'the-literal-and-its-clause', z3.And(bv(t) == S.atom(i), dboff(T, cl) == S.c, gv(s, 0) == i, i >= 0, i < S.n), 'call')
        X.oblig(s, 'in-the-table-of-its-sign', bv(v) == z3.If(S.neg(i), tabs[True].base, tabs[False].base), 'call')
        hash_oblig(X, s, 'in-the-bucket-of-its-prefix', N, h, hat(p, n), PS.k(p) - 1)
        X.store(s, Ptr(GH, 8), 8, n + 1)
        r = X.fresh('failed', int(ins['ty'][1]))
        X.store(s, Ptr(GH, 16), 8, gv(s, 16) | z3.If(r != 0, bv(1), bv(0)))
        return r
    x.calls['wr_clterm_add_hashlist'] = add
    x.calls['wr_clterm_add_hashlist_withpath'] = add

    def filed(s, i):
        """literal i has an entry for each of its prefixes"""
        return z3.Implies(wanted(s, i), z3.And(gv(s, 0) == bv(i), gv(s, 8) == PS.k(PREF(S.atom(i)))))

    def inv_i(X, s, l):
        i = sx(l.var('i'))
        return [('range', z3.And(i >= 0, i <= S.n)), ('literal-filed', z3.Implies(i > 0, filed(s, i - 1))), ('no-failure', gv(s, 16) == 0)]

    def head_i(X, s, l, ph):
        i = sx(l.var('i'))
        s.ghost['i'] = i
        s.assume(S.lit(s, i))

    def inv_j(X, s, l):
        i, j = sx(l.var('i')), sx(l.var('j'))
        p = PREF(S.atom(i))
        h = l.var('prefhashes', whole=True) if False else None
        return [('literal', z3.And(i >= 0, i < S.n, bv(l.var('atom')) == S.atom(i), gv(s, 0) == i, (sx(l.var('negflag')) != 0) == S.neg(i), sx(l.var('preflen')) == PS.k(p))),
                ('entries-so-far', z3.And(j >= 0, j <= PS.k(p), gv(s, 8) == j, PS.k(p) >= 1, PS.k(p) <= 3)), ('no-failure', gv(s, 16) == 0)]

    def head_j(X, s, l, ph):
        s.ghost['i'] = sx(l.var('i'))
    x.loops[fn] = [LoopSpec(inv_i, head_i), LoopSpec(inv_j, head_j)]
    f = start(x, fn)
    x.assumptions.append(NOPREF)

    def posts(s, v):
        ok = bv(v, 32) == 0
        skip = z3.And(S.n != 1) if units else z3.BoolVal(False)
        return [('every-literal-is-filed', z3.Implies(z3.And(ok, z3.Not(skip)), z3.And(gv(s, 16) == 0, filed(s, S.n - 1)))), ('failure-is-reported', z3.Implies(gv(s, 16) != 0, z3.Not(ok)))]
    x.run(f, st, args, ret_check(x, posts))


# ---- looking up

class Walk:
    """every bucket in which a partner may be stored is walked to its end, and every entry of it is tried"""
    LIT, TBL, CNT, CUR, TRIED, STOP, VEC = range(0, 56, 8)

    def __init__(self, x, st, T, k):
        self.x, self.T, self.k = x, T, k
        self.G = x.region(st, 'walk', size=56)
        for o in range(0, 56, 8):
            x.store(st, Ptr(self.G, o), 8, bv(0))
        self.N = NELS(x)
        x.noop += ['wr_sys_exiterr*', 'wr_printf', 'wr_print_*', 'printf', 'wr_show_clqueue']
        x.calls['wr_clterm_hashlist_len'] = self.h_len
        x.calls['wr_clterm_hashlist_start'] = self.h_start
        x.calls['wr_clterm_hashlist_next'] = self.h_next

    def g(self, s, o):
        return bv(self.x.load(s, Ptr(self.G, o), 8, ('int', 64)))

    def set(self, s, o, v):
        self.x.store(s, Ptr(self.G, o), 8, v if z3.is_expr(v) else bv(v))

    def newlit(self, s, i):
        self.set(s, self.LIT, i)
        for o in (self.TBL, self.CNT, self.CUR, self.TRIED):
            self.set(s, o, 0)

    def open(self, s, table, atom):
        """hook of a contract: the table that has to be searched next and the atom looked for"""
        raise NotImplementedError

    def h_len(self, X, s, args, ins):
        g, v, h = args
        tab, atom = self.open(X, s)
        n = self.g(s, self.CNT)
        X.oblig(s, 'the-bucket-before-was-searched-to-its-end', self.g(s, self.CUR) == 0, 'call')
        X.oblig(s, 'searches-the-table-of-its-partners', z3.And(bv(v) == tab, n >= 0, n < 3), 'call')
        p = PREF(atom)
        last = PS.k(p) - 1
        hash_oblig(X, s, 'searches-the-bucket-of-its-prefix', self.N, h, hat(p, z3.If(n <= last, n, last)), n)
        self.set(s, self.CNT, n + 1)
        r = X.fresh('hlen', int(ins['ty'][1]))
        s.assume(r >= 0)
        s.ghost['bucket'] = (bv(v), bv(h), r)
        return r

    def h_start(self, X, s, args, ins):
        g, v, h = args
        b = s.ghost.get('bucket')
        X.oblig(s, 'walks-the-bucket-just-looked-up', z3.And(bv(v) == b[0], bv(h) == b[1]) if b else z3.BoolVal(False), 'call')
        r = X.fresh('node', 64)
        s.assume(z3.And((r != 0) == (b[2] != 0) if b else z3.BoolVal(True), (r & 7) == 0, z3.ULT(r, 1 << 46)))
        self.set(s, self.CUR, r)
        self.set(s, self.TRIED, 0)
        return r

    def h_next(self, X, s, args, ins):
        g, v, n = args
        X.oblig(s, 'steps-on-from-the-entry-at-hand', z3.And(bv(n) == self.g(s, self.CUR), bv(n) != 0), 'call')
        X.oblig(s, 'no-entry-is-passed-over', self.g(s, self.TRIED) != 0, 'call')
        r = X.fresh('node', 64)
        s.assume(z3.And((r & 7) == 0, z3.ULT(r, 1 << 46)))
        self.set(s, self.CUR, r)
        self.set(s, self.TRIED, 0)
        return r

    def fld(self, s, n):
        """the entry at hand"""
        return z3.Select(self.T.dbarr, self.g(s, self.CUR) + 8 * self.k['CLTERM_HASHNODE_' + n])

    def bucket_done(self, s, n):
        return z3.And(self.g(s, self.CNT) == n, self.g(s, self.CUR) == 0)


@contract('wr_resolve_binary_all_active', SITEF, label='lookup:resolution', files=['Reasoner/clterm.c'], props=['C12'], timeout=400)
def c_look_res(x):
    for kb in (False, True):
        look_res(x, kb)


def look_res(x, kb):
    S = Site(x, fields=['max_run_dseconds', 'max_run_seconds', 'res_shortarglen_limit', 'res_arglen_limit'])
    x.collapse = True
    st, T = S.st, S.T
    for f in ('max_run_dseconds', 'res_shortarglen_limit'):
        T.sset(st, f, 0)
    x.assumptions.append('max_run_dseconds=0 and res_shortarglen_limit=0 (a second time limit and a second partner filter of the same form as the ones that are on)')
    x.assumptions.append(NOPREF)
    KB = x.region(st, 'kb_glb', size=T.k['sizeof(glb)']) if kb else None
    T.sset(st, 'kb_g', Ptr(KB, 0) if kb else NULL)
    regs, tabs = [], {}
    for f in ('hash_pos_atoms', 'hash_neg_atoms'):
        for own in ((T.G, KB) if kb else (T.G,)):
            r = x.region(st, f + ('' if own is T.G else '_kb'), size=None)
            for q in regs:
                st.assume(r.base != q.base)
            regs.append(r)
            tabs['neg' in f, own is not T.G] = r.base
            st.mem[own.id].cells[T.off[f]] = (8, norm(r.base - T.DB.base))
    RV = x.region(st, 'resolvability', size=None)
    rv0 = x.arr(st, RV)
    w = Walk(x, st, T, S.k)
    w.set(st, w.LIT, -1)
    wanted = lambda i: z3.And(z3.Or(z3.Not(S.rule(S.c)), z3.Select(rv0, (bv(i) + 1) << 3) != 0), S.atom(i) != 0)

    def opened(X, s):
        i, t = s.ghost['i'], w.g(s, w.TBL)
        ng = S.neg(i)
        own = z3.If(ng, tabs[False, False], tabs[True, False])
        return z3.If(s.ghost['d'] == 0, own, z3.If(ng, tabs[False, True], tabs[True, True])) if kb else own, S.atom(i)
    w.open = opened

    def note(X, s, t, p):
        i = s.ghost['i']
        X.oblig(s, 'prefix-of-the-literal', t == S.atom(i), 'call')
        w.newlit(s, i)
    pref = x.calls['wr_atom_calc_prefhashes'] = h_prefs(S, note)

    def unify(X, s, a, ins):
        i = s.ghost['i']
        X.oblig(s, 'tries-the-literal-against-the-entry', z3.And(bv(a[1]) == S.atom(i), bv(a[2]) == w.fld(s, 'TERM_POS'), w.g(s, w.CUR) != 0), 'call')
        w.set(s, w.TRIED, 1)
        return S.h_unify(X, s, a, ins)
    x.calls['wr_unify_term'] = unify

    def bsub(X, s, a, ins):
        r = X.fresh('backsubsumed', int(ins['ty'][1]))
        here = z3.And(dboff(T, a[1]) == w.fld(s, 'CL_POS'), T.gget(s, 'back_subsume') != 0, r != 0)
        w.set(s, w.TRIED, z3.If(here, bv(1), w.g(s, w.TRIED)))
        return r
    x.calls['wr_get_cl_backsubsumed'] = bsub

    def count(X, s, a, ins):
        c = dboff(T, a[1])
        r = X.fresh('nonans', int(ins['ty'][1]))
        if 'i' in s.ghost:
            lim = T.gget(s, 'res_arglen_limit')
            lim = lim if lim.size() == 64 else sx(lim)
            here = z3.And(c == w.fld(s, 'CL_POS'), lim != 0, S.rule(c), sx(r) > lim)
            w.set(s, w.TRIED, z3.If(here, bv(1), w.g(s, w.TRIED)))
        return r
    x.calls['wr_count_cl_nonans_atoms'] = count
    x.calls['wr_atom_funhash'] = lambda X, s, a, i: X.fresh('funhash', int(i['ty'][1]))

    def stopping(n, w_):
        def h(X, s, a, ins):
            r = X.fresh(n, w_)
            return r
        return h

    def clock(X, s, a, ins):
        w.set(s, w.STOP, z3.If(T.gget(s, 'max_run_seconds') != 0, bv(1), w.g(s, w.STOP)))
        return X.fresh('clock', 64)
    x.calls['clock'] = clock

    def proc(X, s, args, ins):
        g, xa, xcl, ya, ycl, act = args
        X.oblig(s, 'every-unifiable-partner-is-used', z3.And(bv(xa) == S.atom(s.ghost['i']), bv(ya) == w.fld(s, 'TERM_POS'), dboff(T, xcl) == S.c, dboff(T, ycl) == w.fld(s, 'CL_POS')), 'call')
        s.ghost['uni'] = None
        S.done(X, s)
        # a proof or lack of memory may end the search
        for f in ('proof_found', 'alloc_err'):
            w.set(s, w.STOP, z3.If(T.gget(s, f) != 0, bv(1), w.g(s, w.STOP)))
        return None
    x.calls['wr_process_resolve_result'] = proc

    def clear(X, s, a, ins):
        X.oblig(s, 'unified-entry-is-handed-on', z3.BoolVal(s.ghost['uni'] is None), 'call')
        return S.h_clear(X, s, a, ins)
    x.calls['wr_clear_varstack'] = clear
    ntab = 2 if kb else 1

    def served(s, i):
        """literal i was looked up in all the tables"""
        return z3.Implies(wanted(i), z3.And(w.g(s, w.LIT) == bv(i), w.g(s, w.TBL) == ntab - 1, w.bucket_done(s, 3)))

    def cur(s, l):
        i = sx(l.var('i'))
        return z3.And(i >= 0, i < S.n, bv(l.var('xatom')) == S.atom(i), z3.Or(sx(l.var('negflag')) == 0, sx(l.var('negflag')) == 1), (sx(l.var('negflag')) != 0) == S.neg(i), wanted(i), w.g(s, w.LIT) == i,
                      pref.kept(s, S.atom(i)), sx(l.var('preflen')) == PS.k(PREF(S.atom(i))), PS.k(PREF(S.atom(i))) >= 1, PS.k(PREF(S.atom(i))) <= 3)
    focus = lambda s: T.gget(s, 'queryfocus_strat') != 0

    def inv_i(X, s, l):
        i = sx(l.var('i'))
        return [('range', z3.And(i >= 0, i <= S.n)), S.free(s), ('literal-looked-up-everywhere', z3.Or(i == 0, focus(s), served(s, i - 1)))]

    def head_i(X, s, l, ph):
        i = sx(l.var('i'))
        s.ghost['i'] = i
        s.assume(S.lit(s, i))

    def inv_d(X, s, l):
        d = sx(l.var('dbused'))
        return [('literal', cur(s, l)), ('range', z3.And(d >= 0, d <= ntab)), S.free(s),
                ('tables-so-far', z3.If(d == 0, w.bucket_done(s, 0), z3.And(w.g(s, w.TBL) == d - 1, w.bucket_done(s, 3))))]

    def head_d(X, s, l, ph):
        s.ghost['i'] = sx(l.var('i'))
        d = s.ghost['d'] = sx(l.var('dbused'))
        # the next table
        w.set(s, w.TBL, z3.If(d < ntab, d, w.g(s, w.TBL)))
        w.set(s, w.CNT, z3.If(d < ntab, bv(0), w.g(s, w.CNT)))

    def common(s, l):
        d = sx(l.var('dbused'))
        return [('literal', cur(s, l)), ('range', z3.And(d >= 0, d < ntab, w.g(s, w.TBL) == d)), S.free(s),
                ('table-of-opposite-sign', bv(l.var('hashvec')) == opened_at(s, l))]

    def opened_at(s, l):
        d, ng = sx(l.var('dbused')), S.neg(sx(l.var('i')))
        own = z3.If(ng, tabs[False, False], tabs[True, False])
        return z3.If(d == 0, own, z3.If(ng, tabs[False, True], tabs[True, True])) if kb else own

    def inv_p(X, s, l):
        p = sx(l.var('plen'))
        return common(s, l) + [('buckets-so-far', z3.And(p >= 0, p <= 3, w.bucket_done(s, p)))]

    def inv_n(X, s, l):
        n, p = bv(l.var('node')), sx(l.var('plen'))
        return common(s, l) + [('entry-at-hand', z3.And(n == w.g(s, w.CUR), (n & 7) == 0, z3.ULT(n, 1 << 46), p >= 0, p < 3, w.g(s, w.CNT) == p + 1, w.g(s, w.TRIED) == 0))]

    def head_p(X, s, l, ph):
        s.ghost['i'], s.ghost['d'] = sx(l.var('i')), sx(l.var('dbused'))

    def head_n(X, s, l, ph):
        head_p(X, s, l, ph)
        s.ghost['uni'] = None
        s.assume(z3.And(WF(w.fld(s, 'TERM_POS')), isrec(w.fld(s, 'TERM_POS')), (w.fld(s, 'CL_POS') & 7) == 0, z3.ULT(w.fld(s, 'CL_POS'), 1 << 46)))
    x.loops['wr_resolve_binary_all_active'] = [LoopSpec(inv_i, head_i), LoopSpec(inv_d, head_d, cut=True), LoopSpec(inv_p, head_p, cut=True), LoopSpec(inv_n, head_n, cut=True)]
    f = start(x, 'wr_resolve_binary_all_active')

    def posts(s, v):
        return [('every-literal-is-looked-up-everywhere', z3.Or(w.g(s, w.STOP) != 0, focus(s), served(s, S.n - 1)))]
    x.run(f, st, [Ptr(T.G, 0), Ptr(T.DB, S.c), S.act, Ptr(RV, 0)], ret_check(x, posts))


@contract('strongly_cut_atom', SF, label='lookup:units', files=['Reasoner/clterm.c'], props=['C12', 'C24'], timeout=200)
def c_look_unit(x):
    x.incremental = True
    st, T, gh = setup(x, vals=[fz])
    k = x.build.probe(HDR, ['CLTERM_HASHNODE_TERM_POS', 'CLTERM_HASHNODE_CL_POS'])
    st.mem[T.G.id].cells.pop(T.off['tmp_unify_vc'], None)
    w = Walk(x, st, T, k)
    xa = z3.BitVec('xatom', 64)
    st.assume(z3.And(WF(xa), isrec(xa), T.top(st) == 2))
    HV = x.region(st, 'hashvec', size=None)
    w.open = lambda X, s: (HV.base, xa)

    class S_:
        pass
    S_.x, S_.T = x, T

    def note(X, s, t, p):
        X.oblig(s, 'prefix-of-the-literal', t == xa, 'call')
    pref = x.calls['wr_atom_calc_prefhashes'] = h_prefs(S_, note)
    st.ghost['hit'] = None

    def attempt(X, s, a, ins):
        X.oblig(s, 'tries-the-literal-against-the-entry', z3.And(z3.Or(z3.And(bv(a[1]) == xa, bv(a[2]) == w.fld(s, 'TERM_POS')), z3.And(bv(a[2]) == xa, bv(a[1]) == w.fld(s, 'TERM_POS'))), w.g(s, w.CUR) != 0), 'call')
        X.havoc_region(s, T.VB)
        X.havoc_region(s, T.VS)
        r = X.fresh('ures', int(ins['ty'][1]) if ins['ty'][0] == 'int' else 64)
        if r.size() == 64:
            s.assume((r != 0) == (z3.Extract(31, 0, r) != 0))
        # an entry that fits is the answer
        w.set(s, w.TRIED, z3.If(r == 0, bv(1), bv(0)))
        return r
    x.calls['wr_match_term'] = attempt
    x.calls['wr_unify_term'] = attempt

    def clear(X, s, a, ins):
        X.havoc_region(s, T.VB)
        X.store(s, Ptr(T.VS, 8), 8, bv(2))
        return None
    x.calls['wr_clear_varstack'] = clear
    pl = lambda l: z3.And(sx(l.var('preflen')) == PS.k(PREF(xa)), PS.k(PREF(xa)) >= 1, PS.k(PREF(xa)) <= 3)

    def inv_p(X, s, l):
        p = sx(l.var('plen'))
        return [('prefix', z3.And(pl(l), pref.kept(s, xa))), ('buckets-so-far', z3.And(p >= 0, p <= 3, w.bucket_done(s, p)))]

    def inv_n(X, s, l):
        n, p = bv(l.var('node')), sx(l.var('plen'))
        return [('prefix', z3.And(pl(l), pref.kept(s, xa))), ('entry-at-hand', z3.And(n == w.g(s, w.CUR), (n & 7) == 0, z3.ULT(n, 1 << 46), p >= 0, p < 3, w.g(s, w.CNT) == p + 1, w.g(s, w.TRIED) == 0))]

    def head_n(X, s, l, ph):
        s.assume(z3.And(WF(w.fld(s, 'TERM_POS')), isrec(w.fld(s, 'TERM_POS')), (w.fld(s, 'CL_POS') & 7) == 0, w.fld(s, 'CL_POS') != 0, z3.ULT(w.fld(s, 'CL_POS'), 1 << 46)))
    x.loops['strongly_cut_atom'] = [LoopSpec(inv_p), LoopSpec(inv_n, head_n)]
    f = start(x, 'strongly_cut_atom')
    x.assumptions.append(NOPREF)

    def posts(s, v):
        null = ptr_int(v) == 0 if isinstance(v, Ptr) else bv(v) == 0
        return [('none-only-after-every-bucket-was-searched', z3.Implies(null, w.bucket_done(s, 3)))]
    x.run(f, st, [Ptr(T.G, 0), xa, Ptr(HV, 0), z3.BitVec('usematch', 32)], ret_check(x, posts))


# ---- the lists

NXT = z3.Function('NXT', A, BV64, BV64, BV64)       # k-th entry of the list that starts at n


@contract('wr_clterm_add_hashlist_withpath', HF, label='list:add', props=['C12', 'C19'], timeout=120)
def c_list_add(x):
    x.incremental = True
    st, T, gh = setup(x, vals=[fz])
    k = x.build.probe(HDR, ['CLTERM_HASHNODE_' + n for n in ('LEN_POS', 'TERM_POS', 'CL_POS', 'PATH_POS', 'NEXT_POS', 'GINT_NR')])
    P = lambda n: 8 * k['CLTERM_HASHNODE_%s_POS' % n]
    T.DB.ro = False
    HV = x.region(st, 'hashvec', size=None)
    hv0 = x.arr(st, HV)
    n, h, t, c = z3.BitVecs('n!table hash term clause', 64)
    path = z3.BitVec('path', 32)
    st.assume(z3.And(z3.Select(hv0, bv(0)) == n, n > 1, n < (1 << 40), t != 0, c != 0, (c & 7) == 0, z3.ULT(c, 1 << 46)))
    HV.size = norm((n + 1) << 3)
    top = z3.BitVec('nodes!end', 64)        # entries in use are below
    cell = z3.Select(hv0, h << 3)
    m0 = x.arr(st, T.DB)
    st.assume(z3.And((top & 7) == 0, z3.ULT(top, 1 << 45), top > 64, z3.Implies(z3.And(h >= 1, h < n, cell != 0), z3.And(cell > 0, (cell & 7) == 0, cell + 8 * k['CLTERM_HASHNODE_GINT_NR'] <= top))))
    st.ghost['top'] = top
    st.ghost['failed'] = z3.BoolVal(False)

    def alloc(X, s, a, ins):
        """node:alloc"""
        q = X.fresh('newnode', 64)
        f = s.copy()
        f.ghost['failed'] = z3.BoolVal(True)
        s.assume(z3.And((q & 7) == 0, q >= s.ghost['top'], q < s.ghost['top'] + 64))
        s.ghost['top'] = q + 8 * k['CLTERM_HASHNODE_GINT_NR']
        return [(f, NULL), (s, Ptr(T.DB, q))]
    x.calls['wr_clterm_alloc_hashnode'] = alloc
    ENC = z3.Function('ENCPATH', z3.BitVecSort(32), BV64)
    x.calls['wg_encode_int'] = lambda X, s, a, i: ENC(z3.Extract(31, 0, bv(a[1])))
    x.noop += ['wr_sys_exiterr*', 'wr_printf', 'wr_print_*']
    x.assumptions += ['entries of the lists are below the end of the node memory in use', 'encoding a path number does not change existing memory (C08)']
    q, h2 = z3.BitVecs('Q!address H!slot', 64)
    f = start(x, 'wr_clterm_add_hashlist_withpath')

    def posts(s, v):
        ok = bv(v, 32) == 0
        hv, m = x.arr(s, HV), x.arr(s, T.DB)
        head = z3.Select(hv, h << 3)
        fld = lambda p, f: z3.Select(m, p + P(f))
        node = fld(head, 'NEXT')
        imp = lambda f: z3.Implies(ok, f)
        return [('accepted-unless-out-of-range-or-memory', z3.Or(ok, s.ghost['failed'], h < 1, h >= n)),
                ('only-in-range', imp(z3.And(h >= 1, h < n))),
                ('other-slots-unchanged', z3.Implies(z3.And(h2 >= 0, h2 <= n, h2 != h), z3.Select(hv, h2 << 3) == z3.Select(hv0, h2 << 3))),
                ('head-kept', imp(z3.And(head != 0, z3.Implies(cell != 0, head == cell)))),
                ('first-entry-is-the-new-one', imp(z3.And(node >= top, fld(node, 'TERM') == t, fld(node, 'CL') == c, fld(node, 'PATH') == ENC(path)))),
                ('the-old-list-follows', imp(fld(node, 'NEXT') == z3.If(cell == 0, bv(0), z3.Select(m0, cell + P('NEXT'))))),
                ('length-is-counted', imp(fld(head, 'LEN') == z3.If(cell == 0, bv(1), z3.Select(m0, cell + P('LEN')) + 1))),
                ('rest-of-memory-unchanged', z3.Implies(z3.And((q & 7) == 0, q >= 0, q < top, z3.Or(z3.Not(ok), cell == 0, z3.And(q != cell + P('LEN'), q != cell + P('NEXT'))), z3.Or(ok, cell == 0, q != cell + P('LEN'))), z3.Select(m, q) == z3.Select(m0, q)))]
    x.run(f, st, [Ptr(T.G, 0), Ptr(HV, 0), h, t, Ptr(T.DB, c), path], ret_check(x, posts))


@contract('wr_clterm_hashlist_next', HF, label='list:walk', props=['C12', 'C19'], timeout=60)
def c_list_walk(x):
    st, T, gh = setup(x, vals=[fz])
    k = x.build.probe(HDR, ['CLTERM_HASHNODE_' + n for n in ('LEN_POS', 'TERM_POS', 'CL_POS', 'PATH_POS', 'NEXT_POS')])
    P = lambda n: 8 * k['CLTERM_HASHNODE_%s_POS' % n]
    HV = x.region(st, 'hashvec', size=None)
    hv0, m0 = x.arr(st, HV), x.arr(st, T.DB)
    n, h, e = z3.BitVecs('n!table hash entry', 64)
    cell = z3.Select(hv0, h << 3)
    HV.size = norm((n + 1) << 3)
    good = lambda p: z3.And(p > 0, (p & 7) == 0, z3.ULT(p, 1 << 45))
    st.assume(z3.And(z3.Select(hv0, bv(0)) == n, n > 1, n < (1 << 40), good(e), z3.Implies(z3.And(h >= 1, h < n, cell != 0), good(cell))))
    inr = z3.And(h >= 1, h < n)
    same = lambda s: ('nothing-changed', z3.And(x.arr(s, HV) == hv0, x.arr(s, T.DB) == m0))
    f = start(x, 'wr_clterm_hashlist_next')
    x.run(f, st.copy(), [Ptr(T.G, 0), Ptr(HV, 0), e], ret_check(x, lambda s, v: [('the-following-entry', bv(v) == z3.Select(m0, e + P('NEXT'))), same(s)]))
    f = start(x, 'wr_clterm_hashlist_start')
    x.run(f, st.copy(), [Ptr(T.G, 0), Ptr(HV, 0), h], ret_check(x, lambda s, v: [('the-first-entry', z3.Implies(inr, bv(v) == z3.If(cell == 0, bv(0), z3.Select(m0, cell + P('NEXT'))))), same(s)]))
    f = start(x, 'wr_clterm_hashlist_len')
    x.run(f, st.copy(), [Ptr(T.G, 0), Ptr(HV, 0), h], ret_check(x, lambda s, v: [('the-length', z3.Implies(inr, bv(v, 32) == z3.If(cell == 0, 0, z3.Extract(31, 0, z3.Select(m0, cell + P('LEN')))))), same(s)]))


@lemma('list-insert')
def l_list(x, st, T):
    """after list:add the list is the new entry followed by the old list; every other list is what it was"""
    k = x.build.probe(HDR, ['CLTERM_HASHNODE_NEXT_POS'])['CLTERM_HASHNODE_NEXT_POS'] * 8
    m0, m1 = z3.Array('m0', BV64, BV64), z3.Array('m1', BV64, BV64)
    i, a, node = z3.BitVecs('i first node', 64)
    step = lambda m, e: z3.If(e == 0, bv(0), z3.Select(m, e + k))
    x.defs_.rule(NXT, lambda m, e, i: [z3.Implies(i == 0, NXT(m, e, i) == e), z3.Implies(i > 0, NXT(m, e, i) == step(m, NXT(m, e, i - 1)))])
    st.assume(z3.And(i >= 0, i < (1 << 40)))
    u, v = NXT(m0, a, i), NXT(m1, a, i)
    s1 = st.copy()
    # the entries of the old list are old: their successors are unchanged
    s1.assume(z3.And(u == v, z3.Implies(u != 0, z3.Select(m1, u + k) == z3.Select(m0, u + k))))
    x.oblig(s1, 'step:other-list', NXT(m1, a, i + 1) == NXT(m0, a, i + 1), 'induction on the position', kind='lemma')
    x.oblig(st, 'base:other-list', NXT(m1, a, bv(0)) == NXT(m0, a, bv(0)), 'induction on the position', kind='lemma')
    s2 = st.copy()
    s2.assume(z3.And(node != 0, z3.Select(m1, node + k) == a))
    x.oblig(s2, 'base:this-list', NXT(m1, node, bv(1)) == NXT(m0, a, bv(0)), 'induction on the position', kind='lemma')
    w = NXT(m1, node, i + 1)
    s2.assume(z3.And(w == u, z3.Implies(u != 0, z3.Select(m1, u + k) == z3.Select(m0, u + k))))
    x.oblig(s2, 'step:this-list', NXT(m1, node, i + 2) == NXT(m0, a, i + 1), 'induction on the position', kind='lemma')


@contract('wr_alloc_from_cvec', 'Reasoner/mem.c', label='node:alloc', props=['C12', 'C19'], timeout=60)
def c_alloc(x):
    st, T, gh = setup(x, fields=['alloc_err'], vals=[fz])
    b = x.region(st, 'buf', size=None)
    m0 = x.arr(st, b)
    ln, nx, n, q = z3.BitVecs('len next gints Q!address', 64)
    k = x.build.probe(HDR + '#include "Reasoner/mem.h"\n', ['VEC_ALIGNMENT_BYTES', 'sizeof(gint)'])
    st.assume(z3.And(z3.Select(m0, bv(0)) == ln, z3.Select(m0, bv(8)) == nx, nx >= 2, nx < (1 << 40), ln >= 2, ln < (1 << 40), n >= 1, n < (1 << 20), (b.base & 7) == 0))
    b.size = norm((ln + 1) << 3)
    x.noop += ['wr_alloc_err*', 'wr_printf', 'wr_sys_exiterr*']
    f = start(x, 'wr_alloc_from_cvec')

    def posts(s, v):
        m = x.arr(s, b)
        null = z3.BoolVal(v.r is None) if isinstance(v, Ptr) else bv(v) == 0
        off = bv(v.off) if isinstance(v, Ptr) and v.r is b else bv(0)
        here = z3.Not(null)
        return [('inside-the-buffer', z3.Implies(here, z3.And(z3.BoolVal(isinstance(v, Ptr) and (v.r is b or v.r is None)), off >= 16, off + (n << 3) <= (ln + 1) << 3))),
                ('not-handed-out-before', z3.Implies(here, off >= nx << 3)), ('handed-out-once', z3.Implies(here, z3.And(z3.Select(m, bv(8)) << 3 == off + (n << 3), (off & 7) == 0))),
                ('little-is-wasted', z3.Implies(here, off <= (nx + 1) << 3)),
                ('buffer-unchanged', z3.Implies(z3.And(q != 8, (q & 7) == 0), z3.Select(m, q) == z3.Select(m0, q))),
                ('lack-of-memory-is-reported', z3.Implies(null, z3.And(T.gget(s, 'alloc_err') != 0, z3.Select(m, bv(8)) == nx)))]
    x.run(f, st, [Ptr(T.G, 0), Ptr(b, 0), n], ret_check(x, posts))
