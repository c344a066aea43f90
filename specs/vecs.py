"""Contracts for the growing vectors of Reasoner/mem.c: [0] length, counted vectors [1] next free position."""
from index import *

MEMF = 'Reasoner/mem.c'
VL = 1 << 26


def grow_handlers(x, T, old):
    """wr_realloc, wr_malloc, wr_calloc by contract: NULL, or a block of the size asked for (with the old contents / zeroes)"""
    def realloc(X, s, args, ins):
        p = X.resolve_ptr(s, args[1], 'call')
        n = sx(args[2])
        X.oblig(s, 'realloc:the-block-itself', z3.And(z3.BoolVal(p.r is old['r']), bv(p.off) == 0), 'call')
        X.oblig(s, 'realloc:block-grows', z3.And(n >= old['size'], n > 0), 'call')
        f = s.copy()
        r = X.region(s, 'grown', size=norm(n), arr=X.arr(s, old['r']))
        s.ghost['grown'] = r
        s.ghost['dead'] = [old['r']]
        return [(f, NULL), (s, Ptr(r, 0))]

    def alloc(zero):
        def h(X, s, args, ins):
            n = bv(args[1]) * sx(args[2]) if zero else sx(args[1])
            X.oblig(s, 'alloc:size', z3.And(n > 0, n < (1 << 31)), 'call')
            f = s.copy()
            r = X.region(s, 'newvec', size=norm(n), arr=z3.K(BV64, bv(0)) if zero else None)
            s.ghost['grown'] = r
            return [(f, NULL), (s, Ptr(r, 0))]
        return h
    x.calls['wr_realloc'] = realloc
    x.calls['wr_malloc'] = alloc(False)
    x.calls['wr_calloc'] = alloc(True)
    x.noop += ['wr_alloc_err*', 'wr_printf', 'wr_sys_exiterr*']
    x.assumptions.append('wr_malloc, wr_calloc and wr_realloc: NULL, or a fresh block of the size asked for, zeroed / with the old contents (libc malloc family, or wg_rawalloc under C10)')


def realloc_loop(x, ln, i):
    def inv(X, s, l):
        n = sx(l.var('nlen'))
        return [('length-positive', z3.And(n >= 2, z3.Or(n == ln * 2, n == 2, n <= (i - 1) * 2))), ('fits-an-int', n < (1 << 29))]
    x.loops['wr_vec_realloc'] = [LoopSpec(inv)]


def vecfn(x, fn, counted, given):
    st, T, gh = setup(x, fields=['alloc_err'], vals=[fz])
    ln, nx, e, K = z3.BitVecs('len next element K!position', 64)
    i32 = z3.BitVec('i', 32)
    r = x.region(st, 'vec', size=norm((ln + 1) << 3))
    m0 = x.arr(st, r)
    st.assume(z3.And(z3.Select(m0, bv(0)) == ln, ln >= 1, ln < VL))
    if counted:
        st.assume(z3.And(z3.Select(m0, bv(8)) == nx, nx >= 2, nx <= ln + 1))
    i = sx(i32) if given else nx
    st.assume(z3.And(i >= (2 if counted else 1), i < VL))
    grow_handlers(x, T, {'r': r, 'size': (ln + 1) << 3})
    realloc_loop(x, ln, i)
    f = start(x, fn)

    def posts(s, v):
        null = z3.BoolVal(v.r is None) if isinstance(v, Ptr) else bv(v) == 0
        out = [('lack-of-memory-is-reported', z3.Implies(null, T.gget(s, 'alloc_err') != 0))]
        if isinstance(v, Ptr) and v.r is not None:
            dead = s.ghost.get('dead', [])
            m = x.arr(s, v.r)
            l2 = z3.Select(m, bv(0))
            out += [('result-is-the-vector', z3.And(z3.BoolVal(v.r is s.ghost.get('grown', r) and v.r not in dead), bv(v.off) == 0)),
                    ('length-fits-the-block', z3.And(l2 >= ln, z3.And(l2 >= i, (l2 + 1) << 3 <= bv(v.r.size), l2 <= z3.If(ln >= i, ln, 2 * (ln + i))))),
                    ('earlier-elements-kept', z3.Implies(z3.And(K >= (2 if counted else 1), K <= ln, *([K != i] if fn != 'wr_vec_realloc' else [])), z3.Select(m, K << 3) == z3.Select(m0, K << 3)))]
            if fn != 'wr_vec_realloc':
                out.append(('element-stored', z3.Select(m, i << 3) == e))
            if counted:
                out.append(('next-position', z3.Select(m, bv(8)) == z3.If(nx <= i, i + 1, nx)))
        else:
            m = x.arr(s, r)
            out.append(('nothing-lost-on-failure', z3.Implies(K >= 0, z3.Select(m, K << 3) == z3.Select(m0, K << 3))))
            out.append(('enough-room-never-fails', z3.Implies(null, i > ln)))
        return out
    args = [Ptr(T.G, 0), Ptr(r, 0)] + ([i32] if given else []) + ([e] if fn != 'wr_vec_realloc' else [])
    x.run(f, st, args, ret_check(x, posts))


@contract('wr_vec_realloc', MEMF, label='vec:grow', props=['C19'], timeout=60)
def c_grow(x):
    vecfn(x, 'wr_vec_realloc', False, True)


@contract('wr_vec_store', MEMF, label='vec:store', props=['C19'], timeout=60)
def c_store(x):
    vecfn(x, 'wr_vec_store', False, True)


@contract('wr_cvec_store', MEMF, label='vec:store-counted', props=['C19'], timeout=60)
def c_cstore(x):
    vecfn(x, 'wr_cvec_store', True, True)


@contract('wr_cvec_push', MEMF, label='vec:push', props=['C19'], timeout=60)
def c_cpush(x):
    vecfn(x, 'wr_cvec_push', True, False)


def newfn(fn, counted, zero):
    def c(x):
        st, T, gh = setup(x, fields=['alloc_err'], vals=[fz])
        n32 = z3.BitVec('n', 32)
        n, K = sx(n32), z3.BitVec('K!position', 64)
        st.assume(z3.And(n >= 1, n < VL))
        grow_handlers(x, T, {})
        f = start(x, fn)

        def posts(s, v):
            null = z3.BoolVal(v.r is None) if isinstance(v, Ptr) else bv(v) == 0
            out = [('lack-of-memory-is-reported', z3.Implies(null, T.gget(s, 'alloc_err') != 0))]
            if isinstance(v, Ptr) and v.r is not None:
                m = x.arr(s, v.r)
                out += [('a-new-vector', z3.And(z3.BoolVal(v.r is s.ghost.get('grown')), bv(v.off) == 0, z3.Select(m, bv(0)) == n, (n + 1) << 3 <= bv(v.r.size)))]
                if counted:
                    out.append(('next-position', z3.Select(m, bv(8)) == 2))
                if zero:
                    out.append(('elements-zero', z3.Implies(z3.And(K >= (2 if counted else 1), K <= n), z3.Select(m, K << 3) == 0)))
            return out
        x.run(f, st, [Ptr(T.G, 0), n32], ret_check(x, posts))
    contract(fn, MEMF, label='vec:' + fn[3:].replace('_', '-'), props=['C19'], timeout=60)(c)


newfn('wr_vec_new', False, True)
newfn('wr_vec_new_zero', False, True)
newfn('wr_cvec_new', True, False)
newfn('wr_cvec_new_zero', True, True)


# ---- hash values of terms and strings

TH = z3.Function('TH', U, BV64)             # hash of a term
TS = z3.Function('TS', U, BV64, BV64)       # ... of its arguments below i, unfinished
VHASH = z3.Function('VHASH', U, BV64)       # hash of a variable
NORMH = z3.Function('NORMH', BV64, BV64)      # absolute value of the remainder by the table size - 2
STEPH = z3.Function('STEPH', BV64, BV64, BV64)   # one more argument: absolute value of HADD
absv = lambda h: z3.If(h < 0, -h, h)


def th_rules(D, FIRST, N):
    D.rule(TH, lambda u: [z3.Implies(kind(u) == 6, TH(u) == VHASH(u)), z3.Implies(z3.And(kind(u) >= 1, kind(u) <= 4), TH(u) == KH(u)),
                          z3.Implies(kind(u) == 5, TH(u) == NORMH(TS(u, nargs(u))))])
    D.rule(TS, lambda u, i: [z3.Implies(i <= FIRST, TS(u, i) == 0),
                             z3.Implies(i > FIRST, TS(u, i) == STEPH(TH(arg(u, i - 1)), TS(u, i - 1)))])


@contract('wr_term_hash', HF, label='hash:term', files=['Reasoner/clterm.c'], props=['C19'], timeout=120)
def c_termhash(x):
    """the hash is a function of the term (equal terms have equal hashes), inside the range of the tables"""
    st, T, gh = setup(x, vals=[fz])
    x.incremental = True
    N = NELS(x)
    th_rules(x.defs_, T.FIRST, N)
    hb = h_base(x, T)
    t = z3.BitVec('x', 64)
    st.assume(WF(t))

    def base(X, s, args, ins):
        e = bv(args[1])
        r = z3.FreshConst(BV64, 'basehash')
        X.oblig(s, 'pre:hash-of-a-constant-or-variable', z3.And(z3.Not(isrec(e)), WF(e)), 'call')
        s.assume(z3.And(r == z3.If(isvar(e), VHASH(fz(e)), KH(fz(e))), r >= 1, r <= N - 2))
        return r

    def rec(X, s, args, ins):
        e = bv(args[1])
        X.oblig(s, 'pre:term', WF(e), 'call')
        h = s.ghost['h']
        s.assume(STEPH(TH(fz(e)), h) == absv(HADD(TH(fz(e)), h)))      # definition of STEPH
        s.assume(z3.And(TH(fz(e)) >= 0, TH(fz(e)) <= N - 2))
        return TH(fz(e))
    x.calls['wr_term_basehash'] = base
    x.calls['wr_term_hash'] = rec

    def inv(X, s, l):
        i = sx(l.var('i'))
        return [('range', z3.And(i >= 3 + T.FIRST, i <= T.length(t) + 3, isrec(t))), ('hash-of-the-arguments-so-far', bv(l.var('hash')) == TS(fz(t), i - 3))]

    def head(X, s, l, ph):
        s.ghost['h'] = bv(l.var('hash'))
    x.loops['wr_term_hash'] = [LoopSpec(inv, head)]
    f = start(x, 'wr_term_hash')

    def posts(s, v):
        if not is_c(v):
            for r in srems(v):
                x.require(s, 'remainder-by-the-table-size', r.arg(1) == N - 2, 'return')
                s.assume(NORMH(r.arg(0)) == absv(r))        # definition of NORMH
        return [('hash-of-the-term', bv(v) == TH(fz(t))), ('in-range', z3.And(bv(v) >= 0, bv(v) <= N - 2))]
    x.run(f, st, [Ptr(T.G, 0), t], ret_check(x, posts))


SHF = z3.Function('SHF', z3.ArraySort(BV64, z3.BitVecSort(8)), BV64, BV64, BV64)   # hash of the characters below i, starting from a hash


def strhash(x, fn, null1, null2):
    """the hash is a function of the characters before the terminating zero, no others are read"""
    st, T, gh = setup(x, vals=[fz])
    x.incremental = True
    dual = fn == 'str_dual_hash'
    x.defs_.rule(SHF, lambda a, h, i: [z3.Implies(i <= 0, SHF(a, h, i) == h),
                                       z3.Implies(i > 0, SHF(a, h, i) == HADDS(SHF(a, h, i - 1), z3.Select(a, i - 1)))])
    strs = []
    for nm, nul in (('first', null1), ('second', null2))[:2 if dual else 1]:
        n = z3.BitVec('length!' + nm, 64)
        st.assume(z3.And(n >= 0, n < (1 << 40)))
        r = x.region(st, nm, size=norm(n + 1), kind='bytes')
        c = x.arr(st, r)
        k = z3.BitVec('k!' + nm, 64)
        st.assume(z3.Select(c, n) == 0)

        def ld(X, s, off, nb, v, c=c, n=n):
            s.assume(z3.Implies(z3.And(bv(off) >= 0, bv(off) < n), z3.Select(c, bv(off)) != 0))
        r.on_load = ld
        strs.append((r, n, c, nul))
    h0 = [bv(0)]
    for r, n, c, nul in strs:
        h0.append(h0[-1] if nul else SHF(c, h0[-1], n))

    def mk(q):
        r, n, c, nul = strs[q]

        def inv(X, s, l):
            p = X.resolve_ptr(s, l.var('xy'[q]), 'loop')
            off = bv(p.off)
            return [('inside-the-string', z3.And(z3.BoolVal(p.r is r), off >= 0, off <= n)), ('hash-of-the-characters-so-far', bv(l.var('hash')) == SHF(c, h0[q], off))]
        return LoopSpec(inv)
    x.loops[fn] = [mk(q) for q in range(len(strs))]
    f = start(x, fn)
    x.run(f, st, [NULL if nul else Ptr(r, 0) for r, n, c, nul in strs], ret_check(x, lambda s, v: [('hash-of-the-characters', bv(v, 32) == z3.Extract(31, 0, h0[-1]))]))


def HADDS(h, c):
    return z3.SignExt(56, c) + (h << 6) + (h << 16) - h


@contract('str_hash', HF, label='hash:string', props=['C12', 'C19'], timeout=60)
def c_strhash(x):
    for nul in (False, True):
        strhash(x, 'str_hash', nul, False)


@contract('str_dual_hash', HF, label='hash:dual-string', props=['C12', 'C19'], timeout=60)
def c_strdual(x):
    for a in (False, True):
        for b in (False, True):
            strhash(x, 'str_dual_hash', a, b)
