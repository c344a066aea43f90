"""Contracts for Reasoner/unify.c."""
from terms import *

UF = 'Reasoner/unify.c'
DD = 'Db/dbdata.c'
W64 = ('int', 64)


def sx(v, w=32):
    if is_c(v):
        return bv(sgn(v, w))
    return z3.SignExt(64 - v.size(), v) if v.size() < 64 else v


class Snap:
    """bindings and trail at one point"""

    def __init__(self, T, st):
        self.vb = T.vb(st)
        self.vs = T.vs(st)
        self.top = bv(z3.simplify(z3.Select(self.vs, bv(8))))


class Ghost:
    def __init__(self, T):
        self.C = z3.BitVec('C!cell', 64)      # arbitrary cell (byte offset in the banks)
        self.LO = z3.BitVec('LO!trail', 64)   # arbitrary trail position
        self.K = z3.BitVec('K!trail', 64)
        self.T = T
        self.addr = T.VB.base + self.C

    def dom(self):
        return [z3.ULT(self.C, 8 * self.T.nvars), (self.C & 7) == 0, self.LO >= 2, self.K >= 2]


def trail_posts(T, gh, s0, s1):
    """nothing but logged cells changed, only unassigned cells were bound, the trail only grew"""
    c0, c1 = z3.Select(s0.vb, gh.C), z3.Select(s1.vb, gh.C)
    l0, l1 = LOG(s0.vs, gh.LO, s0.top, gh.addr), LOG(s1.vs, gh.LO, s1.top, gh.addr)
    k0, k1 = z3.Select(s0.vs, gh.K << 3), z3.Select(s1.vs, gh.K << 3)
    pre = gh.LO <= s0.top
    return [
        ('trail-grows', z3.And(s1.top >= s0.top, s1.top < (1 << 40))),
        ('changed-cell-was-unassigned-and-logged', z3.Implies(z3.And(pre, c0 != c1), z3.And(c0 == UNASSIGNED, l1))),
        ('old-log-kept', z3.Implies(z3.And(pre, l0), l1)),
        ('new-log-only-unassigned', z3.Implies(z3.And(pre, l1, z3.Not(l0)), c0 == UNASSIGNED)),
        ('new-entries-are-cells', z3.Implies(z3.And(gh.K >= s0.top, gh.K < s1.top),
                                             z3.And(z3.ULT(k1 - T.VB.base, 8 * T.nvars), ((k1 - T.VB.base) & 7) == 0))),
        ('old-entries-kept', z3.Implies(gh.K < s0.top, k0 == k1)),
    ]


def unify_posts(T, gh, s0, s1, a, b, ok):
    return [
        ('bindings-wellformed', WFB(s1.vb)),
        ('sound-and-most-general', z3.Implies(ok, SAT(s1.vb) == z3.And(SAT(s0.vb), val(a) == val(b)))),
        ('fails-only-if-not-unifiable', z3.Implies(z3.Not(ok), z3.Not(z3.And(SAT(s0.vb), val(a) == val(b))))),
    ] + trail_posts(T, gh, s0, s1)


def frag_pre(T, st):
    """trail capacity assumption"""
    T.x.assumptions.append('the trail vector is long enough for every variable of the banks (entries are only ever added for unassigned cells)')


def h_equal_prims(T):
    def h(x, st, args, ins):
        _, a, b, u = args
        a, b = bv(a), bv(b)
        x.oblig(st, 'pre:equal_ptr_primitives', z3.And(isc(a), isc(b), WF(a), WF(b), a != b, sx(u) != 0), 'call')
        r = x.fresh('eqprim', 32)
        for f in T.vals:
            st.assume((r != 0) == (f(a) == f(b)))
        return r
    return h


def mac_pre(T, a, b):
    m = a & 7
    ptr = lambda t: z3.And(t != 0, (t & 3) != 3)
    return z3.And(WF(a), WF(b), a != b, m != 4, m != 3, m != 7, ptr(a), ptr(b), (a & 3) == (b & 3))


def h_macroaux(T):
    def h(x, st, args, ins):
        _, a, b, u = args
        a, b = bv(a), bv(b)
        x.oblig(st, 'pre:equal_term_macroaux', z3.And(mac_pre(T, a, b), sx(u) != 0), 'call')
        r = x.fresh('meq', 64)
        st.assume((r != 0) == (fz(a) == fz(b)))
        return r
    return h


def h_eqterm(T, f):
    def h(x, st, args, ins):
        _, a, b, u = args
        a, b = bv(a), bv(b)
        x.oblig(st, 'pre:equal_term', z3.And(WF(a), WF(b), sx(u) != 0), 'call')
        r = x.fresh('eqt', 64)
        st.assume((r != 0) == (f(a) == f(b)))
        return r
    return h


def match_posts(T, gh, s0, s1, a, b, ok):
    return [
        ('bindings-wellformed', WFB(s1.vb)),
        ('success-binds-exactly-the-matching-substitution', z3.Implies(ok, SATM(s1.vb) == z3.And(SATM(s0.vb), val(a) == fz(b)))),
        ('fails-only-if-no-instance', z3.Implies(z3.Not(ok), z3.Not(z3.And(SATM(s0.vb), val(a) == fz(b))))),
    ] + trail_posts(T, gh, s0, s1)


def h_match(T, gh):
    def h(x, st, args, ins):
        _, a, b, u = args
        a, b = bv(a), bv(b)
        s0 = Snap(T, st)
        x.oblig(st, 'pre:match', z3.And(WF(a), WF(b), WFB(s0.vb), sx(u) != 0, s0.top >= 2, s0.top < (1 << 40), z3.BoolVal(vc_ok(T, st))), 'call')
        x.havoc_region(st, T.VB)
        x.havoc_region(st, T.VS)
        s1 = Snap(T, st)
        r = x.fresh('mat', 64)
        for n, f in match_posts(T, gh, s0, s1, a, b, r != 0):
            st.assume(f)
        return r
    return h


def h_varval(T):
    def h(x, st, args, ins):
        a, vbp = args
        a = bv(a)
        x.oblig(st, 'pre:varval', z3.And(isvar(a), WF(a), WFB(T.vb(st)), z3.BoolVal(vbp.r is T.VB and vbp.off == 0)), 'call')
        return DEREF(T.vb(st), a)
    return h


def h_occurs(T):
    def h(x, st, args, ins):
        _, v, y, vbp = args
        v, y = bv(v), bv(y)
        vb = T.vb(st)
        x.oblig(st, 'pre:occurs_in', z3.And(isvar(v), WF(v), isrec(y), WF(y), WFB(vb), z3.Select(vb, voff(v)) == UNASSIGNED,
                                            z3.BoolVal(vbp.r is T.VB and vbp.off == 0)), 'call')
        r = x.fresh('occ', 64)
        st.assume((r != 0) == OCCP(vb, v, y, T.length(y)))
        return r
    return h


def vc_ok(T, st):
    p = T.x.load(st, Ptr(T.G, T.off['tmp_unify_vc']), 8, ('ptr',))
    return isinstance(p, Ptr) and p.r is T.VS and p.off == 8


def h_unify(T, gh):
    def h(x, st, args, ins):
        _, a, b, u = args
        a, b = bv(a), bv(b)
        s0 = Snap(T, st)
        oc = [T.gget(st, f) == 1 for f in ('tmp_unify_do_occcheck', 'tmp_unify_occcheck')]
        x.oblig(st, 'pre:unify', z3.And(WF(a), WF(b), WFB(s0.vb), sx(u) != 0, s0.top >= 2, s0.top < (1 << 40),
                                        z3.BoolVal(vc_ok(T, st)), *oc), 'call')
        x.havoc_region(st, T.VB)
        x.havoc_region(st, T.VS)
        s1 = Snap(T, st)
        r = x.fresh('uni', 64)
        for n, f in unify_posts(T, gh, s0, s1, a, b, r != 0):
            st.assume(f)
        return r
    return h


def setup(x, fields=None, vals=None, satm=False):
    st = State()
    T = Terms(x, st, fields, vals, satm)
    gh = Ghost(T)
    for f in gh.dom():
        st.assume(f)
    x.calls['wr_equal_ptr_primitives'] = h_equal_prims(T)
    x.calls['wr_varval'] = h_varval(T)
    x.calls['wr_occurs_in'] = h_occurs(T)
    x.calls['wr_unify_term_aux'] = h_unify(T, gh)
    x.calls['wr_equal_term_macroaux'] = h_macroaux(T)
    return st, T, gh


def start(x, fnname):
    f = x.prog.funcs_any.get(fnname)
    if f is None:
        raise AttachError('function %s not found' % fnname)
    x.calls_saved = x.calls
    return f


def ret_check(x, posts):
    """on_ret callback building obligations from posts(st, v)"""
    def on_ret(X, st, v):
        for n, f in posts(st, v):
            X.oblig(st, 'post:' + n, f, 'return', kind='contract')
        if X.cover < 3:
            ack_cover(X, st)
    return on_ret


@contract('wr_equal_ptr_primitives', UF, files=[DD], props=['C01', 'C02', 'C03'])
def c_eqprims(x):
    st, T, gh = setup(x)
    del x.calls['wr_equal_ptr_primitives']
    a, b = z3.BitVecs('a b', 64)
    st.assume(z3.And(isc(a), isc(b), WF(a), WF(b), a != b))
    f = start(x, 'wr_equal_ptr_primitives')
    x.assumptions.append('uniquestrflag is 1 at every caller (long strings are interned, see the string store property)')

    def posts(s, v):
        return [('true-iff-same-constant', (bv(v, 32) != 0) == (val(a) == val(b)))]
    x.run(f, st, [Ptr(T.G, 0), a, b, 1], ret_check(x, posts))


@contract('wr_varval', UF, props=['C01', 'C02'])
def c_varval(x):
    st, T, gh = setup(x)
    del x.calls['wr_varval']
    a = z3.BitVec('x', 64)
    vb = T.vb(st)
    st.assume(z3.And(isvar(a), WF(a), WFB(vb)))

    def inv(X, s, l):
        y = bv(l.var('y'))
        return [('same-end', DEREF(vb, y) == DEREF(vb, a)), ('is-var', z3.And(isvar(y), WF(y)))]
    x.loops['wr_varval'] = [LoopSpec(inv)]
    f = start(x, 'wr_varval')
    x.run(f, st, [a, Ptr(T.VB, 0)], ret_check(x, lambda s, v: [('end-of-chain', bv(v) == DEREF(vb, a))]))


@contract('wr_occurs_in', UF, props=['C01'])
def c_occurs(x):
    st, T, gh = setup(x)
    a, y = z3.BitVecs('x y', 64)
    vb = T.vb(st)
    st.assume(z3.And(isvar(a), WF(a), isrec(y), WF(y), WFB(vb), z3.Select(vb, voff(a)) == UNASSIGNED))

    # lemma:occurs-intro and the definition of OCCP at the loaded position
    T.arg_hooks.append(lambda s, t, i, v: [z3.Implies(OCCT(vb, a, v), OCCP(vb, a, t, T.length(t))),
                                           OCCP(vb, a, t, i + 1) == z3.Or(OCCP(vb, a, t, i), OCCT(vb, a, v))])
    x.fuel = 5

    def inv(X, s, l):
        i = sx(l.var('i'))
        return [('range', z3.And(i >= 3 + T.FIRST, i <= sx(l.var('ilimit')), sx(l.var('ilimit')) == T.length(y) + 3)),
                ('not-found-so-far', z3.Not(OCCP(vb, a, y, i - 3)))]
    x.loops['wr_occurs_in'] = [LoopSpec(inv)]
    f = start(x, 'wr_occurs_in')
    x.run(f, st, [Ptr(T.G, 0), a, y, Ptr(T.VB, 0)],
          ret_check(x, lambda s, v: [('true-iff-occurs', (bv(v) != 0) == OCCP(vb, a, y, T.length(y)))]))


def bind_hook(T):
    def h(x, st, off, n, v):
        off = bv(off)
        vb = T.vb(st)
        v = bv(v)
        var = ((off >> 3) << 4) | 7
        x.oblig(st, 'bind:only-unassigned', z3.Select(vb, off) == UNASSIGNED, 'store to variable cell')
        x.oblig(st, 'bind:value-wellformed', z3.And(WF(v), z3.BoolVal(n == 8)), 'store to variable cell')
        x.oblig(st, 'bind:no-cycle', z3.Not(OCCT(vb, var, v)), 'store to variable cell')
    return h


@contract('wr_unify_term_aux', UF, props=['C01', 'C04'], timeout=400)
def c_unify_aux(x):
    st, T, gh = setup(x)
    a, b = z3.BitVecs('x y', 64)
    T.VB.on_store = bind_hook(T)
    T.sset(st, 'tmp_unify_do_occcheck', 1, 4)
    T.sset(st, 'tmp_unify_occcheck', 1, 4)
    s0 = Snap(T, st)
    st.assume(z3.And(WF(a), WF(b), WFB(s0.vb), s0.top >= 2, s0.top < (1 << 39)))
    frag_pre(T, st)

    def inv(X, s, l):
        i = sx(l.var('i'))
        cx, cy = bv(l.var('x')), bv(l.var('y'))
        s1 = Snap(T, s)
        return [('range', z3.And(i >= 3 + T.FIRST, i <= sx(l.var('ilimit')), sx(l.var('ilimit')) == T.length(cx) + 3)),
                ('prefix-unified', SAT(s1.vb) == z3.And(SAT(s0.vb), PE(val(cx), val(cy), i - 3))),
                ('bindings-wellformed', WFB(s1.vb))] + trail_posts(T, gh, s0, s1)
    x.loops['wr_unify_term_aux'] = [LoopSpec(inv)]
    f = start(x, 'wr_unify_term_aux')
    x.run(f, st, [Ptr(T.G, 0), a, b, 1],
          ret_check(x, lambda s, v: unify_posts(T, gh, s0, Snap(T, s), a, b, bv(v) != 0)))


@contract('wr_unify_term', UF, props=['C01', 'C04'], timeout=200)
def c_unify(x):
    st, T, gh = setup(x)
    a, b = z3.BitVecs('x y', 64)
    st.mem[T.G.id].cells.pop(T.off['tmp_unify_vc'], None)
    s0 = Snap(T, st)
    st.assume(z3.And(WF(a), WF(b), WFB(s0.vb), s0.top >= 2, s0.top < (1 << 39)))
    f = start(x, 'wr_unify_term')
    x.run(f, st, [Ptr(T.G, 0), a, b, 1],
          ret_check(x, lambda s, v: [('answer-fits-an-int', (bv(v) != 0) == (z3.Extract(31, 0, bv(v)) != 0))] + unify_posts(T, gh, s0, Snap(T, s), a, b, bv(v) != 0)))


def eq_contract(fn, spec, pre=None, self_h=None, label=None):
    @contract(fn, UF, files=[DD], props=['C03'], timeout=120, label=label)
    def c(x, fn=fn, spec=spec):
        st, T, gh = setup(x, vals=[spec])
        if self_h:
            x.calls[fn] = h_eqterm(T, spec)
        a, b = z3.BitVecs('x y', 64)
        st.assume(z3.And(WF(a), WF(b)) if pre is None else pre(T, a, b))

        def inv(X, s, l):
            i = sx(l.var('i'))
            return [('range', z3.And(i >= 3 + T.FIRST, i <= sx(l.var('ilimit')), sx(l.var('ilimit')) == T.length(a) + 3)),
                    ('prefix-equal', PE(spec(a), spec(b), i - 3))]
        x.loops[fn] = [LoopSpec(inv)]
        f = start(x, fn)
        x.run(f, st, [Ptr(T.G, 0), a, b, 1], ret_check(x, lambda s, v: [('true-iff-same-term', (bv(v) != 0) == (spec(a) == spec(b)))]))
    return c


eq_contract('wr_equal_term', fz)
eq_contract('wr_equal_term_macroaux', fz, pre=mac_pre)
eq_contract('wr_equal_mod_vars_term', fm, self_h=True)


@contract('wr_match_term_aux', UF, props=['C02', 'C04'], timeout=400)
def c_match_aux(x):
    st, T, gh = setup(x, vals=[val, fz], satm=True)
    x.calls['wr_match_term_aux'] = h_match(T, gh)
    a, b = z3.BitVecs('x y', 64)
    s0 = Snap(T, st)
    st.assume(z3.And(WF(a), WF(b), WFB(s0.vb), s0.top >= 2, s0.top < (1 << 39)))

    def on_store(x, st, off, n, v):
        x.oblig(st, 'bind:only-unassigned', z3.Select(T.vb(st), bv(off)) == UNASSIGNED, 'store to variable cell')
    T.VB.on_store = on_store

    def inv(X, s, l):
        i = sx(l.var('i'))
        s1 = Snap(T, s)
        return [('range', z3.And(i >= 3 + T.FIRST, i <= sx(l.var('ilimit')), sx(l.var('ilimit')) == T.length(a) + 3)),
                ('prefix-matched', SATM(s1.vb) == z3.And(SATM(s0.vb), PE(val(a), fz(b), i - 3))),
                ('bindings-wellformed', WFB(s1.vb))] + trail_posts(T, gh, s0, s1)
    x.loops['wr_match_term_aux'] = [LoopSpec(inv)]
    f = start(x, 'wr_match_term_aux')
    x.run(f, st, [Ptr(T.G, 0), a, b, 1],
          ret_check(x, lambda s, v: match_posts(T, gh, s0, Snap(T, s), a, b, bv(v) != 0)))


@contract('wr_match_term', UF, props=['C02', 'C04'], timeout=200)
def c_match(x):
    st, T, gh = setup(x, vals=[val, fz], satm=True)
    x.calls['wr_match_term_aux'] = h_match(T, gh)
    a, b = z3.BitVecs('x y', 64)
    st.mem[T.G.id].cells.pop(T.off['tmp_unify_vc'], None)
    s0 = Snap(T, st)
    st.assume(z3.And(WF(a), WF(b), WFB(s0.vb), s0.top >= 2, s0.top < (1 << 39)))
    f = start(x, 'wr_match_term')
    x.run(f, st, [Ptr(T.G, 0), a, b, 1],
          ret_check(x, lambda s, v: [('answer-fits-an-int', (bv(v) != 0) == (z3.Extract(31, 0, bv(v)) != 0))] + match_posts(T, gh, s0, Snap(T, s), a, b, bv(v) != 0)))


# ------------------------------------------------------------------ undoing bindings
def cell_pre(T, vs, p, lo, hi):
    e = z3.Select(vs, p << 3)
    return z3.Implies(z3.And(p >= lo, p < hi), z3.And(z3.ULT(e - T.VB.base, 8 * T.nvars), ((e - T.VB.base) & 7) == 0))


def trail_setup(x):
    st, T, gh = setup(x)
    s0 = Snap(T, st)
    st.assume(z3.And(s0.top >= 2, s0.top < (1 << 39)))

    def on_load(X, s, off, n, v):
        """precondition: entries 2..top-1 are addresses of variable cells"""
        p = bv(off) >> 3
        s.assume(cell_pre(T, s0.vs, p, 2, s0.top))
    T.VS.on_load = on_load
    x.tl = 60
    x.assumptions.append('trail entries are addresses of variable cells (kept by every binder: new-entries-are-cells)')
    return st, T, gh, s0


def undo_contract(fn, slice_):
    @contract(fn, UF, props=['C04'], timeout=120)
    def c(x):
        st, T, gh, s0 = trail_setup(x)
        y = z3.BitVec('y', 32)
        lo = bv(2)
        if slice_:
            lo = z3.SignExt(32, y)
            st.assume(z3.And(lo >= 2, lo <= s0.top))

        def inv(X, s, l):
            p = l.var('x')
            off = bv(p.off) if isinstance(p, Ptr) else p
            s1 = Snap(T, s)
            c0, c1 = z3.Select(s0.vb, gh.C), z3.Select(s1.vb, gh.C)
            return [('range', z3.And((off & 7) == 0, (off >> 3) >= lo, (off >> 3) <= s0.top, z3.BoolVal(p.r is T.VS))),
                    ('undone-so-far', c1 == z3.If(LOG(s0.vs, lo, off >> 3, gh.addr), bv(UNASSIGNED), c0)),
                    ('trail-unchanged', z3.And(s1.top == s0.top, z3.Select(s1.vs, gh.K << 3) == z3.Select(s0.vs, gh.K << 3)))]
        x.loops[fn] = [LoopSpec(inv)]
        f = start(x, fn)

        def posts(s, v):
            s1 = Snap(T, s)
            c0, c1 = z3.Select(s0.vb, gh.C), z3.Select(s1.vb, gh.C)
            return [('logged-cells-unassigned-others-kept', c1 == z3.If(LOG(s0.vs, lo, s0.top, gh.addr), bv(UNASSIGNED), c0)),
                    ('trail-top-reset', s1.top == lo),
                    ('trail-entries-kept', z3.Select(s1.vs, gh.K << 3) == z3.Select(s0.vs, gh.K << 3))]
        st.assume(z3.ULT(gh.K, bv(1 << 50)))
        x.run(f, st, [Ptr(T.G, 0), Ptr(T.VS, 0)] + ([y] if slice_ else []), ret_check(x, posts))
    return c


undo_contract('wr_clear_varstack', False)
undo_contract('wr_clear_varstack_topslice', True)

NV = z3.Function('NV', A, A, BV64, BV64, B)   # some trail entry in [2,p) has a non-variable value


@contract('wr_proper_substitution', UF, props=['C04'], timeout=120)
def c_proper(x):
    st, T, gh, s0 = trail_setup(x)

    def r_nv(vb, vs, base, p):
        e = z3.Select(vs, (p - 1) << 3)
        return [NV(vb, vs, base, p) == z3.And(p > 2, z3.Or(NV(vb, vs, base, p - 1), z3.Not(isvar(z3.Select(vb, e - base)))))]
    x.defs_.rule(NV, r_nv)
    nv = lambda p: NV(s0.vb, s0.vs, T.VB.base, p)

    def inv(X, s, l):
        p = l.var('x')
        off = bv(p.off)
        return [('range', z3.And((off & 7) == 0, (off >> 3) >= 2, (off >> 3) <= s0.top, z3.BoolVal(p.r is T.VS))),
                ('only-variables-so-far', z3.Not(nv(off >> 3)))]
    x.loops['wr_proper_substitution'] = [LoopSpec(inv)]
    f = start(x, 'wr_proper_substitution')
    old = T.VS.on_load

    def on_load(X, s, off, n, v):
        p = bv(off) >> 3
        # lemma:nv-mono instance
        s.assume(z3.Implies(z3.And(p + 1 <= s0.top, p >= 2, nv(p + 1)), nv(s0.top)))
        old(X, s, off, n, v)
    T.VS.on_load = on_load

    def posts(s, v):
        return [('zero-only-if-no-nonvariable-value', z3.Implies(bv(v, 32) == 0, z3.Not(nv(s0.top)))),
                ('one-only-if-some-nonvariable-value', z3.Implies(bv(v, 32) != 0, nv(s0.top)))]
    x.run(f, st, [Ptr(T.G, 0), Ptr(T.VS, 0)], ret_check(x, posts))


@contract('wr_clear_all_varbanks', UF, props=['C04'], timeout=120)
def c_clear_all(x):
    st, T, gh = setup(x)
    s0 = Snap(T, st)

    def inv(X, s, l):
        p = l.var('x')
        off = bv(p.off)
        c1 = z3.Select(T.vb(s), gh.C)
        return [('range', z3.And((off & 7) == 0, z3.ULE(off, bv(8 * T.nvars)), z3.BoolVal(p.r is T.VB))),
                ('cleared-so-far', z3.Implies(z3.ULT(gh.C, off), c1 == UNASSIGNED))]
    x.loops['wr_clear_all_varbanks'] = [LoopSpec(inv)]
    f = start(x, 'wr_clear_all_varbanks')
    x.run(f, st, [Ptr(T.G, 0)], ret_check(x, lambda s, v: [('every-variable-unassigned', z3.Select(T.vb(s), gh.C) == UNASSIGNED)]))


# ------------------------------------------------------------------ lemmas used by the rules above, by induction
def lemma(label):
    def deco(f):
        @contract('lemma', UF, label='lemma:' + label, props=['C01'], timeout=60)
        def c(x):
            st = State()
            T = Terms(x, st, lemmas=False)
            x.fuel = 2
            f(x, st, T)
            if x.check_sat(st, z3.BoolVal(True)) != z3.unsat:
                x.cover += 1
        return c
    return deco


def vb_facts(T, st, vb, a):
    c = z3.Select(vb, voff(a))
    st.assume(z3.Implies(z3.And(WFB(vb), c != UNASSIGNED), WF(c)))
    st.assume(z3.Implies(z3.And(SAT(vb), c != UNASSIGNED), V(vidx(a)) == val(c)))
    return c


@lemma('deref')
def l_deref(x, st, T):
    a = z3.BitVec('a', 64)
    vb = T.vb(st)
    st.assume(z3.And(WF(a), WFB(vb)))
    c = vb_facts(T, st, vb, a)

    def claims(t):
        d = DEREF(vb, t)
        return [('wellformed', WF(d)), ('same-value', z3.Implies(SAT(vb), val(d) == val(t))),
                ('ends-unassigned', z3.Implies(isvar(d), z3.Select(vb, voff(d)) == UNASSIGNED))]
    # induction hypothesis for the next element of the (finite) chain
    for n, f in claims(c):
        st.assume(z3.Implies(WF(c), f))
    for n, f in claims(a):
        x.oblig(st, 'step:' + n, f, 'induction on the length of the variable chain', kind='lemma')


@lemma('occurs-size')
def l_occ(x, st, T):
    a, v, t, k, e = z3.BitVecs('a v t k e', 64)
    vb = T.vb(st)
    st.assume(z3.And(WF(a), WFB(vb), SAT(vb), isvar(v), WF(t), isrec(t)))
    d = DEREF(vb, a)
    st.assume(z3.And(WF(d), val(d) == val(a)))
    # term step: hypothesis for the record the chain ends in
    st.assume(z3.Implies(z3.And(isrec(d), OCCP(vb, v, d, T.length(d))), size(V(vidx(v))) < size(val(d))))
    x.oblig(st, 'step:term', z3.Implies(OCCT(vb, v, a), size(V(vidx(v))) <= size(val(a))), 'structural induction', kind='lemma')
    # argument step
    st.assume(z3.And(k >= T.FIRST, k < T.length(t), e == T.argt(t, k)))
    st.assume(T.arg_facts(t, k, e))
    st.assume(OCCP(vb, v, t, k + 1) == z3.Or(OCCP(vb, v, t, k), OCCT(vb, v, e)))
    st.assume(z3.Implies(OCCP(vb, v, t, k), size(V(vidx(v))) < size(val(t))))
    st.assume(z3.Implies(OCCT(vb, v, e), size(V(vidx(v))) <= size(val(e))))
    x.oblig(st, 'step:argument', z3.Implies(OCCP(vb, v, t, k + 1), size(V(vidx(v))) < size(val(t))), 'structural induction', kind='lemma')


@lemma('occurs-intro')
def l_occi(x, st, T):
    v, t, k, i, e = z3.BitVecs('v t k i e', 64)
    vb = T.vb(st)
    ek = T.argt(t, k)
    st.assume(z3.And(WF(t), isrec(t), i >= T.FIRST, i <= k, k < T.length(t), e == T.argt(t, i), OCCT(vb, v, e)))
    st.assume(OCCP(vb, v, t, k + 1) == z3.Or(OCCP(vb, v, t, k), OCCT(vb, v, ek)))
    st.assume(z3.Implies(i < k, OCCP(vb, v, t, k)))
    x.oblig(st, 'step', OCCP(vb, v, t, k + 1), 'induction on the number of arguments', kind='lemma')


@lemma('log-frame')
def l_log(x, st, T):
    vs = T.vs(st)
    i, w, lo, hi, c = z3.BitVecs('i w lo hi c', 64)
    v2 = z3.Store(vs, i, w)
    st.assume(z3.And((i & 7) == 0, i >= 0, lo >= 0, hi >= 0, lo < (1 << 50), hi < (1 << 50), z3.Or((i >> 3) >= hi, (i >> 3) < lo)))
    for a in (vs, v2):
        st.assume(LOG(a, lo, hi, c) == z3.And(hi > lo, z3.Or(z3.Select(a, (hi - 1) << 3) == c, LOG(a, lo, hi - 1, c))))
    st.assume(z3.Implies(hi > lo, LOG(v2, lo, hi - 1, c) == LOG(vs, lo, hi - 1, c)))
    x.oblig(st, 'step', LOG(v2, lo, hi, c) == LOG(vs, lo, hi, c), 'induction on the trail length', kind='lemma')


@lemma('nv-mono')
def l_nv(x, st, T):
    vb, vs = T.vb(st), T.vs(st)
    p, q = z3.BitVecs('p q', 64)
    nv = lambda n: NV(vb, vs, T.VB.base, n)
    e = z3.Select(vs, (q - 1) << 3)
    st.assume(nv(q) == z3.And(q > 2, z3.Or(nv(q - 1), z3.Not(isvar(z3.Select(vb, e - T.VB.base))))))
    st.assume(z3.And(p > 2, p <= q, nv(p), z3.Implies(p < q, nv(q - 1))))
    x.oblig(st, 'step', nv(q), 'induction on the trail length', kind='lemma')


@contract('config scan', 'Reasoner/glb.c', label='scan:unify-config', props=['C01'], timeout=60)
def c_scan(x):
    """side condition of every term contract: the term layout settings are only ever given their standard values"""
    import glob, re as _re
    want = {'unify_samelen': '1', 'unify_maxuseterms': '0', 'unify_firstuseterm': '1', 'unify_funpos': '1', 'unify_funarg1pos': '2', 'unify_funarg2pos': '3'}
    st = State()
    seen = set()
    for d in ('Reasoner', 'Parser', 'Main', 'Db', 'Printer'):
        for p in glob.glob(os.path.join(REPO, d, '*.c')):
            t = open(p, errors='replace').read()
            t = _re.sub(r'/\*.*?\*/', ' ', t, flags=_re.S)
            t = _re.sub(r'//[^\n]*', ' ', t)
            for m in _re.finditer(r'\b(unify_samelen|unify_maxuseterms|unify_firstuseterm|unify_funpos|unify_funarg1pos|unify_funarg2pos)\s*\)?\s*(\+\+|--|[-+*/|&]?=(?!=))\s*([^;]*);', t):
                f, op, v = m.groups()
                v = v.strip().strip('()').strip()
                if op == '=' and _re.fullmatch(r'\d+', v):
                    seen.add(f)
                    x.oblig(st, 'only-standard-value:%s' % f, z3.BoolVal(v == want[f]), os.path.relpath(p, REPO), kind='scan')
                else:
                    raise Unsupported('assignment to %s in %s not understood' % (f, p))
    if seen != set(want):
        raise Unsupported('initialisation of %s not found' % sorted(set(want) - seen))
    x.cover = 1
    x.assumptions.append('scan:unify-config is a syntactic check of the assignments to the layout fields')
