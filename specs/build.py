"""Contracts for Reasoner/build.c: applying substitutions and renamings to terms, literals, clauses."""
from unify import *
import unify as _u

BF = 'Reasoner/build.c'
VOK = z3.Function('VOK', BV64, B)       # every variable of the result term is one the result may contain
BFLDS = ['build_subst', 'build_rename', 'build_rename_vc', 'build_rename_banknr', 'build_rewrite', 'build_buffer', 'use_comp_funs',
         'alloc_err', 'local_db', 'arith_inst_probe_active', 'tmp_arithinst_calc_count', 'print_level_flag', 'stat_internlimit_discarded_cl', 'stat_built_cl']


class Build_:
    """result terms: valr = value of the result under V (renamed: the bank variables stand for the unreal ones)"""

    def __init__(self, x, rename, subst, comp):
        self.x = x
        st = self.st = State()
        T = self.T = Terms(x, st, BFLDS)
        gh = self.gh = Ghost(T)
        for f in gh.dom():
            st.assume(f)
        self.rename = rename
        self.J = z3.BitVec('J!arg', 64)        # arbitrary argument position
        self.D = z3.BitVec('D!cell', 64)       # a second arbitrary cell
        st.assume(z3.And(self.J >= T.FIRST, self.J < (1 << 30), z3.ULT(self.D, 8 * T.nvars), (self.D & 7) == 0))
        T.VB.unaligned = False
        k = x.build.probe(HDR, ['RECORD_HEADER_GINTS', 'WG_ILLEGAL'])
        self.HG = k['RECORD_HEADER_GINTS']
        self.ILL = k['WG_ILLEGAL']
        self.bank = z3.BitVec('bank', 64)
        st.assume(z3.And(self.bank >= 0, self.bank < T.k['NROF_VARBANKS'] - 1))
        T.sset(st, 'build_subst', subst)
        T.sset(st, 'build_rename', 1 if rename else 0)
        T.sset(st, 'build_rename_banknr', self.bank)
        vc = z3.BitVec('vc0', 64)
        self.vc0 = vc
        T.sset(st, 'build_rename_vc', vc)
        st.assume(z3.And(vc >= 0, vc <= T.banksize))
        T.sset(st, 'build_rewrite', 0)
        buf = Ptr(None, z3.BitVec('build_buffer', 64))
        T.sset(st, 'build_buffer', buf)
        T.sset(st, 'use_comp_funs', 1 if comp else 0)
        T.sset(st, 'local_db', Ptr(T.DB, 0))
        T.sset(st, 'arith_inst_probe_active', z3.BitVec('aip', 32))
        T.sset(st, 'print_level_flag', z3.BitVec('plf', 32))
        T.sset(st, 'tmp_unify_vc', Ptr(T.VS, 8))
        self.substituting = bool(rename or subst)
        x.calls['wr_alloc_from_cvec'] = self.h_alloc
        x.calls['wg_create_raw_record'] = self.h_create
        x.calls['wr_build_calc_term'] = self.h_build
        x.calls['wr_build_calc_term_copyground'] = self.h_build
        x.calls['wr_varval'] = h_varval(T)
        x.calls['wr_computable_termptr'] = lambda X, s, a, i: X.fresh('comp', 32)
        x.calls['wr_computation_is_arithmetic'] = lambda X, s, a, i: X.fresh('isar', 32)
        x.calls['wr_compute_from_termptr'] = self.h_compute
        D = x.defs_
        D.rule(VOK, self.r_vok)
        D.rule(valr, self.r_valr)
        if rename:
            T.VB.on_store = self.store_hook
        x.assumptions += ['build_buffer memory and new records are disjoint from the terms being copied; a record is never changed after it has been built',
                          'rewriting during building is off (build_rewrite=0): rewriting is a separate property',
                          'computed function terms are replaced by a term with the same value (arithmetic property)' if comp else 'use_comp_funs=0']

    # the value of a result term
    def res(self, t):
        return valr(t) if self.rename else val(t)

    def r_valr(self, t):
        T = self.T
        i = vidx(t)
        return [z3.Implies(isvar(t), valr(t) == V(i - self.bank * T.banksize + T.firstunreal)),
                z3.Implies(isc(t), valr(t) == val(t))]

    def r_vok(self, t):
        T = self.T
        if self.rename:
            lo = self.bank * T.banksize
            f = z3.And(vidx(t) >= lo, vidx(t) < lo + T.banksize)
        elif self.substituting:
            f = z3.Select(self.vb0, voff(t)) == UNASSIGNED
        else:
            f = z3.BoolVal(True)
        return [z3.Implies(isvar(t), VOK(t) == f), z3.Implies(isc(t), VOK(t))]

    def store_hook(self, x, st, off, n, v):
        T = self.T
        off = bv(off)
        v = bv(v)
        st.assume(z3.Implies(z3.And(isvar(v), vidx(v) >= T.firstunreal, vidx(v) < T.nvars), z3.Select(T.vb(st), voff(v)) == UNASSIGNED))
        x.oblig(st, 'rename:only-real-variables-bound', z3.ULT(off, 8 * T.firstunreal), 'store to variable cell')
        bind_hook(T)(x, st, off, n, v)

    def vcv(self, st):
        return self.T.gget(st, 'build_rename_vc')

    def h_alloc(self, x, st, args, ins):
        g, buf, n = args
        s2 = st.copy()
        r = x.region(st, 'newrec%d' % len(st.regions), size=norm(bv(n) << 3))
        x.oblig(st, 'pre:alloc_from_cvec', z3.And(bv(n) > 0, bv(n) < (1 << 40)), 'call')
        st.assume(z3.And(r.base - self.T.DB.base < (1 << 46), r.base - self.T.DB.base > 0))
        return [(s2, NULL), (st, Ptr(r, 0))]

    def h_create(self, x, st, args, ins):
        db, n = args
        return self.h_alloc(x, st, [None, None, bv(n) + self.HG], ins)

    # contract of building one term
    def content(self, st, p, t):
        """obligations: the record at p is the instance of record t (arbitrary argument J)"""
        x, T = self.x, self.T
        arr = x.arr(st, p.r)
        a = z3.Select(arr, bv(p.off) + ((self.J + self.HG) << 3))
        inr = z3.And(self.J < T.length(t))
        return [('header-copied', hdrlen(z3.Select(arr, bv(p.off))) == T.length(t)),
                ('argument-is-instance', z3.Implies(inr, z3.And(WF(a), self.res(a) == arg(val(t), self.J)))),
                ('argument-variables', z3.Implies(inr, VOK(a)))]

    def posts_bind(self, s0, s1, vc0, vc1):
        """renaming binds unassigned variables to fresh consecutive ones"""
        T, gh = self.T, self.gh
        if not self.rename:
            return [('bindings-unchanged', s0.vb == s1.vb), ('trail-unchanged', s0.vs == s1.vs)]
        c0, c1 = z3.Select(s0.vb, gh.C), z3.Select(s1.vb, gh.C)
        d0, d1 = z3.Select(s0.vb, self.D), z3.Select(s1.vb, self.D)
        fresh = lambda c: z3.And(isvar(c), vidx(c) >= T.firstunreal + vc0, vidx(c) < T.firstunreal + vc1)
        return [('bindings-wellformed', WFB(s1.vb)),
                ('counter', z3.And(vc1 >= vc0, vc1 <= T.banksize)),
                ('only-unassigned-renamed', z3.Implies(c0 != c1, z3.And(c0 == UNASSIGNED, fresh(c1), z3.ULT(gh.C, 8 * T.firstunreal)))),
                ('only-unassigned-renamed-2', z3.Implies(d0 != d1, z3.And(d0 == UNASSIGNED, fresh(d1), z3.ULT(self.D, 8 * T.firstunreal)))),
                ('renamed-apart', z3.Implies(z3.And(c0 != c1, d0 != d1, c1 == d1), gh.C == self.D)),
                ('old-equations-kept', z3.Implies(SAT(s1.vb), SAT(s0.vb)))] + trail_posts(T, gh, s0, s1)

    def h_build(self, x, st, args, ins):
        T = self.T
        g, t = args[:2]
        t = bv(t)
        s0 = Snap(T, st)
        vc0 = self.vcv(st)
        x.oblig(st, 'pre:build_calc_term', z3.And(WF(t), WFB(s0.vb), s0.top >= 2, s0.top < (1 << 40), vc0 >= 0, vc0 <= T.banksize), 'call')
        if self.rename:
            x.havoc_region(st, T.VB)
            x.havoc_region(st, T.VS)
            T.sset(st, 'build_rename_vc', x.fresh('vc'))
            x.note_write(st, T.G, T.off['build_rename_vc'], 8)
        for f in ('alloc_err', 'tmp_arithinst_calc_count', 'stat_internlimit_discarded_cl'):
            st.mem[T.G.id].cells[T.off[f]] = (T.fsz[f], x.fresh(f, 8 * T.fsz[f]))
            x.note_write(st, T.G, T.off[f], T.fsz[f])
        s1 = Snap(T, st)
        r = x.fresh('built')
        for n, f in self.posts_bind(s0, s1, vc0, self.vcv(st)):
            st.assume(f)
        ok = r != self.ILL
        st.assume(z3.Implies(z3.And(ok, SAT(s1.vb)), self.res(r) == val(t)))
        st.assume(z3.Implies(ok, z3.And(WF(r), VOK(r))))
        # the value of constants does not depend on the bank
        return r

    def h_compute(self, x, st, args, ins):
        g, p, comp = args
        enc = norm(ptr_int(p) - self.T.DB.base)
        self.seals(st, x, p)
        r = x.fresh('computed')
        st.assume(z3.Or(r == self.ILL, z3.And(WF(r), VOK(r), self.res(r) == z3.Const('SEALED', U))))
        return r

    def seals(self, st, x, p):
        for n, f in self.content(st, p, st.ghost['src']):
            x.oblig(st, 'computed-record:' + n, f, 'call')
        st.assume(z3.Const('SEALED', U) == val(st.ghost['src']))


valr = z3.Function('valr', BV64, U)


def build_contract(fn, label, rename, subst, comp=0, **kw):
    @contract(fn, BF, files=[DD, 'Reasoner/unify.c'], label=label, timeout=300, **kw)
    def c(x):
        Bd = Build_(x, rename, subst, comp)
        st, T, gh = Bd.st, Bd.T, Bd.gh
        x0 = z3.BitVec('x', 64)
        s0 = Snap(T, st)
        Bd.vb0 = s0.vb
        st.assume(z3.And(WF(x0), WFB(s0.vb), s0.top >= 2, s0.top < (1 << 39)))
        d = DEREF(s0.vb, x0) if Bd.substituting else x0
        src = d
        st.ghost['src'] = src
        x.fuel = 4
        vc0 = Bd.vc0

        def inv(X, s, l):
            i = sx(l.var('i'))
            yp = l.var('yptr')
            cur = bv(l.var('x'))
            s1 = Snap(T, s)
            if yp.r is None:
                raise AttachError('result record not resolved')
            arr = X.arr(s, yp.r)
            a = z3.Select(arr, bv(yp.off) + ((Bd.J + Bd.HG) << 3))
            inr = z3.And(Bd.J < T.length(src), Bd.J + Bd.HG < i)
            return [('range', z3.And(i >= Bd.HG + T.FIRST, i <= T.length(src) + Bd.HG)),
                    ('source', cur == src),
                    ('header', hdrlen(z3.Select(arr, bv(yp.off))) == T.length(src)),
                    ('argument-is-instance', z3.Implies(z3.And(inr, SAT(s1.vb)), z3.And(WF(a), Bd.res(a) == arg(val(src), Bd.J)))),
                    ('argument-wellformed', z3.Implies(inr, z3.And(WF(a), VOK(a))))] + Bd.posts_bind(s0, s1, vc0, Bd.vcv(s))

        x.loops[fn] = {1: LoopSpec(inv)}
        f = start(x, fn)

        def posts(s, v):
            v = bv(v)
            s1 = Snap(T, s)
            ok = v != Bd.ILL
            out = Bd.posts_bind(s0, s1, vc0, Bd.vcv(s))
            sat = SAT(s1.vb)
            p = None
            b = lin_base(z3.simplify(T.DB.base + v), {r.base.get_id(): r for r in s.regions.values() if r.name.startswith('newrec')})
            if b:
                p = Ptr(b[0], b[1])
                out += [('result-is-record', z3.And(isrec(v), isrec(src), v != Bd.ILL))]
                out += [(n, z3.Implies(sat, g)) for n, g in Bd.content(s, p, src)]
            else:
                out += [('same-value', z3.Implies(z3.And(ok, sat), Bd.res(v) == val(x0))),
                        ('result-wellformed', z3.Implies(ok, WF(v))), ('variables', z3.Implies(ok, VOK(v)))]
            return out
        x.run(f, st, [Ptr(T.G, 0), x0], ret_check(x, posts))
    return c


build_contract('wr_build_calc_term', 'wr_build_calc_term:subst', False, 1)
build_contract('wr_build_calc_term', 'wr_build_calc_term:copy', False, 0)
build_contract('wr_build_calc_term', 'wr_build_calc_term:rename', True, 1)


def build_cl_contract(label, rename, subst):
    @contract('wr_build_calc_cl', BF, files=[DD, 'Reasoner/clterm.c'], label=label, timeout=300)
    def c(x):
        Bd = Build_(x, rename, subst, 0)
        st, T, gh = Bd.st, Bd.T, Bd.gh
        kc = x.build.probe(HDR, ['CLAUSE_EXTRAHEADERLEN', 'LIT_WIDTH', 'LIT_META_POS', 'LIT_ATOM_POS', 'RECORD_META_RULE_CLAUSE', 'RECORD_META_POS', 'ACONST_TRUE', 'ACONST_FALSE'])
        T.sset(st, 'stat_built_cl', x.fresh('sbc', 8 * T.fsz['stat_built_cl'])) if 'stat_built_cl' in T.fsz else None
        HG, EX, LW, LA, LM = Bd.HG, kc['CLAUSE_EXTRAHEADERLEN'], kc['LIT_WIDTH'], kc['LIT_ATOM_POS'], kc['LIT_META_POS']
        t = z3.BitVec('cl', 64)
        s0 = Snap(T, st)
        Bd.vb0 = s0.vb
        ln = T.length(t)
        isrule = (z3.Select(T.dbarr, t + 8 * kc['RECORD_META_POS']) & kc['RECORD_META_RULE_CLAUSE']) != 0
        st.assume(z3.And(t != 0, (t & 7) == 0, z3.ULT(t, 1 << 46), ln >= 1, ln < T.MAXLEN, WFB(s0.vb), s0.top >= 2, s0.top < (1 << 39),
                         z3.Implies(z3.Not(isrule), WF(t)), z3.Implies(isrule, (ln - EX) % LW == 0)))
        x.assumptions.append('a clause record holds either one positive atom (fact) or meta/atom pairs of well-formed atoms (rule)')
        base_load = T.DB.on_load

        def on_load(X, s, off, n, v):
            base_load(X, s, off, n, v)
            if n == 8:
                d = bv(off) - t
                k = (d >> 3) - HG - EX
                s.assume(z3.Implies(z3.And(isrule, (d & 7) == 0, k >= 0, k < ln - EX, z3.SRem(k, bv(LW)) == LA), WF(bv(v))))
        T.DB.on_load = on_load
        st.ghost['src'] = t
        vc0 = z3.If(z3.BoolVal(rename), bv(0), Bd.vc0)
        J = Bd.J
        x.fuel = 4

        def arr_of(X, s, l):
            yp = l.var('yptr')
            if yp.r is None:
                raise AttachError('result record not resolved')
            return X.arr(s, yp.r), yp

        def common(X, s, l):
            arr, yp = arr_of(X, s, l)
            s1 = Snap(T, s)
            return arr, s1, [('header', z3.And(z3.Select(arr, bv(yp.off)) == z3.Select(T.dbarr, t), bv(yp.off) == 0)),
                             ('meta', z3.Select(arr, bv(8 * kc['RECORD_META_POS'])) == z3.Select(T.dbarr, t + 8 * kc['RECORD_META_POS'])),
                             ('extra', z3.Select(arr, bv(8 * HG)) == z3.Select(T.dbarr, t + 8 * HG))] + Bd.posts_bind(s0, s1, vc0, Bd.vcv(s))

        def fact_parts(arr, s1, hi):
            a = z3.Select(arr, (J + HG) << 3)
            inr = z3.And(J < ln, J + HG < hi)
            return [('argument-is-instance', z3.Implies(z3.And(inr, SAT(s1.vb)), Bd.res(a) == arg(val(t), J))),
                    ('argument-wellformed', z3.Implies(inr, z3.And(WF(a), VOK(a))))]

        def rule_parts(arr, s1, hi):
            JL = J - 1
            pa = JL * LW + HG + EX + LA
            pm = JL * LW + HG + EX + LM
            a = z3.Select(arr, pa << 3)
            xa = z3.Select(T.dbarr, t + (pa << 3))
            inr = z3.And(JL >= 0, JL < hi, JL * LW + EX < ln)
            return [('literal-is-instance', z3.Implies(z3.And(inr, SAT(s1.vb)), Bd.res(a) == val(xa))),
                    ('literal-wellformed', z3.Implies(inr, z3.And(WF(a), VOK(a)))),
                    ('literal-sign-kept', z3.Implies(inr, z3.Select(arr, pm << 3) == z3.Select(T.dbarr, t + (pm << 3))))]

        def inv_fact(X, s, l):
            arr, s1, out = common(X, s, l)
            i = sx(l.var('i'))
            return [('range', z3.And(i >= HG + EX, i <= ln + HG, bv(l.var('xlen')) == ln))] + fact_parts(arr, s1, i) + out

        def inv_rule(X, s, l):
            arr, s1, out = common(X, s, l)
            i = sx(l.var('i'))
            return [('range', z3.And(i >= 0, i <= z3.UDiv(ln - EX, bv(LW)), bv(l.var('xatomnr')) == z3.UDiv(ln - EX, bv(LW))))] + rule_parts(arr, s1, i) + out

        fn = 'wr_build_calc_cl'
        x.loops[fn] = {2: LoopSpec(inv_fact), 4: LoopSpec(inv_rule)}
        f = start(x, fn)

        def posts(s, v):
            if isinstance(v, Ptr) and v.r is not None and v.r.name.startswith('newrec'):
                arr = x.arr(s, v.r)
                s1 = Snap(T, s)
                out = [('record-header-kept', z3.And(bv(v.off) == 0, z3.Select(arr, bv(0)) == z3.Select(T.dbarr, t),
                                                     z3.Select(arr, bv(8 * kc['RECORD_META_POS'])) == z3.Select(T.dbarr, t + 8 * kc['RECORD_META_POS'])))]
                out += [(n, z3.Implies(isrule, g)) for n, g in rule_parts(arr, s1, z3.UDiv(ln - EX, bv(LW)))]
                out += [(n, z3.Implies(z3.Not(isrule), g)) for n, g in fact_parts(arr, s1, ln + HG)]
                return out + Bd.posts_bind(s0, s1, vc0, Bd.vcv(s))
            r = bv(v)
            return [('otherwise-null-or-truth-value', z3.Or(r == 0, r == kc['ACONST_TRUE'], r == kc['ACONST_FALSE']))]
        x.run(f, st, [Ptr(T.G, 0), Ptr(T.DB, t)], ret_check(x, posts))
    return c


build_cl_contract('wr_build_calc_cl:subst', False, 1)
build_cl_contract('wr_build_calc_cl:rename', True, 1)


BV32 = z3.BitVecSort(32)
RVAL = z3.Function('RVAL', BV64, BV32, U)     # value of t, entered at position p, with the subterm at replpos replaced
CNT = z3.Function('CNT', BV64, BV32)          # argument positions inside t (functors not counted, bound variables not entered)
OFFS = z3.Function('OFFS', BV64, BV64, BV32)  # argument positions passed before argument k of t


def build_replace_contract(label, rename, subst, **kw):
    @contract('wr_build_calc_term_replace', BF, files=[DD, 'Reasoner/unify.c'], label=label, timeout=300, **kw)
    def c(x):
        Bd = Build_(x, rename, subst, 0)
        st, T, gh = Bd.st, Bd.T, Bd.gh
        x0, rt = z3.BitVecs('x replterm', 64)
        rpos, p0 = z3.BitVecs('replpos p0', 32)
        rp, pp = rpos, p0
        s0 = Snap(T, st)
        Bd.vb0 = s0.vb
        LIM = 1 << 28
        pr = x.region(st, 'path', size=4)
        st.mem[pr.id].cells[0] = (4, p0)
        F = T.FIRST
        st.assume(z3.And(WF(x0), WF(rt), WFB(s0.vb), s0.top >= 2, s0.top < (1 << 39), pp >= 0, pp <= rp, rp < LIM, CNT(x0) >= 0, CNT(x0) < LIM))
        x.assumptions += ['the functor (first argument) of a term is a constant', 'a term has fewer than 2^28 argument positions']
        src = DEREF(s0.vb, x0)
        st.ghost['src'] = src
        x.fuel = 4
        vc0 = Bd.vc0

        def r_cnt(t):
            return [z3.Implies(z3.Not(isrec(t)), CNT(t) == 0),
                    z3.Implies(z3.And(isrec(t), WF(t)), CNT(t) == OFFS(t, T.length(t)))]
        x.defs_.rule(CNT, r_cnt)

        def r_offs(t, k):
            return [z3.Implies(z3.And(WF(t), isrec(t), k <= F + 1), OFFS(t, k) == 0)]
        x.defs_.rule(OFFS, r_offs)

        def r_rval(t, p):
            return [z3.Implies(p == rp, RVAL(t, p) == val(rt)),
                    z3.Implies(p > rp, RVAL(t, p) == val(t)),
                    z3.Implies(z3.And(p < rp, z3.Not(isrec(t))), RVAL(t, p) == val(t))]
        x.defs_.rule(RVAL, r_rval)

        def argfacts(s, t, i, v):
            # definitions at argument i (loaded value v): counting, value
            gi = s.ghost.get('argidx')
            if gi is not None:     # cut: the loaded position is the loop's position
                x.oblig(s, 'argument-position', i == gi[0], 'load')
                s.assume(i == gi[0])
                i, n = gi
                return [z3.Implies(i == F, isc(v)), CNT(v) >= 0, OFFS(t, i) >= 0, OFFS(t, n) < LIM, OFFS(t, n) >= 0,
                        z3.Implies(i > F, OFFS(t, n) == OFFS(t, i) + 1 + CNT(v)),
                        CNT(v) < LIM]
            return [z3.Implies(i == F, isc(v)), CNT(v) >= 0, OFFS(t, i) >= 0, OFFS(t, i + 1) < LIM, OFFS(t, i + 1) >= 0,
                    z3.Implies(i > F, OFFS(t, i + 1) == OFFS(t, i) + 1 + CNT(v)),
                    CNT(v) < LIM]
        T.arg_hooks.append(argfacts)

        def path(s):
            return bv(x.load(s, Ptr(pr, 0), 4, ('int', 32)), 32)

        def expected(J, xj):
            """value of argument J of the result when x0 is a record entered below replpos"""
            return z3.If(J == F, val(xj), RVAL(xj, pp + OFFS(src, J) + 1))

        # the frame of the recursive call is that of building; only its value differs
        def h_rec(X, s, args, ins):
            g, t, rq, rtt, pq = args
            t = bv(t)
            a0 = path(s)
            b0 = Snap(T, s)
            v0 = Bd.vcv(s)
            X.oblig(s, 'pre:replace', z3.And(WF(t), WFB(b0.vb), b0.top >= 2, b0.top < (1 << 40), v0 >= 0, v0 <= T.banksize, bv(rq, 32) == rp, bv(rtt) == rt,
                                             z3.BoolVal(pq.r is pr and pq.off == 0), a0 >= 0, a0 <= rp, CNT(t) >= 0, CNT(t) < LIM), 'call')
            if rename:
                X.havoc_region(s, T.VB)
                X.havoc_region(s, T.VS)
                T.sset(s, 'build_rename_vc', X.fresh('vc'))
                X.note_write(s, T.G, T.off['build_rename_vc'], 8)
            for f in ('alloc_err', 'tmp_arithinst_calc_count', 'stat_internlimit_discarded_cl'):
                s.mem[T.G.id].cells[T.off[f]] = (T.fsz[f], X.fresh(f, 8 * T.fsz[f]))
                X.note_write(s, T.G, T.off[f], T.fsz[f])
            b1 = Snap(T, s)
            np_ = X.fresh('path', 32)
            s.mem[pr.id].cells[0] = (4, np_)
            X.note_write(s, pr, 0, 4)
            r = X.fresh('replaced')
            for n, f in Bd.posts_bind(b0, b1, v0, Bd.vcv(s)):
                s.assume(f)
            ok = r != Bd.ILL
            s.assume(z3.Implies(z3.And(ok, SAT(b1.vb)), Bd.res(r) == RVAL(t, a0)))
            s.assume(z3.Implies(ok, z3.And(WF(r), VOK(r))))
            s.assume(z3.Implies(ok, pathpost(a0, np_, t)))
            return r

        def pathpost(a0, a1, t):
            tr = a0 + CNT(t)
            return z3.And(a1 >= a0, a1 <= tr, z3.Or(a1 == tr, z3.And(a1 >= rp, tr >= rp)))

        def inv(X, s, l):
            i = sx(l.var('i'))
            yp = l.var('yptr')
            cur = bv(l.var('x'))
            s1 = Snap(T, s)
            if yp.r is None:
                raise AttachError('result record not resolved')
            arr = X.arr(s, yp.r)
            J = Bd.J
            a = z3.Select(arr, bv(yp.off) + ((J + Bd.HG) << 3))
            inr = z3.And(J < T.length(src), J + Bd.HG < i)
            xj = T.argt(src, J)
            inc = sx(l.var('incpath')) != 0
            tp = z3.If(isrec(x0), pp + OFFS(src, i - Bd.HG), pp)
            a1 = path(s)
            return [('range', z3.And(i >= Bd.HG + F, i <= T.length(src) + Bd.HG, sx(l.var('ilimit')) == Bd.HG + F)),
                    ('source', z3.And(cur == src, isrec(src), inc == isrec(x0), z3.Implies(isrec(x0), x0 == src))),
                    ('path-offset', z3.And(OFFS(src, i - Bd.HG) >= 0, OFFS(src, i - Bd.HG) < LIM)),
                    ('path-upper', a1 <= tp), ('path-lower', a1 >= pp),
                    ('path-exact-until-hit', z3.Or(a1 == tp, z3.And(a1 >= rp, tp >= rp))),
                    ('header', hdrlen(z3.Select(arr, bv(yp.off))) == T.length(src)),
                    ('argument-is-instance', z3.Implies(z3.And(inr, SAT(s1.vb)), Bd.res(a) == z3.If(isrec(x0), expected(J, xj), val(xj)))),
                    ('argument-wellformed', z3.Implies(inr, z3.And(WF(a), VOK(a))))] + Bd.posts_bind(s0, s1, vc0, Bd.vcv(s))
        def head(X, s, l, ph):
            i = l.var('i')
            gi, gn = sx(i) - Bd.HG, sx(i + 1) - Bd.HG
            s.assume(z3.Implies(i != 0x7fffffff, gn == gi + 1))      # machine arithmetic
            s.ghost['argidx'] = (gi, gn)
        fn = 'wr_build_calc_term_replace'
        x.loops[fn] = {1: LoopSpec(inv, head)}
        x.calls[fn] = h_rec
        f = start(x, fn)

        def posts(s, v):
            v = bv(v)
            s1 = Snap(T, s)
            ok = v != Bd.ILL
            out = Bd.posts_bind(s0, s1, vc0, Bd.vcv(s))
            sat = SAT(s1.vb)
            b = lin_base(z3.simplify(T.DB.base + v), {r.base.get_id(): r for r in s.regions.values() if r.name.startswith('newrec')})
            out += [('path-after', z3.Implies(ok, pathpost(pp, path(s), x0)))]
            if b:
                arr = x.arr(s, b[0])
                J = Bd.J
                a = z3.Select(arr, bv(b[1]) + ((J + Bd.HG) << 3))
                xj = T.argt(src, J)
                inr = J < T.length(src)
                out += [('result-is-record', z3.And(isrec(v), isrec(src), v != Bd.ILL, pp < rp)),
                        ('header-copied', hdrlen(z3.Select(arr, bv(b[1]))) == T.length(src)),
                        ('argument-is-instance', z3.Implies(z3.And(inr, sat), Bd.res(a) == z3.If(isrec(x0), expected(J, xj), val(xj)))),
                        ('argument-wellformed', z3.Implies(inr, z3.And(WF(a), VOK(a))))]
            else:
                out += [('same-value', z3.Implies(z3.And(ok, sat), Bd.res(v) == RVAL(x0, pp))),
                        ('result-wellformed', z3.Implies(ok, WF(v))), ('variables', z3.Implies(ok, VOK(v)))]
            return out
        x.run(f, st, [Ptr(T.G, 0), x0, rpos, rt, Ptr(pr, 0)], ret_check(x, posts))
    return c


build_replace_contract('wr_build_calc_term_replace:subst', False, 1)
build_replace_contract('wr_build_calc_term_replace:rename', True, 1, tier='thorough')
