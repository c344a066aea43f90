"""Contracts for Reasoner/resolve.c: which pairs of literals are resolved, factored or reflexively resolved."""
from resolve import *

SITEF = 'Reasoner/resolve.c'


class Site:
    """every inference is made right after a successful unification from unbound variables"""

    def __init__(self, x, fields=(), kb=None):
        x.incremental = True
        x.abstract_fp = True
        st, T, gh = setup(x, fields=['queryfocus_strat', 'proof_found', 'alloc_err', 'unify_funarg1pos', 'unify_funarg2pos', 'instgen_strat', 'print_litterm_selection', 'print_active_cl',
                                     'hash_pos_atoms', 'hash_neg_atoms', 'kb_g', 'back_subsume'] + list(fields), vals=[fz])
        self.x, self.st, self.T = x, st, T
        k = self.k = x.build.probe(HDR, ['RECORD_HEADER_GINTS', 'CLAUSE_EXTRAHEADERLEN', 'LIT_WIDTH', 'LIT_META_POS', 'LIT_ATOM_POS', 'RECORD_META_RULE_CLAUSE', 'RECORD_META_POS', 'ATOM_META_NEG_RAWMASK',
                                         'CLTERM_HASHNODE_TERM_POS', 'CLTERM_HASHNODE_CL_POS', 'CLTERM_HASHNODE_NEXT_POS', 'WG_RECORDTYPE'])
        self.HG, self.EX, self.LW = k['RECORD_HEADER_GINTS'], k['CLAUSE_EXTRAHEADERLEN'], k['LIT_WIDTH']
        T.sset(st, 'instgen_strat', 0)
        for f in ('print_litterm_selection', 'print_active_cl'):
            T.sset(st, f, 0)
        self.c, self.n = c, n = z3.BitVec('cl', 64), small('n!cl')
        st.assume(z3.And(c != 0, (c & 7) == 0, WF(c), z3.ULT(c, 1 << 46), T.length(c) >= 1, T.length(c) < T.MAXLEN, n >= 1, n < (1 << 20),
                         z3.If(self.rule(c), T.length(c) == n * self.LW + self.EX, n == 1)))
        st.assume(T.top(st) == 2)
        st.mem[T.G.id].cells.pop(T.off['tmp_unify_vc'], None)
        self.act = Ptr(None, z3.BitVec('active', 64))
        st.ghost['uni'] = None
        x.calls['wr_unify_term'] = self.h_unify
        x.calls['wr_clear_varstack'] = self.h_clear
        x.calls['wg_get_encoded_type'] = self.h_type
        x.calls['wr_equality_atom'] = self.h_eq
        x.calls['wr_enough_answers'] = lambda X, s, a, i: X.fresh('enough', 32)
        x.noop += ['wr_printf', 'wr_print_*', 'printf', 'wr_sys_exiterr']
        x.assumptions += ['the print flags are off (they only add output)', 'instgen_strat=0 (instance generation strategy is off)', 'a clause has fewer than 2^20 literals',
                          'the variable trail is empty when inference starts on a clause (C04)']

    def rule(self, c):
        return (z3.Select(self.T.dbarr, c + 8 * self.k['RECORD_META_POS']) & self.k['RECORD_META_RULE_CLAUSE']) != 0

    def pos(self, i):
        return self.c + ((bv(i) * self.LW + self.HG + self.EX) << 3)

    def atom(self, i):
        return z3.If(self.rule(self.c), z3.Select(self.T.dbarr, self.pos(i) + 8 * self.k['LIT_ATOM_POS']), self.c)

    def neg(self, i):
        return z3.And(self.rule(self.c), (z3.Select(self.T.dbarr, self.pos(i) + 8 * self.k['LIT_META_POS']) & self.k['ATOM_META_NEG_RAWMASK']) != 0)

    def lit(self, s, i):
        return z3.Implies(z3.And(i >= 0, i < self.n), z3.And(WF(self.atom(i)), isrec(self.atom(i))))

    def h_unify(self, x, s, args, ins):
        """C01: variables are bound to a most general unifier, 0: none"""
        g, a, b, u = args
        x.oblig(s, 'pre:unify-from-unbound-variables', z3.And(self.T.top(s) == 2, sx(u) != 0), 'call')
        x.havoc_region(s, self.T.VB)
        x.havoc_region(s, self.T.VS)
        r = x.fresh('ures', int(ins['ty'][1]) if ins['ty'][0] == 'int' else 64)
        if r.size() == 64:
            s.assume((r != 0) == (z3.Extract(31, 0, r) != 0))
        f = s.copy()
        f.assume(r == 0)
        f.ghost['uni'] = None
        s.assume(r != 0)
        s.ghost['uni'] = (bv(a), bv(b))
        return [(f, r), (s, r)]

    def h_clear(self, x, s, args, ins):
        """C04"""
        x.havoc_region(s, self.T.VB)
        x.store(s, Ptr(self.T.VS, 8), 8, bv(2))
        s.ghost['uni'] = None
        return None

    def h_type(self, x, s, args, ins):
        r = x.fresh('type', int(ins['ty'][1]))
        s.assume(z3.And(r >= 0, r <= 127, (sx(r) == self.k['WG_RECORDTYPE']) == isrec(bv(args[1]))))
        return r

    def h_eq(self, x, s, args, ins):
        r = x.fresh('iseq', int(ins['ty'][1]))
        s.assume((r != 0) == ISEQ(bv(args[1])))
        return r

    def done(self, x, s):
        """an inference may set proof_found and alloc_err, and leaves the bindings as they are"""
        for f in ('proof_found', 'alloc_err'):
            self.T.sset(s, f, x.fresh(f, 8 * self.T.fsz[f]))

    def unified(self, s, a, b):
        u = s.ghost['uni']
        return z3.BoolVal(False) if u is None else z3.Or(z3.And(u[0] == bv(a), u[1] == bv(b)), z3.And(u[0] == bv(b), u[1] == bv(a)))

    def free(self, s):
        return ('variables-unbound', self.T.top(s) == 2)


ISEQ = z3.Function('ISEQ', BV64, B)


@contract('wr_factor', SITEF, label='site:factoring', files=['Reasoner/clterm.c'], props=['C20'], timeout=120)
def c_factor(x):
    S = Site(x)
    st, T = S.st, S.T

    def proc(X, s, args, ins):
        g, cl, ln, i, xa, j, ya, act = args
        i, j = sx(i), sx(j)
        X.oblig(s, 'two-literals-of-the-clause', z3.And(bv(cl.off if isinstance(cl, Ptr) and cl.r is T.DB else 0) == S.c, sx(ln) == S.n, i >= 0, i < S.n, j >= 0, j < S.n, i != j, bv(xa) == S.atom(i), bv(ya) == S.atom(j)), 'call')
        X.oblig(s, 'of-the-same-sign', S.neg(i) == S.neg(j), 'call')
        X.oblig(s, 'unified', S.unified(s, xa, ya), 'call')
        S.done(X, s)
        return None
    x.calls['wr_process_factor_result'] = proc
    rng = lambda l, v: z3.And(sx(l.var(v)) >= 0, sx(l.var(v)) <= S.n)

    def inv_i(X, s, l):
        return [('range', rng(l, 'i')), S.free(s)]

    def inv_j(X, s, l):
        i = sx(l.var('i'))
        neg = sx(l.var('xnegflag')) != 0
        return [('range', z3.And(rng(l, 'j'), i >= 0, i < S.n, sx(l.var('j')) > i)), ('literal', z3.And(bv(l.var('xatom')) == S.atom(i), neg == S.neg(i), z3.Or(sx(l.var('xnegflag')) == 0, sx(l.var('xnegflag')) == 1))), S.free(s)]
    x.loops['wr_factor'] = [LoopSpec(inv_i), LoopSpec(inv_j)]
    f = start(x, 'wr_factor')
    x.run(f, st, [Ptr(T.G, 0), Ptr(T.DB, S.c), S.act], ret_check(x, lambda s, v: [S.free(s)]))


@contract('wr_resolve_equality_reflexive', SITEF, label='site:reflexivity', files=['Reasoner/clterm.c'], props=['C20'], timeout=120)
def c_reflex(x):
    S = Site(x)
    st, T = S.st, S.T
    T.sset(st, 'unify_funarg1pos', 2)
    T.sset(st, 'unify_funarg2pos', 3)

    def proc(X, s, args, ins):
        g, cl, ln, i, xa, j, ya, act = args
        i, j = sx(i), sx(j)
        t = S.atom(i)
        X.oblig(s, 'a-literal-of-the-clause', z3.And(bv(cl.off if isinstance(cl, Ptr) and cl.r is T.DB else 0) == S.c, sx(ln) == S.n, i >= 0, i < S.n, bv(xa) == t), 'call')
        X.oblig(s, 'a-negative-equality', z3.And(S.neg(i), ISEQ(t)), 'call')
        X.oblig(s, 'both-sides-unified', S.unified(s, T.argt(t, 2), T.argt(t, 3)), 'call')
        S.done(X, s)
        return None
    x.calls['wr_process_factor_result'] = proc

    def inv_i(X, s, l):
        i = sx(l.var('i'))
        return [('range', z3.And(i >= 0, i <= S.n)), S.free(s)]

    def head(X, s, l, ph):
        i = sx(l.var('i'))
        s.assume(S.lit(s, i))
        s.assume(z3.Implies(z3.And(i >= 0, i < S.n), z3.And(T.length(S.atom(i)) < T.MAXLEN)))
    x.loops['wr_resolve_equality_reflexive'] = [LoopSpec(inv_i, head)]
    f = start(x, 'wr_resolve_equality_reflexive')
    x.run(f, st, [Ptr(T.G, 0), Ptr(T.DB, S.c), S.act], ret_check(x, lambda s, v: [S.free(s)]))


@contract('wr_resolve_binary_all_active', SITEF, label='site:resolution', files=['Reasoner/clterm.c'], props=['C20'], timeout=240)
def c_binary(x):
    for kb in (False, True):
        binary(x, kb)


def binary(x, kb):
    S = Site(x, fields=['max_run_dseconds', 'res_shortarglen_limit'])
    st, T = S.st, S.T
    for f in ('max_run_dseconds', 'res_shortarglen_limit'):
        T.sset(st, f, 0)
    x.assumptions.append('max_run_dseconds=0 and res_shortarglen_limit=0 (a second time limit and a second partner filter of the same form as the ones that are on)')
    KB = x.region(st, 'kb_glb', size=T.k['sizeof(glb)']) if kb else None
    T.sset(st, 'kb_g', Ptr(KB, 0) if kb else NULL)
    tabs, tregs = {}, []
    for f in ('hash_pos_atoms', 'hash_neg_atoms'):
        for own in ((T.G, KB) if kb else (T.G,)):
            r = x.region(st, f + ('' if own is T.G else '_kb'), size=None)
            tabs[r.id] = (f == 'hash_neg_atoms')
            for q in tregs:
                st.assume(r.base != q.base)
            tregs.append(r)
            st.mem[own.id].cells[T.off[f]] = (8, norm(r.base - T.DB.base))
    RV = x.region(st, 'resolvability', size=None)

    def prefh(X, s, args, ins):
        X.havoc_region(s, args[2].r)
        r = X.fresh('preflen', 32)
        s.assume(z3.And(r >= 1, r <= 3))
        return r
    x.calls.update({'wr_atom_calc_prefhashes': prefh, 'wr_atom_funhash': lambda X, s, a, i: X.fresh('funhash', int(i['ty'][1])), 'wr_count_cl_nonans_atoms': lambda X, s, a, i: X.fresh('nonans', 32),
                    'wr_clterm_hashlist_len': lambda X, s, a, i: X.fresh('hlen', 32), 'clock': lambda X, s, a, i: X.fresh('clock', 64),
                    'wr_get_cl_backsubsumed': lambda X, s, a, i: X.fresh('bs', int(i['ty'][1]))})
    fld = lambda n, p: z3.Select(T.dbarr, n + 8 * S.k[p])

    def isneg(v):
        """the tables, and which of them hold negative literals"""
        bs = {n: [r.base for r in tregs if tabs[r.id] == n] for n in (True, False)}
        return z3.Or(*[v == b for n in bs for b in bs[n]]), z3.Or(*[v == b for b in bs[True]])

    def nodeof(X, s, args, ins):
        v = bv(args[1])
        ok, ng = isneg(v)
        X.oblig(s, 'pre:a-table-of-literals', ok, 'call')
        r = X.fresh('node', 64)
        s.assume(z3.Implies(r != 0, z3.And((r & 7) == 0, z3.ULT(r, 1 << 46), SIGNED(r, ng))))
        return r
    x.calls['wr_clterm_hashlist_start'] = nodeof
    x.calls['wr_clterm_hashlist_next'] = nodeof
    SIGNED = z3.Function('SIGNED', BV64, B, B)      # the node describes a literal of that sign (true: negative) of its clause
    # such a node: (atom, clause, sign)
    LITOF = z3.Function('LITOF', BV64, BV64, B, B)

    def proc(X, s, args, ins):
        g, xa, xcl, ya, ycl, act = args
        i = s.ghost['i']
        X.oblig(s, 'a-literal-of-the-given-clause', z3.And(bv(xcl.off if isinstance(xcl, Ptr) and xcl.r is T.DB else 0) == S.c, i >= 0, i < S.n, bv(xa) == S.atom(i)), 'call')
        X.oblig(s, 'a-literal-of-opposite-sign-of-the-active-clause', LITOF(bv(ya), bv(ycl.off if isinstance(ycl, Ptr) and ycl.r is T.DB else 0), z3.Not(S.neg(i))), 'call')
        X.oblig(s, 'unified', S.unified(s, xa, ya), 'call')
        S.done(X, s)
        return None
    x.calls['wr_process_resolve_result'] = proc

    def cur(s, l):
        i = sx(l.var('i'))
        return z3.And(i >= 0, i < S.n, bv(l.var('xatom')) == S.atom(i), z3.Or(sx(l.var('negflag')) == 0, sx(l.var('negflag')) == 1), (sx(l.var('negflag')) != 0) == S.neg(i))

    def inv_i(X, s, l):
        i = sx(l.var('i'))
        return [('range', z3.And(i >= 0, i <= S.n)), S.free(s)]

    def head_i(X, s, l, ph):
        i = sx(l.var('i'))
        s.ghost['i'] = i
        s.assume(S.lit(s, i))

    def inv_d(X, s, l):
        return [('literal', cur(s, l)), ('range', z3.And(sx(l.var('dbused')) >= 0, sx(l.var('dbused')) <= 2, sx(l.var('preflen')) >= 1, sx(l.var('preflen')) <= 3)), S.free(s)]

    def tabok(X, s, l):
        ok, ng = isneg(bv(l.var('hashvec')))
        return z3.And(ok, S.neg(sx(l.var('i'))) != ng)

    def inv_p(X, s, l):
        p = sx(l.var('plen'))
        return [('literal', cur(s, l)), ('range', z3.And(p >= 0, p <= 3, sx(l.var('dbused')) >= 0, sx(l.var('dbused')) < 2, sx(l.var('preflen')) >= 1, sx(l.var('preflen')) <= 3)), S.free(s), ('table-of-opposite-sign', tabok(X, s, l))]

    def inv_n(X, s, l):
        n = bv(l.var('node'))
        i = sx(l.var('i'))
        return inv_p(X, s, l) + [('prefix', sx(l.var('plen')) < 3), ('node', z3.Implies(n != 0, z3.And((n & 7) == 0, z3.ULT(n, 1 << 46), SIGNED(n, z3.Not(S.neg(i))))))]

    def head_i2(X, s, l, ph):
        s.ghost['i'] = sx(l.var('i'))

    def head_n(X, s, l, ph):
        n = bv(l.var('node'))
        s.ghost['i'] = sx(l.var('i'))
        y, c = fld(n, 'CLTERM_HASHNODE_TERM_POS'), fld(n, 'CLTERM_HASHNODE_CL_POS')
        for sg in (True, False):
            s.assume(z3.Implies(SIGNED(n, z3.BoolVal(sg)), LITOF(y, c, z3.BoolVal(sg))))
        s.assume(z3.And(WF(y), isrec(y)))
    x.loops['wr_resolve_binary_all_active'] = [LoopSpec(inv_i, head_i), LoopSpec(inv_d, head_i2, cut=True), LoopSpec(inv_p, head_i2, cut=True), LoopSpec(inv_n, head_n, cut=True)]
    f = start(x, 'wr_resolve_binary_all_active')
    x.assumptions.append('the literal tables hash_pos_atoms and hash_neg_atoms hold only positive and negative literals of active clauses (wr_cl_store_res_terms)')
    x.run(f, st, [Ptr(T.G, 0), Ptr(T.DB, S.c), S.act, Ptr(RV, 0)], ret_check(x, lambda s, v: [S.free(s)]))
