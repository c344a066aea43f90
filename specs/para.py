"""Contracts for paramodulation: positions recorded for subterms, which subterm is replaced by what (Reasoner/clstore.c, resolve.c)."""
from sites import *

CSF = 'Reasoner/clstore.c'
LIM = 1 << 20
BV32 = z3.BitVecSort(32)
CNT_ = z3.Function('CNT_', BV64, z3.BitVecSort(20))          # argument positions inside t (functors not counted)
OFFS_ = z3.Function('OFFS_', BV64, BV64, z3.BitVecSort(20))  # argument positions passed before argument k of t
AT = z3.Function('AT', BV64, BV32, BV64, B)        # the subterm at preorder position p (functors not counted) of the atom
ENC = z3.Function('ENC', BV32, BV32, BV32)         # path code of a literal number and a position
CNT = lambda t: z3.ZeroExt(12, CNT_(t))
OFFS = lambda t, k: z3.ZeroExt(12, OFFS_(t, k))
NEGL = z3.Function('NEGL', BV64, BV64, B)          # literal i of the clause is negative
ELIT = z3.Function('ELIT', BV64, z3.BitVecSort(8))             # what a node of a table of paths describes: literal number, position
EPOS = z3.Function('EPOS', BV64, BV32)
DECI = z3.Function('DECI', BV64, BV64)             # value of an encoded integer


def low32(v):
    v = bv(v, 64) if is_c(v) else v
    return v if v.size() == 32 else z3.Extract(31, 0, v)


@contract('wr_encode_para_termpath', CSF, label='path:code', props=['C30'], timeout=60)
def c_path(x):
    """decoding the code of a literal number and a position gives them back"""
    st, T, gh = setup(x, vals=[fz])
    k = x.build.probe('#include "Reasoner/rincludes.h"\n#include "Reasoner/clstore.h"\n', ['PARA_TERMPATH_MAXLITNR', 'PARA_TERMPATH_MAXPOS'])
    l, p = z3.BitVecs('litnr pos', 32)
    st.assume(z3.And(l >= 0, l <= k['PARA_TERMPATH_MAXLITNR'], p >= 0, p <= k['PARA_TERMPATH_MAXPOS']))
    f = start(x, 'wr_encode_para_termpath')

    def after(X, s, code):
        X.oblig(s, 'post:code-is-not-negative', bv(code, 32) >= 0, 'return', kind='contract')
        for fn, want in (('wr_decode_para_termpath_litnr', l), ('wr_decode_para_termpath_pos', p)):
            s2 = s.copy()
            X.run(start(X, fn), s2, [Ptr(T.G, 0), code], ret_check(X, lambda q, v, want=want, fn=fn: [('decodes:' + fn.rsplit('_', 1)[1], bv(v, 32) == want)]))
    x.run(f, st, [Ptr(T.G, 0), l, p], after)


class Para(Site):
    def __init__(self, x, fields=(), kb=None, **kw):
        Site.__init__(self, x, fields=['prohibit_deep_para', 'prohibit_nested_para', 'prohibit_unordered_para', 'rewrite_only_strat', 'posunitpara_strat', 'hyperres_strat', 'relaxed_hyperres_strat',
                                       'use_rewrite_terms_strat', 'have_rewrite_terms', 'hash_para_terms', 'hash_eq_terms', 'hash_rewrite_terms', 'max_run_dseconds', 'max_run_seconds', 'res_shortarglen_limit',
                                       'res_arglen_limit'] + list(fields))
        T, st = self.T, self.st
        k = x.build.probe('#include "Reasoner/rincludes.h"\n#include "Reasoner/clstore.h"\n', ['PARA_TERMPATH_MAXLITNR', 'PARA_TERMPATH_MAXPOS', 'CLTERM_HASHNODE_PATH_POS', 'WG_VARTYPE'])
        self.k.update(k)
        x.noop += ['wr_sys_exiterr*']
        x.collapse = True
        T.sset(st, 'unify_funarg1pos', 2)
        T.sset(st, 'unify_funarg2pos', 3)
        for f in ('max_run_dseconds', 'res_shortarglen_limit'):
            T.sset(st, f, 0)
        x.assumptions += ['the functor (first argument) of a term is a constant', 'a term has fewer than 2^20 argument positions',
                          'max_run_dseconds=0 and res_shortarglen_limit=0 (a second time limit and a second partner filter of the same form as the ones that are on)']
        x.calls.update({'wr_encode_para_termpath': self.h_enc, 'wr_term_basehash': lambda X, s, a, i: X.fresh('hash', int(i['ty'][1])), 'wr_order_eqterms': lambda X, s, a, i: X.fresh('order', 32),
                        'wr_hyperres_satellite_cl': lambda X, s, a, i: X.fresh('satcl', 32), 'wr_count_cl_nonans_atoms': self.h_nonans, 'wr_clterm_hashlist_len': lambda X, s, a, i: X.fresh('hlen', 32),
                        'clock': lambda X, s, a, i: X.fresh('clock', 64), 'wr_get_cl_backsubsumed': lambda X, s, a, i: X.fresh('bs', int(i['ty'][1])),
                        'wr_get_cl_history_tag': lambda X, s, a, i: X.fresh('htag', int(i['ty'][1]))})
        D = x.defs_
        F = T.FIRST
        D.rule(CNT_, lambda t: [z3.Implies(z3.Not(isrec(t)), CNT(t) == 0), z3.Implies(z3.And(isrec(t), WF(t)), CNT(t) == OFFS(t, T.length(t)))])
        D.rule(OFFS_, lambda t, k: [z3.Implies(z3.And(WF(t), isrec(t), k <= F + 1), OFFS(t, k) == 0)])

    def h_nonans(self, x, s, args, ins):
        return x.fresh('nonans', 32)

    def h_enc(self, x, s, args, ins):
        """path:code"""
        g, l, p = args
        l, p = bv(l, 32), bv(p, 32)
        x.oblig(s, 'pre:literal-number-and-position-fit-the-code', z3.And(l >= 0, l <= self.k['PARA_TERMPATH_MAXLITNR'], p >= 0, p <= self.k['PARA_TERMPATH_MAXPOS']), 'call')
        e = ENC(l, p)
        s.assume(e >= 0)
        return e

    def atom_of(self, c, l):
        """atom of literal l of the clause at c"""
        return z3.If(self.rule(c), z3.Select(self.T.dbarr, c + ((bv(l) * self.LW + self.HG + self.EX + self.k['LIT_ATOM_POS']) << 3)), c)

    def rec(self, s, v):
        """the record of a term: its length"""
        s.assume(z3.Implies(z3.And(WF(v), isrec(v)), z3.And(self.T.length(v) >= 1, self.T.length(v) < self.T.MAXLEN)))


def dboff(T, p):
    return bv(p.off if isinstance(p, Ptr) and p.r is T.DB else 0)


def walk(S, fn, st, T, atom, t, pr, extra_pre, extra_inv, finish, nrec):
    """recursion over the subterms of an atom, counting positions"""
    x = S.x
    k = S.k
    F = T.FIRST
    p0 = z3.ZeroExt(12, z3.BitVec('p0', 20))
    st.mem[pr.id].cells[0] = (4, p0)
    S.path = path = lambda s: bv(x.load(s, Ptr(pr, 0), 4, ('int', 32)), 32)
    st.assume(z3.And(WF(t), p0 + CNT(t) < LIM, AT(atom, p0, t)))
    S.rec(st, t)

    def argfacts(s, rt, i, v):
        gi = s.ghost.get('argidx')
        if gi is None or not x.entails(s, rt == t):
            return [z3.Implies(i == F, isc(v))]
        # the argument is the one the loop stands at
        if x.entails(s, bv(i) != gi[0]):
            return [z3.Implies(i == F, isc(v))]
        x.oblig(s, 'argument-position', i == gi[0], 'load')
        s.assume(i == gi[0])
        i, n = gi
        return [z3.Implies(i == F, isc(v)), CNT(v) >= 0, CNT(v) < LIM, OFFS(rt, i) >= 0, OFFS(rt, n) < LIM, OFFS(rt, n) >= 0, z3.Implies(i > F, OFFS(rt, n) == OFFS(rt, i) + 1 + CNT(v)),
                z3.Implies(i > F, OFFS(rt, n) <= OFFS(rt, T.length(rt))), z3.Implies(isvar(v), CNT(v) == 0),
                # definition of positions: argument i of the term at p is at p + positions passed + 1
                z3.Implies(z3.And(AT(atom, p0, rt), i > F), AT(atom, p0 + OFFS(rt, i) + 1, v))]
    T.arg_hooks.append(argfacts)
    STOP = S.stop

    def post(s, a0, tt, a1):
        return z3.And(a1 >= a0, a1 <= a0 + CNT(tt), z3.Or(a1 == a0 + CNT(tt), a1 > k['PARA_TERMPATH_MAXPOS'], S.litnr > k['PARA_TERMPATH_MAXLITNR'], STOP(s)))

    def h_rec(X, s, args, ins):
        a0 = path(s)
        tt = nrec(X, s, args, p0)
        X.oblig(s, 'pre:subterm-at-its-position', z3.And(WF(tt), a0 >= 0, a0 + CNT(tt) < LIM, CNT(tt) >= 0, z3.Or(AT(atom, a0, tt), a0 > k['PARA_TERMPATH_MAXPOS'])), 'call')
        n = z3.ZeroExt(11, X.fresh('path', 21))
        s.mem[pr.id].cells[0] = (4, n)
        X.note_write(s, pr, 0, 4)
        S.after_rec(X, s)
        s.assume(post(s, a0, tt, n))
        gi = s.ghost.get('argidx')
        if gi is not None and tt is not None:
            X.require(s, 'position-below-the-end-of-the-argument', z3.Implies(gi[0] > F, n <= p0 + OFFS(t, gi[1])), 'call')
            X.require(s, 'position-below-the-end-of-the-term', z3.Implies(gi[0] > F, n <= p0 + CNT(t)), 'call')
        return X.fresh('res', 32)
    x.calls[fn] = h_rec

    def inv(X, s, l):
        i = sx(l.var('i'))
        a1 = path(s)
        tp = p0 + OFFS(t, i - S.HG)
        return [('range', z3.And(i >= S.HG + F, i <= S.HG + T.length(t), isrec(t))), ('offset', z3.And(OFFS(t, i - S.HG) >= 0, OFFS(t, i - S.HG) < LIM, tp <= p0 + CNT(t))),
                ('position-counted', z3.And(a1 >= p0, a1 <= tp, z3.Or(a1 == tp, a1 > k['PARA_TERMPATH_MAXPOS'])))] + extra_inv(X, s, l)

    def head(X, s, l, ph):
        i = l.var('i')
        gi, gn = sx(i) - S.HG, sx(i + 1) - S.HG
        s.assume(z3.Implies(i != 0x7fffffff, gn == gi + 1))
        s.ghost['argidx'] = (gi, gn)
    return LoopSpec(inv, head), post, p0


@contract('wr_cl_store_para_subterms', CSF, label='store:subterms', props=['C30'], timeout=200)
def c_store_sub(x):
    S = Para(x)
    st, T, k = S.st, S.T, S.k
    t = z3.BitVec('term', 64)
    l, depth = z3.BitVecs('litnr depth', 32)
    pr = x.region(st, 'path', size=4)
    i64 = sx(l)
    st.assume(z3.And(l >= 0, i64 < S.n))
    atom = S.atom(i64)
    S.litnr = l
    S.stop = lambda s: z3.BoolVal(False)
    S.after_rec = lambda X, s: None

    def nrec(X, s, args, p0):
        g, cl, tt, d, ll, pq = args
        X.oblig(s, 'pre:same-literal', z3.And(dboff(T, cl) == S.c, bv(ll, 32) == l, z3.BoolVal(isinstance(pq, Ptr) and pq.r is pr and pq.off == 0)), 'call')
        return bv(tt)
    HT = x.region(st, 'hash_para_terms', size=None)
    st.mem[T.G.id].cells[T.off['hash_para_terms']] = (8, norm(HT.base - T.DB.base))

    def add(X, s, args, ins):
        g, v, h, tt, cl, path = args
        X.oblig(s, 'stored-in-the-table-of-subterms', bv(v) == HT.base, 'call')
        pos = s.ghost['p0']
        X.oblig(s, 'stored-with-its-clause-literal-and-position', z3.And(dboff(T, cl) == S.c, low32(path) == ENC(l, pos), AT(atom, pos, bv(tt)), z3.Not(isvar(bv(tt))), pos <= k['PARA_TERMPATH_MAXPOS']), 'call')
        return X.fresh('added', int(ins['ty'][1]))
    x.calls['wr_clterm_add_hashlist_withpath'] = add
    fn = 'wr_cl_store_para_subterms'
    L, post, p0 = walk(S, fn, st, T, atom, t, pr, None, lambda X, s, l: [], None, nrec)
    x.loops[fn] = [L]
    st.ghost['p0'] = p0
    f = start(x, fn)
    x.run(f, st, [Ptr(T.G, 0), Ptr(T.DB, S.c), t, depth, l, Ptr(pr, 0)], ret_check(x, lambda s, v: [('position-advanced-by-the-size-of-the-term', post(s, p0, t, S.path(s)))]))


@contract('wr_cl_store_eq_arg', CSF, label='store:equation-side', props=['C30'], timeout=100)
def c_store_eq(x):
    eq_arg(x, 'wr_cl_store_eq_arg', 'hash_eq_terms')


@contract('wr_cl_store_term_rewriter', CSF, label='store:rewriter', props=['C30'], timeout=100)
def c_store_rw(x):
    eq_arg(x, 'wr_cl_store_term_rewriter', 'hash_rewrite_terms')


def side(S, c, l, left, t):
    """t is the left (right) side of literal l of the clause"""
    a = S.atom_of(c, sx(l))
    T = S.T
    return bv(t) == z3.If(left != 0, T.argt(a, 2), T.argt(a, 3))


def eq_arg(x, fn, table):
    S = Para(x, fields=['stat_made_rewriters', 'print_derived_cl', 'stat_internlimit_discarded_para', 'unify_funpos'])
    st, T, k = S.st, S.T, S.k
    T.sset(st, 'print_derived_cl', 0)
    T.sset(st, 'unify_funpos', 1)
    t = z3.BitVec('term', 64)
    l, left, typ = z3.BitVecs('litnr leftflag termtype', 32)
    st.assume(z3.And(l >= 0, sx(l) < S.n, z3.Or(left == 0, left == 1), WF(t), (typ == k['WG_RECORDTYPE']) == isrec(t), side(S, S.c, l, left, t)))
    if table == 'hash_rewrite_terms':
        st.assume(S.n == 1)
    S.rec(st, t)
    st.assume(z3.Implies(isrec(t), T.length(t) > 1))
    HT = x.region(st, table, size=None)
    st.mem[T.G.id].cells[T.off[table]] = (8, norm(HT.base - T.DB.base))

    def add(X, s, args, ins):
        g, v, h, tt, cl, path = args
        X.oblig(s, 'stored-in-its-table', bv(v) == HT.base, 'call')
        X.oblig(s, 'stored-with-its-clause-literal-and-side', z3.And(dboff(T, cl) == S.c, bv(tt) == t, low32(path) == ENC(l, left)), 'call')
        return X.fresh('added', int(ins['ty'][1]))
    x.calls['wr_clterm_add_hashlist_withpath'] = add
    f = start(x, fn)
    x.run(f, st, [Ptr(T.G, 0), Ptr(T.DB, S.c), t, typ, l, left], ret_check(x, lambda s, v: [('returns', z3.BoolVal(True))]))


def tables(S, names, kb):
    """the own and the attached knowledge base's table of that name"""
    x, st, T = S.x, S.st, S.T
    KB = x.region(st, 'kb_glb', size=T.k['sizeof(glb)']) if kb else None
    T.sset(st, 'kb_g', Ptr(KB, 0) if kb else NULL)
    regs = []
    for f in names:
        for own in ((T.G, KB) if kb else (T.G,)):
            r = x.region(st, f + ('' if own is T.G else '_kb'), size=None)
            regs.append(r)
            st.mem[own.id].cells[T.off[f]] = (8, norm(r.base - T.DB.base))
    return regs


ISNODE = z3.Function('ISNODE', BV64, B)


def node_handlers(S, regs):
    x, T = S.x, S.T

    def nodeof(X, s, args, ins):
        v = args[1]
        ok = z3.Or(*[bv(v) == r.base for r in regs])
        X.oblig(s, 'pre:a-table-of-these-terms', ok, 'call')
        r = X.fresh('node', 64)
        s.assume(z3.Implies(r != 0, z3.And((r & 7) == 0, z3.ULT(r, 1 << 46), ISNODE(r))))
        return r
    x.calls['wr_clterm_hashlist_start'] = nodeof
    x.calls['wr_clterm_hashlist_next'] = nodeof

    def dec(X, s, args, ins):
        r = X.fresh('int', int(ins['ty'][1]))
        s.assume(bv(r) == DECI(bv(args[1])))
        return r
    x.calls['wg_decode_int'] = dec
    S.fld = lambda n, p: z3.Select(T.dbarr, n + 8 * S.k[p])

    def tabok(l):
        v = l.var('hashvec')
        return z3.Or(*[bv(v) == r.base for r in regs])
    return tabok


def node_facts(S, n):
    """what a node of such a table stands for"""
    T = S.T
    y, c, p = S.fld(n, 'CLTERM_HASHNODE_TERM_POS'), S.fld(n, 'CLTERM_HASHNODE_CL_POS'), DECI(S.fld(n, 'CLTERM_HASHNODE_PATH_POS'))
    l, q = z3.ZeroExt(24, ELIT(n)), EPOS(n)
    w = z3.ZeroExt(56, ELIT(n))
    a = S.atom_of(c, w)
    return y, c, l, q, a, z3.And(WF(y), z3.Not(isvar(y)), p == z3.ZeroExt(32, ENC(l, q)), ENC(l, q) >= 0, q >= 0, (c & 7) == 0, c != 0, z3.ULT(c, 1 << 46),
                                 z3.Implies(z3.Not(S.rule(c)), w == 0), WF(c), T.length(c) >= 1, T.length(c) < T.MAXLEN,
                                 z3.Implies(S.rule(c), z3.And(T.length(c) >= S.EX + S.LW, w * S.LW + S.EX < T.length(c))), WF(a), isrec(a), z3.ULT(a, 1 << 46))


@contract('wr_paramodulate_from_all_active', SITEF, label='site:paramodulation-from', files=['Reasoner/clterm.c'], props=['C30'], timeout=300)
def c_from(x):
    for kb in (False, True):
        para_from(x, kb)


def para_from(x, kb):
    S = Para(x, fields=['unify_funpos', 'stat_derived_cl', 'run_start_clock'])
    st, T, k = S.st, S.T, S.k
    T.sset(st, 'unify_funpos', 1)
    regs = tables(S, ['hash_para_terms'], kb)
    tabok = node_handlers(S, regs)
    RV = x.region(st, 'resolvability', size=None)

    def proc(X, s, args, ins):
        g, xa, xcl, ya, ycl, act, a, b, path, lf, ff = args
        i, tp = s.ghost['i'], s.ghost['tp']
        n = s.ghost['node']
        y, c, l, q, at, facts = node_facts(S, n)
        xa = bv(xa)
        left = sx(lf) != 0
        X.require(s, 'from-a-positive-equation-of-the-given-clause', z3.And(dboff(T, xcl) == S.c, i >= 0, i < S.n, xa == S.atom(i), z3.Not(S.neg(i)), ISEQ(xa)), 'call')
        X.oblig(s, 'its-two-sides', z3.And(bv(a) == z3.If(left, T.argt(xa, 2), T.argt(xa, 3)), bv(b) == z3.If(left, T.argt(xa, 3), T.argt(xa, 2)), sx(ff) == 1), 'call')
        X.oblig(s, 'into-the-clause-and-position-of-the-unified-subterm', z3.And(dboff(T, ycl) == c, low32(path) == ENC(l, q)), 'call')
        X.oblig(s, 'unified', S.unified(s, a, y), 'call')
        S.done(X, s)
        return None
    x.calls['wr_process_paramodulate_result'] = proc
    fn = 'wr_paramodulate_from_all_active'

    def inv_i(X, s, l):
        i = sx(l.var('i'))
        return [('range', z3.And(i >= 0, i <= S.n)), S.free(s)]

    def head_i(X, s, l, ph):
        i = sx(l.var('i'))
        s.ghost['i'] = i
        s.assume(S.lit(s, i))
        S.rec(s, S.atom(i))

    def eqlit(s, l):
        i = sx(l.var('i'))
        xa = bv(l.var('xatom'))
        return i, xa, z3.And(i >= 0, i < S.n, xa == S.atom(i), z3.Not(S.neg(i)), ISEQ(xa), isrec(xa), WF(xa), T.length(xa) >= 4)

    def sides(l, xa, swapped):
        a, b = T.argt(xa, 2), T.argt(xa, 3)
        va, vb = bv(l.var('a')), bv(l.var('b'))
        k_ = S.k
        ty = lambda v, t: z3.And((sx(l.var(v)) == k_['WG_RECORDTYPE']) == isrec(t)) 
        return z3.If(swapped, z3.And(va == b, vb == a), z3.And(va == a, vb == b)), z3.And(ty('atype', va), ty('btype', vb))

    def inv_e(X, s, l):
        # cut: the other side is used only after the first one
        i, xa, ok = eqlit(s, l)
        tp = sx(l.var('termpos'))
        sw, ty = sides(l, xa, tp == 2)
        return [('equation', ok), ('range', z3.And(tp >= 0, tp <= 2)), ('sides', sw), ('types', ty), S.free(s)]

    def inside(l):
        i, xa, ok = eqlit(None, l)
        tp = sx(l.var('termpos'))
        sw, ty = sides(l, xa, tp == 1)
        return i, tp, [('equation', ok), ('range', z3.And(tp >= 0, tp < 2)), ('sides', sw), ('types', ty)]

    def inv_d(X, s, l):
        d = sx(l.var('dbused'))
        return inside(l)[2] + [('database', z3.And(d >= 0, d <= 2)), S.free(s)]

    def inv_n(X, s, l):
        d = sx(l.var('dbused'))
        n = bv(l.var('node'))
        return inside(l)[2] + [('database', z3.And(d >= 0, d < 2)), S.free(s), ('table', tabok(l)), ('node', z3.Implies(n != 0, z3.And((n & 7) == 0, z3.ULT(n, 1 << 46), ISNODE(n))))]

    def head_x(X, s, l, ph):
        s.ghost['i'] = sx(l.var('i'))
        s.ghost['tp'] = sx(l.var('termpos'))
        S.rec(s, bv(l.var('xatom')))
        for t in ('a', 'b'):
            v = bv(l.var(t))
            s.assume(WF(v))
            S.rec(s, v)
            s.assume(z3.Implies(isrec(v), T.length(v) > 1))

    def head_n(X, s, l, ph):
        head_x(X, s, l, ph)
        n = bv(l.var('node'))
        s.ghost['node'] = n
        s.assume(z3.Implies(z3.And(n != 0, ISNODE(n)), node_facts(S, n)[5]))
    x.loops[fn] = [LoopSpec(inv_i, head_i), LoopSpec(inv_e, head_x, cut=True), LoopSpec(inv_d, head_x, cut=True), LoopSpec(inv_n, head_n, cut=True)]
    f = start(x, fn)
    x.assumptions.append('the table hash_para_terms holds subterms of literals of active clauses with their positions (store:subterms)')
    x.run(f, st, [Ptr(T.G, 0), Ptr(T.DB, S.c), S.act, Ptr(RV, 0)], ret_check(x, lambda s, v: [S.free(s)]))


@contract('wr_paramodulate_into_subterms_all_active', SITEF, label='site:paramodulation-into', files=['Reasoner/clterm.c'], props=['C30'], timeout=400)
def c_into(x):
    for kb in (False, True):
        para_into(x, kb)


def para_into(x, kb):
    S = Para(x, fields=['unify_funpos', 'stat_derived_cl', 'run_start_clock', 'stat_internlimit_discarded_para'])
    st, T, k = S.st, S.T, S.k
    T.sset(st, 'unify_funpos', 1)
    t = z3.BitVec('term', 64)
    l, depth, nonans = z3.BitVecs('litnr depth nonanslen', 32)
    pr = x.region(st, 'path', size=4)
    i64 = sx(l)
    atom = S.atom(i64)
    atv = z3.BitVec('atom', 64)
    st.assume(z3.And(l >= 0, i64 < S.n, atv == atom, depth >= 0, depth < LIM))
    S.litnr = l
    regs = tables(S, ['hash_eq_terms'], kb)
    tabok = node_handlers(S, regs)
    GH = x.region(st, 'answers', size=4)
    st.mem[GH.id].cells[0] = (4, z3.BitVecVal(0, 32))
    en = lambda s: bv(x.load(s, Ptr(GH, 0), 4, ('int', 32)), 32) != 0
    ac = lambda s: T.gget(s, 'alloc_err') != 0
    S.stop = lambda s: z3.Or(ac(s), z3.And(T.gget(s, 'proof_found') != 0, en(s)))
    fn = 'wr_paramodulate_into_subterms_all_active'
    st.assume(T.gget(st, 'proof_found') == 0)
    st.assume(T.gget(st, 'alloc_err') == 0)

    def progress(X, s, free=True):
        """answers found stay found; a memory error stays"""
        a0, e0, f0 = ac(s), en(s), T.gget(s, 'proof_found') != 0
        S.done(X, s)
        X.store(s, Ptr(GH, 0), 4, X.fresh('enough', 32))
        s.assume(z3.And(z3.Implies(a0, ac(s)), z3.Implies(e0, en(s)), z3.Implies(z3.And(e0, f0), T.gget(s, 'proof_found') != 0)))

    def enough(X, s, args, ins):
        """wr_enough_answers: clears proof_found when more answers are needed"""
        p0 = T.gget(s, 'proof_found')
        T.sset(s, 'proof_found', z3.If(en(s), p0, z3.BitVecVal(0, p0.size())))
        X.note_write(s, T.G, T.off['proof_found'], T.fsz['proof_found'])
        r = X.fresh('enough', 32)
        s.assume((r != 0) == en(s))
        return r
    x.calls['wr_enough_answers'] = enough

    def after_rec(X, s):
        X.havoc_region(s, T.VB)
        X.havoc_region(s, T.VS)
        X.store(s, Ptr(T.VS, 8), 8, bv(2))
        for f in ('stat_internlimit_discarded_para',):
            T.sset(s, f, X.fresh(f, 8 * T.fsz[f]))
            X.note_write(s, T.G, T.off[f], T.fsz[f])
        progress(X, s)
        for f in ('proof_found', 'alloc_err'):
            X.note_write(s, T.G, T.off[f], T.fsz[f])
        s.assume(z3.Implies(T.gget(s, 'proof_found') != 0, z3.Or(en(s), ac(s))))
    S.after_rec = after_rec

    def nrec(X, s, args, p0):
        g, cl, act, at, tt, d, ll, pq, na = args
        X.oblig(s, 'pre:same-literal', z3.And(dboff(T, cl) == S.c, bv(ll, 32) == l, bv(at) == atv, bv(d, 32) >= 1, z3.BoolVal(isinstance(pq, Ptr) and pq.r is pr and pq.off == 0)), 'call')
        X.oblig(s, 'pre:no-proof-yet', z3.And(T.gget(s, 'proof_found') == 0, z3.Not(ac(s)), T.top(s) == 2), 'call')
        return bv(tt)
    L0, post, p0 = walk(S, fn, st, T, atom, t, pr, None, lambda X, s, l: [S.free(s), ('no-proof-yet', z3.And(T.gget(s, 'proof_found') == 0, z3.Not(ac(s))))], None, nrec)

    def proc(X, s, args, ins):
        g, ya, ycl, xa, xcl, act, a, b, path, lf, ff = args
        n = s.ghost['node']
        y, c, el, q, at, facts = node_facts(S, n)
        ya = bv(ya)
        left = q != 0
        X.require(s, 'from-the-equation-of-the-node', z3.And(dboff(T, ycl) == c, ya == at), 'call')
        X.oblig(s, 'its-two-sides', z3.And(bv(a) == y, bv(b) == z3.If(left, T.argt(at, 3), T.argt(at, 2)), (sx(lf) != 0) == left, sx(ff) == 0), 'call')
        X.oblig(s, 'into-the-position-of-the-unified-subterm', z3.And(bv(xa) == atom, dboff(T, xcl) == S.c, low32(path) == ENC(l, p0), AT(atom, p0, t)), 'call')
        X.oblig(s, 'unified', S.unified(s, t, y), 'call')
        progress(X, s)
        for f in ('proof_found', 'alloc_err'):
            X.note_write(s, T.G, T.off[f], T.fsz[f])
        return None
    x.calls['wr_process_paramodulate_result'] = proc
    x.calls['wr_decode_para_termpath_litnr'] = lambda X, s, a, i: dec(X, s, a, 0)
    x.calls['wr_decode_para_termpath_pos'] = lambda X, s, a, i: dec(X, s, a, 1)

    def dec(X, s, args, which):
        """path:code"""
        n = s.ghost['node']
        y, c, el, q, at, facts = node_facts(S, n)
        X.oblig(s, 'pre:the-code-of-the-node', low32(args[1]) == ENC(el, q), 'call')
        return el if which == 0 else q
    after = lambda s: post(s, p0, t, S.path(s))
    pf = lambda s: ('proof-only-if-enough-answers', z3.Implies(T.gget(s, 'proof_found') != 0, z3.Or(en(s), ac(s))))

    def inv_d(X, s, l):
        d = sx(l.var('dbused'))
        return [('database', z3.And(d >= 0, d <= 2)), ('position-counted', after(s)), ('subterm', z3.And(bv(l.var('xterm')) == t, bv(l.var('xatom')) == atom, z3.Not(isvar(t)), low32(l.var('origtermpath')) == p0)), S.free(s), pf(s)]

    def inv_n(X, s, l):
        n = bv(l.var('node'))
        return inv_d(X, s, l)[1:] + [('database', z3.And(sx(l.var('dbused')) >= 0, sx(l.var('dbused')) < 2)), ('table', tabok(l)),
                                     ('node', z3.Implies(n != 0, z3.And((n & 7) == 0, z3.ULT(n, 1 << 46), ISNODE(n))))]

    def head_d(X, s, l, ph):
        s.ghost['argidx'] = None

    def head_n(X, s, l, ph):
        n = bv(l.var('node'))
        head_d(X, s, l, ph)
        s.ghost['node'] = n
        y, c, el, q, at, facts = node_facts(S, n)
        # a table of equation sides: side q (1: left) of the positive equation that is literal el
        s.assume(z3.Implies(z3.And(n != 0, ISNODE(n)), z3.And(facts, q <= 1, ISEQ(at), T.length(at) >= 4, T.length(at) < T.MAXLEN, y == z3.If(q != 0, T.argt(at, 2), T.argt(at, 3)))))
    x.loops[fn] = [L0, LoopSpec(inv_d, head_d, cut=True), LoopSpec(inv_n, head_n, cut=True)]
    f = start(x, fn)
    x.assumptions.append('the table hash_eq_terms holds the sides of positive equations of active clauses with the literal number and side (store:equation-side)')
    x.run(f, st, [Ptr(T.G, 0), Ptr(T.DB, S.c), S.act, atv, t, depth, l, Ptr(pr, 0), nonans], ret_check(x, lambda s, v: [
        ('position-advanced-by-the-size-of-the-term', after(s)), S.free(s), pf(s)]))


@contract('wr_paramodulate_into_all_active', SITEF, label='site:paramodulation-into-all', files=['Reasoner/clterm.c'], props=['C30'], timeout=100)
def c_into_all(x):
    S = Para(x)
    st, T = S.st, S.T
    RV = x.region(st, 'resolvability', size=None)

    def sub(X, s, args, ins):
        g, cl, act, at, tt, d, ll, pq, na = args
        i = sx(ll)
        a = bv(at)
        X.oblig(s, 'starts-at-the-top-of-a-literal', z3.And(dboff(T, cl) == S.c, i >= 0, i < S.n, a == S.atom(i), bv(tt) == a, sx(d) == 0, bv(X.load(s, pq, 4, ('int', 32)), 32) == 0, T.top(s) == 2), 'call')
        X.havoc_region(s, T.VB)
        X.store(s, pq, 4, X.fresh('path', 32))
        S.done(X, s)
        return X.fresh('res', 32)
    x.calls['wr_paramodulate_into_subterms_all_active'] = sub
    fn = 'wr_paramodulate_into_all_active'

    def inv_i(X, s, l):
        i = sx(l.var('i'))
        return [('range', z3.And(i >= 0, i <= S.n)), S.free(s)]

    def head_i(X, s, l, ph):
        i = sx(l.var('i'))
        s.assume(S.lit(s, i))
        S.rec(s, S.atom(i))
    x.loops[fn] = [LoopSpec(inv_i, head_i)]
    f = start(x, fn)
    x.run(f, st, [Ptr(T.G, 0), Ptr(T.DB, S.c), S.act, Ptr(RV, 0)], ret_check(x, lambda s, v: [S.free(s)]))


@contract('wr_cl_store_para_terms', CSF, label='store:terms', files=['Reasoner/clterm.c'], props=['C30'], timeout=100)
def c_store_terms(x):
    S = Para(x)
    st, T, k = S.st, S.T, S.k
    RV = x.region(st, 'resolvability', size=None)

    def order(X, s, args, ins):
        r = X.fresh('order', 32)
        s.ghost['order'] = (bv(args[1]), bv(args[2]), r)
        return r
    x.calls['wr_order_eqterms'] = order

    def sub(X, s, args, ins):
        g, cl, tt, d, ll, pq = args
        i = sx(ll)
        X.oblig(s, 'starts-at-the-top-of-a-literal', z3.And(dboff(T, cl) == S.c, i >= 0, i < S.n, bv(tt) == S.atom(i), sx(d) == 0, bv(X.load(s, pq, 4, ('int', 32)), 32) == 0), 'call')
        X.store(s, pq, 4, X.fresh('path', 32))
        return X.fresh('res', 32)
    x.calls['wr_cl_store_para_subterms'] = sub

    def eqarg(rewr):
        def h(X, s, args, ins):
            g, cl, tt, typ, ll, left = args
            i = sx(ll)
            a = S.atom(i)
            X.require(s, 'a-positive-equation', z3.And(dboff(T, cl) == S.c, i >= 0, i < S.n, z3.Not(S.neg(i)), ISEQ(a)), 'call')
            X.oblig(s, 'the-side-it-is-stored-as', z3.And(z3.Or(sx(left) == 0, sx(left) == 1), bv(tt) == z3.If(sx(left) != 0, T.argt(a, 2), T.argt(a, 3))), 'call')
            X.oblig(s, 'the-type-of-that-side', (sx(typ) == k['WG_RECORDTYPE']) == isrec(bv(tt)), 'call')
            if rewr:
                o = s.ghost.get('order')
                ok = z3.BoolVal(False) if o is None else z3.And(o[0] == T.argt(a, 2), o[1] == T.argt(a, 3), o[2] == z3.If(sx(left) != 0, z3.BitVecVal(1, 32), z3.BitVecVal(2, 32)))
                X.oblig(s, 'rewrites-the-bigger-side-of-a-unit', z3.And(S.n == 1, ok), 'call')
            return X.fresh('res', 32)
        return h
    x.calls['wr_cl_store_eq_arg'] = eqarg(False)
    x.calls['wr_cl_store_term_rewriter'] = eqarg(True)
    fn = 'wr_cl_store_para_terms'

    def inv_i(X, s, l):
        i = sx(l.var('i'))
        return [('range', z3.And(i >= 0, i <= S.n))]

    def head_i(X, s, l, ph):
        i = sx(l.var('i'))
        s.ghost['order'] = None
        s.assume(S.lit(s, i))
        S.rec(s, S.atom(i))
    x.loops[fn] = [LoopSpec(inv_i, head_i)]
    f = start(x, fn)
    x.run(f, st, [Ptr(T.G, 0), Ptr(T.DB, S.c), Ptr(RV, 0)], ret_check(x, lambda s, v: [('returns', z3.BoolVal(True))]))
