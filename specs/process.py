"""Contracts for the functions that turn an inference into a derived clause (Reasoner/derive.c, simp.c, propagate.c):
which literals of which parents are collected, when a contradiction is reported, and which clause is kept."""
from resolve import *

PRINT = ['print_derived_precut_cl', 'print_derived_subsumed_cl', 'print_derived_cl', 'print_derived', 'print_partial_derived_cl', 'print_litterm_selection']
FLAGS = ['use_strong_unit_cutoff', 'use_strong_duplicates', 'hyperres_strat', 'propagate', 'instgen_strat']
BUFS = ['derived_termbuf', 'given_termbuf', 'queue_termbuf', 'hyper_termbuf', 'cut_clvec', 'rewrite_clvec']
PTRS = ['clpick_queues', 'hyper_queue']
MODE = ['build_subst', 'build_calc', 'build_dcopy', 'build_rename', 'build_rename_maxseenvnr', 'build_rename_vc', 'build_rename_banknr', 'build_rename_bank', 'build_buffer', 'build_rewrite',
        'use_comp_funs', 'use_comp_funs_strat']
STATS = ['stat_derived_cl', 'stat_binres_derived_cl', 'stat_factor_derived_cl', 'stat_para_derived_cl', 'stat_propagated_derived_cl', 'stat_internlimit_discarded_cl', 'stat_derived_cut',
         'stat_hyperres_partial_cl', 'stat_derived_partial_hyper_cl', 'stat_weight_discarded_cl', 'stat_kept_cl', 'stat_built_cl', 'stat_simplified', 'stat_derived_rewritten', 'stat_lit_hash_cut_ok']
ANSW = z3.Bool('ONLY_ANSWER_LITERALS')        # every literal of the built clause is an answer literal


class Proc:
    """one inference: the clause under construction, what has been collected, cut, built, stored"""
    FIELDS = PRINT + FLAGS + BUFS + PTRS + MODE + STATS + ['proof_found', 'proof_history', 'alloc_err', 'avg_kept_weight', 'clpickpriorqueue', 'tmp_rewrites']

    def __init__(self, x, clauses, hyper=0, propagate=0):
        x.incremental = True
        st, T, gh = setup(x, fields=self.FIELDS, vals=[fz])
        self.x, self.st, self.T = x, st, T
        k = self.k = x.build.probe(HDR, ['RECORD_HEADER_GINTS', 'CLAUSE_EXTRAHEADERLEN', 'LIT_WIDTH', 'LIT_META_POS', 'LIT_ATOM_POS', 'RECORD_META_RULE_CLAUSE', 'RECORD_META_FACT_CLAUSE', 'RECORD_META_POS',
                                         'ATOM_META_NEG_RAWMASK', 'NROF_VARSINBANK', 'CLMETABLOCK_ELS'])
        self.HG, self.EX, self.LW = k['RECORD_HEADER_GINTS'], k['CLAUSE_EXTRAHEADERLEN'], k['LIT_WIDTH']
        for f in PRINT:
            T.sset(st, f, 0)
        x.assumptions += ['the print flags are off (they only add output)']
        T.sset(st, 'proof_found', 0)
        T.sset(st, 'alloc_err', 0)
        T.sset(st, 'hyperres_strat', hyper)
        T.sset(st, 'propagate', propagate)
        T.sset(st, 'instgen_strat', 0)
        self.B = {}
        for f in BUFS:
            self.B[f] = r = x.region(st, f, size=None)
            r.no_head = True
            T.sset(st, f, Ptr(r, 0))
        for f in PTRS:
            r = x.region(st, f, size=None)
            self.B[f] = r
            T.sset(st, f, Ptr(r, 0))
        self.cl = {}
        for nm in clauses:
            c = z3.BitVec(nm, 64)
            n = small('n!' + nm)
            st.assume(z3.And(c != 0, (c & 7) == 0, WF(c), z3.ULT(c, 1 << 46), T.length(c) >= 1, T.length(c) < T.MAXLEN, n >= 1, n < (1 << 20),
                             z3.If(self.rule(c), T.length(c) == n * self.LW + self.EX, n == 1)))
            self.cl[nm] = (c, n)
        self.ghost(st)
        x.calls.update({
            'wr_alloc_from_cvec': self.h_alloc, 'wr_process_resolve_result_aux': self.h_aux, 'wr_process_resolve_result_cleanupsubst': self.h_cleanup,
            'wr_derived_cl_cut_and_subsume': self.h_cut, 'wr_derived_cl_strong_cut': self.h_strong, 'wr_process_resolve_result_remove_cuts': self.h_remove,
            'wr_find_strong_duplicates': self.h_dups, 'wr_process_resolve_result_isrulecl': self.h_isrule, 'wr_derived_build_cl_from_initial_cl': self.h_build,
            'wr_cl_derived_is_answer': self.h_isans, 'wr_register_answer': self.h_register, 'wr_simplify_doublecut_cl': self.h_simp,
            'wr_hyperres_satellite_cl': lambda X, s, a, i: X.fresh('satcl', 32), 'wr_hyperres_satellite_tmpres': lambda X, s, a, i: X.fresh('sattmp', 32),
            'wr_calc_clause_weight': self.h_weight, 'wr_derived_weight_check': self.h_check, 'wr_calc_clause_meta': self.h_use('meta'),
            'wr_add_cl_to_unithash': self.h_store('unithash', 64), 'wr_add_cl_to_doublehash': self.h_store('doublehash', 32), 'wr_store_atom_occurrences': self.h_store('occurrences', 32),
            'wr_cl_store_res_units': self.h_store('units', 32), 'wr_push_cl_clpick_queues': self.h_push('queue'), 'wr_push_cl_hyper_queue': self.h_push('hyper'),
            'wr_cl_create_propinst': self.h_store('propinst', 32), 'wr_propagate_unit': self.h_propagate,
        })
        for h in ('wr_build_resolve_history', 'wr_build_factorial_history', 'wr_build_para_history', 'wr_build_simplify_history', 'wr_build_propagate_history'):
            x.calls[h] = self.h_history
        x.noop += ['wr_alloc_err', 'wr_printf', 'wr_print_*']

    # ghost state: immutable values only, replaced on change
    def ghost(self, st):
        st.ghost.update(todo=(), lits=None, ncut=bv(0), rpos=None, dead=None, res=None, flag=None, stored=(), proof=None, dirty=False, hist=None, built=None)

    def rule(self, c):
        return (z3.Select(self.T.dbarr, c + 8 * self.k['RECORD_META_POS']) & self.k['RECORD_META_RULE_CLAUSE']) != 0

    def h_history(self, x, s, args, ins):
        r = x.fresh('history', 64)
        return r

    def h_alloc(self, x, s, args, ins):
        g, v, n = args
        x.oblig(s, 'pre:literal-buffer', z3.And(z3.BoolVal(isinstance(v, Ptr) and v.r is self.B['derived_termbuf']), sx(n) > 0), 'call')
        f = s.copy()
        f.ghost['dead'] = 'memory'
        R = x.region(s, 'rptr', size=None)
        R.no_head = True
        s.ghost['lits'] = (R, bv(sx(n)))
        return [(f, NULL), (s, Ptr(R, 0))]

    def islits(self, s, p):
        L = s.ghost['lits']
        return z3.And(z3.BoolVal(L is not None and isinstance(p, Ptr) and p.r is L[0]), bv(p.off if isinstance(p, Ptr) else 0) == 0)

    def setrpos(self, x, s, p, v):
        x.store(s, p, 4, z3.Extract(31, 0, v))

    def h_aux(self, x, s, args, ins):
        """resolve:copy-literals: the instances of all literals of the clause but the cut one are appended; 0: the clause must be dropped"""
        g, cl, cut, n, rp, rpp, cpp, path, term = args
        T = self.T
        c = norm(bv(cl.off)) if isinstance(cl, Ptr) and cl.r is T.DB else None
        hit = None
        for i, (cc, cn, atom, pth, trm) in enumerate(s.ghost['todo']):
            if c is not None and x.entails(s, bv(c) == cc):
                hit = i
                break
        x.oblig(s, 'parent-not-collected-twice', z3.BoolVal(hit is not None), 'call')
        if hit is None:
            raise DeadPath()
        cc, cn, atom, pth, trm = s.ghost['todo'][hit]
        s.ghost['todo'] = s.ghost['todo'][:hit] + s.ghost['todo'][hit + 1:]
        r = sx(x.load(s, rpp, 4, ('int', 32)))
        x.oblig(s, 'literal-cut-from-its-own-clause', z3.And(bv(cut) == atom, sx(n) == cn), 'call')
        x.oblig(s, 'replacement-in-the-right-clause', (sx(path) < 0) if pth is None else z3.And(bv(path) == pth, bv(term) == trm), 'call')
        x.oblig(s, 'pre:copy-literals', z3.And(self.islits(s, rp), r == (s.ghost['rpos'] if s.ghost['rpos'] is not None else bv(0))), 'call')
        gt = lambda f: T.gget(s, f)
        b3 = self.k['NROF_VARSINBANK']
        bank = x.load(s, Ptr(T.G, T.off['build_rename_bank']), 8, ('ptr',))
        buf = x.load(s, Ptr(T.G, T.off['build_buffer']), 8, ('ptr',))
        x.oblig(s, 'substituting-and-renaming', z3.And(gt('build_subst') != 0, gt('build_rename') != 0, gt('build_rewrite') == 0, gt('build_rename_banknr') == 3,
                                                       z3.BoolVal(isinstance(bank, Ptr) and bank.r is T.VB and isinstance(buf, Ptr) and buf.r is self.B['derived_termbuf']),
                                                       bv(bank.off) == 3 * b3 * 8 if isinstance(bank, Ptr) else z3.BoolVal(False),
                                                       z3.BoolVal(True) if s.ghost['dirty'] else gt('build_rename_vc') == 0), 'call')
        s.ghost['dirty'] = True
        T.sset(s, 'build_rename_vc', x.fresh('vc'))
        x.havoc_region(s, s.ghost['lits'][0])
        kept = cn - (0 if pth is not None else 1)
        r1 = x.fresh('rpos', 64)
        s.assume(z3.And(r1 >= r, r1 <= r + kept))
        s.ghost['rpos'] = r1
        s.ghost['left'] = s.ghost.get('left', bv(0)) + kept
        x.oblig(s, 'buffer-large-enough', s.ghost['left'] * self.LW <= s.ghost['lits'][1], 'call')
        self.setrpos(x, s, rpp, r1)
        f = s.copy()
        f.ghost['dead'] = 'dropped'
        return [(f, z3.BitVecVal(0, 32)), (s, z3.BitVecVal(1, 32))]

    def h_cleanup(self, x, s, args, ins):
        s.ghost['dirty'] = False
        return None

    def collected(self, s):
        return z3.BoolVal(not s.ghost['todo'])

    def atlits(self, x, s, rp, n):
        return z3.And(self.islits(s, rp), sx(n) == (s.ghost['rpos'] if s.ghost['rpos'] is not None else bv(0)))

    def h_cut(self, x, s, args, ins):
        """cut:ground-units"""
        g, rp, n, hp = args
        x.oblig(s, 'pre:cut', z3.And(self.atlits(x, s, rp, n), self.collected(s), s.ghost['ncut'] == 0), 'call')
        f = s.copy()
        f.ghost['dead'] = 'subsumed'
        c = x.fresh('ncut', 64)
        s.assume(z3.And(c >= 0, c <= s.ghost['rpos']))
        s.ghost['ncut'] = c
        x.havoc_region(s, s.ghost['lits'][0])
        m = x.fresh('subsumed', 32)
        f.assume(m < 0)
        return [(f, m), (s, z3.Extract(31, 0, c))]

    def h_strong(self, x, s, args, ins):
        """cut:units"""
        g, rp, n, pc = args
        x.oblig(s, 'pre:strong-cut', z3.And(self.atlits(x, s, rp, n), self.collected(s), sx(pc) == s.ghost['ncut']), 'call')
        c = x.fresh('ncut2', 64)
        s.assume(z3.And(c >= 0, c <= s.ghost['rpos'], s.ghost['ncut'] + c <= s.ghost['rpos']))
        s.ghost['ncut'] = s.ghost['ncut'] + c
        x.havoc_region(s, s.ghost['lits'][0])
        return z3.Extract(31, 0, c)

    def h_remove(self, x, s, args, ins):
        """resolve:remove-cuts"""
        g, rp, rpp, cuts = args
        r = sx(x.load(s, rpp, 4, ('int', 32)))
        x.oblig(s, 'all-cuts-removed', z3.And(self.islits(s, rp), r == s.ghost['rpos'], sx(cuts) == s.ghost['ncut']), 'call')
        x.havoc_region(s, s.ghost['lits'][0])
        s.ghost['rpos'] = r - s.ghost['ncut']
        s.ghost['ncut'] = bv(0)
        self.setrpos(x, s, rpp, s.ghost['rpos'])
        return None

    def h_dups(self, x, s, args, ins):
        """strong:duplicates: literals only disappear, at least one stays"""
        g, rp, rpp = args
        r = sx(x.load(s, rpp, 4, ('int', 32)))
        x.oblig(s, 'pre:strong-duplicates', z3.And(self.islits(s, rp), r == s.ghost['rpos'], s.ghost['ncut'] == 0, self.collected(s)), 'call')
        x.havoc_region(s, s.ghost['lits'][0])
        n = x.fresh('ndup', 64)
        s.assume(z3.And(n >= 0, z3.Implies(r > 0, n < r)))
        s.ghost['rpos'] = r - n
        self.setrpos(x, s, rpp, s.ghost['rpos'])
        return x.fresh('dups', 32)

    def h_isrule(self, x, s, args, ins):
        g, rp, n = args
        x.oblig(s, 'pre:fact-or-rule', z3.And(self.atlits(x, s, rp, n), sx(n) >= 1, s.ghost['ncut'] == 0), 'call')
        r = x.fresh('isrule', 32)
        s.ghost['flag'] = r
        return r

    def mode_copy(self, x, s):
        gt = lambda f: self.T.gget(s, f)
        return z3.And(gt('build_subst') == 0, gt('build_rename') == 0)

    def h_build(self, x, s, args, ins):
        """resolve:build-clause"""
        g, rp, n, fl, h = args
        buf = x.load(s, Ptr(self.T.G, self.T.off['build_buffer']), 8, ('ptr',))
        x.oblig(s, 'clause-built-from-all-literals', z3.And(self.atlits(x, s, rp, n), self.collected(s), sx(n) >= 1), 'call')
        x.oblig(s, 'no-cut-literal-left', s.ghost['ncut'] == 0, 'call')
        x.oblig(s, 'fact-or-rule-decided', z3.BoolVal(s.ghost['flag'] is not None) if s.ghost['flag'] is None else (sx(fl) != 0) == (sx(s.ghost['flag']) != 0), 'call')
        x.oblig(s, 'built-in-a-queue-buffer', z3.And(self.mode_copy(x, s), z3.BoolVal(isinstance(buf, Ptr) and buf.r in (self.B['queue_termbuf'], self.B['hyper_termbuf']))), 'call')
        return self.made(x, s, bv(h))

    def made(self, x, s, h):
        f = s.copy()
        f.ghost['dead'] = 'memory'
        R = x.region(s, 'clause', size=None)
        R.no_head = True
        s.ghost['res'] = s.ghost['built'] = R
        s.ghost['hist'] = h
        return [(f, NULL), (s, Ptr(R, 0))]

    def isres(self, s, p):
        return z3.And(z3.BoolVal(s.ghost['res'] is not None and isinstance(p, Ptr) and p.r is s.ghost['res']), bv(p.off if isinstance(p, Ptr) else 0) == 0)

    def h_isans(self, x, s, args, ins):
        """answer:clause"""
        x.oblig(s, 'pre:is-answer', self.isres(s, args[1]), 'call')
        r = x.fresh('isans', 32)
        s.assume((r > 0) == ANSW)
        return r

    def h_register(self, x, s, args, ins):
        p = args[1]
        isnull = isinstance(p, Ptr) and p.r is None and is_c(p.off) and p.off == 0
        s.ghost['proof'] = 'empty' if isnull else 'clause'
        if not isnull:
            x.oblig(s, 'answer-registered-for-the-built-clause', self.isres(s, p), 'call')
        return None

    def h_simp(self, x, s, args, ins):
        """simplify:double-cut: the clause itself, a clause with fewer literals, or nothing (proof, or no memory)"""
        x.oblig(s, 'pre:simplify', self.isres(s, args[1]), 'call')
        a, b = s.copy(), s.copy()
        a.ghost['dead'] = 'simplified-away'
        self.T.sset(a, 'proof_found', x.fresh('pf', 8 * self.T.fsz['proof_found']))
        a.ghost['proof'] = 'callee'
        R = x.region(b, 'simplified', size=None)
        b.assume(R.base != s.ghost['res'].base)
        b.ghost['res'] = R
        return [(a, NULL), (b, Ptr(R, 0)), (s, args[1])]

    def h_weight(self, x, s, args, ins):
        x.oblig(s, 'pre:weight', self.isres(s, args[1]), 'call')
        for p in args[2:5]:
            if isinstance(p, Ptr) and p.r is not None:
                x.store(s, p, 4, x.fresh('wt', 32))
        r = x.fresh('weight', 32)
        s.ghost['weight'] = r
        return r

    def h_check(self, x, s, args, ins):
        f = s.copy()
        f.ghost['dead'] = 'too-heavy'
        return [(f, z3.BitVecVal(0, 32)), (s, z3.BitVecVal(1, 32))]

    def h_use(self, nm):
        def h(x, s, args, ins):
            x.oblig(s, 'pre:' + nm, self.isres(s, args[1]), 'call')
            if isinstance(args[2], Ptr) and args[2].r is not None:
                x.havoc_region(s, args[2].r)
            return x.fresh(nm, 64)
        return h

    def h_store(self, nm, w):
        def h(x, s, args, ins):
            x.oblig(s, 'stored-clause-is-the-built-one:' + nm, self.isres(s, args[1]), 'call')
            x.oblig(s, 'answer-not-stored:' + nm, z3.Implies(z3.BoolVal(s.ghost['res'] is s.ghost['built']), z3.Not(ANSW)), 'call')
            s.ghost['stored'] = s.ghost['stored'] + (nm,)
            return x.fresh(nm, w)
        return h

    def h_push(self, nm):
        def h(x, s, args, ins):
            q = self.B['clpick_queues'] if nm == 'queue' else self.B['hyper_queue']
            x.oblig(s, 'kept-clause-is-the-built-one', z3.And(self.isres(s, args[2]), bv(args[1]) == q.base), 'call')
            x.oblig(s, 'kept-with-its-weight', z3.BoolVal('weight' in s.ghost) if 'weight' not in s.ghost else sx(args[3]) == sx(s.ghost['weight']), 'call')
            s.ghost['stored'] = s.ghost['stored'] + (nm,)
            return x.fresh(nm, 64) if nm == 'queue' else x.fresh(nm, 32)
        return h

    def h_propagate(self, x, s, args, ins):
        x.oblig(s, 'pre:propagate', self.isres(s, args[1]), 'call')
        f = s.copy()
        f.ghost['dead'] = 'propagation-ended-the-search'
        T = self.T
        pf, ae = x.fresh('pf', 8 * T.fsz['proof_found']), x.fresh('ae', 8 * T.fsz['alloc_err'])
        f.assume(z3.Or(pf != 0, ae != 0))
        T.sset(f, 'proof_found', pf)
        T.sset(f, 'alloc_err', ae)
        f.ghost['proof'] = 'callee'
        return [(f, None), (s, None)]

    def posts(self, s, v):
        T = self.T
        gh = s.ghost
        pf = T.gget(s, 'proof_found') != 0
        empty = z3.And(self.collected(s), (gh['rpos'] if gh['rpos'] is not None else bv(0)) == 0)
        hist = T.gget(s, 'proof_history')
        # an answer clause that has been registered is the contradiction reported
        out = [('proof-only-for-an-empty-or-pure-answer-clause',
                z3.Implies(pf, z3.BoolVal(True) if gh['proof'] == 'callee' else
                           z3.And(z3.BoolVal(gh['res'] is None), empty) if gh['proof'] == 'empty' else
                           z3.And(z3.BoolVal(gh['res'] is not None and gh['res'] is gh['built']), ANSW) if gh['proof'] == 'clause' else z3.BoolVal(False))),
               ('registered-only-with-a-proof', z3.Implies(z3.BoolVal(gh['proof'] in ('empty', 'clause')), pf)),
               ('variable-bank-cleaned', z3.BoolVal(not gh['dirty']))]
        # nothing is lost silently
        kept = bool({'queue', 'hyper'} & set(gh['stored']))
        nores = gh['built'] is None
        out.append(('clause-kept-or-a-reason-not-to', z3.Or(pf, z3.BoolVal(kept or gh['dead'] is not None), gh['hist'] == 0 if gh['hist'] is not None else z3.BoolVal(False))))
        out.append(('kept-unit-goes-to-the-unit-index', z3.BoolVal('queue' not in gh['stored'] or ('unithash' in gh['stored'] and 'doublehash' in gh['stored']))))
        return out

    def args(self, *a):
        return [Ptr(self.T.G, 0)] + list(a)


def proc_resolve(x, hyper, prop):
    P = Proc(x, ['xcl', 'ycl'], hyper, prop)
    T = P.T
    (xc, xn), (yc, yn) = P.cl['xcl'], P.cl['ycl']
    xa, ya, act = z3.BitVecs('xatom yatom xactive', 64)
    f = start(x, 'wr_process_resolve_result')
    for xu in (True, False):
        for yu in (True, False):
            if (hyper or prop) and (xu or yu):
                continue
            s = P.st.copy()
            s.assume(z3.And((xn == 1) == xu, (yn == 1) == yu, xc != yc))
            td = []
            if not xu:
                td.append((xc, xn, xa, None, None))
            if not yu:
                td.append((yc, yn, ya, None, None))
            s.ghost['todo'] = tuple(td)
            x.run(f, s, P.args(xa, Ptr(T.DB, xc), ya, Ptr(T.DB, yc), Ptr(None, act)), ret_check(x, P.posts))


for _h, _p in ((0, 0), (1, 0), (0, 1)):
    @contract('wr_process_resolve_result', RF, label='infer:resolution' + ('-hyper' if _h else '-propagate' if _p else ''), files=['Reasoner/history.c', 'Reasoner/clterm.c'], props=['C14'], timeout=300)
    def _c(x, h=_h, p=_p):
        proc_resolve(x, h, p)


def proc_factor(x):
    P = Proc(x, ['xcl'])
    T = P.T
    xc, xn = P.cl['xcl']
    xa, ya, act = z3.BitVecs('xatom yatom xactive', 64)
    i, j = z3.BitVecs('xpos ypos', 32)
    f = start(x, 'wr_process_factor_result')
    s = P.st
    # a unit clause (an inequality whose sides unify) leaves nothing to collect
    for unit in (True, False):
        s = P.st.copy()
        s.assume((xn == 1) == unit)
        s.ghost['todo'] = () if unit else ((xc, xn, xa, None, None),)
        x.run(f, s, P.args(Ptr(T.DB, xc), z3.Extract(31, 0, xn), i, xa, j, ya, Ptr(None, act)), ret_check(x, P.posts))


def proc_para(x):
    P = Proc(x, ['xcl', 'ycl'])
    T = P.T
    (xc, xn), (yc, yn) = P.cl['xcl'], P.cl['ycl']
    xa, ya, act, at, bt, path = z3.BitVecs('xatom yatom xactive aterm bterm path', 64)
    lf, ff = z3.BitVecs('leftflag fromflag', 32)
    f = start(x, 'wr_process_paramodulate_result')
    for xu in (True, False):
        s = P.st.copy()
        s.assume(z3.And((xn == 1) == xu, xc != yc, path >= 0))
        s.ghost['todo'] = (() if xu else ((xc, xn, xa, None, None),)) + ((yc, yn, bv(0), path, bt),)
        x.run(f, s, P.args(xa, Ptr(T.DB, xc), ya, Ptr(T.DB, yc), Ptr(None, act), at, bt, path, lf, ff), ret_check(x, P.posts))


@contract('wr_process_factor_result', RF, label='infer:factoring', files=['Reasoner/history.c', 'Reasoner/clterm.c'], props=['C14'], timeout=300)
def c_factor(x):
    proc_factor(x)


@contract('wr_process_paramodulate_result', RF, label='infer:paramodulation', files=['Reasoner/history.c', 'Reasoner/clterm.c'], props=['C14'], timeout=300)
def c_para(x):
    proc_para(x)


# ---- answer clauses
@contract('wr_cl_derived_is_answer', RF, label='answer:clause', files=['Reasoner/clterm.c'], props=['C14'], timeout=120)
def c_answer(x):
    P = Proc(x, ['cl'])
    st, T = P.st, P.T
    c, n = P.cl['cl']
    J = z3.BitVec('J!lit', 64)
    NANS = z3.Function('NANS', BV64, BV64)     # number of answer literals among the first n
    st.assume(z3.And(J >= 0, J < n))
    atom = lambda i: z3.If(P.rule(c), z3.Select(T.dbarr, c + ((bv(i) * P.LW + P.HG + P.EX + P.k['LIT_ATOM_POS']) << 3)), c)
    del x.calls['wr_cl_derived_is_answer']

    def h_ans(X, s, args, ins):
        r = X.fresh('ansl', 32)
        s.assume(z3.And((r != 0) == ANSL(bv(args[1])), z3.Or(r == 0, r == 1)))
        return r
    x.calls['wr_answer_lit'] = h_ans

    # NANS(0)=0, NANS(i+1)=NANS(i)+[literal i is an answer literal]
    st.assume(NANS(bv(0)) == 0)
    def facts(s, i):
        s.assume(z3.Implies(i >= 0, NANS(i + 1) == NANS(i) + z3.If(ANSL(atom(i)), bv(1), bv(0))))

    def inv(X, s, l):
        i, m = sx(l.var('i')), sx(l.var('ansnr'))
        return [('range', z3.And(i >= 0, i <= n, m == NANS(i), m >= 0, m <= i)), ('all-answers-if-counted-all', z3.Implies(z3.And(J < i, m == i), ANSL(atom(J)))),
                ('counted-all-if-all-answers', z3.Implies(ALLA, m == i))]
    ALLA = z3.Bool('ALL_LITERALS_ARE_ANSWERS')
    def head(X, s, l, ph):
        i = sx(l.var('i'))
        facts(s, i)
        s.assume(z3.Implies(z3.And(ALLA, i >= 0, i < n), ANSL(atom(i))))
    x.loops['wr_cl_derived_is_answer'] = [LoopSpec(inv, head)]
    f = start(x, 'wr_cl_derived_is_answer')
    st.assume(z3.Implies(z3.And(ALLA, z3.Not(P.rule(c))), ANSL(c)))
    x.run(f, st, P.args(Ptr(T.DB, c)), ret_check(x, lambda s, v: [
        ('positive-only-if-every-literal-is-an-answer', z3.Implies(sx(v) > 0, ANSL(atom(J)))),
        ('positive-if-every-literal-is-an-answer', z3.Implies(ALLA, sx(v) == n))]))
    x.run(f, st, P.args(NULL), ret_check(x, lambda s, v: [('no-clause-no-answer', sx(v) <= 0)]))


@contract('wr_answer_lit', 'Reasoner/build.c', label='answer:literal', props=['C14'], timeout=120)
def c_answer_lit(x):
    x.incremental = True
    st, T, gh = setup(x, fields=['unify_funpos'], vals=[fz])
    k = x.build.probe(HDR, ['RECORD_HEADER_GINTS', 'WG_URITYPE'])
    a = z3.BitVec('atom', 64)
    fp = 1
    T.sset(st, 'unify_funpos', fp)
    st.assume(z3.And(WF(a), isrec(a), a != 0, T.length(a) > fp))
    fun = z3.Select(T.dbarr, a + 8 * (k['RECORD_HEADER_GINTS'] + fp))
    ISURI = z3.Function('ISURI', BV64, B)
    HASPRE = z3.Function('HASPREFIX', BV64, B)
    L = z3.BitVec('L!uri', 64)
    S = x.region(st, 'uri', size=norm(L + 1), kind='bytes')
    arr = x.arr(st, S)
    st.assume(z3.And(L >= 0, L < (1 << 30), z3.Select(arr, L) == 0, *[z3.Implies(L > i, z3.Select(arr, bv(i)) != 0) for i in range(6)]))

    def typ(X, s, args, ins):
        X.oblig(s, 'pre:type', bv(args[1]) == fun, 'call')
        r = X.fresh('type', 64 if str(ins['ty']).find('64') >= 0 else 32)
        s.assume((r == k['WG_URITYPE']) == ISURI(bv(args[1])))
        return r

    def uri(X, s, args, ins):
        X.oblig(s, 'pre:uri', z3.And(bv(args[1]) == fun, ISURI(fun)), 'call')
        return Ptr(S, 0)

    def prefix(X, s, args, ins):
        X.oblig(s, 'pre:uri', z3.And(bv(args[1]) == fun, ISURI(fun)), 'call')
        f = s.copy()
        f.assume(z3.Not(HASPRE(fun)))
        s.assume(HASPRE(fun))
        R = X.region(s, 'prefix', size=None)
        return [(f, NULL), (s, Ptr(R, 0))]
    x.calls['wg_get_encoded_type'] = typ
    x.calls['wg_decode_uri'] = uri
    x.calls['wg_decode_uri_prefix'] = prefix
    name = b'$ans'
    isans = z3.And(ISURI(fun), z3.Not(HASPRE(fun)), L == len(name), *[z3.Select(arr, bv(i)) == c for i, c in enumerate(name)])
    f = start(x, 'wr_answer_lit')
    x.run(f, st, [Ptr(T.G, 0), a], ret_check(x, lambda s, v: [('answer-iff-the-predicate-is-$ans', (bv(v, 32) != 0) == isans), ('zero-or-one', z3.Or(bv(v, 32) == 0, bv(v, 32) == 1))]))


@contract('wr_process_resolve_result_cleanupsubst', RF, label='infer:cleanup', props=['C14'], timeout=60)
def c_cleanup(x):
    x.incremental = True
    st, T, gh = setup(x, fields=['build_rename_vc', 'build_rename_bank'], vals=[fz])
    vc, bank = z3.BitVec('vc', 8 * T.fsz['build_rename_vc']), z3.BitVec('bank', 64)
    k = x.build.probe(HDR, ['NROF_VARSINBANK', 'NROF_VARBANKS'])
    n = k['NROF_VARSINBANK']
    st.assume(z3.And(sx(vc) >= 0, sx(vc) <= n))
    T.sset(st, 'build_rename_vc', vc)
    T.sset(st, 'build_rename_bank', Ptr(T.VB, 8 * 3 * n))
    a0 = T.vb(st)
    c = gh.C
    lo = 8 * 3 * n
    at = lambda s: z3.Select(T.vb(s), c)
    goal = lambda s, i: [('used-bank-cells-unassigned', z3.Implies(z3.And(c >= lo, c < lo + (i << 3)), at(s) == UNASSIGNED)),
                         ('other-cells-unchanged', z3.Implies(z3.Or(c < lo, c >= lo + (i << 3)), at(s) == z3.Select(a0, c)))]
    x.loops['wr_process_resolve_result_cleanupsubst'] = [LoopSpec(lambda X, s, l: [('range', z3.And(sx(l.var('i')) >= 0, sx(l.var('i')) <= sx(vc)))] + goal(s, sx(l.var('i'))))]
    f = start(x, 'wr_process_resolve_result_cleanupsubst')
    x.run(f, st, [Ptr(T.G, 0)], ret_check(x, lambda s, v: goal(s, sx(vc))))
