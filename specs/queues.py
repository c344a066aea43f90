"""Contracts for the queues the next clause to be processed is picked from (Reasoner/clstore.c)."""
from vecs import *

QF = 'Reasoner/clstore.c'


class Q:
    """one priority queue: a header and one node per priority, each with an array of clause offsets"""

    def __init__(self, x, fields=('alloc_err',)):
        x.incremental = True
        self.x = x
        self.st, self.T, gh = setup(x, fields=list(fields), vals=[fz])
        st, T = self.st, self.T
        k = self.k = x.build.probe(HDR, ['PRIORQUEUE_NODE_GINT_NR', 'PRIORQUEUE_MAX_PRIOR_POS', 'PRIORQUEUE_MAX_USED_PRIOR_POS', 'PRIORQUEUE_MAX_KEEP_PRIOR_POS', 'PRIORQUEUE_ARR_LEN_POS', 'PRIORQUEUE_NEXT_FREE_INDEX_POS',
                                         'PRIORQUEUE_NEXT_PICK_INDEX_POS', 'PRIORQUEUE_ARR_OFFSET_POS', 'PRIORQUEUE_INITIAL_BUCKETELS'])
        self.W = k['PRIORQUEUE_NODE_GINT_NR']
        self.mp = z3.ZeroExt(40, z3.BitVec('maxprior', 24))
        self.R = x.region(st, 'queue', size=norm((self.mp + 2) * (8 * self.W)))
        self.q0 = x.arr(st, self.R)
        self.q0 = z3.Store(self.q0, bv(8 * k['PRIORQUEUE_MAX_PRIOR_POS']), self.mp)
        x.set_arr(st, self.R, self.q0)
        self.ln, self.fr, self.pk = z3.BitVecs('len!bucket free!bucket pick!bucket', 64)
        st.assume(z3.And(self.ln >= 1, self.ln < (1 << 26)))
        self.BK = x.region(st, 'bucket', size=norm(self.ln << 3))
        self.b0 = x.arr(st, self.BK)
        self.rel = self.BK.base - T.DB.base
        st.assume(self.head(self.q0, 'MAX_PRIOR') == self.mp)
        st.assume(z3.And(self.head(self.q0, 'MAX_USED_PRIOR') >= 0, self.head(self.q0, 'MAX_USED_PRIOR') <= self.mp))
        x.assumptions.append('a priority queue is as wr_make_priorqueue made it and wr_push_priorqueue and wr_pick_priorqueue changed it: 0 <= next to pick <= next free <= length of the array, the highest priority used is an upper bound; queue and arrays are separate memory blocks')

    def head(self, a, f):
        return z3.Select(a, bv(8 * self.k['PRIORQUEUE_%s_POS' % f]))

    def el(self, a, p, f):
        return z3.Select(a, ((bv(p) + 1) * self.W + self.k['PRIORQUEUE_%s_POS' % f]) << 3)

    def wf(self, a, p):
        """node of priority p"""
        ln, fr, pk = self.el(a, p, 'ARR_LEN'), self.el(a, p, 'NEXT_FREE_INDEX'), self.el(a, p, 'NEXT_PICK_INDEX')
        return z3.And(ln >= 0, ln < (1 << 26), fr >= 0, pk >= 0, pk <= fr, fr <= ln, z3.Implies(ln == 0, fr == 0), z3.Implies(ln != 0, p <= self.head(a, 'MAX_USED_PRIOR')))

    def pending(self, a, p):
        return self.el(a, p, 'NEXT_PICK_INDEX') < self.el(a, p, 'NEXT_FREE_INDEX')


@contract('wr_push_priorqueue', QF, label='queue:push-priority', props=['C13'], timeout=60)
def c_push(x):
    Z = Q(x)
    st, T, q0 = Z.st, Z.T, Z.q0
    pr32 = z3.BitVec('prior', 32)
    pr = sx(pr32)
    c = z3.BitVec('clause', 64)
    P = z3.If(pr > Z.mp, Z.mp, pr)          # where it belongs
    S, K = z3.BitVecs('S!prior K!entry', 64)
    ln, fr, pk = Z.el(q0, P, 'ARR_LEN'), Z.el(q0, P, 'NEXT_FREE_INDEX'), Z.el(q0, P, 'NEXT_PICK_INDEX')
    st.assume(z3.And(z3.Implies(pr >= 0, Z.wf(q0, P)), z3.Implies(z3.And(S >= 0, S <= Z.mp), Z.wf(q0, S)), pr < (1 << 30)))
    st.assume(z3.Implies(z3.And(pr >= 0, ln != 0), z3.And(ln == Z.ln, Z.el(q0, P, 'ARR_OFFSET') == Z.rel)))
    keep = Z.head(q0, 'MAX_KEEP_PRIOR')
    taken = z3.And(pr >= 0, z3.Or(keep == 0, pr <= keep))

    def at(X, s, off, n, v):
        if not is_c(off) and n == 8 and not is_c(v) and X.entails_hard(s, z3.And(bv(off) == (((P + 1) * Z.W + Z.k['PRIORQUEUE_ARR_OFFSET_POS']) << 3), bv(v) == Z.rel)):
            return norm(Z.rel)
        return v
    Z.R.on_value = at
    grow_handlers(x, T, {'r': Z.BK, 'size': Z.ln << 3})
    f = start(x, 'wr_push_priorqueue')

    def posts(s, v):
        null = z3.BoolVal(v.r is None) if isinstance(v, Ptr) else bv(v) == 0
        q = x.arr(s, Z.R)
        outs = [('lack-of-memory-is-reported', z3.Implies(null, T.gget(s, 'alloc_err') != 0)), ('result-is-the-queue', z3.Or(null, z3.BoolVal(isinstance(v, Ptr) and v.r is Z.R) if isinstance(v, Ptr) else z3.BoolVal(False)))]
        ok = z3.Not(null)
        same = lambda p: z3.And(*[Z.el(q, p, n) == Z.el(q0, p, n) for n in ('ARR_LEN', 'NEXT_FREE_INDEX', 'NEXT_PICK_INDEX', 'ARR_OFFSET')])
        outs += [('other-priorities-unchanged', z3.Implies(z3.And(S >= 0, S <= Z.mp, z3.Or(S != P, z3.Not(taken), null)), same(S))),
                 ('limits-unchanged', z3.And(Z.head(q, 'MAX_PRIOR') == Z.mp, Z.head(q, 'MAX_KEEP_PRIOR') == keep)),
                 ('one-more-to-pick', z3.Implies(z3.And(ok, taken), z3.And(Z.el(q, P, 'NEXT_FREE_INDEX') == fr + 1, Z.el(q, P, 'NEXT_PICK_INDEX') == pk))),
                 ('well-formed-after', z3.Implies(z3.And(ok, S >= 0, S <= Z.mp), z3.And(Z.wf(q, S) if False else z3.And(*[Z.el(q, S, 'NEXT_PICK_INDEX') <= Z.el(q, S, 'NEXT_FREE_INDEX'), Z.el(q, S, 'NEXT_FREE_INDEX') <= Z.el(q, S, 'ARR_LEN'),
                                                                                                                  z3.Implies(Z.el(q, S, 'ARR_LEN') != 0, S <= Z.head(q, 'MAX_USED_PRIOR'))]), Z.head(q, 'MAX_USED_PRIOR') <= Z.mp)))]
        rel = Z.el(q, P, 'ARR_OFFSET')
        dead = s.ghost.get('dead', [])
        ones = []
        for r in list(s.regions.values()):
            if r.name in ('bucket', 'grown', 'newvec') and r not in dead:
                a = x.arr(s, r)
                here = z3.And(ok, taken, rel == r.base - T.DB.base, ln != 0 if r is Z.BK else z3.BoolVal(True))
                ones.append(rel == r.base - T.DB.base)
                outs += [('clause-appended:' + r.name, z3.Implies(here, z3.And(z3.Select(a, fr << 3) == c, Z.el(q, P, 'ARR_LEN') << 3 == bv(r.size)))),
                         ('earlier-clauses-kept:' + r.name, z3.Implies(z3.And(here, ln != 0, K >= 0, K < fr), z3.Select(a, K << 3) == z3.Select(Z.b0, K << 3)))]
        outs.append(('array-is-referred-to', z3.Implies(z3.And(ok, taken), z3.Or(*ones))))
        return outs
    x.run(f, st, [Ptr(T.G, 0), Ptr(Z.R, 0), Ptr(T.DB, c), pr32], ret_check(x, posts))


@contract('wr_pick_priorqueue', QF, label='queue:pick-priority', props=['C13'], timeout=60)
def c_pick(x):
    Z = Q(x)
    st, T, q0 = Z.st, Z.T, Z.q0
    S, K = z3.BitVecs('S!prior K!entry', 64)
    mu = Z.head(q0, 'MAX_USED_PRIOR')
    st.assume(z3.Implies(z3.And(S >= 0, S <= Z.mp), Z.wf(q0, S)))
    W, k = Z.W, Z.k

    def at(X, s, off, n, v):
        o = bv(off)
        if is_c(off) or 'cur' not in s.ghost or 'taken' in s.ghost:
            return v
        p = s.ghost['cur']
        if n == 8 and not is_c(v) and X.entails(s, o == (((p + 1) * W + k['PRIORQUEUE_ARR_OFFSET_POS']) << 3)):
            # names the array of this priority
            s.assume(z3.And(bv(v) == Z.rel, Z.el(q0, p, 'ARR_LEN') == Z.ln))
            s.ghost['taken'] = p
            return norm(Z.rel)
        return v
    Z.R.on_value = at

    def entry(X, s, off, n, v):
        s.assume(bv(v) != -T.DB.base)          # no empty entries
    Z.BK.on_load = entry
    unch = lambda X, s: X.arr(s, Z.R) == q0
    none = lambda p: z3.Implies(z3.And(S >= 0, S < p), z3.Not(Z.pending(q0, S)))
    x.loops['wr_pick_priorqueue'] = [LoopSpec(lambda X, s, l: [('range', z3.And(sx(l.var('prior')) >= 0, sx(l.var('prior')) <= mu + 1, sx(l.var('max_used_prior')) == mu)), ('nothing-picked-yet', unch(X, s)),
                                                               ('nothing-to-pick-in-better-ones', none(sx(l.var('prior'))))]),
                                     LoopSpec(lambda X, s, l: [('range', z3.And(sx(l.var('prior')) >= 0, sx(l.var('prior')) <= mu, sx(l.var('max_used_prior')) == mu)), ('nothing-picked-yet', unch(X, s)),
                                                               ('nothing-to-pick-in-better-ones', none(sx(l.var('prior'))))],
                                              lambda X, s, l, ph: (s.ghost.update(cur=sx(l.var('prior'))), s.assume(z3.Implies(z3.And(sx(l.var('prior')) >= 0, sx(l.var('prior')) <= mu), Z.wf(q0, sx(l.var('prior')))))))]
    f = start(x, 'wr_pick_priorqueue')

    def posts(s, v):
        q = x.arr(s, Z.R)
        null = isinstance(v, Ptr) and v.r is None and is_c(v.off) and v.off == 0
        if null or not isinstance(v, Ptr):
            n0 = z3.BoolVal(True) if null else bv(v) == 0
        else:
            n0 = z3.BoolVal(False)
        if 'taken' not in s.ghost:
            return [('none-only-if-nothing-is-left', z3.And(n0, z3.Implies(z3.And(S >= 0, S <= Z.mp), z3.Not(Z.pending(q0, S))))), ('queue-unchanged', q == q0)]
        p = s.ghost['taken']
        pk = Z.el(q0, p, 'NEXT_PICK_INDEX')
        vv = ptr_int(v) if isinstance(v, Ptr) else bv(v)
        i = ((p + 1) * W + k['PRIORQUEUE_NEXT_PICK_INDEX_POS']) << 3
        return [('the-next-clause-of-its-priority', z3.And(Z.pending(q0, p), vv - T.DB.base == z3.Select(Z.b0, pk << 3))),
                ('best-priority-first', z3.Implies(z3.And(S >= 0, S < p), z3.Not(Z.pending(q0, S)))),
                ('only-this-clause-is-taken', q == z3.Store(q0, i, pk + 1)), ('clauses-unchanged', x.arr(s, Z.BK) == Z.b0)]
    x.run(f, st, [Ptr(T.G, 0), Ptr(Z.R, 0)], ret_check(x, posts))


# ---- the queue blocks

NAMES = ['NROF_CLPICK_QUEUES', 'CLPICK_QUEUE_BLOCKGINTS', 'CLPICK_QUEUE_POS', 'CLPICK_PRIORQUEUE_POS', 'CLPICK_QUEUE_GIVEN_POS', 'CLPICK_PRIORQUEUE_RATIO', 'CLPICK_PRIORQUEUE_RATIO_COUNTER', 'CLPICK_THIS_QUEUE_RATIO',
         'CLPICK_THIS_QUEUE_RATIO_COUNTER', 'GOAL_ASSUMPTIONS_QUEUE_POS', 'GOAL_QUEUE_POS', 'ASSUMPTIONS_QUEUE_POS', 'AXIOMS_QUEUE_POS']
BIG = 1 << 30


class Blocks:
    """the vector of queue blocks: each block has a simple queue (counted vector of clauses), a priority queue, the next position to pick, and counters"""

    def __init__(self, x, fields=('alloc_err',)):
        x.incremental = True
        self.x = x
        self.st, self.T, gh = setup(x, fields=list(fields), vals=[fz])
        st, T = self.st, self.T
        k = self.k = x.build.probe(HDR, NAMES)
        self.N, self.B = k['NROF_CLPICK_QUEUES'], k['CLPICK_QUEUE_BLOCKGINTS']
        self.R = x.region(st, 'queues', size=8 * (1 + self.N * self.B))
        self.simple, self.prior = [], []
        self.rel = {}
        for b in range(self.N):
            ln, nx = z3.BitVecs('len!simple%d next!simple%d' % (b, b), 64)
            r = x.region(st, 'simple%d' % b, size=norm((ln + 1) << 3))
            a = x.arr(st, r)
            st.assume(z3.And(ln >= 1, ln < VL, z3.Select(a, bv(0)) == ln, z3.Select(a, bv(8)) == nx, nx >= 2, nx <= ln + 1))
            p = x.region(st, 'prior%d' % b, size=64)
            self.simple.append((r, a, nx))
            self.prior.append(p)
            self.rel[self.at(b, 'CLPICK_QUEUE_POS')] = r
            self.rel[self.at(b, 'CLPICK_PRIORQUEUE_POS')] = p
        q0 = x.arr(st, self.R)
        st.assume(self.get(q0, 0) == self.N * self.B)
        for i, r in self.rel.items():
            q0 = z3.Store(q0, bv(8 * i), r.base - T.DB.base)
            st.assume(r.base - T.DB.base != 0)
        for b in range(self.N):
            g = self.get(q0, self.at(b, 'CLPICK_QUEUE_GIVEN_POS'))
            st.assume(z3.And(g >= 2, g <= self.simple[b][2]))
            for f in ('CLPICK_PRIORQUEUE_RATIO_COUNTER', 'CLPICK_PRIORQUEUE_RATIO', 'CLPICK_THIS_QUEUE_RATIO', 'CLPICK_THIS_QUEUE_RATIO_COUNTER'):
                v = self.get(q0, self.at(b, f))
                st.assume(z3.And(v >= 0, v < BIG))
        x.set_arr(st, self.R, q0)
        self.q0 = q0

        def at(X, s, off, n, v):
            if is_c(off) and n == 8 and off // 8 in self.rel and X.entails_hard(s, bv(v) == self.rel[off // 8].base - T.DB.base):
                return norm(self.rel[off // 8].base - T.DB.base)
            return v
        self.R.on_value = at
        x.noop += ['wr_printf']
        x.assumptions.append('the queue blocks are as wr_create_clpick_queues made them and the functions of this property changed them: every block has its own simple and priority queue, separate memory blocks, 2 <= next to pick <= next free position, and less than 2^30 entries')

    def at(self, b, f):
        return 1 + b * self.B + self.k[f]

    def get(self, a, i):
        return z3.Select(a, bv(8 * i))

    def fixed(self):
        """positions picking must not change"""
        mv = ('CLPICK_QUEUE_GIVEN_POS', 'CLPICK_PRIORQUEUE_RATIO_COUNTER', 'CLPICK_THIS_QUEUE_RATIO_COUNTER')
        m = {self.at(b, f) for b in range(self.N) for f in mv}
        return [i for i in list(self.rel) + [0] + [self.at(b, f) for b in range(self.N) for f in ('CLPICK_PRIORQUEUE_RATIO', 'CLPICK_THIS_QUEUE_RATIO')] if i not in m]


pv = lambda v: (bv(v.off) if v.r is None else ptr_int(v)) if isinstance(v, Ptr) else bv(v)
MARKED = z3.Function('MARKED', BV64, z3.BoolSort())     # the clause has been marked as picked


def pick_block(b):
    @contract('wr_pick_from_clpick_queues_aux', QF, label='queue:pick-block%d' % b, props=['C13'], timeout=60)
    def c(x):
        """from one block: by priority while the counter is below the ratio, else the oldest one not picked in order"""
        Z = Blocks(x)
        st, T, q0 = Z.st, Z.T, Z.q0
        K = z3.BitVec('K!position', 64)
        r, a0, nx = Z.simple[b]
        gi, ci, ri, ti = [Z.at(b, 'CLPICK_' + f) for f in ('QUEUE_GIVEN_POS', 'PRIORQUEUE_RATIO_COUNTER', 'PRIORQUEUE_RATIO', 'THIS_QUEUE_RATIO_COUNTER')]
        g0, c0, r0, t0 = [Z.get(q0, i) for i in (gi, ci, ri, ti)]
        skip = lambda c: z3.Or(c == 0, MARKED(c))

        def pick(X, s, args, ins):
            p = X.resolve_ptr(s, args[1], 'call')
            X.oblig(s, 'pre:a-priority-queue', z3.BoolVal(p.r in Z.prior and is_c(p.off) and p.off == 0), 'call')
            X.oblig(s, 'pre:priority-queue-of-this-block', z3.BoolVal(p.r is Z.prior[b]), 'call')
            n = s.copy()
            n.ghost['noprior'] = True
            c = z3.FreshConst(BV64, 'fromprior')
            s.assume(c != 0)
            s.ghost['fromprior'] = c
            return [(n, NULL), (s, c)]
        x.calls['wr_pick_priorqueue'] = pick

        def marked(X, s, args, ins):
            m = z3.FreshConst(z3.BitVecSort(32), 'marked')
            s.assume((m != 0) == MARKED(pv(args[1])))
            return m
        x.calls['wr_cl_ismarked_given'] = marked

        def mark(X, s, args, ins):
            s.ghost['marks'] = s.ghost.get('marks', []) + [pv(args[1])]
            return 0
        x.calls['wr_cl_mark_given'] = mark
        SEG = x.region(st, 'kbsegment', size=1 << 20)

        def ghook(X, s, r, name):
            if 'attached_kb' in name:
                s.mem[r.id].cells[0] = (8, Ptr(SEG, 0))
        x.global_hook = ghook
        x.calls['wr_calc_clause_meta'] = lambda X, s, args, ins: z3.FreshConst(BV64, 'meta')
        x.assumptions.append('wr_cl_ismarked_given is true only of clauses wr_cl_mark_given marked; wr_calc_clause_meta does not change the queues')

        def inv(X, s, l):
            q = X.arr(s, Z.R)
            g = Z.get(q, gi)
            out = [('only-the-counters-changed', z3.And(*[Z.get(q, i) == Z.get(q0, i) for i in range(1 + Z.N * Z.B) if i not in (gi, ci, ti)])),
                   ('positions', z3.And(g >= g0, g <= nx, Z.get(q, ti) >= t0, Z.get(q, ti) <= t0 + (g - g0) * 2, Z.get(q, ci) >= 0, Z.get(q, ci) <= z3.If(c0 < r0, c0, 0))),
                   ('passed-over-only-if-picked-before', z3.Implies(z3.And(K >= g0, K < g), skip(z3.Select(a0, K << 3)))),
                   ('simple-queue-unchanged', X.arr(s, r) == a0),
                   ('priority-queue-was-tried', z3.Or(z3.BoolVal('noprior' in s.ghost), c0 >= r0))]
            return out
        x.loops['wr_pick_from_clpick_queues_aux'] = [LoopSpec(inv)]
        f = start(x, 'wr_pick_from_clpick_queues_aux')
        mb = x.region(st, 'metablock', size=64)

        def posts(s, v):
            q = x.arr(s, Z.R)
            vv = (bv(v.off) if v.r is None else ptr_int(v)) if isinstance(v, Ptr) else bv(v)
            g = Z.get(q, gi)
            marks = s.ghost.get('marks', [])
            out = [('only-the-counters-changed', z3.And(*[Z.get(q, i) == Z.get(q0, i) for i in range(1 + Z.N * Z.B) if i not in (gi, ci, ti)])),
                   ('block-counter-does-not-fall', Z.get(q, ti) >= t0), ('simple-queue-unchanged', x.arr(s, r) == a0)]
            if 'fromprior' in s.ghost:
                return out + [('clause-of-the-priority-queue', vv == s.ghost['fromprior']), ('by-priority-only-below-the-ratio', c0 < r0), ('counted', Z.get(q, ci) > c0), ('order-of-the-others-kept', g == g0),
                              ('counter-in-range', Z.get(q, ci) <= r0)]
            out += [('none-only-if-nothing-is-left', z3.Implies(vv == 0, z3.And(z3.Implies(z3.And(K >= g0, K < nx), skip(z3.Select(a0, K << 3)))))),
                    ('the-oldest-not-picked', z3.Implies(vv != 0, z3.And(g > g0, g <= nx, vv == z3.Select(a0, (g - 1) << 3)))),
                    ('passed-over-only-if-picked-before', z3.Implies(z3.And(vv != 0, K >= g0, K < g - 1), skip(z3.Select(a0, K << 3)))),
                    ('nothing-passed-over-silently', z3.Implies(vv == 0, z3.And(g >= g0, g <= nx))),
                    ('counting-starts-again', z3.Implies(z3.And(vv != 0, c0 >= r0), z3.Or(Z.get(q, ci) < r0, Z.get(q, ci) == 0)))]
            for m in marks:
                out.append(('only-the-picked-one-is-marked', m == vv))
            return out
        x.run(f, st, [Ptr(T.G, 0), Ptr(Z.R, 0), b, Ptr(mb, 0)], ret_check(x, posts))


for _b in range(4):
    pick_block(_b)

DRY = z3.Function('DRY', BV64, z3.BoolSort())       # nothing could be picked from the block


@contract('wr_pick_from_clpick_queues', QF, label='queue:pick', props=['C13'], timeout=60)
def c_pickall(x):
    """all blocks are tried before giving up, and a block that has had its share gives way"""
    Z = Blocks(x, fields=('alloc_err', 'next_pick_given_queue_block_nr'))
    st, T, q0, N = Z.st, Z.T, Z.q0, Z.N
    f0 = T.gget(st, 'next_pick_given_queue_block_nr')
    st.assume(z3.And(f0 >= 0, f0 <= N))
    n0 = sx(f0) if f0.size() == 32 else f0
    first = z3.If(n0 >= N, bv(0), n0)
    gf = lambda s: sx(T.gget(s, 'next_pick_given_queue_block_nr')) if T.gget(s, 'next_pick_given_queue_block_nr').size() == 32 else T.gget(s, 'next_pick_given_queue_block_nr')
    B = Z.B
    off = lambda b, fld: ((b * B) + (1 + Z.k[fld])) << 3

    st.ghost['last'] = q0
    # what the blocks keep between the picks: how far each simple queue is used up, and how often in a row it went by priority
    kept = lambda q, s: z3.And(*[Z.get(q, Z.at(i, f)) == Z.get(s.ghost['last'], Z.at(i, f)) for i in range(N) for f in ('CLPICK_QUEUE_GIVEN_POS', 'CLPICK_PRIORQUEUE_RATIO_COUNTER')])

    def aux(X, s, args, ins):
        b = sx(args[2]) if not is_c(args[2]) else bv(args[2])
        p = X.resolve_ptr(s, args[1], 'call')
        X.oblig(s, 'pre:the-blocks', z3.And(z3.BoolVal(p.r is Z.R), bv(p.off) == 0), 'call')
        X.oblig(s, 'pre:block-number', z3.And(b >= 0, b < N), 'call')
        q = X.arr(s, Z.R)
        X.oblig(s, 'only-picking-from-a-block-moves-its-positions-and-counter', kept(q, s), 'call')

        def moved(s2):
            q2 = q
            for fld in ('CLPICK_QUEUE_GIVEN_POS', 'CLPICK_PRIORQUEUE_RATIO_COUNTER', 'CLPICK_THIS_QUEUE_RATIO_COUNTER'):
                v = z3.FreshConst(BV64, 'q')
                s2.assume(z3.And(v >= 0, v < 2 * BIG))
                q2 = z3.Store(q2, off(b, fld), v)
            X.set_arr(s2, Z.R, q2)
            s2.ghost['last'] = q2
            return q2
        n = s.copy()
        moved(n)
        n.assume(DRY(b))
        q2 = moved(s)
        c = z3.FreshConst(BV64, 'cl')
        s.assume(c != 0)
        s.ghost['picked'] = (c, b, q2)
        return [(n, NULL), (s, c)]
    x.calls['wr_pick_from_clpick_queues_aux'] = aux
    K = z3.BitVec('K!block', 64)

    def inv(X, s, l):
        q, qn, lf = X.arr(s, Z.R), sx(l.var('queuenr')), sx(l.var('loopflag'))
        return [('block-number', z3.And(qn >= 0, qn < N, sx(l.var('first_queuenr')) == first, gf(s) == qn, z3.Or(lf == 0, lf == 1), bv(l.var('limit')) == N * B)),
                ('blocks-tried-so-far', z3.If(lf == 0, z3.And(qn >= first, z3.Implies(z3.And(K >= first, K < qn), DRY(K))), z3.And(qn <= first, z3.Implies(z3.And(K >= 0, K < N, z3.Or(K >= first, K < qn)), DRY(K))))),
                ('queues-and-ratios-unchanged', z3.And(*[Z.get(q, i) == Z.get(q0, i) for i in Z.fixed()])), ('only-picking-from-a-block-moves-its-positions-and-counter', kept(q, s))]
    x.loops['wr_pick_from_clpick_queues'] = [LoopSpec(inv, lambda X, s, l, ph: s.ghost.update(last=X.arr(s, Z.R)))]
    f = start(x, 'wr_pick_from_clpick_queues')
    mb = x.region(st, 'metablock', size=64)

    def posts(s, v):
        q = x.arr(s, Z.R)
        vv = (bv(v.off) if v.r is None else ptr_int(v)) if isinstance(v, Ptr) else bv(v)
        out = [('queues-and-ratios-unchanged', z3.And(*[Z.get(q, i) == Z.get(q0, i) for i in Z.fixed()])), ('only-picking-from-a-block-moves-its-positions-and-counter', kept(q, s)), ('next-block-number', z3.And(gf(s) >= 0, gf(s) <= N))]
        if 'picked' not in s.ghost:
            return out + [('none-only-if-all-blocks-were-tried', z3.And(vv == 0, z3.Implies(z3.And(K >= 0, K < N), DRY(K))))]
        c, b, q2 = s.ghost['picked']
        t, t2, r = z3.Select(q2, off(b, 'CLPICK_THIS_QUEUE_RATIO_COUNTER')), z3.Select(q, off(b, 'CLPICK_THIS_QUEUE_RATIO_COUNTER')), z3.Select(q2, off(b, 'CLPICK_THIS_QUEUE_RATIO'))
        nb = z3.If(b + 1 >= N, bv(0), b + 1)
        nn = z3.If(gf(s) >= N, bv(0), gf(s))
        return out + [('the-clause-picked', vv == c), ('a-block-gives-way-after-its-share', z3.Implies(t >= r, nn == nb)), ('its-share-is-counted', z3.Implies(nn == b, t2 > t)), ('the-next-block-is-next', z3.Or(nn == b, nn == nb)),
                      ('counting-starts-again', z3.Implies(nn != b, t2 == 0))]
    x.run(f, st, [Ptr(T.G, 0), Ptr(Z.R, 0), Ptr(mb, 0)], ret_check(x, posts))


@contract('wr_push_cl_clpick_queues', QF, label='queue:push', props=['C13'], timeout=60)
def c_pushall(x):
    """the clause goes to the end of the simple queue of one of the blocks, whatever its role and the strategy"""
    Z = Blocks(x, fields=('alloc_err', 'cl_pick_queue_strategy', 'queryfocus_strat'))
    st, T, q0 = Z.st, Z.T, Z.q0
    w = z3.BitVec('weight', 32)
    cl = x.region(st, 'clause', size=1 << 12)
    fresh = lambda n, w=64: (lambda X, s, args, ins: z3.FreshConst(z3.BitVecSort(w), n))
    x.calls['wr_get_history'] = fresh('history')
    x.calls['wr_get_history_record_field'] = fresh('priority')
    x.calls['wg_decode_int'] = fresh('role')
    x.calls['wr_is_positive_unit_cl'] = fresh('positive', 32)
    x.calls['wr_is_negative_cl'] = fresh('negative', 32)
    x.calls['wr_answer_lit'] = fresh('answer', 32)
    tm = lambda v: (bv(v.off) if v.r is None else ptr_int(v)) if isinstance(v, Ptr) else bv(v)

    def push(X, s, args, ins):
        p = X.resolve_ptr(s, args[1], 'call')
        which = [b for b in range(Z.N) if Z.simple[b][0] is p.r]
        X.oblig(s, 'pre:a-simple-queue', z3.BoolVal(len(which) == 1 and is_c(p.off) and p.off == 0), 'call')
        n = X.region(s, 'pushed%d' % len(s.ghost.get('pushes', [])), size=64)
        fl = s.copy()
        x.set_arr(fl, T.G, x.arr(fl, T.G)) if False else None
        fl.ghost['failed'] = True
        s.ghost['pushes'] = s.ghost.get('pushes', []) + [(which, tm(args[2]), n)]
        return [(fl, NULL), (s, Ptr(n, 0))]
    x.calls['wr_cvec_push'] = push

    def ppush(X, s, args, ins):
        p = X.resolve_ptr(s, args[1], 'call')
        X.oblig(s, 'pre:a-priority-queue', z3.BoolVal(p.r in Z.prior and is_c(p.off) and p.off == 0), 'call')
        s.ghost['ppushes'] = s.ghost.get('ppushes', []) + [(tm(args[2]), args[3])]
        fl = s.copy()
        return [(fl, NULL), (s, args[1])]
    x.calls['wr_push_priorqueue'] = ppush
    x.assumptions.append('when wr_cvec_push runs out of memory it has reported that (vec:push), and the run is abandoned')
    f = start(x, 'wr_push_cl_clpick_queues')
    me = ptr_int(Ptr(cl, 0))

    def posts(s, v):
        if 'failed' in s.ghost:
            return []
        q = x.arr(s, Z.R)
        ps, pp = s.ghost.get('pushes', []), s.ghost.get('ppushes', [])
        out = [('kept-in-one-simple-queue', z3.BoolVal(len(ps) == 1))]
        if len(ps) == 1 and ps[0][0]:
            (b,), c, n = ps[0]
            i = Z.at(b, 'CLPICK_QUEUE_POS')
            out += [('the-clause-itself', c == me), ('the-queue-is-referred-to', Z.get(q, i) == n.base - T.DB.base), ('nothing-else-changed', z3.And(*[Z.get(q, j) == Z.get(q0, j) for j in range(1 + Z.N * Z.B) if j != i]))]
        out += [('also-by-priority', z3.Implies(w >= 0, z3.BoolVal(len(pp) == 1)))]
        for c, ww in pp:
            out += [('the-clause-itself-by-priority', c == me), ('with-its-weight', bv(ww, 32) == w)]
        return out
    x.run(f, st, [Ptr(T.G, 0), norm(Z.R.base - T.DB.base), Ptr(cl, 0), w], ret_check(x, posts))


@contract('wr_pick_from_hyper_queue', QF, label='queue:pick-hyper', props=['C13'], timeout=60)
def c_pickhyper(x):
    st, T, gh = setup(x, fields=['alloc_err'], vals=[fz])
    x.incremental = True
    ln, nx, pk, K = z3.BitVecs('len next pick K!position', 64)
    r = x.region(st, 'hyperqueue', size=norm((ln + 1) << 3))
    a0 = x.arr(st, r)
    st.assume(z3.And(ln >= 3, ln < VL, z3.Select(a0, bv(0)) == ln, z3.Select(a0, bv(8)) == nx, z3.Select(a0, bv(16)) == pk, nx >= 3, nx <= ln + 1, pk >= 3, pk <= nx))
    st.assume(z3.And(K >= 3, K <= ln))
    x.assumptions.append('the hyper queue: element 1 the next free, element 2 the next position to pick, 3 <= pick <= free')
    f = start(x, 'wr_pick_from_hyper_queue')
    mb = x.region(st, 'metablock', size=64)
    q = lambda s, i: z3.Select(x.arr(s, r), bv(8 * i))

    def posts(s, v):
        null = isinstance(v, Ptr) and v.r is None
        vv = bv(0) if null else ptr_int(v) if isinstance(v, Ptr) else bv(v)
        isn = z3.BoolVal(True) if null else z3.BoolVal(False)
        n2, p2 = q(s, 1), q(s, 2)
        return [('none-only-if-nothing-is-left', z3.Implies(isn, z3.And(pk == nx, x.arr(s, r) == a0))),
                ('the-oldest-not-picked', z3.Implies(z3.Not(isn), z3.And(pk < nx, vv == T.DB.base + z3.Select(a0, pk << 3)))),
                ('only-this-one-is-taken', z3.Implies(z3.Not(isn), z3.If(pk + 1 < nx, z3.And(n2 == nx, p2 == pk + 1), z3.And(p2 == n2, n2 >= 3, n2 <= nx)))),
                ('the-others-kept', z3.And(q(s, 0) == ln, z3.Select(x.arr(s, r), K << 3) == z3.Select(a0, K << 3)))]
    x.run(f, st, [Ptr(T.G, 0), Ptr(r, 0), Ptr(mb, 0)], ret_check(x, posts))


@contract('wr_push_cl_hyper_queue', QF, label='queue:push-hyper', props=['C13'], timeout=60)
def c_pushhyper(x):
    st, T, gh = setup(x, fields=['alloc_err', 'hyper_queue'], vals=[fz])
    x.incremental = True
    r = x.region(st, 'hyperqueue', size=4096)
    cl = z3.BitVec('clause', 64)
    w = z3.BitVec('weight', 32)
    st.assume(T.gget(st, 'hyper_queue') == r.base)

    def push(X, s, args, ins):
        p = X.resolve_ptr(s, args[1], 'call')
        X.oblig(s, 'pre:the-queue', z3.BoolVal(p.r is r and is_c(p.off) and p.off == 0), 'call')
        X.oblig(s, 'the-clause-itself', bv(args[2]) == cl, 'call')
        s.ghost['n'] = s.ghost.get('n', 0) + 1
        s1, s2 = s.copy(), s.copy()
        n = X.region(s2, 'grownqueue', size=4096)
        s1.ghost['to'], s2.ghost['to'] = r, n
        return [(s, NULL), (s1, Ptr(r, 0)), (s2, Ptr(n, 0))]
    x.calls['wr_cvec_push'] = push
    f = start(x, 'wr_push_cl_hyper_queue')

    def posts(s, v):
        to = s.ghost.get('to')
        if to is None:
            return [('lack-of-memory-is-reported', bv(v, 32) == 0), ('pushed-once', z3.BoolVal(s.ghost.get('n', 0) == 1))]
        hq = T.gget(s, 'hyper_queue')
        return [('pushed-once', z3.BoolVal(s.ghost.get('n', 0) == 1)), ('the-queue-is-referred-to', hq == to.base), ('success-is-reported', bv(v, 32) != 0)]
    x.run(f, st, [Ptr(T.G, 0), Ptr(r, 0), Ptr(T.DB, cl), w], ret_check(x, posts))


@contract('wr_make_priorqueue', QF, label='queue:make-priority', props=['C13'], timeout=60)
def c_make(x):
    """a new priority queue: nothing in it at any priority"""
    st, T, gh = setup(x, fields=['alloc_err'], vals=[fz])
    x.incremental = True
    k = x.build.probe(HDR, ['PRIORQUEUE_NODE_GINT_NR', 'PRIORQUEUE_MAX_PRIOR_POS'])
    W = k['PRIORQUEUE_NODE_GINT_NR']
    m32 = z3.BitVec('maxprior', 32)
    m, K = sx(m32), z3.BitVec('K!position', 64)
    st.assume(z3.And(m >= 1, m < (1 << 24), K >= 0, K < W * (m + 2), K != k['PRIORQUEUE_MAX_PRIOR_POS']))
    grow_handlers(x, T, {})
    the = lambda s: s.ghost['grown']
    x.loops['wr_make_priorqueue'] = [LoopSpec(lambda X, s, l: [('range', z3.And(sx(l.var('i')) >= 0, sx(l.var('i')) <= W * (m + 2), sx(l.var('gsize')) == W * (m + 2))),
                                                               ('empty-so-far', z3.Implies(K < sx(l.var('i')), z3.Select(X.arr(s, the(s)), K << 3) == 0))])]
    f = start(x, 'wr_make_priorqueue')

    def posts(s, v):
        null = z3.BoolVal(v.r is None) if isinstance(v, Ptr) else bv(v) == 0
        out = [('lack-of-memory-is-reported', z3.Implies(null, T.gget(s, 'alloc_err') != 0))]
        if isinstance(v, Ptr) and v.r is not None:
            a = x.arr(s, v.r)
            out += [('a-new-queue', z3.And(z3.BoolVal(v.r is s.ghost.get('grown')), bv(v.off) == 0, bv(v.r.size) >= (W * (m + 2)) << 3)), ('nothing-in-it', z3.Select(a, K << 3) == 0),
                    ('highest-priority', z3.Select(a, bv(8 * k['PRIORQUEUE_MAX_PRIOR_POS'])) == m)]
        return out
    x.run(f, st, [Ptr(T.G, 0), m32], ret_check(x, posts))


@contract('wr_create_clpick_queues', QF, label='queue:make-blocks', props=['C13'], timeout=60)
def c_create(x):
    """every block gets a simple and a priority queue of its own, counters at zero, picking starts at the first entry"""
    st, T, gh = setup(x, fields=['alloc_err', 'pick_given_queue_ratio', 'cl_pick_queue_strategy'], vals=[fz])
    x.incremental = True
    k = x.build.probe(HDR, NAMES)
    N, B = k['NROF_CLPICK_QUEUES'], k['CLPICK_QUEUE_BLOCKGINTS']
    cnt = z3.BitVec('count', 32)
    R = x.region(st, 'queues', size=8 * (1 + N * B), arr=z3.Store(z3.K(BV64, bv(0)), bv(0), bv(N * B)))

    def newv(X, s, args, ins):
        X.oblig(s, 'pre:room-for-all-blocks', bv(args[1], 64) >= N * B if False else sx(args[1]) == N * B if not is_c(args[1]) else z3.BoolVal(args[1] == N * B), 'call')
        return Ptr(R, 0)
    x.calls['wr_vec_new_zero'] = newv

    def make(kind):
        def h(X, s, args, ins):
            X.oblig(s, 'pre:length', z3.BoolVal(args[1] >= 1) if is_c(args[1]) else sx(args[1]) >= 1, 'call')
            f = s.copy()
            n = X.region(s, kind, size=64)
            s.ghost['made'] = s.ghost.get('made', []) + [(kind, n)]
            return [(f, NULL), (s, Ptr(n, 0))]
        return h
    x.calls['wr_cvec_new'] = make('simple')
    x.calls['wr_make_priorqueue'] = make('prior')
    x.noop += ['wr_printf']
    x.assumptions.append('wr_vec_new_zero for the queue blocks at the start of a run does not fail (wr_create_clpick_queues does not look)')
    st.assume(z3.And(T.gget(st, 'pick_given_queue_ratio') >= 0))
    f = start(x, 'wr_create_clpick_queues')

    def posts(s, v):
        made = s.ghost.get('made', [])
        q = x.arr(s, R)
        get = lambda b, fld: z3.Select(q, bv(8 * (1 + b * B + k[fld])))
        fail = z3.BoolVal(v == 0) if is_c(v) else z3.BoolVal(False)
        if is_c(v) and v == 0:
            return []
        out = [('the-blocks', bv(v) == R.base - T.DB.base), ('two-queues-per-block', z3.BoolVal(sorted(m[0] for m in made) == ['prior'] * N + ['simple'] * N))]
        used = []
        for b in range(N):
            for fld, kind in (('CLPICK_QUEUE_POS', 'simple'), ('CLPICK_PRIORQUEUE_POS', 'prior')):
                mine = [i for i, (kk, r) in enumerate(made) if kk == kind and x.entails(s, get(b, fld) == r.base - T.DB.base)]
                out.append(('own-queue:%d:%s' % (b, kind), z3.BoolVal(len(mine) == 1 and mine[0] not in used)))
                used += mine
            out += [('starts-at-the-first-entry:%d' % b, get(b, 'CLPICK_QUEUE_GIVEN_POS') == 2), ('counters:%d' % b, z3.And(get(b, 'CLPICK_PRIORQUEUE_RATIO_COUNTER') == 0, get(b, 'CLPICK_THIS_QUEUE_RATIO_COUNTER') == 0)),
                    ('ratios:%d' % b, z3.And(get(b, 'CLPICK_PRIORQUEUE_RATIO') >= 0, get(b, 'CLPICK_THIS_QUEUE_RATIO') >= 0, get(b, 'CLPICK_THIS_QUEUE_RATIO') < BIG))]
        return out
    x.run(f, st, [Ptr(T.G, 0), cnt], ret_check(x, posts))
