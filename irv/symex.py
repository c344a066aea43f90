"""Deductive verification engine over LLVM IR (clang -O0 output of the real sources).

Each function under contract is executed symbolically for ALL inputs satisfying its
precondition; calls to functions with contracts are replaced by those contracts; loops are
cut by inductive invariants (assert at entry, havoc everything the loop may modify, assume,
assert after one arbitrary iteration).  Every assert becomes a proof obligation (path
condition => goal) handed to an SMT solver.

Integers are exact machine bit-vectors.  Memory is a set of disjoint regions, each a total
map from offsets to 64-bit words (sub-word accesses are extracts of the word; every access
carries an alignment obligation, so that the word view is exact).  Constant-offset cells are
kept in an overlay dictionary.
"""
import z3, itertools, time, os, re, struct, fnmatch
from llparse import Module

BV64 = z3.BitVecSort(64)
F64 = z3.Float64()
F80 = z3.FPSort(15, 64)
F32 = z3.Float32()
RNE = z3.RNE()
_ctr = itertools.count()


class AttachError(Exception):
    """A contract/invariant could not be attached to the current source (tool limit)."""


class Unsupported(Exception):
    """IR construct or memory access outside the engine's reach (tool limit)."""


class Region:
    _n = itertools.count()

    def __init__(self, name, size=None, kind='words', null_ok=False, ro=False):
        self.id = next(Region._n)
        self.name = name
        self.size = size  # python int / BV64 expr / None: bytes
        self.kind = kind
        self.base = z3.BitVec('base!%s!%d' % (name, self.id), 64)
        self.ro = ro
        self.unaligned = False  # symbolic misaligned 8-byte reads are given their exact meaning
        self.on_load = None    # function(X, st, off, n, val): ghost facts about a loaded value
        self.on_store = None   # function(X, st, off, n, val): ghost obligations/updates before a store
        self.on_value = None   # function(X, st, off, n, val)->val: equal value in a resolvable form (must justify itself by an obligation)
        self.resolver = None   # optional: function(X, st, off, val)->Ptr for pointers loaded from it

    def __repr__(self):
        return '<%s>' % self.name


class Ptr:
    __slots__ = ('r', 'off')

    def __init__(self, r, off):
        self.r = r
        self.off = off

    def __repr__(self):
        return 'Ptr(%s,%s)' % (self.r, self.off)


NULL = Ptr(None, 0)


def is_c(v):
    return isinstance(v, (int, bool))


def bv(v, w=64):
    if isinstance(v, bool):
        return z3.BitVecVal(1 if v else 0, w)
    if isinstance(v, int):
        return z3.BitVecVal(v, w)
    if isinstance(v, Ptr):
        return ptr_int(v)
    if z3.is_bool(v):
        return z3.If(v, z3.BitVecVal(1, w), z3.BitVecVal(0, w))
    return v


def ptr_int(p):
    if isinstance(p, Ptr):
        if p.r is None:
            return bv(p.off)
        return simp(p.r.base + bv(p.off))
    return bv(p)


def simp(e):
    if is_c(e) or isinstance(e, Ptr):
        return e
    e = z3.simplify(e)
    if z3.is_bv_value(e):
        return e
    return e


def conc(e):
    """python int if e is a constant, else None"""
    if isinstance(e, bool):
        return int(e)
    if isinstance(e, int):
        return e
    if z3.is_bv_value(e):
        return e.as_long()
    return None


def norm(e):
    """simplify, return python int when constant"""
    if is_c(e) or isinstance(e, Ptr):
        return e
    e = z3.simplify(e)
    if z3.is_bv_value(e):
        return e.as_long()
    if z3.is_true(e):
        return True
    if z3.is_false(e):
        return False
    return e


def boolv(b):
    if isinstance(b, bool):
        return z3.BoolVal(b)
    if isinstance(b, int):
        return z3.BoolVal(b != 0)
    return b


def sgn(v, w):
    v &= (1 << w) - 1
    return v - (1 << w) if v >> (w - 1) else v


def lin_base(e, bases):
    """If e is a bv sum containing exactly one region base with coefficient one: (region, rest)."""
    if not z3.is_bv(e):
        return None
    terms = []

    def flat(x):
        if x.decl().kind() == z3.Z3_OP_BADD:
            for c in x.children():
                flat(c)
        else:
            terms.append(x)
    flat(e)
    found = None
    rest = []
    for t in terms:
        if z3.is_const(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED and t.get_id() in bases:
            if found is not None:
                return None
            found = bases[t.get_id()]
        else:
            rest.append(t)
    if found is None:
        return None
    if not rest:
        return found, 0
    off = rest[0]
    for t in rest[1:]:
        off = off + t
    return found, norm(off)


class Mem:
    """contents of one region"""
    __slots__ = ('arr', 'cells', 'kind')

    def __init__(self, arr, cells, kind):
        self.arr = arr
        self.cells = cells
        self.kind = kind

    def copy(self):
        return Mem(self.arr, dict(self.cells), self.kind)


def to_bits(v, n):
    """value -> BV of n bytes"""
    if isinstance(v, Ptr):
        return ptr_int(v)
    if is_c(v):
        return z3.BitVecVal(int(v), n * 8)
    if z3.is_fp(v):
        return z3.fpToIEEEBV(v)
    if z3.is_bool(v):
        return bv(v, n * 8)
    return v


class Frame:
    __slots__ = ('fn', 'block', 'idx', 'regs', 'vars', 'prev', 'active', 'counts', 'retreg', 'depth', 'allocs', 'retty', 'snap')

    def __init__(self, fn, depth):
        self.fn = fn
        self.block = fn.order[0] if fn._blocks else None
        self.idx = 0
        self.regs = {}
        self.vars = {}
        self.prev = None
        self.active = []  # [LoopAct]
        self.counts = {}
        self.retreg = None
        self.depth = depth
        self.allocs = {}
        self.snap = {}

    def copy(self):
        f = Frame.__new__(Frame)
        f.snap = dict(self.snap)
        f.fn = self.fn
        f.block = self.block
        f.idx = self.idx
        f.regs = dict(self.regs)
        f.vars = dict(self.vars)
        f.prev = self.prev
        f.active = list(self.active)
        f.counts = dict(self.counts)
        f.retreg = self.retreg
        f.depth = self.depth
        f.allocs = dict(self.allocs)
        return f


class LoopAct:
    __slots__ = ('header', 'body', 'entry', 'spec', 'key', 'frame_depth', 'born', 'headst', 'cuts')

    def __init__(self, header, body, entry, spec, key, depth, born):
        self.headst = None
        self.cuts = {}
        self.header = header
        self.body = body
        self.entry = entry
        self.spec = spec
        self.key = key
        self.frame_depth = depth
        self.born = born


class State:
    def __init__(self):
        self.frames = []
        self.mem = {}
        self.pc = []
        self.ghost = {}
        self.regions = {}
        self.trace = []

    def copy(self):
        s = State()
        s.frames = [f.copy() for f in self.frames]
        s.mem = {k: v.copy() for k, v in self.mem.items()}
        s.pc = list(self.pc)
        s.ghost = {k: (list(v) if isinstance(v, list) else dict(v) if isinstance(v, dict) else v)
                   for k, v in self.ghost.items()}
        s.regions = dict(self.regions)
        s.trace = list(self.trace)
        return s

    def assume(self, f):
        f = boolv(f)
        if z3.is_true(f):
            return
        self.pc.append(f)


class Obl:
    __slots__ = ('name', 'pc', 'goal', 'trace', 'info', 'kind')

    def __init__(self, name, pc, goal, trace, info, kind):
        self.name = name
        self.pc = pc
        self.goal = goal
        self.trace = trace
        self.info = info
        self.kind = kind


def join_conds(ws):
    """disjunction of path conditions"""
    sets = []
    for w in ws:
        cs = []
        todo = [w]
        while todo:
            a = todo.pop()
            if z3.is_and(a):
                todo += a.children()
            elif not z3.is_true(a):
                cs.append(a)
        sets.append({a.get_id(): a for a in cs})
    if any(not a for a in sets):
        return z3.BoolVal(True)
    # two alternatives that differ only in c / not c
    ch = True
    while ch and len(sets) > 1:
        ch = False
        for i in range(len(sets)):
            for j in range(i + 1, len(sets)):
                a, b = sets[i], sets[j]
                da, db = [v for k, v in a.items() if k not in b], [v for k, v in b.items() if k not in a]
                if not da or not db:
                    keep = a if not da else b        # the weaker one covers the other
                elif len(da) == 1 and len(db) == 1 and z3.is_true(z3.simplify(da[0] == z3.Not(db[0]))):
                    keep = {k: v for k, v in a.items() if k in b}
                else:
                    continue
                sets = [s for n, s in enumerate(sets) if n not in (i, j)] + [keep]
                ch = True
                break
            if ch:
                break
    common = [v for k, v in sets[0].items() if all(k in s for s in sets)]
    rest = [[v for k, v in s.items() if not all(k in t for t in sets)] for s in sets]
    if any(not r for r in rest):
        return z3.And(*common) if common else z3.BoolVal(True)
    return z3.And(*common, z3.Or(*[z3.And(*r) for r in rest]))


class LoopSpec:
    """inv(X, st, L) -> [(name, formula)];  head(X, st, L): ghost code run at the loop head after
    the invariant is assumed (may only add instances of proved lemmas/definitions)."""

    def __init__(self, inv, head=None, vars=(), variant=None, cut=False):
        self.inv = inv
        self.cut = cut      # self-contained invariant: the loop is explored once per enclosing loop, not once per arriving path
        self.head = head
        self.vars = tuple(vars)
        self.variant = variant


class L:
    """accessor for local variables at a loop head"""

    def __init__(self, X, fr, entry_state, depth):
        self.X = X
        self.fr = fr
        self.entry = entry_state
        self.depth = depth

    def find(self, name, fr=None):
        fr = fr or self.fr
        name = self.X.rename.get((fr.fn.name, name), name)
        for cand in ('%' + name, '%' + name + '.addr'):
            if cand in fr.vars:
                return cand
        raise AttachError('%s: no local variable %r' % (fr.fn.name, name))

    def var(self, name):
        return self.fr.vars[self.find(name)]

    def at_entry(self, name):
        ef = self.entry.frames[self.depth]
        return ef.vars[self.find(name, ef)]

    def has(self, name):
        try:
            self.find(name)
            return True
        except AttachError:
            return False


NOOP_PATTERNS = ['printf', 'fprintf', 'wr_printf', 'wr_print_*', 'wg_print_*', 'wr_show_*', 'fflush', 'puts', 'putchar',
                 'wr_warn*', 'wr_errprint*', 'show_*_error*', 'show_data_error*', 'show_dballoc_error*', 'show_hash_error*',
                 'wg_show_*', 'show_query_error*', 'show_compare_error*', 'perror', 'llvm.lifetime*', 'llvm.dbg*', 'llvm.assume',
                 'wr_debug*', 'show_index_error*', 'show_consistency_error*', 'show_lock_error*', 'wr_alloc_err*']


class X:
    """the executor/verifier for one function contract"""

    def __init__(self, program, name, unroll=None, feas_timeout=400, default_unroll=12):
        self.prog = program
        self.name = name
        self.obls = []
        self.rename = {}
        self.calls = {}
        self.loops = {}
        self.noop = list(NOOP_PATTERNS)
        self.writeset = {}     # loop key -> set of ('r',regid-name,off,size) / ('R',name)
        self.rawvars = set()
        self.abstract_fp = False
        self.collapse = False  # join the paths of a branch that changed nothing before the point where they meet again
        self.parked = {}
        self.keep = []
        self.tokens = 0
        self.grew = False
        self.unroll = unroll   # bounded mode: max iterations for loops without usable invariant
        self.bounded_hit = False
        self.use_invariants = True
        self.default_unroll = default_unroll
        self.feas_timeout = feas_timeout
        self.globals = {}
        self.check_align = True
        self.check_bounds = True
        self.check_overflow = False
        self.cover = 0
        self.npaths = 0
        self.finals = []
        self.max_states = 20000
        self.inline_depth = 12
        self.used_contracts = set()
        self.inlined = set()
        self.noop_used = set()
        self.ext = {}
        self.feas_calls = 0
        self._solver = None
        self._sstack = []
        self.axioms = []       # added to every solver call (quantifier free or not)
        self.defs = []         # Def objects for auto instantiation
        self.steps = 0
        self.deadline = None
        self.lemmas_used = set()
        self.region_of = {}
        self._mb = {}

    # ---------- values
    def fresh(self, name, w=64):
        return z3.BitVec('%s!%d' % (name, next(_ctr)), w)

    def freshfp(self, name, sort=F64):
        return z3.FP('%s!%d' % (name, next(_ctr)), sort)

    def fresh_of_type(self, t, name):
        k = t[0]
        if k == 'int':
            if t[1] == 1:
                return z3.Bool('%s!%d' % (name, next(_ctr)))
            return self.fresh(name, t[1])
        if k == 'ptr':
            return Ptr(None, self.fresh(name, 64))
        if k == 'double':
            return self.freshfp(name)
        if k == 'x86_fp80':
            return self.freshfp(name, F80)
        if k == 'float':
            return self.freshfp(name, F32)
        if k == 'void':
            return None
        raise Unsupported('fresh of %s' % (t,))

    # ---------- regions
    def region(self, st, name, size=None, kind='words', arr=None, ro=False):
        r = Region(name, size, kind, ro=ro)
        st.regions[r.id] = r
        es = BV64 if kind == 'words' else z3.BitVecSort(8)
        st.mem[r.id] = Mem(arr if arr is not None else z3.Array('mem!%s!%d' % (name, r.id), BV64, es), {}, kind)
        self.region_of[r.id] = r
        # address facts: non-null, no wraparound, 16-aligned
        st.pc.append(z3.And(z3.UGE(r.base, 4096), z3.ULT(r.base, 1 << 47), (r.base & 15) == 0))
        if isinstance(size, int):
            pass
        return r

    def bases(self, st):
        return {r.base.get_id(): r for r in st.regions.values()}

    def arr(self, st, r):
        """whole contents as an array (flushes the overlay)"""
        m = st.mem[r.id]
        if m.cells:
            self.flush(m)
        return m.arr

    def flush(self, m):
        for off in sorted(m.cells):
            n, v = m.cells[off]
            self.raw_store(m, off, n, v)
        m.cells = {}

    def raw_store(self, m, off, n, v):
        bits = to_bits(v, n)
        if m.kind == 'bytes':
            for i in range(n):
                o = bv(off + i) if is_c(off) else off + i
                m.arr = z3.Store(m.arr, o, z3.Extract(8 * i + 7, 8 * i, bits))
            return
        if n == 8:
            if is_c(off) and off % 8:
                lo = off & ~7
                sh = (off & 7) * 8
                w0 = z3.Select(m.arr, bv(lo))
                w1 = z3.Select(m.arr, bv(lo + 8))
                w0n = z3.Concat(z3.Extract(63 - sh, 0, bits), z3.Extract(sh - 1, 0, w0))
                w1n = z3.Concat(z3.Extract(63, sh, w1), z3.Extract(63, 64 - sh, bits))
                m.arr = z3.Store(z3.Store(m.arr, bv(lo), w0n), bv(lo + 8), w1n)
                return
            m.arr = z3.Store(m.arr, bv(off), bits)
            return
        if n > 8:
            raise Unsupported('store of %d bytes' % n)
        if is_c(off):
            lo = off & ~7
            sh = (off & 7) * 8
            if sh + n * 8 > 64:
                raise Unsupported('misaligned subword')
            w = z3.Select(m.arr, bv(lo))
            parts = []
            if sh + n * 8 < 64:
                parts.append(z3.Extract(63, sh + n * 8, w))
            parts.append(bits)
            if sh > 0:
                parts.append(z3.Extract(sh - 1, 0, w))
            m.arr = z3.Store(m.arr, bv(lo), z3.Concat(*parts) if len(parts) > 1 else parts[0])
            return
        idx = simp(off & bv(~7 & ((1 << 64) - 1)))
        sh = (off & 7) << 3
        w = z3.Select(m.arr, idx)
        mask = z3.BitVecVal((1 << (8 * n)) - 1, 64) << sh
        nw = (w & ~mask) | (z3.ZeroExt(64 - 8 * n, bits) << sh)
        m.arr = z3.Store(m.arr, idx, nw)

    def raw_load(self, m, off, n):
        if m.kind == 'bytes':
            bs = []
            for i in range(n):
                o = bv(off + i) if is_c(off) else off + i
                bs.append(z3.Select(m.arr, o))
            r = bs[0] if n == 1 else z3.Concat(*reversed(bs))
            return r
        if n == 8:
            if is_c(off) and off % 8:
                lo = off & ~7
                sh = (off & 7) * 8
                return z3.Concat(z3.Extract(sh - 1, 0, z3.Select(m.arr, bv(lo + 8))),
                                 z3.Extract(63, sh, z3.Select(m.arr, bv(lo))))
            return z3.Select(m.arr, bv(off))
        if is_c(off):
            lo = off & ~7
            sh = (off & 7) * 8
            if sh + n * 8 > 64:
                raise Unsupported('misaligned subword')
            return z3.Extract(sh + n * 8 - 1, sh, z3.Select(m.arr, bv(lo)))
        idx = simp(off & bv(~7 & ((1 << 64) - 1)))
        sh = (off & 7) << 3
        return z3.Extract(8 * n - 1, 0, z3.LShR(z3.Select(m.arr, idx), sh))

    # typed load/store on state
    def load(self, st, p, n, ty=None, where='load'):
        p = self.resolve_ptr(st, p, where)
        r, off = p.r, p.off
        m = st.mem[r.id]
        off = norm(off)
        self.access_checks(st, r, off, n, where)
        if is_c(off):
            off = sgn(off, 64) if off >> 63 else off
            c = m.cells.get(off)
            if c is not None and c[0] == n:
                return self.retype(c[1], ty, n)
            if self.overlaps(m, off, n):
                self.flush(m)
            if ty is not None and ty[0] == 'ptr' and n == 8 and m.kind == 'words' and off % 8 == 0:
                v = norm(z3.Select(self.peel(st, m.arr, bv(off)), bv(off)))
            else:
                v = norm(self.raw_load(m, off, n))
            if r.on_load:
                r.on_load(self, st, off, n, v)
            if ty is not None and ty[0] == 'ptr' and not is_c(v):
                v = self.as_ptr(st, v, r, off)
                m.cells[off] = (n, v)
                return v
            return self.retype(v, ty, n)
        if m.cells:
            self.flush(m)
        if r.unaligned and n == 8 and m.kind == 'words' and not self.entails(st, (off & 7) == 0):
            lo = off & bv(~7 & ((1 << 64) - 1))
            w0, w1 = z3.Select(m.arr, lo), z3.Select(m.arr, lo + 8)
            sh = (off & 7) << 3
            v = norm(z3.If(sh == 0, w0, z3.LShR(w0, sh) | (w1 << (64 - sh))))
        else:
            v = norm(self.raw_load(m, off, n))
        if r.on_value:
            v = r.on_value(self, st, off, n, v)
        if r.on_load:
            r.on_load(self, st, off, n, v)
        if ty is not None and ty[0] == 'ptr' and r.resolver:
            q = r.resolver(self, st, off, v)
            if q is not None:
                return q
        return self.retype(v, ty, n)

    def peel(self, st, arr, off):
        """drop stores known not to hit off"""
        for _ in range(200):
            if not z3.is_store(arr):
                break
            a, i, v = arr.children()
            d = norm(i == off)
            if d is True or (d is not False and not self.entails(st, i != off)):
                break
            arr = a
        return arr

    def as_ptr(self, st, v, r, off):
        if r.resolver:
            q = r.resolver(self, st, off, v)
            if q is not None:
                return q
        b = lin_base(v, self.bases(st))
        if b:
            return Ptr(b[0], b[1])
        return Ptr(None, v)

    def overlaps(self, m, off, n):
        for o in range(off - 15, off + n):
            c = m.cells.get(o)
            if c is not None and o + c[0] > off:
                return True
        return False

    def retype(self, v, ty, n):
        if ty is None:
            return v
        k = ty[0]
        if k == 'ptr':
            if isinstance(v, Ptr):
                return v
            if is_c(v) and v == 0:
                return NULL
            return Ptr(None, v)
        if k == 'int':
            if isinstance(v, Ptr):
                return norm(ptr_int(v)) if not (v.r is None) else v.off
            if z3.is_expr(v) and z3.is_fp(v):
                return norm(z3.fpToIEEEBV(v))
            if ty[1] == 1 and not isinstance(v, bool) and not (z3.is_expr(v) and z3.is_bool(v)):
                return norm(bv(v, 8) != 0) if not is_c(v) else bool(v & 1)
            if ty[1] < 8 * n and not is_c(v):
                return norm(z3.Extract(ty[1] - 1, 0, v))
            return v
        if k == 'double':
            if z3.is_expr(v) and z3.is_fp(v):
                return v
            return z3.fpBVToFP(bv(v, 64), F64)
        if k == 'float':
            if z3.is_expr(v) and z3.is_fp(v):
                return v
            return z3.fpBVToFP(bv(v, 32), F32)
        if k == 'x86_fp80':
            if z3.is_expr(v) and z3.is_fp(v):
                return v
        raise Unsupported('retype %s' % (ty,))

    def store(self, st, p, n, v, where='store'):
        p = self.resolve_ptr(st, p, where)
        r, off = p.r, p.off
        if r.ro:
            self.oblig(st, 'no-write:%s' % r.name, z3.BoolVal(False), where)
        m = st.mem[r.id]
        off = norm(off)
        self.access_checks(st, r, off, n, where)
        self.note_write(st, r, off if is_c(off) else None, n)
        if r.on_store:
            r.on_store(self, st, off, n, v)
            m = st.mem[r.id]
        if is_c(off):
            off = sgn(off, 64) if off >> 63 else off
            c = m.cells.get(off)
            if c is None or c[0] != n:
                if self.overlaps(m, off, n):
                    self.flush(m)
            m.cells[off] = (n, v)
            return
        if m.cells:
            self.flush(m)
        self.raw_store(m, off, n, v)

    def access_checks(self, st, r, off, n, where):
        if self.check_bounds and r.size is not None:
            if is_c(off) and is_c(r.size):
                o = sgn(off, 64)
                ok = 0 <= o and o + n <= r.size
                if not ok:
                    self.oblig(st, 'bounds:%s' % r.name, z3.BoolVal(False), where, kind='safety')
            else:
                o = bv(off)
                s = bv(r.size)
                # sizes are < 2^47, so no wraparound in s
                self.oblig(st, 'bounds:%s' % r.name,
                           z3.And(z3.ULE(o, s), z3.ULE(bv(n), s - o)), where, kind='safety')
        if self.check_align and n > 1 and r.kind == 'words':
            if is_c(off):
                if off % min(n, 8):
                    if n == 8:
                        return   # handled exactly at constant offsets
                    if (off & 7) + n > 8:
                        self.oblig(st, 'align:%s' % r.name, z3.BoolVal(False), where, kind='safety')
            elif not r.unaligned:
                self.oblig(st, 'align:%s' % r.name, (bv(off) & (min(n, 8) - 1)) == 0, where, kind='safety')

    def resolve_ptr(self, st, p, where=''):
        if not isinstance(p, Ptr):
            p = Ptr(None, p)
        if p.r is not None:
            if is_c(p.off) or not self.mentions_base(st, p.off):
                return p
            v = z3.simplify(p.r.base + p.off)
            b = lin_base(v, self.bases(st))
            if b and not (is_c(b[1]) is False and self.mentions_base(st, b[1])):
                return Ptr(b[0], b[1])
            for r in [p.r] + [r for r in st.regions.values() if r is not p.r]:
                if r.size is None:
                    continue
                o = norm(v - r.base)
                if self.entails_hard(st, z3.ULT(bv(o), bv(r.size))):
                    return Ptr(r, o)
            return p
        v = p.off
        c = conc(v)
        if c is not None:
            self.oblig(st, 'deref-null', z3.BoolVal(False), where, kind='safety')
            raise DeadPath()
        v = z3.simplify(bv(v))
        b = lin_base(v, self.bases(st))
        if b:
            return Ptr(b[0], b[1])
        if z3.is_app_of(v, z3.Z3_OP_ITE):
            c_, a_, b_ = v.children()
            if self.entails(st, c_):
                return self.resolve_ptr(st, Ptr(None, a_), where)
            if self.entails(st, z3.Not(c_)):
                return self.resolve_ptr(st, Ptr(None, b_), where)
            la, lb = lin_base(z3.simplify(a_), self.bases(st)), lin_base(z3.simplify(b_), self.bases(st))
            if la and lb and la[0] is lb[0]:
                return Ptr(la[0], norm(z3.If(c_, bv(la[1]), bv(lb[1]))))
        if self.ptr_hook:
            q = self.ptr_hook(self, st, v)
            if q is not None:
                return q
        # ask the solver, region by region
        for r in st.regions.values():
            if r.size is None:
                continue
            inr = z3.And(z3.UGE(v, r.base), z3.ULT(v - r.base, bv(r.size)))
            if self.entails_hard(st, inr):
                return Ptr(r, norm(v - r.base))
        raise Unsupported('unresolved pointer %s at %s' % (str(v)[:200], where))

    ptr_hook = None

    def mentions_base(self, st, e):
        i = e.get_id()
        c = self._mb.get(i)
        if c is None:
            bs = self.bases(st)
            seen, stk, c = set(), [e], False
            while stk:
                t = stk.pop()
                if t.get_id() in seen:
                    continue
                seen.add(t.get_id())
                if t.get_id() in bs:
                    c = True
                    break
                if z3.is_array(t) or z3.is_app_of(t, z3.Z3_OP_SELECT):
                    continue
                stk.extend(t.children())
            self._mb[i] = (e, c)
            return c
        return c[1]

    def note_write(self, st, r, off, n):
        for fr in st.frames:
            for la in fr.active:
                if la.spec is None:
                    continue
                if r.id in la.entry.mem:
                    ws = self.writeset.setdefault(la.key, {})
                    cur = ws.setdefault(self.rkey(r), set())
                    item = (off, n) if off is not None else 'ALL'
                    if 'ALL' not in cur and item not in cur:
                        cur.add(item)
                        self.grew = True

    def rkey(self, r):
        return r.name

    def havoc_region(self, st, r, note=True):
        m = st.mem[r.id]
        es = BV64 if m.kind == 'words' else z3.BitVecSort(8)
        st.mem[r.id] = Mem(z3.Array('mem!%s!h%d' % (r.name, next(_ctr)), BV64, es), {}, m.kind)
        if note:
            self.note_write(st, r, None, 0)
        return st.mem[r.id].arr

    def set_arr(self, st, r, arr, note=True):
        m = st.mem[r.id]
        st.mem[r.id] = Mem(arr, {}, m.kind)
        if note:
            self.note_write(st, r, None, 0)

    # ---------- solver
    def sync(self, pc):
        if self._solver is None:
            self._solver = z3.Solver()
            self._solver.set('timeout', self.feas_timeout)
            for a in self.axioms:
                if not z3.is_quantifier(a):
                    self._solver.add(a)
            self._sstack = []
        i = 0
        while i < len(pc) and i < len(self._sstack) and self._sstack[i] is pc[i]:
            i += 1
        if i < len(self._sstack):
            self._solver.pop(len(self._sstack) - i)
            del self._sstack[i:]
        for f in pc[i:]:
            self._solver.push()
            if not has_quant(f):
                self._solver.add(f)
            self._sstack.append(f)

    def check_sat(self, st, f):
        self.feas_calls += 1
        self.sync(st.pc)
        s = self._solver
        s.push()
        s.add(f)
        r = s.check()
        s.pop()
        return r

    def entails(self, st, f):
        f = boolv(f)
        if z3.is_true(z3.simplify(f)):
            return True
        return self.check_sat(st, z3.Not(f)) == z3.unsat

    def entails_hard(self, st, f):
        r = self.check_sat(st, z3.Not(f))
        if r == z3.unsat:
            return True
        if r == z3.sat:
            return False
        s = z3.Solver()
        s.set('timeout', 10000)
        s.add(*[a for a in self.axioms if not z3.is_quantifier(a)])
        s.add(*[p for p in st.pc if not has_quant(p)])
        s.add(z3.Not(f))
        return s.check() == z3.unsat

    def oblig(self, st, name, goal, info='', kind='contract'):
        goal = boolv(goal)
        g = z3.simplify(goal)
        self.obls.append(Obl(name, list(st.pc), g if z3.is_true(g) else goal, list(st.trace[-40:]), info, kind))

    def require(self, st, name, goal, info=''):
        """assert then assume"""
        self.oblig(st, name, goal, info)
        st.assume(goal)

    # ---------- expression evaluation
    def ev(self, st, fr, ty, v):
        k = v[0]
        if k == 'reg':
            return fr.regs[v[1]]
        if k == 'int':
            if ty[0] == 'int':
                if ty[1] == 1:
                    return bool(v[1])
                return v[1] & ((1 << ty[1]) - 1)
            return v[1]
        if k == 'null':
            return NULL
        if k == 'undef':
            return self.fresh_of_type(ty, 'undef')
        if k == 'fp':
            return z3.FPVal(v[1], F64 if ty[0] == 'double' else F32)
        if k == 'fp80':
            b = int(v[1], 16)
            sign = b >> 79
            exp = (b >> 64) & 0x7fff
            frac = b & ((1 << 63) - 1)
            return z3.simplify(z3.fpBVToFP(z3.BitVecVal((sign << 78) | (exp << 63) | frac, 79), F80))
        if k == 'glob':
            return self.global_ptr(st, fr.fn.mod, v[1])
        if k == 'zero':
            if ty[0] == 'ptr':
                return NULL
            return 0
        if k == 'cegep':
            return self.gep(st, fr, v[1], v[2])
        if k == 'cecast':
            _, op, t, a, t2 = v
            return self.cast(st, op, t, self.ev(st, fr, t, a), t2)
        if k == 'cebin':
            _, op, t, a, b = v
            return self.binop(st, op, t, self.ev(st, fr, t, a), self.ev(st, fr, t, b), set(), '')
        raise Unsupported('value %s' % (v,))

    def global_ptr(self, st, mod, name):
        nm = name[1:]
        if nm in self.prog.funcs_any or nm in mod.funcs or nm in mod.decls:
            return ('func', nm)
        key = (mod.name, name) if not self.prog.is_external_global(name) else ('', name)
        if key not in self.globals:
            gi = mod.global_init(name)
            if gi is None or (gi[1] is None):
                gi = self.prog.find_global(name) or gi
            self.globals[key] = gi
        gid = 'glob' + name
        for r in st.regions.values():
            if r.name == gid and getattr(r, 'gkey', None) == key:
                return Ptr(r, 0)
        gi = self.globals[key]
        t = gi[0]
        size = mod.size(t) if gi[1] is not None or t[0] != 'opaque' else None
        rt = mod.resolve(t)
        kind = 'words'
        arr = None
        if gi[1] is not None and gi[1][0] == 'cstr':
            kind = 'bytes'
        elif rt[0] == 'arr' and mod.resolve(rt[2]) == ('int', 8):
            kind = 'bytes'
        r = self.region(st, gid, size=size or None, kind=kind)
        r.gkey = key
        m = st.mem[r.id]
        if gi[1] is not None and gi[2]:  # constant
            self.init_const(st, mod, m, 0, t, gi[1])
        if self.global_hook:
            self.global_hook(self, st, r, name)
        return Ptr(r, 0)

    global_hook = None

    def init_const(self, st, mod, m, off, t, v):
        t = mod.resolve(t)
        if v[0] == 'cstr':
            for i, b in enumerate(v[1]):
                m.cells[off + i] = (1, b)
            return
        if v[0] == 'zero':
            sz = mod.size(t)
            if t[0] in ('int', 'ptr', 'double'):
                m.cells[off] = (sz, 0)
            elif sz <= 4096:
                if t[0] == 'arr':
                    for i in range(t[1]):
                        self.init_const(st, mod, m, off + i * mod.size(t[2]), t[2], v)
                elif t[0] == 'lit':
                    for o, x in zip(mod.fields(t), t[1]):
                        self.init_const(st, mod, m, off + o, x, v)
            return
        if v[0] == 'agg':
            if t[0] == 'arr':
                es = mod.size(t[2])
                for i, (tt, vv) in enumerate(v[1]):
                    self.init_const(st, mod, m, off + i * es, tt, vv)
            else:
                for o, (tt, vv) in zip(mod.fields(t), v[1]):
                    self.init_const(st, mod, m, off + o, tt, vv)
            return
        if v[0] == 'int':
            m.cells[off] = (mod.size(t), v[1] & ((1 << t[1]) - 1))
        elif v[0] == 'fp':
            m.cells[off] = (8, z3.FPVal(v[1], F64))
        elif v[0] == 'null':
            m.cells[off] = (8, NULL)

    def gep(self, st, fr, bt, args):
        base = self.ev(st, fr, *args[0])
        if not isinstance(base, Ptr):
            base = Ptr(None, base)
        mod = fr.fn.mod
        off = base.off
        t = bt
        for i, (ity, iv) in enumerate(args[1:]):
            idx = self.ev(st, fr, ity, iv)
            if i == 0:
                es = mod.size(t)
                off = self.addoff(off, idx, ity[1], es)
            else:
                t = mod.resolve(t)
                if t[0] == 'lit':
                    c = conc(idx)
                    off = self.addoff(off, mod.fields(t)[c], 64, 1)
                    t = t[1][c]
                elif t[0] == 'arr':
                    t = t[2]
                    off = self.addoff(off, idx, ity[1], mod.size(t))
                else:
                    raise Unsupported('gep into %s' % (t,))
        return Ptr(base.r, off)

    def addoff(self, off, idx, w, es):
        if is_c(idx):
            d = sgn(int(idx), w) * es
            if is_c(off):
                return (off + d) & ((1 << 64) - 1)
            if d == 0:
                return off
            return norm(off + d)
        if w < 64:
            idx = z3.SignExt(64 - w, idx)
        if es != 1:
            idx = idx * es
        return norm(bv(off) + idx)

    def cast(self, st, op, t, a, t2):
        if op == 'bitcast':
            return a
        if op == 'ptrtoint':
            if isinstance(a, tuple):
                return self.fresh('funcaddr')
            v = norm(ptr_int(a)) if a.r is not None else a.off
            if t2[1] < 64:
                return norm(z3.Extract(t2[1] - 1, 0, bv(v)))
            return v
        if op == 'inttoptr':
            if isinstance(a, Ptr):
                return a
            v = norm(a)
            if t[1] < 64:
                v = norm(z3.ZeroExt(64 - t[1], bv(v, t[1])))
            if is_c(v):
                return Ptr(None, v)
            b = lin_base(bv(v), self.bases(st))
            if b:
                return Ptr(b[0], b[1])
            return Ptr(None, v)
        if op in ('sext', 'zext', 'trunc'):
            w, w2 = t[1], t2[1]
            if is_c(a):
                a = int(a)
                if op == 'sext':
                    return sgn(a, w) & ((1 << w2) - 1)
                if op == 'zext':
                    return a & ((1 << w) - 1)
                r = a & ((1 << w2) - 1)
                return bool(r) if w2 == 1 else r
            if z3.is_bool(a):
                if op == 'zext':
                    return z3.If(a, z3.BitVecVal(1, w2), z3.BitVecVal(0, w2))
                return z3.If(a, z3.BitVecVal(-1, w2), z3.BitVecVal(0, w2))
            if op == 'sext':
                return norm(z3.SignExt(w2 - w, a))
            if op == 'zext':
                return norm(z3.ZeroExt(w2 - w, a))
            if w2 == 1:
                return norm(z3.Extract(0, 0, a) == 1)
            return norm(z3.Extract(w2 - 1, 0, a))
        fs = {'double': F64, 'x86_fp80': F80, 'float': F32}
        if op == 'sitofp':
            return z3.fpSignedToFP(RNE, bv(a, t[1]), fs[t2[0]])
        if op == 'uitofp':
            return z3.fpUnsignedToFP(RNE, bv(a, t[1]), fs[t2[0]])
        if op == 'fptosi':
            # out of range is poison in C: obligation
            w = t2[1]
            if getattr(self, 'fptosi_total', False):
                return z3.Function('ftosi%d' % w, a.sort(), z3.BitVecSort(w))(a)
            lo = z3.fpSignedToFP(z3.RTZ(), z3.BitVecVal(1 << (w - 1), w), a.sort())
            tr = z3.fpRoundToIntegral(z3.RTZ(), a)
            self.oblig(st, 'fptosi-range', z3.And(z3.fpGEQ(tr, lo), z3.fpLT(tr, z3.fpNeg(lo))), kind='safety')
            return z3.fpToSBV(z3.RTZ(), a, z3.BitVecSort(w))
        if op == 'fptoui':
            return z3.fpToUBV(z3.RTZ(), a, z3.BitVecSort(t2[1]))
        if op in ('fpext', 'fptrunc'):
            return z3.fpFPToFP(RNE, a, fs[t2[0]])
        raise Unsupported(op)

    def binop(self, st, op, ty, a, b, flags, where):
        if op[0] == 'f':
            if op == 'fadd':
                return z3.fpAdd(RNE, a, b)
            if op == 'fsub':
                return z3.fpSub(RNE, a, b)
            if op == 'fmul':
                return z3.fpMul(RNE, a, b)
            if op == 'fdiv':
                return z3.fpDiv(RNE, a, b)
            raise Unsupported(op)
        w = ty[1]
        if w == 1:
            a, b = boolv(a), boolv(b)
            if op == 'and':
                return norm(z3.And(a, b))
            if op == 'or':
                return norm(z3.Or(a, b))
            if op == 'xor':
                return norm(z3.Xor(a, b))
            raise Unsupported('i1 ' + op)
        M = (1 << w) - 1
        if op in ('sdiv', 'srem', 'udiv', 'urem') :
            bb = bv(b, w)
            ok = bb != 0
            if op[0] == 's':
                ok = z3.And(ok, z3.Not(z3.And(bv(a, w) == (1 << (w - 1)), bb == M)))
            if not (is_c(b) and b not in (0, M)):
                self.oblig(st, 'div-defined', ok, where, kind='safety')
                if is_c(b) and b == 0:
                    raise DeadPath()
        if self.check_overflow and 'nsw' in flags and op in ('add', 'sub', 'mul') and not (is_c(a) and is_c(b)):
            A, B = bv(a, w), bv(b, w)
            if op == 'add':
                ok = z3.And(z3.BVAddNoOverflow(A, B, True), z3.BVAddNoUnderflow(A, B))
            elif op == 'sub':
                ok = z3.And(z3.BVSubNoOverflow(A, B), z3.BVSubNoUnderflow(A, B, True))
            else:
                ok = z3.And(z3.BVMulNoOverflow(A, B, True), z3.BVMulNoUnderflow(A, B))
            self.oblig(st, 'no-overflow:%s' % op, ok, where, kind='safety')
        if is_c(a) and is_c(b):
            a, b = int(a), int(b)
            sa, sb = sgn(a, w), sgn(b, w)
            if op == 'add':
                r = a + b
            elif op == 'sub':
                r = a - b
            elif op == 'mul':
                r = a * b
            elif op == 'and':
                r = a & b
            elif op == 'or':
                r = a | b
            elif op == 'xor':
                r = a ^ b
            elif op == 'shl':
                r = a << b if b < w else 0
            elif op == 'lshr':
                r = (a & M) >> b if b < w else 0
            elif op == 'ashr':
                r = sa >> min(b, w - 1)
            elif op == 'sdiv':
                r = abs(sa) // abs(sb)
                r = r if (sa < 0) == (sb < 0) else -r
            elif op == 'srem':
                r = abs(sa) % abs(sb)
                r = -r if sa < 0 else r
            elif op == 'udiv':
                r = a // b
            elif op == 'urem':
                r = a % b
            return r & M
        A, B = bv(a, w), bv(b, w)
        if op == 'add':
            r = A + B
        elif op == 'sub':
            r = A - B
        elif op == 'mul':
            r = A * B
        elif op == 'and':
            r = A & B
        elif op == 'or':
            r = A | B
        elif op == 'xor':
            r = A ^ B
        elif op == 'shl':
            r = A << B
        elif op == 'lshr':
            r = z3.LShR(A, B)
        elif op == 'ashr':
            r = A >> B
        elif op == 'sdiv':
            r = A / B
        elif op == 'srem':
            r = z3.SRem(A, B)
        elif op == 'udiv':
            r = z3.UDiv(A, B)
        elif op == 'urem':
            r = z3.URem(A, B)
        return norm(r)

    def icmp(self, st, pred, ty, a, b):
        if ty[0] == 'ptr':
            if isinstance(a, tuple) or isinstance(b, tuple):
                if isinstance(a, tuple) and isinstance(b, tuple):
                    r = a == b
                else:
                    r = False  # function address against something else (null)
                return r if pred == 'eq' else (not r)
            if a.r is not None and a.r is b.r and pred in ('eq', 'ne'):
                x, y = a.off, b.off
            elif a.r is not None and a.r is b.r:
                x, y = a.off, b.off   # within one object: offset order (no wraparound in-bounds)
            else:
                # null test of an in-region pointer
                for p, q in ((a, b), (b, a)):
                    if q.r is None and is_c(q.off) and q.off == 0 and p.r is not None and is_c(p.off) and pred in ('eq', 'ne'):
                        return pred == 'ne'
                x, y = ptr_int(a), ptr_int(b)
            a, b, w = x, y, 64
        else:
            w = ty[1]
            if w == 1:
                a, b = bv(a, 1), bv(b, 1)
        if is_c(a) and is_c(b):
            ua, ub = int(a) & ((1 << w) - 1), int(b) & ((1 << w) - 1)
            sa, sb = sgn(ua, w), sgn(ub, w)
            return {'eq': ua == ub, 'ne': ua != ub, 'ult': ua < ub, 'ule': ua <= ub, 'ugt': ua > ub, 'uge': ua >= ub,
                    'slt': sa < sb, 'sle': sa <= sb, 'sgt': sa > sb, 'sge': sa >= sb}[pred]
        A, B = bv(a, w), bv(b, w)
        r = {'eq': lambda: A == B, 'ne': lambda: A != B, 'ult': lambda: z3.ULT(A, B), 'ule': lambda: z3.ULE(A, B),
             'ugt': lambda: z3.UGT(A, B), 'uge': lambda: z3.UGE(A, B), 'slt': lambda: A < B, 'sle': lambda: A <= B,
             'sgt': lambda: A > B, 'sge': lambda: A >= B}[pred]()
        return norm(r)

    def fcmp(self, pred, a, b):
        if self.abstract_fp:            # sound: any outcome of a floating point comparison is explored
            return z3.Bool('fcmp!%d' % next(_ctr))
        un = z3.Or(z3.fpIsNaN(a), z3.fpIsNaN(b))
        base = {'eq': z3.fpEQ, 'lt': z3.fpLT, 'le': z3.fpLEQ, 'gt': z3.fpGT, 'ge': z3.fpGEQ}
        if pred == 'une':
            return z3.Not(z3.fpEQ(a, b))
        if pred == 'one':
            return z3.And(z3.Not(un), z3.Not(z3.fpEQ(a, b)))
        if pred == 'ord':
            return z3.Not(un)
        if pred == 'uno':
            return un
        if pred[0] == 'o':
            return base[pred[1:]](a, b)
        return z3.Or(un, base[pred[1:]](a, b))

    # ---------- main exploration
    def promotable(self, fn):
        if hasattr(fn, '_prom'):
            return fn._prom
        cand = {}
        for b in fn.blocks.values():
            for i in b:
                if i['op'] == 'alloca' and i['n'] is None and fn.mod.resolve(i['ty'])[0] in ('int', 'ptr', 'double', 'x86_fp80', 'float'):
                    cand[i['res']] = i['ty']
        bad = set()

        def use(v):
            if isinstance(v, tuple) and v and v[0] == 'reg' and v[1] in cand:
                bad.add(v[1])
        for b in fn.blocks.values():
            for i in b:
                op = i['op']
                if op == 'load':
                    if i['ptr'][0] == 'reg' and i['ptr'][1] in cand and cand[i['ptr'][1]] != i['ty']:
                        use(i['ptr'])
                elif op == 'store':
                    use(i['val'])
                    if i['ptr'][0] == 'reg' and i['ptr'][1] in cand and cand[i['ptr'][1]] != i['ty']:
                        use(i['ptr'])
                elif op in ('getelementptr', 'call'):
                    for t, v in i['args']:
                        use(v)
                elif op in ('icmp', 'select'):
                    use(i['a'])
                    use(i['b'])
                elif op in ('ptrtoint', 'bitcast'):
                    use(i['a'])
                elif op == 'phi':
                    for v, _ in i['inc']:
                        use(v)
                elif op == 'ret' and i['val']:
                    use(i['val'])
        fn._prom = {k: v for k, v in cand.items() if k not in bad}
        return fn._prom

    def enter(self, st, fn, args, retreg=None):
        fn.blocks
        fr = Frame(fn, len(st.frames))
        fr.retreg = retreg
        for (t, n), a in zip(fn.params, args):
            fr.regs[n] = a
        st.frames.append(fr)
        return fr

    def run(self, fn, st, args, on_ret):
        """explore all paths of fn from st"""
        outer = getattr(self, 'on_ret', None), self.parked
        self.on_ret, self.parked = on_ret, {}
        self.enter(st, fn, args)
        try:
            return self.run_([st])
        finally:
            self.on_ret, self.parked = outer

    def unpark(self):
        """every path of the branch has arrived: go on with the one joined state"""
        key = max(self.parked, key=lambda k: k[:2])
        s, ws, npc = self.parked.pop(key)
        del s.pc[npc:]
        s.assume(join_conds(ws))
        return s

    def run_(self, work):
        while work or self.parked:
            if not work:
                work.append(self.unpark())
            if self.deadline and time.time() > self.deadline:
                raise Unsupported('time limit')
            s = work.pop()
            self.npaths += 1
            if self.npaths > self.max_states:
                raise Unsupported('too many states')
            try:
                nxt = self.run_path(s)
            except DeadPath:
                nxt = []
            work.extend(reversed(nxt))

    def run_path(self, st):
        """run until fork or end; returns successor states"""
        while True:
            fr = st.frames[-1]
            blk = fr.fn.blocks[fr.block]
            ins = blk[fr.idx]
            self.steps += 1
            r = self.step(st, fr, ins)
            if r is not None:
                return r

    def jump(self, st, fr, target):
        """move to block; handles loops. returns None to continue or list of states"""
        src = fr.block
        fr.prev = src
        # leave loops not containing target
        while fr.active and target not in fr.active[-1].body:
            la = fr.active.pop()
            fr.counts.pop(la.header, None)
        fr.block = target
        fr.idx = 0
        st.trace.append(fr.fn.name + ':' + target)
        if target in fr.fn.loops:
            return self.at_header(st, fr, target)
        if self.collapse and self.use_invariants and len(fr.fn.pred[target]) > 1 and fr.fn.blocks[target][0]['op'] != 'phi':
            d = fr.snap.get(fr.fn.idom[target])
            if d is not None:
                tok, sig, npc = d
                if sig == self.signature(st):
                    key = (tok, -fr.fn.rpo.index(target), target, len(st.frames))
                    w = z3.And(*st.pc[npc:]) if len(st.pc) > npc else z3.BoolVal(True)
                    if key in self.parked:
                        self.parked[key][1].append(w)
                    else:
                        self.parked[key] = (st, [w], npc)
                    return []
        return None

    def signature(self, st):
        def vk(v):
            if isinstance(v, Ptr):
                return ('p', v.r.id if v.r is not None else None, vk(v.off))
            if z3.is_ast(v):
                self.keep.append(v)
                return ('z', v.get_id())
            if isinstance(v, (tuple, list)):
                return tuple(vk(a) for a in v)
            if isinstance(v, dict):
                return tuple((k, vk(a)) for k, a in v.items())
            if isinstance(v, (int, str, bool, type(None))):
                return v
            return id(v)
        return (tuple((id(f.fn), tuple((k, vk(v)) for k, v in sorted(f.vars.items())), tuple(id(a) for a in f.active)) for f in st.frames),
                tuple((k, vk(m.arr), tuple((o, vk(c)) for o, c in sorted(m.cells.items()))) for k, m in sorted(st.mem.items())),
                tuple((k, vk(v)) for k, v in sorted(st.ghost.items())))

    def loop_spec(self, fn, header):
        if not self.use_invariants:
            return None
        ls = self.loops.get(fn.name)
        if not ls:
            return None
        if callable(ls):
            ls = ls(self, fn)
        n = fn.loop_order.index(header)
        if isinstance(ls, dict):
            return ls.get(n)
        if len(ls) != len(fn.loop_order):
            raise AttachError('%s: %d loops, contract has invariants for %d' % (fn.name, len(fn.loop_order), len(ls)))
        return ls[n]

    def havoc_written(self, st, fr, body, key, entry, wkey):
        """forget everything the loop body (writes recorded under wkey) may change"""
        fn = fr.fn
        # havoc
        prom = self.promotable(fn)
        mod = set()
        for b in body:
            for i in fn.blocks[b]:
                if i['op'] == 'store' and i['ptr'][0] == 'reg' and i['ptr'][1] in prom:
                    mod.add(i['ptr'][1])
        for v in mod:
            t = prom[v]
            old = fr.vars.get(v)
            if t[0] == 'ptr':
                if (key, v) not in self.rawvars and isinstance(old, Ptr) and old.r is not None:
                    fr.vars[v] = Ptr(old.r, self.fresh(v[1:] + '_off'))
                else:
                    fr.vars[v] = Ptr(None, self.fresh(v[1:]))
            else:
                fr.vars[v] = self.fresh_of_type(t, v[1:])
        ws = self.writeset.get(wkey, {})
        for r in list(st.regions.values()):
            items = ws.get(self.rkey(r))
            if not items or r.id not in entry.mem:
                continue
            if 'ALL' in items:
                self.havoc_region(st, r, note=False)
            else:
                m = st.mem[r.id]
                for off, n in items:
                    off = sgn(off, 64) if off >> 63 else off
                    if off not in m.cells and self.overlaps(m, off, n):
                        self.flush(m)
                    nv = self.fresh('%s_f%d' % (r.name, off), n * 8)
                    oldc = m.cells.get(off)
                    if oldc and isinstance(oldc[1], Ptr) and n == 8:
                        nv = Ptr(None, nv) if (key, r.name, off) in self.rawvars or oldc[1].r is None else Ptr(oldc[1].r, nv)
                    m.cells[off] = (n, nv)

    def at_cut(self, st, fr, h, spec, key, outer):
        """arrival at a cut loop: its head is explored once, from the head of the enclosing loop with everything forgotten
        that the enclosing body may change, under the invariant alone; every arrival has to establish the invariant"""
        fn = fr.fn
        depth = len(st.frames) - 1
        acc = L(self, fr, st, depth)
        if spec.head:
            s0 = st.copy()
            acc0 = L(self, s0.frames[-1], s0, depth)
            spec.head(self, s0, acc0, 'pre')
            for nm, f in spec.inv(self, s0, acc0):
                self.oblig(s0, 'inv-init:%s:%d:%s' % (fn.name, fn.loop_order.index(h), nm), f, h)
        else:
            for nm, f in spec.inv(self, st, acc):
                self.oblig(st, 'inv-init:%s:%d:%s' % (fn.name, fn.loop_order.index(h), nm), f, h)
        c = outer.cuts.get(key)
        first = c is None
        if first:
            c = outer.headst.copy()
            cf = c.frames[depth]
            cf.block, cf.idx, cf.prev = h, 0, fr.prev
            c.trace.append('(cut) ' + fn.name + ':' + h)
            self.havoc_written(c, cf, outer.body, key, c.copy(), outer.key)
            entry = c.copy()
            la = LoopAct(h, fn.loops[h], entry, spec, key, depth, 0)
            cf.active = list(outer.headst.frames[depth].active)
            if not cf.active or cf.active[-1] is not outer:
                raise AttachError('%s: enclosing loop lost at a cut' % fn.name)
            cf.active.append(la)
            outer.cuts[key] = entry
        # pointers must agree with the regions assumed at the cut
        e = outer.cuts[key] if not first else entry
        for v, t in self.promotable(fn).items():
            o, n = e.frames[depth].vars.get(v), fr.vars.get(v)
            if t[0] == 'ptr' and isinstance(o, Ptr) and isinstance(n, Ptr) and n.r is not o.r:
                if o.r is not None and (key, v) not in self.rawvars:
                    self.rawvars.add((key, v))
                    self.grew = True
        for rid, m in st.mem.items():
            em = e.mem.get(rid)
            if em is None:
                continue
            for off, (n, val) in m.cells.items():
                oc = em.cells.get(off)
                if oc and isinstance(oc[1], Ptr) and oc[1].r is not None and not (isinstance(val, Ptr) and val.r is oc[1].r):
                    k = (key, self.region_of[rid].name, off)
                    if k not in self.rawvars:
                        self.rawvars.add(k)
                        self.grew = True
        if not first:
            return []
        acc = L(self, cf, entry, depth)
        if spec.head:
            spec.head(self, c, acc, 'pre')
        for nm, f in spec.inv(self, c, acc):
            c.assume(f)
        la.headst = c.copy()
        return [c]

    def at_header(self, st, fr, h):
        fn = fr.fn
        act = None
        for a in fr.active:
            if a.header == h:
                act = a
        spec = self.loop_spec(fn, h)
        if act is None:
            # entering
            body = fn.loops[h]
            key = (fn.name, h, len(st.frames) - 1)
            if spec is None:
                fr.active.append(LoopAct(h, body, None, None, key, len(st.frames) - 1, 0))
                fr.counts[h] = 0
                return None
            outer = fr.active[-1] if fr.active and fr.active[-1].spec is not None and fr.active[-1].headst is not None else None
            if spec.cut and outer is not None:
                return self.at_cut(st, fr, h, spec, key, outer)
            entry = st.copy()
            acc = L(self, fr, entry, len(st.frames) - 1)
            for nm, f in spec.inv(self, st, acc):
                self.oblig(st, 'inv-init:%s:%d:%s' % (fn.name, fn.loop_order.index(h), nm), f, h)
            la = LoopAct(h, body, entry, spec, key, len(st.frames) - 1, 0)
            fr.active.append(la)
            self.havoc_written(st, fr, body, key, entry, key)
            acc = L(self, fr, entry, len(st.frames) - 1)
            if spec.head:
                spec.head(self, st, acc, 'pre')
            for nm, f in spec.inv(self, st, acc):
                st.assume(f)
            if spec.variant is not None:
                st.ghost[('variant', key)] = spec.variant(self, st, acc)
            la.headst = st.copy()
            return None
        # back edge
        if act.spec is None:
            fr.counts[h] = fr.counts.get(h, 0) + 1
            lim = self.unroll if self.unroll is not None else self.default_unroll
            if fr.counts[h] > lim:
                if self.unroll is not None:
                    self.bounded_hit = True
                    return []
                raise AttachError('%s: loop %d has no invariant and does not terminate within %d iterations'
                                  % (fn.name, fn.loop_order.index(h), lim))
            return None
        acc = L(self, fr, act.entry, len(st.frames) - 1)
        for nm, f in act.spec.inv(self, st, acc):
            self.oblig(st, 'inv-keep:%s:%d:%s' % (fn.name, fn.loop_order.index(h), nm), f, h)
        if act.spec.variant is not None:
            v0 = st.ghost[('variant', act.key)]
            v1 = act.spec.variant(self, st, acc)
            self.oblig(st, 'variant:%s:%d' % (fn.name, fn.loop_order.index(h)),
                       z3.And(bv(v0) >= 0, bv(v1) < bv(v0)), h)
        # pointer variables must have stayed in the region assumed at the head
        prom = self.promotable(fn)
        for v, t in prom.items():
            if t[0] == 'ptr' and v in fr.vars:
                o = act.entry.frames[act.frame_depth].vars.get(v)
                n = fr.vars[v]
                if isinstance(o, Ptr) and isinstance(n, Ptr) and o.r is not None and n.r is not o.r and (act.key, v) not in self.rawvars:
                    self.rawvars.add((act.key, v))
                    self.grew = True
        for rid, m in st.mem.items():
            em = act.entry.mem.get(rid)
            if em is None:
                continue
            for off, (n, val) in m.cells.items():
                oc = em.cells.get(off)
                if oc and isinstance(oc[1], Ptr) and oc[1].r is not None and not (isinstance(val, Ptr) and val.r is oc[1].r):
                    k = (act.key, self.region_of[rid].name, off)
                    if k not in self.rawvars:
                        self.rawvars.add(k)
                        self.grew = True
        return []

    def step(self, st, fr, ins):
        op = ins['op']
        fr.idx += 1
        if op == 'alloca':
            prom = self.promotable(fr.fn)
            if ins['res'] in prom:
                fr.regs[ins['res']] = ('local', ins['res'])
                fr.vars[ins['res']] = self.fresh_of_type(fr.fn.mod.resolve(ins['ty']), ins['res'][1:] + '_uninit')
            else:
                n = 1
                if ins['n'] is not None:
                    n = self.ev(st, fr, *ins['n'])
                t = fr.fn.mod.resolve(ins['ty'])
                es = fr.fn.mod.size(t)
                kind = 'bytes' if (t[0] == 'arr' and fr.fn.mod.resolve(t[2]) == ('int', 8)) or t == ('int', 8) else 'words'
                size = es * n if is_c(n) else bv(n) * es
                r = self.region(st, 'loc:%s:%s:%d' % (fr.fn.name, ins['res'][1:], len(st.frames)), size=size, kind=kind)
                fr.regs[ins['res']] = Ptr(r, 0)
                fr.allocs[ins['res']] = r
            return None
        if op == 'load':
            p = ins['ptr']
            if p[0] == 'reg':
                pv = fr.regs[p[1]]
                if isinstance(pv, tuple) and pv[0] == 'local':
                    fr.regs[ins['res']] = fr.vars[pv[1]]
                    return None
            pv = self.ev(st, fr, ('ptr',), p)
            t = fr.fn.mod.resolve(ins['ty'])
            fr.regs[ins['res']] = self.load(st, pv, fr.fn.mod.size(t), t, fr.fn.name + ': ' + ins['line'])
            return None
        if op == 'store':
            t = fr.fn.mod.resolve(ins['ty'])
            v = self.ev(st, fr, t, ins['val'])
            p = ins['ptr']
            if p[0] == 'reg':
                pv = fr.regs[p[1]]
                if isinstance(pv, tuple) and pv[0] == 'local':
                    fr.vars[pv[1]] = v
                    return None
            pv = self.ev(st, fr, ('ptr',), p)
            if isinstance(v, tuple):
                v = Ptr(None, self.fresh('funcptr'))
            if t[0] == 'int' and t[1] == 1:
                v = bv(v, 8)
            self.store(st, pv, fr.fn.mod.size(t), v, fr.fn.name + ': ' + ins['line'])
            return None
        if op == 'getelementptr':
            fr.regs[ins['res']] = self.gep(st, fr, ins['bt'], ins['args'])
            return None
        if op == 'icmp':
            fr.regs[ins['res']] = self.icmp(st, ins['pred'], ins['ty'], self.ev(st, fr, ins['ty'], ins['a']),
                                            self.ev(st, fr, ins['ty'], ins['b']))
            return None
        if op == 'fcmp':
            fr.regs[ins['res']] = norm(self.fcmp(ins['pred'], self.ev(st, fr, ins['ty'], ins['a']),
                                                 self.ev(st, fr, ins['ty'], ins['b'])))
            return None
        if op in ('add', 'sub', 'mul', 'sdiv', 'udiv', 'srem', 'urem', 'and', 'or', 'xor', 'shl', 'ashr', 'lshr',
                  'fadd', 'fsub', 'fmul', 'fdiv'):
            a = self.ev(st, fr, ins['ty'], ins['a'])
            b = self.ev(st, fr, ins['ty'], ins['b'])
            fr.regs[ins['res']] = self.binop(st, op, ins['ty'], a, b, ins['flags'], fr.fn.name + ': ' + ins['line'])
            return None
        if op == 'fneg':
            fr.regs[ins['res']] = z3.fpNeg(self.ev(st, fr, ins['ty'], ins['a']))
            return None
        if op in ('sext', 'zext', 'trunc', 'ptrtoint', 'inttoptr', 'bitcast', 'sitofp', 'uitofp', 'fptosi', 'fptoui',
                  'fpext', 'fptrunc'):
            fr.regs[ins['res']] = self.cast(st, op, ins['ty'], self.ev(st, fr, ins['ty'], ins['a']), ins['to'])
            return None
        if op == 'phi':
            # evaluate all phis of the block together
            blk = fr.fn.blocks[fr.block]
            vals = {}
            j = fr.idx - 1
            while blk[j]['op'] == 'phi':
                for v, b in blk[j]['inc']:
                    if b == fr.prev:
                        vals[blk[j]['res']] = self.ev(st, fr, blk[j]['ty'], v)
                j += 1
            fr.regs.update(vals)
            fr.idx = j
            return None
        if op == 'select':
            c = self.ev(st, fr, ('int', 1), ins['c'])
            a = self.ev(st, fr, ins['ty'], ins['a'])
            b = self.ev(st, fr, ins['ty'], ins['b'])
            fr.regs[ins['res']] = self.ite(c, a, b, ins['ty'])
            return None
        if op == 'br':
            if ins['cond'] is None:
                return self.jump(st, fr, ins['t'])
            c = self.ev(st, fr, ('int', 1), ins['cond'])
            return self.branch(st, [(c, ins['t']), (self.neg(c), ins['f'])])
        if op == 'switch':
            v = self.ev(st, fr, ins['ty'], ins['val'])
            w = ins['ty'][1]
            if is_c(v):
                for cv, lb in ins['cases']:
                    if (cv & ((1 << w) - 1)) == v:
                        return self.jump(st, fr, lb)
                return self.jump(st, fr, ins['default'])
            alts = []
            bytgt = {}
            order = []
            none = []
            for cv, lb in ins['cases']:
                e = v == z3.BitVecVal(cv, w)
                none.append(v != z3.BitVecVal(cv, w))
                if lb not in bytgt:
                    bytgt[lb] = []
                    order.append(lb)
                bytgt[lb].append(e)
            nd = z3.And(*none) if none else z3.BoolVal(True)
            if ins['default'] in bytgt:
                bytgt[ins['default']].append(nd)
            else:
                bytgt[ins['default']] = [nd]
                order.append(ins['default'])
            for lb in order:
                es = bytgt[lb]
                alts.append((norm(es[0] if len(es) == 1 else z3.Or(*es)), lb))
            return self.branch(st, alts)
        if op == 'ret':
            v = None
            if ins['val'] is not None:
                v = self.ev(st, fr, ins['ty'], ins['val'])
            return self.do_ret(st, fr, v)
        if op == 'unreachable':
            return []
        if op == 'call':
            return self.do_call(st, fr, ins)
        raise Unsupported('instr ' + ins['line'])

    def neg(self, c):
        if isinstance(c, bool):
            return not c
        return norm(z3.Not(c))

    def ite(self, c, a, b, ty):
        if isinstance(c, bool):
            return a if c else b
        if ty[0] == 'ptr':
            if a.r is b.r:
                return Ptr(a.r, norm(z3.If(c, bv(a.off), bv(b.off))))
            return Ptr(None, z3.If(c, ptr_int(a), ptr_int(b)))
        if ty[0] == 'int':
            if ty[1] == 1:
                return norm(z3.If(c, boolv(a), boolv(b)))
            return norm(z3.If(c, bv(a, ty[1]), bv(b, ty[1])))
        return z3.If(c, a, b)

    def branch(self, st, alts):
        live = []
        if self.collapse:
            fr = st.frames[-1]
            self.tokens += 1
            fr.snap[fr.block] = (self.tokens, self.signature(st), len(st.pc))
        for c, lb in alts:
            if isinstance(c, bool):
                if c:
                    fr = st.frames[-1]
                    return self.jump(st, fr, lb)
                continue
            live.append((c, lb))
        out = []
        feas = []
        for c, lb in live:
            r = self.check_sat(st, c)
            if r != z3.unsat:
                feas.append((c, lb))
        if len(feas) == 1:
            c, lb = feas[0]
            st.assume(c)
            return self.jump(st, st.frames[-1], lb)
        for k, (c, lb) in enumerate(feas):
            s = st.copy() if k < len(feas) - 1 else st
            s.assume(c)
            try:
                r = self.jump(s, s.frames[-1], lb)
            except DeadPath:
                r = []
            if r is None:
                out.append(s)
            else:
                out.extend(r)
        return out

    def do_ret(self, st, fr, v):
        # frame dies: locals vanish
        for r in fr.allocs.values():
            st.mem.pop(r.id, None)
            st.regions.pop(r.id, None)
        st.frames.pop()
        if not st.frames:
            self.on_ret(self, st, v)
            return []
        c = st.frames[-1]
        if fr.retreg:
            c.regs[fr.retreg] = v
        return None

    def do_call(self, st, fr, ins):
        cal = ins['callee']
        if cal[0] == 'glob':
            name = cal[1][1:]
        elif cal[0] == 'reg':
            f = fr.regs[cal[1]]
            if isinstance(f, tuple) and f[0] == 'func':
                name = f[1]
            elif 'indirect' in self.calls:
                name = 'indirect'
            else:
                raise Unsupported('indirect call: ' + ins['line'])
        else:
            raise Unsupported('call ' + ins['line'])
        args = []
        for t, v in ins['args']:
            a = self.ev(st, fr, t, v)
            args.append(a)
        return self.call_named(st, fr, ins, name, args)

    def call_named(self, st, fr, ins, name, args):
        res = ins['res']
        where = fr.fn.name + ': ' + ins['line']

        def setret(s, v):
            if res:
                if ins['ty'] == ('ptr',) and not isinstance(v, (Ptr, tuple)):
                    v = Ptr(None, v)
                s.frames[-1].regs[res] = v
        h = self.calls.get(name)
        if h is None:
            for pat, hh in self.calls.items():
                if '*' in pat and fnmatch.fnmatchcase(name, pat):
                    h = hh
                    break
        if h is not None:
            self.used_contracts.add(name)
            outs = h(self, st, args, ins)
            return self.finish_call(st, outs, setret)
        lib = getattr(self, 'lib_' + name.replace('.', '_'), None)
        if lib is not None:
            self.ext[name] = self.ext.get(name, 0) + 1
            outs = lib(st, args, ins, where)
            return self.finish_call(st, outs, setret)
        for pat in self.noop:
            if fnmatch.fnmatchcase(name, pat):
                self.noop_used.add(name)
                if ins['ty'] != ('void',):
                    setret(st, self.fresh_of_type(fr.fn.mod.resolve(ins['ty']), 'noop_' + name))
                return None
        fn = self.prog.lookup(fr.fn.mod, name)
        if fn is None:
            raise Unsupported('no model for external function %s' % name)
        if any(f.fn is fn for f in st.frames):
            raise AttachError('recursive call of %s without contract' % name)
        if len(st.frames) > self.inline_depth:
            raise Unsupported('inlining too deep at %s' % name)
        self.inlined.add(name)
        self.enter(st, fn, args, res)
        return None

    def finish_call(self, st, outs, setret):
        if isinstance(outs, list):
            live = []
            for s, v in outs:
                setret(s, v)
                live.append(s)
            if len(live) == 1 and live[0] is st:
                return None
            # drop infeasible
            out = [s for s in live if self.check_sat(s, z3.BoolVal(True)) != z3.unsat]
            return out
        setret(st, outs)
        return None

    # ---------- library models (trusted)
    def lib_llvm_is_fpclass_f64(self, st, a, ins, where):
        x, mask = a[0], a[1]
        ts = []
        neg = z3.fpIsNegative(x)
        if mask & 3:
            ts.append(z3.fpIsNaN(x))
        for bit, f in ((4, z3.And(neg, z3.fpIsInf(x))), (8, z3.And(neg, z3.fpIsNormal(x))), (16, z3.And(neg, z3.fpIsSubnormal(x))),
                       (32, z3.And(neg, z3.fpIsZero(x))), (64, z3.And(z3.Not(neg), z3.fpIsZero(x))),
                       (128, z3.And(z3.Not(neg), z3.fpIsSubnormal(x))), (256, z3.And(z3.Not(neg), z3.fpIsNormal(x))),
                       (512, z3.And(z3.Not(neg), z3.fpIsInf(x)))):
            if mask & bit:
                ts.append(f)
        return norm(z3.Or(*ts))

    def lib_llvm_floor_f64(self, st, a, ins, where):
        return z3.fpRoundToIntegral(z3.RTN(), a[0])

    def lib_llvm_ceil_f64(self, st, a, ins, where):
        return z3.fpRoundToIntegral(z3.RTP(), a[0])

    def lib_llvm_trunc_f64(self, st, a, ins, where):
        return z3.fpRoundToIntegral(z3.RTZ(), a[0])

    def lib_llvm_round_f64(self, st, a, ins, where):
        return z3.fpRoundToIntegral(z3.RNA(), a[0])

    lib_floor = lib_llvm_floor_f64
    lib_ceil = lib_llvm_ceil_f64
    lib_trunc = lib_llvm_trunc_f64
    lib_round = lib_llvm_round_f64

    def lib_llvm_fabs_f64(self, st, a, ins, where):
        return z3.fpAbs(a[0])

    def lib_llvm_fabs_f80(self, st, a, ins, where):
        return z3.fpAbs(a[0])

    def lib_llvm_abs_i32(self, st, a, ins, where):
        if is_c(a[0]):
            return abs(sgn(a[0], 32))
        return norm(z3.If(a[0] < 0, -a[0], a[0]))

    def lib_abs(self, st, a, ins, where):
        return self.lib_llvm_abs_i32(st, a, ins, where)

    def lib_llvm_memcpy_p0_p0_i64(self, st, a, ins, where):
        d = self.resolve_ptr(st, a[0], where)
        s = self.resolve_ptr(st, a[1], where)
        self.memcpy(st, d, s, a[2], where)
        return None

    def lib_memcpy(self, st, a, ins, where):
        self.lib_llvm_memcpy_p0_p0_i64(st, a, ins, where)
        return a[0]

    def memcpy(self, st, d, s, n, where):
        dm, sm = st.mem[d.r.id], st.mem[s.r.id]
        doff, soff = norm(d.off), norm(s.off)
        n = norm(n)
        if self.check_bounds:
            for p in (d, s):
                if p.r.size is not None:
                    o, sz = bv(p.off), bv(p.r.size)
                    self.oblig(st, 'bounds:%s' % p.r.name, z3.And(z3.ULE(o, sz), z3.ULE(bv(n), sz - o)), where, kind='safety')
        self.note_write(st, d.r, None, 0)
        if is_c(n) and n <= 64 and n % 8 == 0 and dm.kind == 'words' and sm.kind == 'words':
            for k in range(0, n, 8):
                v = self.load(st, Ptr(s.r, self.addoff(soff, k, 64, 1)), 8)
                self.store(st, Ptr(d.r, self.addoff(doff, k, 64, 1)), 8, v)
            return
        sa, da = self.arr(st, s.r), self.arr(st, d.r)
        k = z3.BitVec('k!mc', 64)
        if dm.kind == sm.kind:
            inr = z3.And(z3.ULE(bv(doff), k), z3.ULT(k - bv(doff), bv(n)))
            body = z3.If(inr, z3.Select(sa, k - bv(doff) + bv(soff)), z3.Select(da, k))
            if dm.kind == 'words':
                self.oblig(st, 'align:memcpy', z3.And((bv(doff) & 7) == 0, (bv(soff) & 7) == 0, (bv(n) & 7) == 0), where, kind='safety')
            self.set_arr(st, d.r, z3.Lambda([k], body))
            return
        raise Unsupported('memcpy between kinds at ' + where)

    def lib_llvm_memset_p0_i64(self, st, a, ins, where):
        d = self.resolve_ptr(st, a[0], where)
        n = norm(a[2])
        dm = st.mem[d.r.id]
        off = norm(d.off)
        if self.check_bounds and d.r.size is not None:
            o, sz = bv(off), bv(d.r.size)
            self.oblig(st, 'bounds:%s' % d.r.name, z3.And(z3.ULE(o, sz), z3.ULE(bv(n), sz - o)), where, kind='safety')
        if is_c(n) and is_c(off) and is_c(a[1]) and n <= 256:
            b = a[1] & 255
            if dm.kind == 'words' and n % 8 == 0 and off % 8 == 0:
                for k in range(0, n, 8):
                    self.store(st, Ptr(d.r, off + k), 8, int.from_bytes(bytes([b]) * 8, 'little'))
            else:
                for k in range(n):
                    self.store(st, Ptr(d.r, off + k), 1, b)
            return None
        self.note_write(st, d.r, None, 0)
        da = self.arr(st, d.r)
        k = z3.BitVec('k!ms', 64)
        inr = z3.And(z3.ULE(bv(off), k), z3.ULT(k - bv(off), bv(n)))
        if dm.kind == 'bytes':
            val = z3.Extract(7, 0, bv(a[1], 32)) if not is_c(a[1]) else z3.BitVecVal(a[1], 8)
        else:
            if not is_c(a[1]):
                raise Unsupported('memset symbolic value')
            val = z3.BitVecVal(int.from_bytes(bytes([a[1] & 255]) * 8, 'little'), 64)
            self.oblig(st, 'align:memset', z3.And((bv(off) & 7) == 0, (bv(n) & 7) == 0), where, kind='safety')
        self.set_arr(st, d.r, z3.Lambda([k], z3.If(inr, val, z3.Select(da, k))))
        return None

    def lib_memcmp(self, st, a, ins, where):
        p, q = self.resolve_ptr(st, a[0], where), self.resolve_ptr(st, a[1], where)
        n = norm(a[2])
        if not is_c(n) or n > 64:
            raise Unsupported('memcmp of %s at %s' % (n, where))
        step = 8 if n % 8 == 0 and st.mem[p.r.id].kind == 'words' and st.mem[q.r.id].kind == 'words' else 1
        eqs = []
        for k in range(0, n, step):
            x = self.load(st, Ptr(p.r, self.addoff(p.off, k, 64, 1)), step, ('int', 8 * step), where)
            y = self.load(st, Ptr(q.r, self.addoff(q.off, k, 64, 1)), step, ('int', 8 * step), where)
            eqs.append(bv(x, 8 * step) == bv(y, 8 * step))
        r = self.fresh('memcmp', 32)
        st.assume((r == 0) == z3.And(*eqs))
        return r

    lib_bcmp = lib_memcmp

    def lib_malloc(self, st, a, ins, where):
        n = norm(a[0])
        s2 = st.copy()
        r = self.region(st, 'malloc%d' % next(_ctr), size=n)
        st.ghost.setdefault('mallocs', []).append(r)
        return [(s2, NULL), (st, Ptr(r, 0))]

    def lib_free(self, st, a, ins, where):
        return None

    def lib_exit(self, st, a, ins, where):
        raise DeadPath()

    lib_abort = lib_exit


class DeadPath(Exception):
    pass


_hq = {}


def has_quant(f):
    i = f.get_id()
    if i in _hq:
        return _hq[i][1]
    st = [f]
    seen = set()
    r = False
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x) and not x.is_lambda():
            r = True
            break
        if z3.is_quantifier(x):
            r = True   # lambdas: keep out of the incremental feasibility solver
            break
        st.extend(x.children())
    _hq[i] = (f, r)
    return r


class Program:
    """all modules of /repo needed by a check"""

    def __init__(self):
        self.mods = {}
        self.funcs_any = {}

    def add(self, mod):
        self.mods[mod.name] = mod
        for n, f in mod.funcs.items():
            if n not in self.funcs_any or self.funcs_any[n].internal:
                self.funcs_any[n] = f

    def lookup(self, mod, name):
        if name in mod.funcs:
            return mod.funcs[name]
        f = self.funcs_any.get(name)
        if f is not None and not f.internal:
            return f
        return None

    def is_external_global(self, name):
        for m in self.mods.values():
            t = m.globals.get(name)
            if t and ('private' in t[:40] or 'internal' in t[:40]):
                return False
        return True

    def find_global(self, name):
        for m in self.mods.values():
            gi = m.global_init(name)
            if gi and gi[1] is not None:
                return gi
        return None
