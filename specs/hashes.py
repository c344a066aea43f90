"""Contracts for the term hash tables of Reasoner/hash.c and the vectors of Reasoner/mem.c they are built from."""
from unify import *

HF = 'Reasoner/hash.c'
MF = 'Reasoner/mem.c'
CT = 'Reasoner/clterm.c'
HOLDS = z3.Function('HOLDS', A, U, BV64, B)     # the bucket holds the term u with clause c
HASH = z3.Function('HASH', U, BV64)             # documented hash of a term
HPRE = z3.Function('HPRE', U, BV64, BV64)       # hash of the argument positions below k
STRH = z3.Function('STRH', BV64, BV64, BV64, BV64, BV64)   # hash of the bytes of a short string
LSTRH = z3.Function('LSTRH', BV64, BV64)        # hash of the bytes of a long (interned) string
DUALH = z3.Function('DUALH', BV64, BV64)        # hash of the bytes of a symbol and its prefix
HIMM = z3.Function('HIMM', BV64, BV64)


def slot(h, n):
    """table position of hash value h (32 bit, not INT_MIN) in a table of n elements"""
    a = z3.If(h < 0, -h, h)
    a = z3.SignExt(32, a)
    return z3.If(a + 1 >= n, z3.SRem(a, n - 1), a) + 1


class Table:
    """a hash vector and the bucket in the slot the hash selects"""

    def __init__(self, x, empty, fields=(), vals=(fz,)):
        x.incremental = True
        st, T, gh = setup(x, fields=list(fields), vals=list(vals))
        self.x, self.st, self.T = x, st, T
        self.n = z3.BitVec('n!table', 64)
        st.assume(z3.And(self.n >= 3, self.n < (1 << 30)))
        self.HA = x.region(st, 'hasharr', size=norm((self.n + 1) << 3))
        st.assume(z3.Select(x.arr(st, self.HA), bv(0)) == self.n)
        self.ln, self.nx = z3.BitVecs('len!bucket next!bucket', 64)
        st.assume(z3.And(self.ln >= 2, self.ln < (1 << 26), self.nx >= 2, (self.nx & 1) == 0, self.nx <= self.ln + 1))
        self.BK = x.region(st, 'bucket', size=norm((self.ln + 1) << 3))
        self.bk0 = b = x.arr(st, self.BK)
        st.assume(z3.And(z3.Select(b, bv(0)) == self.ln, z3.Select(b, bv(8)) == self.nx))
        self.BK.on_load = self.entry
        self.h = z3.BitVec('hash', 32)
        self.t = z3.BitVec('term', 64)
        self.slot = slot(self.h, self.n)
        st.assume(z3.And(self.h > -(1 << 30), self.h < (1 << 30), isrec(self.t), WF(self.t)))
        self.ha0 = x.arr(st, self.HA)
        self.rel = self.BK.base - T.DB.base
        self.empty = empty
        self.s0 = bv(0) if empty else self.rel
        st.assume(z3.And(z3.Select(self.ha0, self.slot << 3) == self.s0, self.rel != 0))
        self.HA.on_value = self.at_slot
        x.calls['wr_equal_term'] = h_eqterm(T, fz)
        x.assumptions += ['a bucket is a counted vector of (term, clause) pairs with its free position at most one past its length; the terms in it are well-formed',
                          'hash vector and bucket are separate memory blocks addressed relative to the database start']

    def at_slot(self, x, st, off, n, v):
        if is_c(off):
            return v
        if n == 8 and x.arr(st, self.HA) is self.ha0 or z3.eq(x.arr(st, self.HA), self.ha0):
            x.require(st, 'looks-in-the-slot-of-the-hash', bv(off) == self.slot << 3, 'table access')
            st.assume(bv(v) == self.s0)
            return norm(self.s0)
        return v

    def entry(self, x, st, off, n, v):
        j = bv(off) >> 3
        st.assume(z3.Implies(z3.And(j >= 2, (j & 1) == 0, j < self.nx, (bv(off) & 7) == 0), WF(bv(v))))
        st.assume(z3.Implies(z3.And(j >= 2, (j & 1) == 1, j < self.nx, (bv(off) & 7) == 0), bv(v) != -self.T.DB.base))


def find_posts(Tb, s, v):
    T = Tb.T
    v = ptr_int(v) if isinstance(v, Ptr) else bv(v)
    J = z3.BitVec('J!entry', 64)
    return [('found-entry-is-that-term', z3.Implies(v != 0, z3.And(Tb.s0 != 0, HOLDS(Tb.bk0, fz(Tb.t), v - T.DB.base)))),
            ('not-found-only-if-absent', z3.Implies(z3.And(v == 0, Tb.s0 != 0, J >= 2, J < Tb.nx, (J & 1) == 0, z3.Select(Tb.bk0, (J + 1) << 3) != -T.DB.base),
                                                    fz(z3.Select(Tb.bk0, J << 3)) != fz(Tb.t)))]


def both(c):
    def run(x):
        for empty in (True, False):
            c(x, empty)
    return run


@contract('wr_find_termhash', HF, label='hash:find', timeout=120)
@both
def c_find(x, empty):
    Tb = Table(x, empty)
    st, T = Tb.st, Tb.T
    J = z3.BitVec('J!entry', 64)

    def inv(X, s, l):
        j = sx(l.var('j'))
        return [('range', z3.And(j >= 2, (j & 1) == 0, j <= Tb.nx)),
                ('not-among-the-entries-seen', z3.Implies(z3.And(J >= 2, J < j, (J & 1) == 0), fz(z3.Select(Tb.bk0, J << 3)) != fz(Tb.t)))]

    def head(X, s, l, ph):
        j = sx(l.var('j'))
        s.assume(z3.Implies(z3.And(j >= 2, j < Tb.nx, (j & 1) == 0, fz(z3.Select(Tb.bk0, j << 3)) == fz(Tb.t)), HOLDS(Tb.bk0, fz(Tb.t), z3.Select(Tb.bk0, (j + 1) << 3))))
    x.loops['wr_find_offset_termhash'] = [LoopSpec(inv, head)]
    f = start(x, 'wr_find_termhash')
    x.run(f, st, [Ptr(T.G, 0), Ptr(Tb.HA, 0), Ptr(T.DB, Tb.t), Tb.h],
          ret_check(x, lambda s, v: find_posts(Tb, s, v) + [('table-unchanged', z3.And(x.arr(s, Tb.HA) == Tb.ha0, x.arr(s, Tb.BK) == Tb.bk0))]))


@contract('wr_push_termhash', HF, label='hash:push', timeout=120)
@both
def c_push(x, empty):
    Tb = Table(x, empty)
    st, T = Tb.st, Tb.T
    c = z3.BitVec('clause', 64)
    K = z3.BitVec('K!entry', 64)
    S = z3.BitVec('S!slot', 64)

    def new(X, s, args, ins):
        # contract of wr_cvec_new: an empty counted vector, or NULL when no memory is left
        n = sx(args[1])
        X.oblig(s, 'pre:cvec_new', z3.And(n >= 2, n < (1 << 26)), 'call')
        f = s.copy()
        r = X.region(s, 'newbucket', size=norm((n + 2) << 3))
        a = X.arr(s, r)
        s.assume(z3.And(z3.Select(a, bv(0)) == n, z3.Select(a, bv(8)) == 2, r.base != T.DB.base, r.base != Tb.BK.base))
        return [(f, NULL), (s, Ptr(r, 0))]

    def push(X, s, args, ins):
        # contract vec:push: the element is appended, possibly in a new block, all earlier elements kept
        g, v, e = args
        v = X.resolve_ptr(s, v, 'call')
        X.oblig(s, 'pre:cvec_push', bv(v.off) == 0, 'call')
        a = X.arr(s, v.r)
        ln, nx = z3.Select(a, bv(0)), z3.Select(a, bv(8))
        X.oblig(s, 'pre:cvec_push', z3.And(ln >= 0, ln < (1 << 28), nx >= 2, nx <= ln + 1), 'call')
        f = s.copy()
        outs = [(f, NULL)]
        b = z3.Store(z3.Store(a, nx << 3, bv(e)), bv(8), nx + 1)
        room = s.copy()
        room.assume(nx <= ln)
        X.set_arr(room, v.r, b)
        outs.append((room, Ptr(v.r, 0)))
        s.assume(nx > ln)
        l2 = X.fresh('newlen', 64)
        s.assume(z3.And(l2 > ln, l2 >= nx, l2 <= 2 * ln + 4))
        r = X.region(s, 'grown', size=norm((l2 + 1) << 3), arr=z3.Store(b, bv(0), l2))
        s.assume(z3.And(r.base != T.DB.base, *[r.base != q.base for q in s.regions.values() if q is not r and q is not v.r and q not in s.ghost.get('dead', [])]))
        s.ghost['dead'] = s.ghost.get('dead', []) + [v.r]   # realloc may return the same address
        outs.append((s, Ptr(r, 0)))
        return outs
    x.calls['wr_cvec_new'] = new
    x.calls['wr_cvec_push'] = push
    BN = ('newbucket', 'grown') + (() if empty else ('bucket',))
    f = start(x, 'wr_push_termhash')

    def posts(s, v):
        ok = bv(v) != 0 if not isinstance(v, Ptr) else z3.BoolVal(v.r is not None) if is_c(v.off) else ptr_int(v) != 0
        ha = x.arr(s, Tb.HA)
        nb = z3.Select(ha, Tb.slot << 3)
        out = [('other-slots-unchanged', z3.Implies(z3.And(S >= 0, S <= Tb.n, S != Tb.slot), z3.Select(ha, S << 3) == z3.Select(Tb.ha0, S << 3))),
               ('result-is-the-table', z3.Implies(ok, ptr_int(v) == Tb.HA.base if isinstance(v, Ptr) else z3.BoolVal(False)))]
        # the bucket the slot refers to now
        for r in list(s.regions.values()):
            if r.name in BN and r not in s.ghost.get('dead', []):
                a = x.arr(s, r)
                here = z3.And(ok, nb == r.base - T.DB.base)
                n0 = z3.If(Tb.s0 == 0, bv(2), Tb.nx)
                out += [('entry-added:' + r.name, z3.Implies(here, z3.And(z3.Select(a, bv(8)) == n0 + 2, z3.Select(a, n0 << 3) == Tb.t, z3.Select(a, (n0 + 1) << 3) == c,
                                                                         z3.Select(a, bv(0)) + 1 >= n0 + 2))),
                        ('earlier-entries-kept:' + r.name, z3.Implies(z3.And(here, K >= 2, K < n0), z3.Select(a, K << 3) == z3.Select(Tb.bk0, K << 3)))]
        out.append(('slot-refers-to-a-bucket', z3.Implies(ok, z3.Or(*[nb == r.base - T.DB.base for r in s.regions.values() if r.name in BN and r not in s.ghost.get('dead', [])]))))
        return out
    x.run(f, st, [Ptr(T.G, 0), Ptr(Tb.HA, 0), Tb.h, Ptr(T.DB, Tb.t), Ptr(T.DB, c)], ret_check(x, posts))
