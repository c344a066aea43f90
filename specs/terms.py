"""Ghost theory of terms, bindings and the variable trail shared by the term-level contracts.

U is the domain of finite ground trees.  val(t) is the tree denoted by term t under one arbitrary
but fixed valuation V of the variables; a statement proved for that V is proved for all of them.
"""
import z3
from symex import *
from driver import *

U = z3.DeclareSort('U')
A = z3.ArraySort(BV64, BV64)
B = z3.BoolSort()
I = z3.IntSort()
val = z3.Function('val', BV64, U)
V = z3.Function('V', BV64, U)
kind = z3.Function('kind', U, I)
nargs = z3.Function('nargs', U, BV64)
arg = z3.Function('arg', U, BV64, U)
size = z3.Function('size', U, I)
Cimm = z3.Function('Cimm', BV64, U)
Cint = z3.Function('Cint', BV64, U)
Cdbl = z3.Function('Cdbl', BV64, U)
Cvar = z3.Function('Cvar', BV64, U)
fz = z3.Function('fz', BV64, U)              # the term itself: every variable a distinct constant
fm = z3.Function('fm', BV64, U)              # the term up to the variable bank: variable i as constant i mod bank size
SATM = z3.Function('SATM', A, B)             # V satisfies every binding, bound terms read literally (matching)
Csst = z3.Function('Csst', BV64, BV64, BV64, BV64, U)
inv = [z3.Function('inv%d' % k, U, BV64) for k in range(4)]
PE = z3.Function('PE', U, U, BV64, B)        # first k argument positions (from FIRST) agree
WF = z3.Function('WF', BV64, B)              # well formed term
SAT = z3.Function('SAT', A, B)               # V satisfies every binding
WFB = z3.Function('WFB', A, B)               # every binding is well formed, cells in range
DEREF = z3.Function('DEREF', A, BV64, BV64)  # follow variable-to-variable bindings
OCCT = z3.Function('OCCT', A, BV64, BV64, B)      # x occurs in a through bindings
OCCP = z3.Function('OCCP', A, BV64, BV64, BV64, B)  # ... in the first k arguments of record t
LOG = z3.Function('LOG', A, BV64, BV64, BV64, B)  # cell c is in trail entries [lo,hi)

HDR = '#include "Reasoner/rincludes.h"\n'
UNASSIGNED = 0xff
VSBASE = None


def isvar(t):
    return (t & 15) == 7


def isrec(t):
    return (t & 7) == 0


def isc(t):
    return z3.And(z3.Not(isvar(t)), z3.Not(isrec(t)))


def vidx(t):
    return t >> 4


def voff(t):
    return (t >> 4) << 3


def hdrlen(h):
    return ((h & bv(~3 & (2**64 - 1))) >> 3) - 3


def div8(d):
    """e with d == 8*e (mod 2^64) when d is a sum of multiples of eight, else None"""
    if z3.is_bv_value(d):
        v = sgn(d.as_long(), 64)
        return bv(v // 8) if v % 8 == 0 else None
    k = d.decl().kind()
    if k == z3.Z3_OP_BADD:
        ps = [div8(c) for c in d.children()]
        if any(p is None for p in ps):
            return None
        r = ps[0]
        for p in ps[1:]:
            r = r + p
        return r
    if k == z3.Z3_OP_BMUL:
        cs = d.children()
        if len(cs) == 2 and z3.is_bv_value(cs[0]):
            c = sgn(cs[0].as_long(), 64)
            if c % 8 == 0:
                return bv(c // 8) * cs[1]
    return None


class Terms:
    """sets up g, the database, the variable banks and the trail, and the ghost rules"""
    FIRST = 1
    MAXLEN = 1 << 24

    def __init__(self, x, st, fields=None, vals=None, satm=False, lemmas=True):
        self.lemmas = lemmas
        self.x = x
        self.vals = vals or [val]
        self.satm = satm
        self.arg_hooks = []
        b = x.build
        flds = ['db', 'varbanks', 'varstack', 'unify_samelen', 'unify_maxuseterms', 'unify_firstuseterm', 'tmp_unify_vc',
                'tmp_unify_do_occcheck', 'tmp_unify_occcheck'] + list(fields or [])
        ex = ['offsetof(glb,%s)' % f for f in flds] + ['sizeof(((glb*)0)->%s)' % f for f in flds] + ['sizeof(glb)', 'NROF_VARBANKS', 'NROF_VARSINBANK', 'UNASSIGNED',
                                                       'sizeof(((glb*)0)->unify_samelen)', 'SHORTSTR_SIZE', 'FIRST_UNREAL_VAR_NR']
        k = b.probe(HDR, ex)
        self.k = k
        self.off = {f: k['offsetof(glb,%s)' % f] for f in flds}
        self.fsz = {f: k['sizeof(((glb*)0)->%s)' % f] for f in flds}
        assert k['UNASSIGNED'] == UNASSIGNED
        self.nvars = k['NROF_VARBANKS'] * k['NROF_VARSINBANK']
        self.banksize = k['NROF_VARSINBANK']
        self.firstunreal = k['FIRST_UNREAL_VAR_NR']
        self.G = x.region(st, 'g', size=k['sizeof(glb)'])
        self.DB = x.region(st, 'db', size=None, ro=True)
        self.DB.unaligned = True
        self.DB.on_load = self.db_load
        self.VB = x.region(st, 'varbanks', size=8 * self.nvars)
        self.VB.on_load = self.vb_load
        self.VS = x.region(st, 'varstack', size=None)
        self.VS.resolver = self.vs_resolver
        self.dbarr = x.arr(st, self.DB)
        self.sset(st, 'db', Ptr(self.DB, 0))
        self.sset(st, 'varbanks', Ptr(self.VB, 0))
        self.sset(st, 'varstack', Ptr(self.VS, 0))
        self.sset(st, 'unify_samelen', 1, 4)
        self.sset(st, 'unify_maxuseterms', 0, 4)
        self.sset(st, 'unify_firstuseterm', self.FIRST, 4)
        self.sset(st, 'tmp_unify_vc', Ptr(self.VS, 8))
        x.assumptions += [
            'glb fields unify_samelen=1, unify_maxuseterms=0, unify_firstuseterm=1 (set once by wr_glb_init_shared_simple, checked by the config scan)',
            'terms in the database are well-formed (tag bits, record header = used object, 1<=length<2^24, variable numbers inside the banks, no NaN doubles, long string header < 2^32) and finite (acyclic)',
            'the database segment, the glb struct, the variable banks and the trail are disjoint memory blocks',
        ]
        self.rules(x.defs_)

    def sset(self, st, f, v, n=None):
        n = self.fsz[f]
        st.mem[self.G.id].cells[self.off[f]] = (n, v)

    def gget(self, st, f):
        n = self.fsz[f]
        return bv(self.x.load(st, Ptr(self.G, self.off[f]), n, ('int', 8 * n)), 8 * n)

    def vb(self, st):
        return self.x.arr(st, self.VB)

    def vs(self, st):
        return self.x.arr(st, self.VS)

    def top(self, st):
        return bv(self.x.load(st, Ptr(self.VS, 8), 8, ('int', 64)))

    # ---- record contents
    def hdr(self, t):
        return z3.Select(self.dbarr, t)

    def length(self, t):
        return hdrlen(self.hdr(t))

    def argt(self, t, i):
        return z3.Select(self.dbarr, t + ((bv(i) + 3) << 3))

    def arg_facts(self, t, i, v):
        """definition of WF and val on argument i of record t"""
        d = [WF(v)]
        for f in self.vals:
            d += [arg(f(t), i) == f(v)]
            if f is val:
                d += [size(f(v)) < size(f(t))]
        return z3.Implies(z3.And(WF(t), isrec(t), bv(self.FIRST) <= i, i < self.length(t)), z3.And(*d))

    def db_load(self, x, st, off, n, v):
        if n != 8 or is_c(off):
            return
        # bases: summands of the offset
        terms = []

        def flat(e):
            if e.decl().kind() == z3.Z3_OP_BADD:
                for c in e.children():
                    flat(c)
            elif e.decl().kind() in (z3.Z3_OP_UNINTERPRETED, z3.Z3_OP_SELECT):
                terms.append(e)
        flat(off)
        vv = bv(v)
        for t in terms[:4]:
            d = z3.simplify(off - t)
            q = div8(d)
            i = z3.simplify(q - 3) if q is not None else z3.simplify((d >> 3) - 3)
            f = z3.Implies((d & 7) == 0, self.arg_facts(t, i, vv))
            st.assume(f)
            for h in self.arg_hooks:
                for g in h(st, t, i, vv):
                    st.assume(z3.Implies(z3.And((d & 7) == 0, bv(self.FIRST) <= i, i < self.length(t)), g))

    def vb_load(self, x, st, off, n, v):
        if n != 8:
            return
        arr = self.vb(st)
        off = bv(off)
        v = bv(v)
        ok = z3.And(z3.ULT(off, 8 * self.nvars), (off & 7) == 0)
        st.assume(z3.Implies(z3.And(ok, WFB(arr), v != UNASSIGNED), WF(v)))
        if self.satm:
            st.assume(z3.Implies(z3.And(ok, SATM(arr), v != UNASSIGNED), V(off >> 3) == fz(v)))
        else:
            st.assume(z3.Implies(z3.And(ok, SAT(arr), v != UNASSIGNED), V(off >> 3) == val(v)))

    def vs_resolver(self, x, st, off, v):
        """trail entries at positions >= 2 and below the top are addresses of variable cells"""
        return None

    # ---- definitions
    def rules(self, D):
        x = self

        def r_val(t, val=val):
            out = []
            u = val(t)
            i = vidx(t)
            vt = V(i) if val.name() == 'val' else Cvar(i) if val.name() == 'fz' else Cvar(z3.SRem(i, bv(x.banksize)))
            out.append(z3.Implies(isvar(t), u == vt))
            out.append(z3.Implies(z3.And(isrec(t), WF(t)), z3.And(kind(u) == 5, nargs(u) == x.length(t))))
            tag3 = t & 7
            fi = (t & 3) == 1
            fd = tag3 == 2
            ss = tag3 == 6
            o3 = t & bv(~7 & (2**64 - 1))
            o2 = t & bv(~3 & (2**64 - 1))
            imm = z3.And(z3.Not(isvar(t)), z3.Not(isrec(t)), z3.Not(fi), z3.Not(fd), z3.Not(ss))
            out.append(z3.Implies(imm, u == Cimm(t)))
            out.append(z3.Implies(fi, u == Cint(z3.Select(x.dbarr, o2))))
            dv = z3.Select(x.dbarr, o3)
            f = z3.fpBVToFP(dv, F64)
            out.append(z3.Implies(fd, u == Cdbl(z3.If(z3.fpIsZero(f), z3.BitVecVal(0, 64), dv))))
            ws = [z3.Select(x.dbarr, o3 + 8 * k) for k in range(4)]
            out.append(z3.Implies(ss, u == Csst(*ws)))
            return out
        D.rule(val, r_val)
        D.rule(fz, lambda t: r_val(t, fz))
        D.rule(fm, lambda t: r_val(t, fm))
        D.rule(Cvar, lambda a: [kind(Cvar(a)) == 6, inv[0](Cvar(a)) == a])
        D.rule(Cimm, lambda a: [kind(Cimm(a)) == 1, inv[0](Cimm(a)) == a])
        D.rule(Cint, lambda a: [kind(Cint(a)) == 2, inv[0](Cint(a)) == a])
        D.rule(Cdbl, lambda a: [kind(Cdbl(a)) == 3, inv[0](Cdbl(a)) == a])
        D.rule(Csst, lambda *a: [kind(Csst(*a)) == 4] + [inv[k](Csst(*a)) == a[k] for k in range(4)])

        def r_wf(t):
            tag3 = t & 7
            o3 = t & bv(~7 & (2**64 - 1))
            f = z3.fpBVToFP(z3.Select(x.dbarr, o3), F64)
            ln = x.length(t)
            h = z3.Select(x.dbarr, t & bv(~7 & (2**64 - 1)))
            return [z3.Implies(isvar(t), WF(t) == z3.And(vidx(t) >= 0, vidx(t) < x.nvars)), z3.Implies(WF(t), z3.And(
                t != UNASSIGNED, t != 0, z3.ULT(t, bv(1 << 62)) if False else z3.BoolVal(True),
                z3.Implies(isvar(t), z3.And(vidx(t) >= 0, vidx(t) < x.nvars)),
                z3.Implies(isrec(t), z3.And(ln >= 1, ln < x.MAXLEN, z3.ULT(t, bv(1 << 46)))),
                z3.Implies(tag3 == 4, z3.ULT(h, bv(1 << 32))),
                z3.Implies(z3.Or((t & 3) == 1), (t & 4) == 0),
                z3.Implies(tag3 == 2, z3.Not(z3.fpIsNaN(f)))))]
        D.rule(WF, r_wf)

        def r_pe(u, w, k):
            f = bv(x.FIRST)
            return [
                z3.Implies(k <= f, PE(u, w, k)),
                z3.Implies(k > f, PE(u, w, k) == z3.And(PE(u, w, k - 1), arg(u, k - 1) == arg(w, k - 1))),
                # extensionality of nodes / congruence
                z3.Implies(z3.And(kind(u) == 5, kind(w) == 5, nargs(u) == nargs(w), nargs(u) == k, PE(u, w, k)), u == w),
                z3.Implies(u == w, PE(u, w, k))]
        D.rule(PE, r_pe)

        def r_store(fn):
            def cb(arr):
                if arr.decl().kind() != z3.Z3_OP_STORE:
                    return []
                a0, i, v = arr.children()
                inr = z3.And(z3.ULT(i, 8 * x.nvars), (i & 7) == 0)
                if fn is SAT:
                    return [z3.Implies(z3.And(inr, z3.Select(a0, i) == UNASSIGNED, v != UNASSIGNED),
                                       SAT(arr) == z3.And(SAT(a0), V(i >> 3) == val(v)))]
                if fn is SATM:
                    return [z3.Implies(z3.And(inr, z3.Select(a0, i) == UNASSIGNED, v != UNASSIGNED),
                                       SATM(arr) == z3.And(SATM(a0), V(i >> 3) == fz(v)))]
                return [z3.Implies(z3.And(inr, WFB(a0), z3.Or(WF(v), v == UNASSIGNED)), WFB(arr))]
            return cb
        D.rule(SAT, r_store(SAT))
        D.rule(SATM, r_store(SATM))
        D.rule(WFB, r_store(WFB))

        def r_deref(arr, a):
            c = z3.Select(arr, voff(a))
            d = DEREF(arr, a)
            df = [d == z3.If(z3.And(isvar(a), c != UNASSIGNED), DEREF(arr, c), a)]
            if not x.lemmas:
                return df
            return df + [
                    # lemmas by induction on the length of the chain (lemma:deref-*)
                    z3.Implies(z3.And(WFB(arr), WF(a)), WF(d)),
                    z3.Implies(z3.And(WFB(arr), WF(a), SAT(arr)), val(d) == val(a)),
                    z3.Implies(isvar(d), z3.Select(arr, voff(d)) == UNASSIGNED)]
        D.rule(DEREF, r_deref)

        def r_occt(arr, v, a):
            d = DEREF(arr, a)
            # lemma:occurs-size (second formula)
            return ([z3.Implies(z3.And(SAT(arr), WFB(arr), WF(a), isvar(v), OCCT(arr, v, a)), size(V(vidx(v))) <= size(val(a)))] if x.lemmas else []) + [
                    OCCT(arr, v, a) == z3.If(isvar(d), d == v, z3.And(isrec(d), OCCP(arr, v, d, x.length(d))))]
        D.rule(OCCT, r_occt)

        def r_occp(arr, v, t, k):
            f = bv(x.FIRST)
            return ([z3.Implies(z3.And(SAT(arr), WFB(arr), WF(t), isrec(t), isvar(v), k <= x.length(t), OCCP(arr, v, t, k)),
                               size(V(vidx(v))) < size(val(t)))] if x.lemmas else []) + [
                    z3.Implies(k <= f, z3.Not(OCCP(arr, v, t, k)))]
        D.rule(OCCP, r_occp)

        def r_log(vs, lo, hi, c):
            out = []
            a = vs
            while x.lemmas and a.decl().kind() == z3.Z3_OP_STORE:
                a0, i, v = a.children()
                # lemma:log-frame
                out.append(z3.Implies(z3.And((i & 7) == 0, z3.Or((i >> 3) >= hi, (i >> 3) < lo), i >= 0, lo >= 0, hi >= 0, lo < (1 << 50), hi < (1 << 50)),
                                      LOG(a, lo, hi, c) == LOG(a0, lo, hi, c)))
                a = a0
            return out + [LOG(vs, lo, hi, c) == z3.And(hi > lo, z3.Or(z3.Select(vs, (hi - 1) << 3) == c, LOG(vs, lo, hi - 1, c)))]
        D.rule(LOG, r_log)
