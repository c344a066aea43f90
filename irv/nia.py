"""Translation of bit-vector obligations to integer arithmetic.

Every bit-vector term becomes the integer of its signed value with exact wrap-around side conditions, so a
refutation of the integer problem refutes the bit-vector one.  Terms outside the fragment become fresh
integers in the range of their width (sound: fewer facts)."""
import z3

SV = z3.Function('SV', z3.BitVecSort(64), z3.IntSort())   # signed value (marker used by specifications)


class Tr:
    def __init__(self):
        self.cache = {}
        self.side = []
        self.keep = []
        self.n = 0

    def fresh(self, w=None):
        self.n += 1
        v = z3.Int('nia!%d' % self.n)
        if w:
            self.side += [v >= -(1 << (w - 1)), v < (1 << (w - 1))]
        return v

    def wrap(self, s, w, kmax=None):
        r = self.fresh(w)
        k = self.fresh()
        m = 1 << w
        self.side += [r == s - k * m]
        if kmax is not None:
            self.side += [k >= -kmax, k <= kmax]
        else:
            self.side += [z3.Implies(z3.And(s >= -(m // 2), s < m // 2), k == 0)]
        return r

    def uns(self, t):
        w = t.size()
        v = self.bv(t)
        return z3.If(v < 0, v + (1 << w), v)

    def bv(self, t):
        i = t.get_id()
        if i in self.cache:
            return self.cache[i]
        self.keep.append(t)
        r = self.bv1(t)
        self.cache[i] = r
        return r

    def bv1(self, t):
        w = t.size()
        if z3.is_bv_value(t):
            return z3.IntVal(t.as_signed_long())
        k = t.decl().kind()
        ch = t.children()
        n = t.decl().name()
        if k == z3.Z3_OP_BADD:
            return self.wrap(z3.Sum([self.bv(c) for c in ch]), w, len(ch))
        if k == z3.Z3_OP_BSUB:
            return self.wrap(self.bv(ch[0]) - self.bv(ch[1]), w, 2)
        if k == z3.Z3_OP_BNEG:
            return self.wrap(-self.bv(ch[0]), w, 1)
        if k == z3.Z3_OP_BMUL:
            p = self.bv(ch[0])
            for c in ch[1:]:
                p = p * self.bv(c)
            return self.wrap(p, w)
        if n in ('bvsdiv', 'bvsdiv_i', 'bvsrem', 'bvsrem_i'):
            key = ('div', ch[0].get_id(), ch[1].get_id())
            if key not in self.cache:
                a, b = self.bv(ch[0]), self.bv(ch[1])
                q, r = self.fresh(), self.fresh()
                ab = z3.If(b < 0, -b, b)
                self.side += [z3.Implies(b != 0, z3.And(a == q * b + r, z3.Implies(a >= 0, z3.And(r >= 0, r < ab)),
                                                        z3.Implies(a < 0, z3.And(r <= 0, -r < ab))))]
                self.cache[key] = (q, r)
            q, r = self.cache[key]
            b = self.bv(ch[1])
            v = self.fresh(w)
            if 'div' in n:
                m = 1 << w
                self.side += [z3.Implies(b != 0, v == z3.If(q >= m // 2, q - m, q))]
            else:
                self.side += [z3.Implies(b != 0, v == r)]
            return v
        if k == z3.Z3_OP_ITE:
            return z3.If(self.b(ch[0]), self.bv(ch[1]), self.bv(ch[2]))
        if k in (z3.Z3_OP_FPA_TO_SBV,) and w == 64 and self.rm(ch[0]) == 'rtz':
            fin, r = self.fp(ch[1])
            v = self.fresh(w)
            ok = z3.And(fin, r > -(1 << 63) - 1, r < (1 << 63))
            rv = z3.ToReal(v)
            self.side += [z3.Implies(z3.And(ok, r >= 0), z3.And(rv <= r, r < rv + 1)), z3.Implies(z3.And(ok, r < 0), z3.And(rv >= r, r > rv - 1))]
            return v
        if k == z3.Z3_OP_SIGN_EXT:
            return self.bv(ch[0])
        if k == z3.Z3_OP_ZERO_EXT:
            return self.uns(ch[0])
        return self.fresh(w)

    # floating point: (finite, real value); facts about values that are not finite are left out
    def rm(self, t):
        return {z3.Z3_OP_FPA_RM_TOWARD_ZERO: 'rtz', z3.Z3_OP_FPA_RM_NEAREST_TIES_TO_EVEN: 'rne', z3.Z3_OP_FPA_RM_TOWARD_NEGATIVE: 'rtn',
                z3.Z3_OP_FPA_RM_TOWARD_POSITIVE: 'rtp'}.get(t.decl().kind(), '?')

    def fp(self, t):
        i = t.get_id()
        if i in self.cache:
            return self.cache[i]
        self.keep.append(t)
        r = self.fp1(t)
        self.cache[i] = r
        return r

    def freshfp(self):
        self.n += 1
        return z3.Bool('niaf!%d' % self.n), z3.Real('niar!%d' % self.n)

    def fp1(self, t):
        from fractions import Fraction
        t0 = z3.simplify(t)
        if z3.is_fp_value(t0):
            if t0.isNaN() or t0.isInf():
                return z3.BoolVal(False), z3.RealVal(0)
            if t0.isZero():
                return z3.BoolVal(True), z3.RealVal(0)
            sb = t0.sort().sbits()
            sig = Fraction(t0.significand_as_long(), 1 << (sb - 1))
            e = t0.exponent_as_long(False)
            if t0.isSubnormal():
                return self.freshfp()
            v = (1 + sig) * (Fraction(2) ** e)
            if t0.isNegative():
                v = -v
            return z3.BoolVal(True), z3.RealVal('%d/%d' % (v.numerator, v.denominator))
        k = t.decl().kind()
        ch = t.children()
        wide = t.sort().sbits() >= 64
        if k == z3.Z3_OP_ITE:
            c = self.b(ch[0])
            (f1, r1), (f2, r2) = self.fp(ch[1]), self.fp(ch[2])
            return z3.If(c, f1, f2), z3.If(c, r1, r2)
        if k == z3.Z3_OP_FPA_NEG:
            f, r = self.fp(ch[0])
            return f, -r
        if k == z3.Z3_OP_FPA_ABS:
            f, r = self.fp(ch[0])
            return f, z3.If(r < 0, -r, r)
        if k == z3.Z3_OP_FPA_TO_FP and len(ch) == 2:
            if z3.is_fp(ch[1]):
                if t.sort().sbits() >= ch[1].sort().sbits() and t.sort().ebits() >= ch[1].sort().ebits():
                    return self.fp(ch[1])
            elif z3.is_bv(ch[1]):
                f, r = self.freshfp()
                v = self.bv(ch[1])
                exact = z3.BoolVal(wide)
                if ch[1].decl().kind() == z3.Z3_OP_FPA_TO_SBV and ch[1].children()[1].sort() == t.sort() and self.rm(ch[1].children()[0]) == 'rtz':
                    f0, r0 = self.fp(ch[1].children()[1])    # a truncated double is a double
                    exact = z3.And(f0, r0 > -(1 << 63) - 1, r0 < (1 << 63))
                rv = z3.ToReal(v)
                big = 1 << t.sort().sbits()
                self.side += [f, z3.Implies(z3.Or(exact, z3.And(v <= big, v >= -big)), r == rv)]
                return f, r
        return self.freshfp()

    def int(self, t):
        if t.decl().name() == 'SV' and t.num_args() == 1:
            return self.bv(t.arg(0))
        if z3.is_int_value(t):
            return t
        ch = t.children()
        k = t.decl().kind()
        if k == z3.Z3_OP_ITE:
            return z3.If(self.b(ch[0]), self.int(ch[1]), self.int(ch[2]))
        if k in (z3.Z3_OP_ADD, z3.Z3_OP_MUL, z3.Z3_OP_SUB, z3.Z3_OP_UMINUS):
            return t.decl()(*[self.int(c) for c in ch])
        i = t.get_id()
        if i not in self.cache:
            self.keep.append(t)
            self.cache[i] = self.fresh()
        return self.cache[i]

    def b(self, f):
        i = f.get_id()
        if i in self.cache:
            return self.cache[i]
        self.keep.append(f)
        r = self.b1(f)
        self.cache[i] = r
        return r

    def b1(self, f):
        if z3.is_true(f) or z3.is_false(f):
            return f
        if z3.is_quantifier(f):
            return z3.FreshBool('nia')
        k = f.decl().kind()
        ch = f.children()
        if k == z3.Z3_OP_AND:
            return z3.And(*[self.b(c) for c in ch])
        if k == z3.Z3_OP_OR:
            return z3.Or(*[self.b(c) for c in ch])
        if k == z3.Z3_OP_NOT:
            return z3.Not(self.b(ch[0]))
        if k == z3.Z3_OP_IMPLIES:
            return z3.Implies(self.b(ch[0]), self.b(ch[1]))
        if k == z3.Z3_OP_XOR:
            return z3.Xor(self.b(ch[0]), self.b(ch[1]))
        if k == z3.Z3_OP_ITE:
            return z3.If(self.b(ch[0]), self.b(ch[1]), self.b(ch[2]))
        if k in (z3.Z3_OP_EQ, z3.Z3_OP_DISTINCT) and len(ch) == 2:
            s = ch[0].sort()
            if s.kind() == z3.Z3_BV_SORT:
                e = self.bv(ch[0]) == self.bv(ch[1])
            elif s.kind() == z3.Z3_BOOL_SORT:
                e = self.b(ch[0]) == self.b(ch[1])
            elif s.kind() == z3.Z3_INT_SORT:
                e = self.int(ch[0]) == self.int(ch[1])
            elif s.kind() == z3.Z3_FLOATING_POINT_SORT and k == z3.Z3_OP_EQ:
                (f1, r1), (f2, r2) = self.fp(ch[0]), self.fp(ch[1])
                e = z3.FreshBool('nia')
                self.side += [z3.Implies(e, z3.And(f1 == f2, z3.Implies(f1, r1 == r2)))]
            else:
                return z3.FreshBool('nia')
            return e if k == z3.Z3_OP_EQ else z3.Not(e)
        cmpo = {z3.Z3_OP_SLEQ: ('s', lambda a, b: a <= b), z3.Z3_OP_SLT: ('s', lambda a, b: a < b), z3.Z3_OP_SGEQ: ('s', lambda a, b: a >= b),
                z3.Z3_OP_SGT: ('s', lambda a, b: a > b), z3.Z3_OP_ULEQ: ('u', lambda a, b: a <= b), z3.Z3_OP_ULT: ('u', lambda a, b: a < b),
                z3.Z3_OP_UGEQ: ('u', lambda a, b: a >= b), z3.Z3_OP_UGT: ('u', lambda a, b: a > b)}
        if k in cmpo:
            m, op = cmpo[k]
            g = self.bv if m == 's' else self.uns
            return op(g(ch[0]), g(ch[1]))
        fc = {z3.Z3_OP_FPA_LT: lambda a, b: a < b, z3.Z3_OP_FPA_LE: lambda a, b: a <= b, z3.Z3_OP_FPA_GT: lambda a, b: a > b,
              z3.Z3_OP_FPA_GE: lambda a, b: a >= b, z3.Z3_OP_FPA_EQ: lambda a, b: a == b}
        if k in fc:
            (f1, r1), (f2, r2) = self.fp(ch[0]), self.fp(ch[1])
            e = z3.FreshBool('nia')
            self.side += [z3.Implies(z3.And(f1, f2), e == fc[k](r1, r2))]
            return e
        if k in (z3.Z3_OP_FPA_IS_NAN, z3.Z3_OP_FPA_IS_INF):
            f1, r1 = self.fp(ch[0])
            o = ('nf', ch[0].get_id())
            if o not in self.cache:
                self.cache[o] = z3.FreshBool('nia')
            nan = self.cache[o]          # not finite: a NaN or an infinity, never both
            return z3.And(z3.Not(f1), nan if k == z3.Z3_OP_FPA_IS_NAN else z3.Not(nan))
        if k == z3.Z3_OP_FPA_IS_ZERO:
            f1, r1 = self.fp(ch[0])
            return z3.And(f1, r1 == 0)
        if k in (z3.Z3_OP_LE, z3.Z3_OP_LT, z3.Z3_OP_GE, z3.Z3_OP_GT):
            a, b = self.int(ch[0]), self.int(ch[1])
            return {z3.Z3_OP_LE: a <= b, z3.Z3_OP_LT: a < b, z3.Z3_OP_GE: a >= b, z3.Z3_OP_GT: a > b}[k]
        return z3.FreshBool('nia')


def translate(forms):
    t = Tr()
    out = [t.b(f) for f in forms]
    return out + t.side
