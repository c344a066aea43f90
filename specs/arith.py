"""Contracts for the evaluation of arithmetic, comparison, list and string built-ins (Reasoner/build.c)."""
import z3
from symex import *
from driver import *
from terms import *
from nia import SV

BC = 'Reasoner/build.c'
TYPE = z3.Function('TYPE', BV64, BV64)       # encoded type of a value
INTV = z3.Function('INTV', BV64, BV64)       # the integer it encodes
DBLV = z3.Function('DBLV', BV64, F64)        # the double it encodes
UNIQ = z3.Function('UNIQ', BV64, B)          # distinct symbol ("..." in the input)
NILV = z3.Function('NILV', BV64, B)          # the symbol $nil
FMOD = z3.Function('FMOD', F64, F64, F64)
MIN = 1 << 63
RNE = z3.RNE()

COMPS = ['EQUAL', 'LESS', 'LESSEQ', 'GREATEREQ', 'GREATER', 'PLUS', 'MINUS', 'MULT', 'DIV', 'QUOTIENT_E', 'QUOTIENT_T', 'QUOTIENT_F',
         'REMAINDER_E', 'REMAINDER_T', 'REMAINDER_F', 'IS_INT', 'IS_REAL', 'IS_NUMBER', 'IS_LIST', 'IS_MAP', 'IS_ATOM', 'IS_UNIQUE',
         'TO_INT', 'TO_REAL', 'FLOOR', 'CEILING', 'TRUNCATE', 'ROUND', 'UMINUS', 'STRLEN', 'IS_SUBSTR', 'FIRST', 'REST', 'IS_SUBSTRAT']
NAMES = {'$is_int': 'IS_INT', '$is_real': 'IS_REAL', '$is_number': 'IS_NUMBER', '$is_list': 'IS_LIST', '$is_map': 'IS_MAP',
         '$is_atom': 'IS_ATOM', '$is_distinct': 'IS_UNIQUE', '$is_substr': 'IS_SUBSTR', '$sum': 'PLUS', '$product': 'MULT',
         '$difference': 'MINUS', '$quotient': 'DIV', '$less': 'LESS', '$lesseq': 'LESSEQ', '$greatereq': 'GREATEREQ', '$greater': 'GREATER',
         '$to_int': 'TO_INT', '$to_real': 'TO_REAL', '$floor': 'FLOOR', '$ceiling': 'CEILING', '$truncate': 'TRUNCATE', '$round': 'ROUND',
         '$uminus': 'UMINUS', '$first': 'FIRST', '$rest': 'REST', '$strlen': 'STRLEN', '$substr': 'IS_SUBSTR', '$substrat': 'IS_SUBSTRAT',
         '$quotient_e': 'QUOTIENT_E', '$quotient_t': 'QUOTIENT_T', '$quotient_f': 'QUOTIENT_F', '$remainder': 'REMAINDER_E',
         '$remainder_e': 'REMAINDER_E', '$remainder_t': 'REMAINDER_T', '$remainder_f': 'REMAINDER_F',
         '=': 'EQUAL', '+': 'PLUS', '-': 'MINUS', '*': 'MULT', '/': 'DIV'}


class Calc:
    """g with a database, typed values seen through the contracts of the value encoding (property C08)"""

    def __init__(self, x, st, fp=True, bytes_=False):
        self.x = x
        self.T = Terms(x, st, fields=['local_db', 'unify_funpos', 'unify_funarg1pos', 'unify_funarg2pos', 'use_comp_arithmetic'], lemmas=False)
        T = self.T
        ks = x.build.probe('#include "Reasoner/rincludes.h"\n#include "Db/dballoc.h"\n',
                           ['COMP_FUN_' + c for c in COMPS] + ['ACONST_TRUE', 'ACONST_FALSE', 'WG_NULLTYPE', 'WG_RECORDTYPE', 'WG_INTTYPE', 'WG_DOUBLETYPE',
                            'WG_STRTYPE', 'WG_URITYPE', 'WG_VARTYPE', 'WG_ANONCONSTTYPE', 'WG_ILLEGAL'])
        self.comp = {c: ks['COMP_FUN_' + c] for c in COMPS}
        self.ty = {t: bv(ks['WG_%sTYPE' % t]) for t in ('NULL', 'RECORD', 'INT', 'DOUBLE', 'STR', 'URI', 'VAR', 'ANONCONST')}
        self.true, self.false, self.ill = bv(ks['ACONST_TRUE']), bv(ks['ACONST_FALSE']), bv(ks['WG_ILLEGAL'])
        self.LDB = x.region(st, 'ldb', size=4096)
        T.sset(st, 'local_db', Ptr(self.LDB, 0))
        T.sset(st, 'unify_funpos', 1)
        T.sset(st, 'unify_funarg1pos', 2)
        T.sset(st, 'unify_funarg2pos', 3)
        T.sset(st, 'use_comp_arithmetic', 1)
        D = x.defs_

        def r_type(t):
            ty = TYPE(t)
            return [(ty == self.ty['RECORD']) == z3.And(isrec(t), t != 0), (ty == self.ty['VAR']) == isvar(t),
                    TYPE(self.true) == self.ty['ANONCONST'], TYPE(self.false) == self.ty['ANONCONST'],
                    z3.Implies(UNIQ(t), ty == self.ty['URI']), z3.Implies(NILV(t), z3.And(ty == self.ty['URI'], z3.Not(UNIQ(t))))]
        D.rule(TYPE, r_type)
        x.calls['wg_get_encoded_type'] = self.h_type
        x.calls['wg_decode_int'] = self.h_decint
        x.calls['wg_decode_double'] = self.h_decdbl
        x.calls['wg_encode_int'] = self.h_encint
        x.calls['wg_encode_double'] = self.h_encdbl
        x.calls['wg_get_field'] = self.h_getfield
        x.calls['fmod'] = lambda X, s, a, i: FMOD(a[0], a[1])
        x.assumptions += [
            'values are read and made through the contracts of wg_get_encoded_type/wg_decode_*/wg_encode_* (round trips proved under C08); an encoder may also return WG_ILLEGAL when the database is full',
            'libc fmod is the exact C99 remainder', 'glb unify_funpos=1, unify_funarg1pos=2, unify_funarg2pos=3 (checked by the config scan)']
        self.t = z3.BitVec('t', 64)
        st.assume(z3.And(isrec(self.t), WF(self.t)))
        self.tp = Ptr(T.DB, self.t)
        # the built-in is applied to at least one argument
        self.a = T.argt(self.t, 2)
        self.b = T.argt(self.t, 3)
        self.n = T.length(self.t)
        self.gp = Ptr(T.G, 0)

    def dbok(self, st, p, where):
        self.x.oblig(st, 'pre:database:' + where, z3.BoolVal(isinstance(p, Ptr) and p.r is self.T.DB), 'call')

    def h_type(self, x, st, args, ins):
        self.dbok(st, args[0], 'type')
        return TYPE(bv(args[1]))

    def h_decint(self, x, st, args, ins):
        self.dbok(st, args[0], 'decode')
        x.oblig(st, 'pre:decode_int', TYPE(bv(args[1])) == self.ty['INT'], 'call')
        return INTV(bv(args[1]))

    def h_decdbl(self, x, st, args, ins):
        self.dbok(st, args[0], 'decode')
        x.oblig(st, 'pre:decode_double', TYPE(bv(args[1])) == self.ty['DOUBLE'], 'call')
        return DBLV(bv(args[1]))

    def h_encint(self, x, st, args, ins):
        x.oblig(st, 'pre:allocates-in-local-db', z3.BoolVal(isinstance(args[0], Ptr) and args[0].r is self.LDB), 'call')
        e = x.fresh('enci', 64)
        st.assume(z3.Or(e == self.ill, z3.And(TYPE(e) == self.ty['INT'], INTV(e) == bv(args[1]), e != self.ill)))
        return e

    def h_encdbl(self, x, st, args, ins):
        x.oblig(st, 'pre:allocates-in-local-db', z3.BoolVal(isinstance(args[0], Ptr) and args[0].r is self.LDB), 'call')
        e = x.fresh('encd', 64)
        st.assume(z3.Or(e == self.ill, z3.And(TYPE(e) == self.ty['DOUBLE'], DBLV(e) == args[1], e != self.ill)))
        return e

    def h_getfield(self, x, st, args, ins):
        db, rec, i = args
        self.dbok(st, db, 'field')
        rec = x.resolve_ptr(st, rec)
        i = sx(i)
        x.oblig(st, 'pre:get_field', z3.And(i >= 0, i < self.T.length(bv(rec.off))), 'call')
        v = self.T.argt(bv(rec.off), i)
        st.assume(self.T.arg_facts(bv(rec.off), i, v))
        return v

    def h_eqterm(self, x, st, args, ins):
        _, a, b, u = args
        a, b = bv(a), bv(b)
        x.oblig(st, 'pre:equal_term', z3.And(WF(a), WF(b), sx(u) != 0), 'call')
        r = x.fresh('eqt', 64)
        st.assume((r != 0) == (fz(a) == fz(b)))
        st.assume(z3.Implies(r != 0, self.same(a, b)))
        st.assume(z3.Implies(z3.And(r == 0, TYPE(a) == self.ty['INT'], TYPE(b) == self.ty['INT']), INTV(a) != INTV(b)))
        st.assume(z3.Implies(z3.And(r == 0, TYPE(a) == self.ty['DOUBLE'], TYPE(b) == self.ty['DOUBLE']), z3.Not(z3.fpEQ(DBLV(a), DBLV(b)))))
        return r

    def same(self, a, b):
        return z3.And(TYPE(a) == TYPE(b), z3.Implies(TYPE(a) == self.ty['INT'], INTV(a) == INTV(b)),
                      z3.Implies(TYPE(a) == self.ty['DOUBLE'], z3.fpEQ(DBLV(a), DBLV(b))))

    def num(self, e):
        return z3.Or(TYPE(e) == self.ty['INT'], TYPE(e) == self.ty['DOUBLE'])

    def isint(self, e):
        return TYPE(e) == self.ty['INT']

    def isdbl(self, e):
        return TYPE(e) == self.ty['DOUBLE']

    def asdbl(self, e):
        return z3.If(self.isint(e), z3.fpSignedToFP(RNE, INTV(e), F64), DBLV(e))


def fin(d):
    return z3.Not(z3.Or(z3.fpIsNaN(d), z3.fpIsInf(d)))


def isc_c(x, c):
    pass


def bothint(c):
    return z3.And(c.isint(c.a), c.isint(c.b))


def sx(v, w=32, to=64):
    if is_c(v):
        return bv(sgn(v, w), to)
    return z3.SignExt(to - v.size(), v) if v.size() < to else v


def int_posts(c, comp, res):
    A, Bv = SV(INTV(c.a)), SV(INTV(c.b))
    a, b = INTV(c.a), INTV(c.b)
    R = SV(INTV(res))
    lo, hi = -(1 << 63), (1 << 63) - 1
    inr = lambda e: z3.And(e >= lo, e <= hi)
    absB = z3.If(Bv < 0, -Bv, Bv)
    q = SV(a / b)
    rem = A - R * Bv
    if comp == 'PLUS':
        return R == A + Bv, inr(A + Bv)
    if comp == 'MINUS':
        return R == A - Bv, inr(A - Bv)
    if comp == 'MULT':
        return R == A * Bv, inr(A * Bv)
    ok = z3.And(Bv != 0, z3.Not(z3.And(A == lo, Bv == -1)))
    if comp in ('DIV', 'QUOTIENT_T'):
        return z3.And(Bv != 0, z3.If(A >= 0, z3.And(rem >= 0, rem < absB), z3.And(rem <= 0, -rem < absB))), ok
    if comp == 'QUOTIENT_E':
        return z3.And(Bv != 0, rem >= 0, rem < absB), ok
    if comp == 'QUOTIENT_F':
        return z3.And(Bv != 0, z3.If(Bv > 0, z3.And(rem >= 0, rem < Bv), z3.And(rem <= 0, rem > Bv))), ok
    # remainders: some quotient next to the truncated one leaves exactly this remainder
    ex = z3.Or(*[A == (q + k) * Bv + R for k in (-1, 0, 1)])
    ex = z3.If(Bv == -1, R == 0, ex)
    if comp == 'REMAINDER_E':
        return z3.And(Bv != 0, ex, R >= 0, R < absB), Bv != 0
    if comp == 'REMAINDER_T':
        return z3.And(Bv != 0, ex, z3.If(A >= 0, z3.And(R >= 0, R < absB), z3.And(R <= 0, -R < absB))), Bv != 0
    if comp == 'REMAINDER_F':
        return z3.And(Bv != 0, ex, z3.If(Bv > 0, z3.And(R >= 0, R < Bv), z3.And(R <= 0, R > Bv))), Bv != 0


TWO63 = z3.FPVal(9223372036854775808.0, F64)


def intval_of(c, res, v):
    """res is the integral number v, as an integer or as a real"""
    inr = z3.And(fin(v), z3.fpLT(v, TWO63), z3.fpGEQ(v, z3.fpNeg(TWO63)))
    return z3.Or(z3.And(c.isint(res), inr, INTV(res) == z3.fpToSBV(z3.RTZ(), v, BV64)), z3.And(c.isdbl(res), DBLV(res) == v)), inr


def dbl_posts(c, comp, res):
    ad, bd = c.asdbl(c.a), c.asdbl(c.b)
    zero = z3.fpIsZero(bd)
    R = DBLV(res)
    op = {'PLUS': z3.fpAdd, 'MINUS': z3.fpSub, 'MULT': z3.fpMul, 'DIV': z3.fpDiv}.get(comp)
    if op:
        v = op(RNE, ad, bd)
        nz = z3.Not(zero) if comp == 'DIV' else z3.BoolVal(True)
        return z3.And(nz, c.isdbl(res), R == v, fin(v)), z3.And(nz, fin(v))
    d = z3.fpDiv(RNE, ad, bd)
    neg = z3.fpLT(bd, z3.FPVal(0.0, F64))
    if comp.startswith('QUOTIENT'):
        v = {'E': z3.If(neg, z3.fpRoundToIntegral(z3.RTP(), d), z3.fpRoundToIntegral(z3.RTN(), d)), 'T': z3.fpRoundToIntegral(z3.RTZ(), d),
             'F': z3.fpRoundToIntegral(z3.RTN(), d)}[comp[-1]]
        ok, inr = intval_of(c, res, v)
        return z3.And(z3.Not(zero), ok), z3.And(z3.Not(zero), inr)
    m = FMOD(ad, bd)
    mneg = z3.fpLT(m, z3.FPVal(0.0, F64))
    if comp == 'REMAINDER_E':
        v = z3.If(mneg, z3.fpAdd(RNE, m, z3.fpAbs(bd)), m)
    elif comp == 'REMAINDER_T':
        v = m
    else:
        v = z3.If(z3.And(z3.Not(z3.fpIsZero(m)), mneg != neg), z3.fpAdd(RNE, m, bd), m)
    return z3.And(z3.Not(zero), c.isdbl(res), R == v), z3.And(z3.Not(zero), fin(v))


AR2 = ['PLUS', 'MINUS', 'MULT', 'DIV', 'QUOTIENT_E', 'QUOTIENT_T', 'QUOTIENT_F', 'REMAINDER_E', 'REMAINDER_T', 'REMAINDER_F']


def arith2(comp):
    @contract('wr_compute_fun_arith2', BC, label='arith2:' + comp, timeout=120)
    def f(x):
        st = State()
        c = Calc(x, st)
        x.nia = 'int-'
        x.tl = 30

        def done(X, s, res):
            res = bv(res)
            un = res == c.t
            bi = bothint(c)
            two = c.n >= 4
            ip, idef = int_posts(c, comp, res)
            dp, ddef = dbl_posts(c, comp, res)
            x.oblig(s, 'post:left-alone-unless-two-numbers', z3.Implies(z3.Not(z3.And(two, c.num(c.a), c.num(c.b))), un), 'return')
            # integers
            hyp = z3.And(two, bi)
            if x.check_sat(s, hyp) != z3.unsat:
                x.oblig(s, 'post:int-result-exact', z3.Implies(z3.And(hyp, z3.Not(un), res != c.ill), z3.And(c.isint(res), ip)), 'return')
                x.oblig(s, 'post:int-evaluated-when-defined', z3.Implies(z3.And(hyp, idef), z3.Not(un)), 'return')
            hyp = z3.And(two, c.num(c.a), c.num(c.b), z3.Not(bi))
            if x.check_sat(s, hyp) != z3.unsat:
                fa = z3.And(fin(c.asdbl(c.a)), fin(c.asdbl(c.b)))
                x.oblig(s, 'post:real-result-exact', z3.Implies(z3.And(hyp, z3.Not(un), res != c.ill), z3.And(fa, dp)), 'return')
                x.oblig(s, 'post:real-evaluated-when-defined', z3.Implies(z3.And(hyp, fa, ddef), z3.Not(un)), 'return')
            if x.cover < 3:
                ack_cover(x, s)
        x.run(x.prog.funcs_any['wr_compute_fun_arith2'], st, [c.gp, c.tp, c.comp[comp]], done)


for _c in AR2:
    arith2(_c)


# ---------------------------------------------------------------- one argument
def ar1_spec(c, comp, res, un):
    """(what a result must be, when there must be a result) for an integer and for a real argument"""
    a = c.a
    T, F = res == c.true, res == c.false
    always = z3.BoolVal(True)
    tab = {'IS_INT': (T, F), 'IS_REAL': (F, T), 'IS_NUMBER': (T, T), 'IS_LIST': (F, F), 'IS_MAP': (F, F), 'IS_ATOM': (T, T), 'IS_UNIQUE': (F, F)}
    if comp in tab:
        i, d = tab[comp]
        return (i, always), (d, always)
    A, R = SV(INTV(a)), SV(INTV(res))
    if comp == 'UMINUS':
        return (z3.And(c.isint(res), R == -A), A != -(1 << 63)), \
               (z3.And(c.isdbl(res), fin(DBLV(a)), z3.fpEQ(DBLV(res), z3.fpNeg(DBLV(a)))), fin(DBLV(a)))
    if comp == 'TO_REAL':
        return (z3.And(c.isdbl(res), DBLV(res) == z3.fpSignedToFP(RNE, INTV(a), F64)), always), (z3.And(c.isdbl(res), DBLV(res) == DBLV(a)), always)
    intsame = (z3.And(c.isint(res), INTV(res) == INTV(a)), always)
    mode = {'TO_INT': [z3.RTN()], 'FLOOR': [z3.RTN()], 'CEILING': [z3.RTP()], 'TRUNCATE': [z3.RTZ()], 'ROUND': [z3.RNA(), z3.RNE()]}.get(comp)
    if mode:
        v = DBLV(a)
        alts = [intval_of(c, res, z3.fpRoundToIntegral(m, v)) for m in mode]
        return intsame, (z3.Or(*[p for p, _ in alts]), z3.And(*[d for _, d in alts]))
    return None, None


AR1 = ['IS_INT', 'IS_REAL', 'IS_NUMBER', 'IS_LIST', 'IS_MAP', 'IS_ATOM', 'IS_UNIQUE', 'TO_INT', 'TO_REAL', 'FLOOR', 'CEILING', 'TRUNCATE', 'ROUND', 'UMINUS', 'STRLEN']


def ar1_setup(x, st):
    c = Calc(x, st)
    c.strings(x, st)
    x.nia = 'int-'
    x.tl = 30
    st.assume(z3.Implies(c.n >= 3, z3.And(*[f for f in [c.T.arg_facts(c.t, bv(2), c.a), c.T.arg_facts(c.t, bv(3), c.b)]])))
    return c


def ar1_posts(x, c, s, comp, res):
    res = bv(res)
    un = res == c.t
    one = c.n >= 3
    i, d = ar1_spec(c, comp, res, un)
    x.oblig(s, 'post:left-alone-without-argument', z3.Implies(z3.Not(one), un), 'return')
    if i is not None:
        x.oblig(s, 'post:int-result-exact', z3.Implies(z3.And(one, c.isint(c.a), z3.Not(un), res != c.ill), i[0]), 'return')
        x.oblig(s, 'post:int-evaluated', z3.Implies(z3.And(one, c.isint(c.a), i[1]), z3.Not(un)), 'return')
        if x.check_sat(s, z3.And(one, c.isdbl(c.a))) != z3.unsat:
            x.oblig(s, 'post:real-result-exact', z3.Implies(z3.And(one, c.isdbl(c.a), z3.Not(un), res != c.ill), d[0]), 'return')
            x.oblig(s, 'post:real-evaluated', z3.Implies(z3.And(one, c.isdbl(c.a), d[1]), z3.Not(un)), 'return')
        if comp not in ('IS_LIST', 'IS_ATOM', 'IS_UNIQUE', 'IS_MAP', 'IS_INT', 'IS_REAL', 'IS_NUMBER'):
            x.oblig(s, 'post:left-alone-unless-number', z3.Implies(z3.Not(c.num(c.a)), un), 'return')
    T, F = res == c.true, res == c.false
    uq, nil, lst = UNIQ(c.a), NILV(c.a), z3.And(TYPE(c.a) == c.ty['RECORD'], c.islist(c.a))
    if comp.startswith('IS_'):
        # what is true / false of a distinct symbol, a list cell and the empty list
        want = {'IS_INT': (0, 0, 0), 'IS_REAL': (0, 0, 0), 'IS_NUMBER': (0, 0, 0), 'IS_LIST': (0, 1, 1), 'IS_MAP': (0, 0, 0), 'IS_ATOM': (1, 0, 1),
                'IS_UNIQUE': (1, 0, 0)}[comp]
        x.oblig(s, 'post:distinct-symbol', z3.Implies(z3.And(one, uq), z3.If(un, z3.BoolVal(False), T if want[0] else F)), 'return')
        x.oblig(s, 'post:list', z3.Implies(z3.And(one, lst), z3.Or(un, T if want[1] else F)), 'return')
        x.oblig(s, 'post:empty-list', z3.Implies(z3.And(one, nil), z3.Or(un, T if want[2] else F)), 'return')
        # anything else has no known type
        known = z3.Or(c.num(c.a), uq, nil, lst)
        if comp != 'IS_ATOM':
            x.oblig(s, 'post:left-alone-otherwise', z3.Implies(z3.Or(z3.Not(one), z3.Not(known)), un), 'return')
        else:
            x.oblig(s, 'post:compound-left-alone', z3.Implies(z3.And(TYPE(c.a) == c.ty['RECORD'], z3.Not(lst)), un), 'return')
            x.oblig(s, 'post:variable-left-alone', z3.Implies(isvar(c.a), un), 'return')
        if comp == 'IS_LIST':
            x.oblig(s, 'post:list-recognised', z3.Implies(z3.And(one, z3.Or(nil, z3.And(lst, c.n == 3))), T), 'return')
    if comp == 'STRLEN':
        x.oblig(s, 'post:string-length', z3.Implies(z3.And(one, z3.Not(un), res != c.ill), z3.And(uq, c.isint(res), INTV(res) == STRLEN(c.a))), 'return')
        x.oblig(s, 'post:string-length-evaluated', z3.Implies(z3.And(one, uq), z3.Not(un)), 'return')
    if x.cover < 3:
        ack_cover(x, s)


def arith1(comp):
    @contract('wr_compute_fun_arith1', BC, label='arith1:' + comp, timeout=120)
    def f(x):
        st = State()
        c = ar1_setup(x, st)
        x.run(x.prog.funcs_any['wr_compute_fun_arith1'], st, [c.gp, c.tp, c.comp[comp]], lambda X, s, r: ar1_posts(x, c, s, comp, r))


# ---------------------------------------------------------------- strings of symbols
CH = z3.Function('CH', BV64, BV64, z3.BitVecSort(8))   # character k of the name of a symbol
STRLEN = z3.Function('STRLEN', BV64, BV64)
PFX1 = z3.Function('PFX1', BV64, B)                      # the symbol has a prefix
OCCURS = z3.Function('OCCURS', BV64, BV64, B)            # strstr: the first name occurs in the second
SEGEQ = z3.Function('SEGEQ', BV64, BV64, BV64, BV64, B)  # name a at offset i equals name b for n characters: SEGEQ(a,i,b,n)


def lit(t, s):
    """the name of t is exactly s"""
    f = [CH(t, bv(k)) == ord(ch) for k, ch in enumerate(s)] + [CH(t, bv(len(s))) == 0]
    return z3.And(*f)


class StrPtr:
    pass


def strings(c, x, st):
    """names of symbols: wg_decode_uri gives a NUL terminated string, one region of characters per symbol"""
    T = c.T
    regs = {}

    def name_region(s, t, kind):
        key = (kind, t.get_id())
        if key not in regs:
            ln = STRLEN(t) if kind == 'n' else z3.BitVec('plen!%d' % t.get_id(), 64)
            r = x.region(s, 'str_%s%d' % (kind, len(regs)), size=norm(ln + 1), kind='bytes', ro=True)
            r.term, r.strkind, r.len, r.keep = t, kind, ln, t

            def on_load(X, s2, off, n, v, r=r):
                o = bv(off)
                v8 = v if not is_c(v) else z3.BitVecVal(v, 8)
                if r.strkind == 'n' and n == 1:
                    s2.assume(v8 == CH(r.term, o))
                s2.assume(z3.Implies(z3.ULT(o, r.len), v8 != 0))
                s2.assume(z3.Implies(o == r.len, v8 == 0))
            r.on_load = on_load
            regs[key] = r
        r = regs[key]
        if r.id not in s.mem:
            s.regions[r.id] = r
            s.mem[r.id] = Mem(z3.Array('mem!%s!%d' % (r.name, r.id), BV64, z3.BitVecSort(8)), {}, 'bytes')
        s.assume(z3.And(z3.UGE(r.base, 4096), z3.ULT(r.base, 1 << 47), z3.UGE(r.len, 0), z3.ULT(r.len, 1 << 32)))
        return r
    c.name_region = name_region

    def h_uri(X, s, args, ins):
        c.dbok(s, args[0], 'uri')
        t = bv(args[1])
        x.oblig(s, 'pre:decode_uri', TYPE(t) == c.ty['URI'], 'call')
        return Ptr(name_region(s, t, 'n'), 0)

    def h_pfx(X, s, args, ins):
        c.dbok(s, args[0], 'uri')
        t = bv(args[1])
        x.oblig(s, 'pre:decode_uri', TYPE(t) == c.ty['URI'], 'call')
        s2 = s.copy()
        s2.assume(z3.And(z3.Not(PFX1(t)), z3.Not(UNIQ(t))))
        r = name_region(s, t, 'p')
        s.assume(PFX1(t))
        b0, b1 = z3.Select(s.mem[r.id].arr, bv(0)), z3.Select(s.mem[r.id].arr, bv(1))
        s.assume(UNIQ(t) == z3.And(b0 == ord('#'), b1 == 0))
        return [(s2, NULL), (s, Ptr(r, 0))]
    x.calls['wg_decode_uri'] = h_uri
    x.calls['wg_decode_uri_prefix'] = h_pfx

    def sym(p):
        return p.r.term if isinstance(p, Ptr) and getattr(p.r, 'strkind', '') == 'n' else None

    def h_strlen(X, s, args, ins):
        p = x.resolve_ptr(s, args[0])
        if sym(p) is None or conc(bv(p.off)) != 0:
            raise Unsupported('strlen of something else')
        return STRLEN(p.r.term)

    def h_strstr(X, s, args, ins):
        a, b = x.resolve_ptr(s, args[0]), x.resolve_ptr(s, args[1])
        if sym(a) is None or sym(b) is None:
            raise Unsupported('strstr')
        s2 = s.copy()
        f = OCCURS(b.r.term, a.r.term)
        s2.assume(z3.Not(f))
        s.assume(f)
        o = x.fresh('pos', 64)
        s.assume(z3.ULE(o, a.r.len))
        return [(s2, NULL), (s, Ptr(a.r, o))]

    def h_memcmp(X, s, args, ins):
        a, b, n = x.resolve_ptr(s, args[0]), x.resolve_ptr(s, args[1]), bv(args[2])
        if sym(a) is None or sym(b) is None:
            return x.lib_memcmp(s, args, ins, 'memcmp')
        for p in (a, b):
            o, sz = bv(p.off), bv(p.r.size)
            x.oblig(s, 'bounds:memcmp', z3.And(z3.ULE(o, sz), z3.ULE(n, sz - o)), 'call', kind='safety')
        r = x.fresh('memcmp', 32)
        if conc(bv(b.off)) == 0:
            s.assume((r == 0) == SEGEQ(a.r.term, bv(a.off), b.r.term, n))
        elif conc(bv(a.off)) == 0:
            s.assume((r == 0) == SEGEQ(b.r.term, bv(b.off), a.r.term, n))
        return r

    def h_strcmp(X, s, args, ins):
        a, b = args
        pa = x.resolve_ptr(s, a)
        pb = x.resolve_ptr(s, b)
        for p, q in ((pa, pb), (pb, pa)):
            if sym(p) is not None and conc(bv(p.off)) == 0:
                lits = literal(x, s, q)
                if lits is not None:
                    r = x.fresh('strcmp', 32)
                    s.assume((r == 0) == lit(p.r.term, lits))
                    return r
        raise Unsupported('strcmp')

    def h_strncmp(X, s, args, ins):
        n = conc(bv(args[2]))
        if n is None:
            raise Unsupported('strncmp')
        pa, pb = x.resolve_ptr(s, args[0]), x.resolve_ptr(s, args[1])
        for p, q in ((pa, pb), (pb, pa)):
            if sym(p) is not None and conc(bv(p.off)) == 0:
                l = literal(x, s, q)
                if l is not None:
                    r = x.fresh('strcmp', 32)
                    t = p.r.term
                    f = z3.And(*[CH(t, bv(k)) == ord(l[k]) for k in range(min(n, len(l)))] + ([CH(t, bv(len(l))) == 0] if n > len(l) else []))
                    s.assume((r == 0) == f)
                    return r
        raise Unsupported('strncmp')
    x.calls.update({'strlen': h_strlen, 'strstr': h_strstr, 'memcmp': h_memcmp, 'bcmp': h_memcmp, 'strcmp': h_strcmp, 'strncmp': h_strncmp})
    x.assumptions += ['the symbol $nil has one encoding (string interning)', 'symbol names are NUL terminated strings shorter than 2^32 bytes; libc strlen, strcmp, strstr and memcmp mean what C says']

    def r_nil(t):
        return [NILV(t) == z3.And(TYPE(t) == c.ty['URI'], lit(t, '$nil'), z3.Not(UNIQ(t))), z3.Implies(NILV(t), t == z3.BitVec('nil!enc', 64))]
    x.defs_.rule(NILV, r_nil)
    x.defs_.rule(CH, lambda t, k: [z3.Implies(z3.ULT(k, STRLEN(t)), CH(t, k) != 0), z3.Implies(k == STRLEN(t), CH(t, k) == 0)])
    x.defs_.rule(UNIQ, lambda t: [z3.Implies(UNIQ(t), z3.And(TYPE(t) == c.ty['URI'], PFX1(t)))])

    def islist(t):
        f = T.argt(t, 1)
        return z3.And(T.length(t) == 4, TYPE(f) == c.ty['URI'], lit(f, '$list'))
    c.islist = islist


Calc.strings = strings


def literal(x, s, p):
    """the C string literal p points to"""
    if p.r is None or s.mem[p.r.id].kind not in ('bytes', 'words') or conc(bv(p.off)) is None:
        return None
    out = ''
    for k in range(64):
        v = x.load(s, Ptr(p.r, conc(bv(p.off)) + k), 1, ('int', 8))
        v = conc(bv(v, 8))
        if v is None:
            return None
        if v == 0:
            return out
        out += chr(v)
    return None


for _c in AR1:
    arith1(_c)


# ---------------------------------------------------------------- comparison
F128 = z3.FPSort(15, 113)


def lesseq(name, isless, eqtrue):
    @contract('wr_compute_fun_lesseq_core', BC, label='compare:' + name, timeout=120)
    def f(x):
        st = State()
        c = Calc(x, st)
        x.calls['wr_equal_term'] = c.h_eqterm
        x.nia = 'post:|fptosi'
        x.tl = 60
        st.assume(z3.Implies(c.n >= 4, z3.And(c.T.arg_facts(c.t, bv(2), c.a), c.T.arg_facts(c.t, bv(3), c.b))))
        ra, rb = [z3.If(c.isint(e), z3.fpSignedToFP(RNE, INTV(e), F128), z3.fpToFP(RNE, DBLV(e), F128)) for e in (c.a, c.b)]

        def done(X, s, res):
            res = bv(res)
            un = res == c.t
            two = c.n >= 4
            T, F = res == c.true, res == c.false
            A, Bv = SV(INTV(c.a)), SV(INTV(c.b))
            x.oblig(s, 'post:two-valued-or-left-alone', z3.Or(un, T, F), 'return')
            both = z3.And(two, bothint(c))
            if x.check_sat(s, both) != z3.unsat:
                holds = (A < Bv) if isless else (A > Bv)
                if eqtrue:
                    holds = z3.Or(holds, A == Bv)
                x.oblig(s, 'post:int-comparison', z3.Implies(z3.And(both, z3.Not(un)), T == holds), 'return')
                x.oblig(s, 'post:int-comparison-decided', z3.Implies(both, z3.Not(un)), 'return')
            for nm, kind in (('real', z3.And(c.isdbl(c.a), c.isdbl(c.b))), ('int-real', z3.And(c.isint(c.a), c.isdbl(c.b))), ('real-int', z3.And(c.isdbl(c.a), c.isint(c.b)))):
                both = z3.And(two, kind)
                if x.check_sat(s, both) == z3.unsat:
                    continue
                fa = z3.And(*[z3.Or(c.isint(e), fin(DBLV(e))) for e in (c.a, c.b)])
                p, q = (DBLV(c.a), DBLV(c.b)) if nm == 'real' else (z3.fpSignedToFP(RNE, INTV(c.a), F128), z3.fpToFP(RNE, DBLV(c.b), F128)) if nm == 'int-real' else (
                    z3.fpToFP(RNE, DBLV(c.a), F128), z3.fpSignedToFP(RNE, INTV(c.b), F128))
                holds = {(1, 0): z3.fpLT, (1, 1): z3.fpLEQ, (0, 0): z3.fpGT, (0, 1): z3.fpGEQ}[(isless, eqtrue)](p, q)
                x.oblig(s, 'post:%s-comparison' % nm, z3.Implies(z3.And(both, z3.Not(un), fa), T == holds), 'return')
                x.oblig(s, 'post:%s-comparison-decided' % nm, z3.Implies(z3.And(both, fa), z3.Not(un)), 'return')
            # equal terms compare as equal whatever they denote; anything else is left alone
            syn = fz(c.a) == fz(c.b)
            nonnum = z3.Or(z3.Not(two), z3.Not(z3.And(c.num(c.a), c.num(c.b))))
            x.oblig(s, 'post:left-alone-unless-numbers', z3.Implies(nonnum, z3.Or(un, z3.And(two, syn, T if eqtrue else F))), 'return')
            if x.cover < 3:
                ack_cover(x, s)
        x.run(x.prog.funcs_any['wr_compute_fun_lesseq_core'], st, [c.gp, c.tp, conc(c.true) if eqtrue else conc(c.false), isless], done)


lesseq('less', 1, 0)
lesseq('lesseq', 1, 1)
lesseq('greater', 0, 0)
lesseq('greatereq', 0, 1)


# ---------------------------------------------------------------- equality
S = z3.DeclareSort('S')
sem = z3.Function('sem', BV64, S)            # what a term denotes in the intended interpretation
skind = z3.Function('skind', S, I)
SI = z3.Function('SI', BV64, S)
SD = z3.Function('SD', BV64, S)
SU = z3.Function('SU', BV64, S)
SX = z3.Function('SX', U, S)
SC = z3.Function('SC', S, S, S)
SN = z3.Const('SN', S)
sib = z3.Function('sib', S, BV64)
siu = z3.Function('siu', S, U)
sic = [z3.Function('sic%d' % k, S, S) for k in range(2)]
DIFF = z3.Function('DIFF', S, S, B)


def sem_rules(x, c):
    D = x.defs_

    def r_sem(t):
        d = DBLV(t)
        other = z3.And(z3.Not(isvar(t)), *[TYPE(t) != c.ty[k] for k in ('RECORD', 'URI', 'VAR', 'ANONCONST', 'INT', 'DOUBLE')])
        return [z3.Implies(c.isint(t), sem(t) == SI(INTV(t))),
                z3.Implies(c.isdbl(t), sem(t) == SD(z3.If(z3.fpIsZero(d), z3.BitVecVal(0, 64), z3.fpToIEEEBV(d)))),
                z3.Implies(UNIQ(t), sem(t) == SU(t)), z3.Implies(NILV(t), sem(t) == SN),
                z3.Implies(z3.And(TYPE(t) == c.ty['RECORD'], c.islist(t)), sem(t) == SC(sem(c.T.argt(t, 2)), sem(c.T.argt(t, 3)))),
                z3.Implies(other, sem(t) == SX(fz(t))), skind(SN) == 0]
    D.rule(sem, r_sem)
    D.rule(SI, lambda a: [skind(SI(a)) == 1, sib(SI(a)) == a])
    D.rule(SD, lambda a: [skind(SD(a)) == 2, sib(SD(a)) == a])
    D.rule(SU, lambda a: [skind(SU(a)) == 3, sib(SU(a)) == a])
    D.rule(SX, lambda a: [skind(SX(a)) == 4, siu(SX(a)) == a])
    D.rule(SC, lambda a, b: [skind(SC(a, b)) == 5, sic[0](SC(a, b)) == a, sic[1](SC(a, b)) == b])


def eq_setup(x, st):
    c = Calc(x, st)
    c.strings(x, st)
    sem_rules(x, c)
    x.tl = 60
    x.fuel = 4

    def h_eqt(X, s, args, ins):
        r = c.h_eqterm(X, s, args, ins)
        a, b = bv(args[1]), bv(args[2])
        s.assume(z3.Implies(r != 0, sem(a) == sem(b)))
        return r
    x.calls['wr_equal_term'] = h_eqt
    x.defs_.rule(DBLV, lambda t: [z3.Implies(WF(t), z3.Not(z3.fpIsNaN(DBLV(t))))])
    x.assumptions += ['syntactically equal terms denote the same; every distinct symbol has one encoding (string interning)',
                      'the intended interpretation: numbers of one type are equal iff their values are, distinct symbols, numbers of different type, lists and the empty list are pairwise different, list cells are equal iff their parts are']
    return c


def eq_spec(c, a, b, res, t):
    return [('true-only-if-equal', z3.Implies(res == c.true, sem(a) == sem(b))), ('false-only-if-different', z3.Implies(res == c.false, sem(a) != sem(b))),
            ('otherwise-left-alone', z3.Or(res == c.true, res == c.false, res == t))]


def symbol_tests(c):
    uri = lambda t: TYPE(t) == c.ty['URI']
    return {'wr_uri_is_unique': (uri, UNIQ), 'wr_uri_is_list': (uri, lambda t: lit(t, '$nil')),
            'wr_record_is_list': (lambda t: z3.And(WF(t), isrec(t)), c.islist)}


def symtest(n):
    @contract(n, BC, label='symbol:' + n, timeout=60)
    def f(x):
        st = State()
        c = Calc(x, st)
        c.strings(x, st)
        pre, post = symbol_tests(c)[n]
        t = z3.BitVec('q', 64)
        st.assume(z3.And(WF(t), pre(t)))

        def done(X, s, r):
            r = bv(r, 32)
            x.oblig(s, 'post:yes-exactly-if', z3.And(z3.Or(r == 0, r == 1), (r == 1) == post(t)), 'return')
            if x.cover < 3:
                ack_cover(x, s)
        x.run(x.prog.funcs_any[n], st, [c.gp, Ptr(c.T.DB, t) if 'record' in n else t], done)


for _n in ('wr_uri_is_unique', 'wr_uri_is_list', 'wr_record_is_list'):
    symtest(_n)


@contract('wr_compute_fun_equal_terms', BC, label='equal:terms', timeout=120)
def c_eqterms(x):
    st = State()
    c = eq_setup(x, st)
    a, b = z3.BitVecs('ea eb', 64)
    st.assume(z3.And(WF(a), WF(b)))

    def h_rec(X, s, args, ins):
        _, p, q, tp = args
        p, q = bv(p), bv(q)
        x.oblig(s, 'pre:recursive', z3.And(WF(p), WF(q), size(val(p)) < size(val(a))), 'call')
        x.oblig(s, 'pre:recursive-whole-term', z3.BoolVal(isinstance(tp, Ptr) and tp.r is c.T.DB) if not isinstance(tp, Ptr) or tp.r is None else bv(tp.off) == c.t, 'call')
        r = x.fresh('rec', 64)
        for n, f in eq_spec(c, p, q, r, c.t):
            s.assume(f)
        return r

    def done(X, s, res):
        res = bv(res)
        for n, f in eq_spec(c, a, b, res, c.t):
            x.oblig(s, 'post:' + n, f, 'return')
        simple = lambda e: z3.Or(c.num(e), UNIQ(e))
        x.oblig(s, 'post:decided-for-numbers-and-distinct-symbols', z3.Implies(z3.And(simple(a), simple(b)), res != c.t), 'return')
        cell = lambda e: z3.Or(NILV(e), z3.And(TYPE(e) == c.ty['RECORD'], c.islist(e)))
        x.oblig(s, 'post:decided-list-against-number-or-distinct', z3.Implies(z3.Or(z3.And(simple(a), cell(b)), z3.And(cell(a), simple(b))), res != c.t), 'return')
        if x.cover < 3:
            ack_cover(x, s)
    x.calls['wr_compute_fun_equal_terms'] = h_rec
    for n, (pre, post) in symbol_tests(c).items():
        def h(X, s, args, ins, n=n, pre=pre, post=post):
            t = bv(args[1]) if not isinstance(args[1], Ptr) else bv(x.resolve_ptr(s, args[1]).off)
            x.oblig(s, 'pre:' + n, pre(t), 'call')
            r = x.fresh('tst', 32)
            s.assume(z3.And(z3.Or(r == 0, r == 1), (r == 1) == post(t)))
            return r
        x.calls[n] = h
    x.run(x.prog.funcs_any['wr_compute_fun_equal_terms'], st, [c.gp, a, b, c.tp], done)


@contract('wr_compute_fun_equal', BC, label='equal:term', timeout=60)
def c_eqfun(x):
    st = State()
    c = eq_setup(x, st)

    def h_sub(X, s, args, ins):
        _, p, q, tp = args
        p, q = bv(p), bv(q)
        x.oblig(s, 'pre:equal-terms', z3.And(WF(p), WF(q), bv(x.resolve_ptr(s, tp).off) == c.t), 'call')
        r = x.fresh('rec', 64)
        for n, f in eq_spec(c, p, q, r, c.t):
            s.assume(f)
        return r
    x.calls['wr_compute_fun_equal_terms'] = h_sub

    def done(X, s, res):
        res = bv(res)
        two = c.n >= 4
        for n, f in eq_spec(c, c.a, c.b, res, c.t):
            x.oblig(s, 'post:' + n, z3.Implies(two, f), 'return')
        x.oblig(s, 'post:left-alone-without-arguments', z3.Implies(z3.Not(two), res == c.t), 'return')
        ack_cover(x, s)
    x.run(x.prog.funcs_any['wr_compute_fun_equal'], st, [c.gp, c.tp], done)


# ---------------------------------------------------------------- lists and strings
def listfun(name, op, field):
    @contract('wr_compute_fun_list', BC, label='list:' + name, timeout=60)
    def f(x):
        st = State()
        c = Calc(x, st)
        c.strings(x, st)

        def done(X, s, res):
            res = bv(res)
            lst = z3.And(c.n == 3, TYPE(c.a) == c.ty['RECORD'], c.islist(c.a))
            want = c.true if field is None else c.T.argt(c.a, field)
            s.assume(z3.Implies(c.n >= 3, c.T.arg_facts(c.t, bv(2), c.a)))
            x.oblig(s, 'post:part-of-the-list', z3.Implies(lst, res == want), 'return')
            x.oblig(s, 'post:left-alone-otherwise', z3.Implies(z3.Not(lst), res == c.t), 'return')
            if x.cover < 3:
                ack_cover(x, s)
        x.run(x.prog.funcs_any['wr_compute_fun_list'], st, [c.gp, c.tp, op], done)


listfun('first', 1, 2)
listfun('rest', 0, 3)
listfun('is-list', 2, None)


def strfun(comp):
    @contract('wr_compute_fun_str', BC, label='string:' + comp, timeout=60)
    def f(x):
        st = State()
        c = Calc(x, st)
        c.strings(x, st)

        def done(X, s, res):
            res = bv(res)
            un, T, F = res == c.t, res == c.true, res == c.false
            both = z3.And(UNIQ(c.a), UNIQ(c.b))
            if comp == 'IS_SUBSTR':
                dom = z3.And(c.n >= 4, both)
                holds = OCCURS(c.a, c.b)
            else:
                ci = c.T.argt(c.t, 4)
                dom = z3.And(c.n >= 5, both, c.isint(ci))
                k, la, lb = INTV(ci), STRLEN(c.a), STRLEN(c.b)
                s.assume(z3.And(la >= 0, lb >= 0, la < (1 << 32), lb < (1 << 32)))
                holds = z3.And(k >= 0, k <= lb, la <= lb - k, SEGEQ(c.b, k, c.a, la))
            x.oblig(s, 'post:true-exactly-if-it-holds', z3.Implies(dom, T == holds), 'return')
            x.oblig(s, 'post:two-valued', z3.Implies(dom, z3.Or(T, F)), 'return')
            x.oblig(s, 'post:left-alone-otherwise', z3.Implies(z3.Not(dom), un), 'return')
            if x.cover < 3:
                ack_cover(x, s)
        x.run(x.prog.funcs_any['wr_compute_fun_str'], st, [c.gp, c.tp, c.comp[comp]], done)


strfun('IS_SUBSTR')
strfun('IS_SUBSTRAT')


# ---------------------------------------------------------------- dispatch
@contract('wr_computable_termptr', BC, label='names', timeout=120)
def c_names(x):
    st = State()
    c = Calc(x, st)
    c.strings(x, st)
    f = c.T.argt(c.t, 1)
    st.assume(z3.Implies(c.n >= 2, c.T.arg_facts(c.t, bv(1), f)))
    st.assume(c.n >= 2)
    old = x.calls['wg_decode_uri']

    def done(X, s, res):
        res = bv(res, 32)
        infix = ('=', '+', '-', '*', '/')
        allowed = []
        for n, k in NAMES.items():
            m = lit(f, n) if n not in infix else z3.And(lit(f, n), z3.Not(PFX1(f)))
            allowed.append(z3.And(m, res == c.comp[k]))
        x.oblig(s, 'post:only-the-documented-functions', z3.Or(res == 0, z3.And(TYPE(f) == c.ty['URI'], z3.Or(*allowed))), 'return')
        for n, k in NAMES.items():
            m = lit(f, n) if n not in infix else z3.And(lit(f, n), z3.Not(PFX1(f)))
            if x.check_sat(s, z3.And(TYPE(f) == c.ty['URI'], lit(f, n))) == z3.unsat:
                continue
            x.oblig(s, 'post:recognises:' + n, z3.Implies(z3.And(TYPE(f) == c.ty['URI'], m), res == c.comp[k]), 'return')
        if x.cover < 3:
            ack_cover(x, s)
    x.run(x.prog.funcs_any['wr_computable_termptr'], st, [c.gp, c.tp], done)


def dispatch(part, comps):
    @contract('wr_compute_from_termptr', BC, label='dispatch:' + part, timeout=60)
    def f(x):
        for comp in comps:
            st = State()
            c = Calc(x, st)
            log = []

            def mk(name):
                def h(X, s, args, ins):
                    r = x.fresh('res', 64)
                    s.ghost['call'] = s.ghost.get('call', ()) + ((name, tuple(args), r),)
                    return r
                return h
            for n in ('wr_compute_fun_equal', 'wr_compute_fun_lesseq_core', 'wr_compute_fun_arith2', 'wr_compute_fun_arith1', 'wr_compute_fun_list', 'wr_compute_fun_str'):
                x.calls[n] = mk(n)
            T, F = conc(c.true), conc(c.false)
            k = c.comp[comp]
            want = {'EQUAL': ('equal', ()), 'LESS': ('lesseq_core', (F, 1)), 'LESSEQ': ('lesseq_core', (T, 1)), 'GREATER': ('lesseq_core', (F, 0)),
                    'GREATEREQ': ('lesseq_core', (T, 0)), 'FIRST': ('list', (1,)), 'REST': ('list', (0,))}.get(comp)
            if want is None:
                want = ('arith2' if comp in AR2 else 'str' if comp in ('IS_SUBSTR', 'IS_SUBSTRAT') else 'arith1', (k,))

            def done(X, s, res, want=want, comp=comp):
                cs = s.ghost.get('call', ())
                ok = len(cs) == 1 and cs[0][0] == 'wr_compute_fun_' + want[0] and isinstance(cs[0][1][1], Ptr) and cs[0][1][1].r is c.T.DB
                fs = [z3.BoolVal(bool(ok))]
                if ok:
                    args = cs[0][1]
                    fs += [bv(args[1].off) == c.t, bv(res) == cs[0][2]]
                    ws = (64, 32) if want[0] == 'lesseq_core' else (32,) * len(want[1])
                    fs += [bv(a, w) == v for a, v, w in zip(args[2:], want[1], ws)]
                x.oblig(s, 'post:evaluated-as:' + comp, z3.And(*fs), 'return')
                ack_cover(x, s)
            x.run(x.prog.funcs_any['wr_compute_from_termptr'], st, [c.gp, c.tp, k], done)


dispatch('arithmetic', AR2 + ['TO_INT', 'TO_REAL', 'FLOOR', 'CEILING', 'TRUNCATE', 'ROUND', 'UMINUS'])
dispatch('comparison', ['EQUAL', 'LESS', 'LESSEQ', 'GREATER', 'GREATEREQ', 'IS_INT', 'IS_REAL', 'IS_NUMBER'])
dispatch('lists-strings', ['IS_LIST', 'IS_MAP', 'IS_ATOM', 'IS_UNIQUE', 'FIRST', 'REST', 'STRLEN', 'IS_SUBSTR', 'IS_SUBSTRAT'])
