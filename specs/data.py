"""Contracts for the typed value encoding of Db/dbdata.c."""
import z3
from symex import *
from driver import *

DD = 'Db/dbdata.c'
DHDR = '#include "Db/dballoc.h"\n#include "Db/dbdata.h"\n#include "Db/dbapi.h"\n'


def sx(v, w=32, to=64):
    if is_c(v):
        return bv(sgn(v, w), to)
    return z3.SignExt(to - w, v) if w < to else v


def seq(x, st, steps, final):
    """run the functions one after the other (a lemma over their composition): steps are
    (name, args(st, results)); final(st, results) builds the obligations"""
    def go(k, st, results):
        if k == len(steps):
            final(st, results)
            return
        name, args = steps[k]
        if callable(name):
            name = name(st, results)
        f = x.prog.funcs_any.get(name)
        if f is None:
            raise AttachError('function %s not found' % name)
        outs = []
        x.run(f, st, args(st, results), lambda X, s, v: outs.append((s, v)))
        for s, v in outs:
            go(k + 1, s, results + [v])
    go(0, st, [])


class Db:
    """database segment with a valid header; the allocators are used through their contract"""
    MAXDB = 1 << 40

    def __init__(self, x, st, kb=False):
        self.x = x
        flds = ['kb_db', 'mark', 'size', 'word_area_header', 'doubleword_area_header', 'shortstr_area_header', 'longstr_area_header',
                'longstr_count', 'urilist', 'strhash_area_header']
        k = x.build.probe(DHDR, ['offsetof(db_memsegment_header,%s)' % f for f in flds] +
                          ['sizeof(db_memsegment_header)', 'MEMSEGMENT_MAGIC_MARK', 'SHORTSTR_SIZE', 'sizeof(((db_memsegment_header*)0)->mark)'] +
                          ['WG_NULLTYPE', 'WG_RECORDTYPE', 'WG_INTTYPE', 'WG_DOUBLETYPE', 'WG_STRTYPE', 'WG_CHARTYPE', 'WG_FIXPOINTTYPE', 'WG_DATETYPE',
                           'WG_TIMETYPE', 'WG_VARTYPE', 'WG_ILLEGAL', 'WG_URITYPE', 'MAXDATE', 'MINDATE', 'MAXTIME', 'MINTIME'])
        self.k = k
        self.off = {f: k['offsetof(db_memsegment_header,%s)' % f] for f in flds}
        self.hsize = k['sizeof(db_memsegment_header)']
        self.DB = x.region(st, 'db', size=self.MAXDB)
        self.magic = k['MEMSEGMENT_MAGIC_MARK'] & 0xffffffff
        self.p = Ptr(self.DB, 0)
        st.mem[self.DB.id].cells[self.off['mark']] = (4, self.magic)
        if kb:
            self.KB = x.region(st, 'kb', size=self.MAXDB)
            st.mem[self.KB.id].cells[self.off['mark']] = (4, self.magic)
            st.mem[self.KB.id].cells[self.off['kb_db']] = (8, NULL)
            st.mem[self.DB.id].cells[self.off['kb_db']] = (8, Ptr(self.KB, 0))
            self.decp = Ptr(self.KB, 0)
            for r in (self.DB, self.KB):
                st.assume((r.base & 15) == 0)
        else:
            st.mem[self.DB.id].cells[self.off['kb_db']] = (8, NULL)
            self.decp = self.p
        x.calls['wg_alloc_fixlen_object'] = self.h_alloc
        x.noop = set(getattr(x, 'noop', ())) | {'show_data_error', 'show_data_error_nr', 'show_data_error_double', 'show_data_error_str'}
        x.assumptions.append('wg_alloc_fixlen_object returns 0 or the offset of an unused 8-byte aligned object behind the header (proved for the allocator under its own property)')

    def h_alloc(self, x, st, args, ins):
        db, hdr = args
        o = x.fresh('alloc', 64)
        sizes = {self.off['word_area_header']: 8, self.off['doubleword_area_header']: 8, self.off['shortstr_area_header']: self.k['SHORTSTR_SIZE']}
        n = sizes.get(conc(hdr.off) if not isinstance(hdr.off, int) else hdr.off)
        if n is None:
            raise Unsupported('allocation from an unknown area')
        x.oblig(st, 'pre:alloc', z3.BoolVal(db.r is self.DB and hdr.r is self.DB), 'call')
        st.assume(z3.Or(o == 0, z3.And((o & 7) == 0, z3.UGE(o, self.hsize), z3.ULT(o, self.MAXDB - n))))
        st.ghost.setdefault('allocs', []).append((o, n))
        return o


def roundtrip(label, enc, dec, arg, typ, pre=None, eq=None, kb=False, ill=False, rng=None):
    @contract(enc, DD, label=label, timeout=120)
    def c(x):
        st = State()
        d = Db(x, st, kb)
        v, xv = arg()
        if pre is not None:
            st.assume(pre(d, xv))

        def final(s, r):
            e, t, dv = r
            e = bv(e)
            bad = e == d.k['WG_ILLEGAL']
            x.oblig(s, 'post:type-tag', z3.Or(bad, bv(t) == d.k[typ]), 'composition')
            x.oblig(s, 'post:roundtrip', z3.Or(bad, (eq or (lambda a, b: a == b))(dv, v)), 'composition')
            if not ill:
                x.oblig(s, 'post:never-rejected', z3.Not(bad), 'composition')
            else:
                al = s.ghost.get('allocs', [])
                x.oblig(s, 'post:rejected-only-when-full', z3.Implies(bad, z3.Or(*[o == 0 for o, n in al])), 'composition')
                # a value is stored only inside the object just allocated
            if x.cover < 3:
                ack_cover(x, s)

        def stepargs(s, r):
            return [d.decp, r[0]]
        if ill:
            # a failed allocation has no value to decode
            steps = [(enc, lambda s, r: [d.p, v]), ('wg_get_encoded_type', stepargs), (dec, stepargs)]
        else:
            steps = [(enc, lambda s, r: [d.p, v]), ('wg_get_encoded_type', stepargs), (dec, stepargs)]

        def guard(s, r):
            pass
        seq(x, st, steps, final)
    return c


def i64(name):
    def f():
        v = z3.BitVec(name, 64)
        return v, v
    return f


def i32(name):
    def f():
        v = z3.BitVec(name, 32)
        return v, v
    return f


def i8(name):
    def f():
        v = z3.BitVec(name, 8)
        return v, v
    return f


def dbl(name):
    def f():
        b = z3.BitVec(name, 64)
        v = z3.fpBVToFP(b, F64)
        return v, v
    return f


def e64(a, b):
    return bv(a) == bv(b)


def e32(a, b):
    return bv(a, 32) == bv(b, 32)


def e8(a, b):
    return bv(a, 8) == bv(b, 8)


def edbl(a, b):
    a = a if z3.is_expr(a) else z3.FPVal(a, F64)
    return a == b   # identical value, NaN and sign of zero included


roundtrip('encode:int', 'wg_encode_int', 'wg_decode_int', i64('v'), 'WG_INTTYPE', eq=e64, ill=True)
roundtrip('encode:int-kb', 'wg_encode_int', 'wg_decode_int', i64('v'), 'WG_INTTYPE', eq=e64, ill=True, kb=True)
roundtrip('encode:double', 'wg_encode_double', 'wg_decode_double', dbl('v'), 'WG_DOUBLETYPE', eq=edbl, ill=True)
roundtrip('encode:double-kb', 'wg_encode_double', 'wg_decode_double', dbl('v'), 'WG_DOUBLETYPE', eq=edbl, ill=True, kb=True)
roundtrip('encode:char', 'wg_encode_char', 'wg_decode_char', i8('v'), 'WG_CHARTYPE', eq=e8)
roundtrip('encode:date', 'wg_encode_date', 'wg_decode_date', i32('v'), 'WG_DATETYPE', eq=e32,
          pre=lambda d, v: z3.And(v <= d.k['MAXDATE'], v >= d.k['MINDATE']))
roundtrip('encode:time', 'wg_encode_time', 'wg_decode_time', i32('v'), 'WG_TIMETYPE', eq=e32,
          pre=lambda d, v: z3.And(v <= d.k['MAXTIME'], v >= d.k['MINTIME']))
roundtrip('encode:var', 'wg_encode_var', 'wg_decode_var', i64('v'), 'WG_VARTYPE', eq=e64,
          pre=lambda d, v: z3.And(v < (1 << 58), v >= -(1 << 58)))
