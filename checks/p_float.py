"""C13 floating-point conversions, C21 logarithms."""
import math
import struct
from lib import *
from p_arith import shapes
import machine as mc
from p_bits import I_int


def pack(d):
    return struct.unpack('<Q', struct.pack('<d', d))[0]


def dparts(v):
    """(sign bit, exponent field, mantissa field)"""
    if v.__class__ is int:
        return v >> 63 & 1, v >> 52 & 0x7FF, v & (1 << 52) - 1
    return T.trunc(T.lshr(v, 63, 64), 1), T.trunc(T.lshr(v, 52, 64), 11), T.trunc(v, 52)


def dterm(lo, hi, m=None):
    """a double with any sign, exponent field in [lo, hi], any mantissa unless given"""
    def f(I):
        s = T.var('sg', 1)
        e = lo if lo == hi else T.var('ex', 11, lo, hi)
        mm = T.var('ma', 52) if m is None else m
        z = lambda x: x if x.__class__ is int else T.zext(x, 64)
        I.dbl = (lo, hi, mm)
        return T.or_(T.shl(z(s), 63, 64), T.or_(T.shl(z(e), 52, 64), z(mm), 64), 64)
    return f


def trunc_double(bits, lo, hi):
    """the integer a finite double with exponent field in [lo, hi] truncates to"""
    s, e, m = dparts(bits)
    if e.__class__ is int and s.__class__ is int and m.__class__ is int:
        d = struct.unpack('<d', struct.pack('<Q', bits))[0]
        return int(d)
    if hi < 1023:
        return 0
    v = 0
    for x in range(hi, max(lo, 1023) - 1, -1):
        man = T.or_(T.zext(m, 64), 1 << 52, 64) if m.__class__ is not int else m | 1 << 52
        sh = x - 1075
        mag = zunsigned(T.lshr(man, -sh, 64), 64) if sh < 0 else zunsigned(man, 64) * (1 << sh)
        v = mag if lo == hi else zite(T.eq(e, x, 11), mag, v)
    if lo < 1023:
        v = zite(T.ult(e, 1023, 11), 0, v)
    return zite(T.eq(s, 1, 1), -v, v)


def o_from_double(lo, hi):
    def g(I, O):
        if lo == 0x7FF:
            if O.status != 'throw':
                return [('throws overflow_error', 0)]
            return [('throws overflow_error', int(is_exc(O.exc, OVERFLOW)))]
        if not O.ok():
            return [('returns normally (got %s)' % (O.exc,), 0)]
        e = trunc_double(I.k[1], lo, hi)
        return [('truncates toward zero', eqz(O.out[0].val(), e)), ('canonical', O.out[0].canon())]
    return g


def expected_double(b):
    """[(condition, double bits)] for operand b (exact conditions, one holds)"""
    if not b.limbs:
        # an int converts exactly: as cast by the language
        return [(1, mc.op_fcast('sitofp', b.sign, 32, 64))]
    n = len(b.limbs)
    sg = 1 << 63 if T.sgn(b.sign, 32) < 0 else 0
    if n > 32:
        return [(1, sg | 0x7FF << 52)]
    top = b.limbs[-1]
    m = b.mag()
    res = []
    for t in range(1, 33):
        c = land(T.not_(T.ult(top, 1 << (t - 1), 32)), 1 if t == 32 else T.ult(top, 1 << t, 32))
        if c.__class__ is int and not c:
            continue
        W = 32 * (n - 1) + t
        # the 53 leading bits, truncated
        if m.__class__ is int:
            x = m >> (W - 53) if W >= 53 else m << (53 - W)
            fr = x & (1 << 52) - 1
        else:
            bits = zbits(m, max(zw(m), 96))
            ww = max(zw(m), 96)
            x = T.lshr(bits, W - 53, ww) if W >= 53 else T.shl(bits, 53 - W, ww)
            fr = T.zext(T.trunc(x, 52), 64)
        res.append((c, T.or_(fr, sg | (W - 1 + 1023) << 52, 64)))
    return res


def o_to_double(flt):
    @ok
    def g(I, O):
        b = I.big[0]
        alts = expected_double(b)
        d = alts[0][1]
        for c, x in alts[1:]:
            d = T.ite(c, x, d, 64)
        if flt:
            r = T.trunc(O.r[0], 32)
            res = T.eq(r, mc.op_fcast('fptrunc', d, 64, 32), 32)
            if r.__class__ is Term and r.op == 'fptrunc':
                # equal arguments round equally; spares the solver the rounding
                res = (T.eq(r.a, d, 64), res)
            return [('the float the truncated double rounds to', res)]
        return [('the leading 53 bits, truncated', T.eq(O.r[0], d, 64))]
    return g


@ok
def o_rt(I, O):
    """double -> integer -> double: the truncated double, bit for bit (and +0 for anything below one)"""
    lo, hi, _ = getattr(I, 'dbl', (0, 0x7FE, 0))
    s, e, m = dparts(I.k[1])
    if I.k[1].__class__ is int:
        d = struct.unpack('<d', struct.pack('<Q', I.k[1]))[0]
        return [('gives back the truncated double', T.eq(O.r[0], pack(float(int(d))), 64))]
    out = []
    for x in range(lo, hi + 1):
        if x < 1023:
            exp = 0
        elif x >= 1075:
            exp = I.k[1]
        else:
            f = 1075 - x
            exp = T.and_(I.k[1], M64 ^ ((1 << f) - 1), 64)
        out.append(T.eq(O.r[0], exp, 64) if lo == hi else implies(T.eq(e, x, 11), T.eq(O.r[0], exp, 64)))
    return [('gives back the truncated double', land(*out))]


def o_class(lo, hi):
    @ok
    def g(I, O):
        s, e, m = dparts(I.k[1])
        sp = T.eq(e, 0x7FF, 11)
        z = T.eq(m, 0, 52)
        return [('finite', iff(lnot(eqz(zunsigned(O.r[0], 64), 0)), lnot(sp))),
                ('infinite', iff(lnot(eqz(zunsigned(O.r[1], 64), 0)), land(sp, z))),
                ('nan', iff(lnot(eqz(zunsigned(O.r[2], 64), 0)), land(sp, lnot(z))))]
    return g


def c13(tier, rnd):
    q = tier == 'quick'
    jobs = []
    bv = dict(mode='bv')

    def fd(lo, hi, fn='h_ctor', o=None, m=None, **kw):
        jobs.append(J(fn, (), o or o_from_double(lo, hi), k=(4, dterm(lo, hi, m)), tag='exponent field %s%s' % ('%d..%d' % (lo, hi) if lo != hi else lo, '' if m is None else ' mantissa %#x' % m), **bv, **kw))
    jobs.append(J('h_class', (), o_class(0, 0x7FF), k=(0, lambda I: T.var('d', 64)), tag='any bits', **bv))
    for lo, hi in ((0, 0), (1, 900), (901, 1010), (1011, 1022), (0x7FF, 0x7FF)):
        fd(lo, hi)
        if lo != 0x7FF:
            fd(lo, min(hi, lo + 120), 'h_dbl_rt', o_rt)
    exps = list(range(1023, 1023 + 200)) if q else list(range(1023, 0x7FF))
    if q:
        exps += list(range(2000, 2047, 7)) + [2046, 2045] + rnd.sample(range(1223, 2047), 40)
    for e in sorted(set(exps)):
        fd(e, e)
        if not q or e < 1023 + 130 or e % 5 == 0:
            fd(e, e, 'h_dbl_rt', o_rt)
    for k in (4, 5):
        for a in shapes(6 if q else 10):
            jobs.append(J('h_cast', (a,), o_to_double(k == 5), k=(k,), weight=2, **bv))
        for n in (8, 16, 31, 32, 33, 34, 64):
            for s in (1, -1):
                for kd in 'FMZ':
                    jobs.append(J('h_cast', (L(n, kd, s, (n - 1, n - 2, n - 3), rnd),), o_to_double(k == 5), k=(k,), weight=2, **bv))
                    jobs.append(J('h_cast', (L(n, kd, s, (0, n - 3, n - 4), rnd),), o_to_double(k == 5), k=(k,), weight=2, **bv))
    return jobs


PROPS = [
    Prop('C13', 'floating point', c13, {
        'quick': 'construction: every double below 2^200 in magnitude, infinities and NaN, about 50 further exponents (all mantissas, both signs); '
                 'casts: every value of up to 6 limbs, values of 8-64 limbs with three free limbs (top or lower) over fixed patterns',
        'thorough': 'construction and round trip: every finite double (each exponent, all mantissas); casts: every value of up to 10 limbs and the structured ones'}),
]
