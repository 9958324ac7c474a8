"""C21 logarithms.

The library call log() is a function the executor does not enter: on a symbolic argument it stays in the result as log(A).
The result of a path is then an expression over such atoms, conversions of integers, and the four operations.  It is
judged by an error analysis over the reals: every operation is exact up to 2^-53 relative (log itself up to 2^-52), and
log(A), where A is the double nearest to an integer term X, is ln(v) - k*ln(2) up to 2^-50 whenever X * 2^k is within
2^-52 of the value v.  That last condition, and the values of the integers that enter the expression, are what the SMT
solver decides over all values of the path; the resulting bound on |result - ln(v)/ln(base)| is linear in ln(v) and is
given to the solver as well."""
import math
import struct
from decimal import Decimal, getcontext
from fractions import Fraction as F
import z3
from lib import *
from p_arith import shapes
from p_float import pack
import machine as mc
import explore
import solve

getcontext().prec = 80
LN2 = F(Decimal(2).ln())


def unpack(b):
    return struct.unpack('<d', struct.pack('<Q', b & M64))[0]


def lnd(d):
    """ln of a positive double, as a rational"""
    return F(Decimal(d).ln())


def flog(s, x):
    return z3.BitVec('fnlog%d' % x.id, 64)


solve.BVX['fn_log'] = flog
T.EVAL['fn_log'] = lambda x, a, b: mc.frombits(mc.clog(mc.tofloat(a, 64)), 64)

_lnz = {}


def lnz(n):
    """ln of a large integer, outward rounding is far below every tolerance here"""
    r = _lnz.get(n)
    if r is None:
        r = _lnz[n] = F(Decimal(n).ln())
    return r


E53 = F(1, 1 << 53)


class Form:
    """al * ln(v) + be, up to err"""

    def __init__(self, al, be, err):
        self.al, self.be, self.err = al, be, err

    def max(self, lo, hi):
        return max(abs(self.al * lo + self.be), abs(self.al * hi + self.be)) + self.err


class Give(Exception):
    pass


def lead(b, v, k):
    """floor(v / 2^k)"""
    if k < 0:
        return zof(v) * (1 << -k)
    if b.limbs:
        return zshr(zvalue(b.limbs[k // 32:]), k % 32)
    return zshr(v, k)


def analyse(r, env, b, v, lo, hi, conds, suff):
    """the Form of the double term r at the model env, where ln(v) is in [lo, hi]; collects the integer conditions it needs"""
    ep = T.new_epoch()
    ev = lambda t: T.evaluate(t, env, ep)
    vv = v if v.__class__ is int else ev_z(v, env)

    def rnd(f):
        return Form(f.al, f.be, f.err + f.max(lo, hi) * E53)

    def go(t):
        if t.__class__ is int:
            d = unpack(t)
            if d != d or math.isinf(d):
                raise Give('constant %r' % d)
            return Form(F(0), F(d), F(0))
        op = t.op
        if op in ('uitofp', 'sitofp'):
            x = t.a
            if x.__class__ is not int:
                c = ev(x)
                conds.append(T.eq(x, c, t.c))
                suff.append(T.eq(x, c, t.c))
                x = c
            if op == 'sitofp':
                x = T.sgn(x, t.c)
            return rnd(Form(F(0), F(x), F(0)))
        if op == 'ite':
            c = ev(t.a)
            q = t.a if c else lnot(t.a)
            conds.append(q)
            suff.append(q)
            return go(t.b if c else t.c)
        if op == 'fn_log':
            a = t.a
            if a.__class__ is Term and a.op in ('uitofp', 'sitofp'):
                x = a.a
                xv = ev(x)
                if a.op == 'sitofp':
                    xv = T.sgn(xv, a.c)
                if xv <= 0:
                    raise Give('log of a non-positive argument')
                X = zunsigned(x, a.c) if a.op == 'uitofp' else zsigned(x, a.c)
                k = vv.bit_length() - xv.bit_length()
                for kk in (k, k - 1, k + 1):
                    if near(xv, vv, kk):
                        k = kk
                        break
                else:
                    raise Give('log argument %d is not the leading part of the value' % xv)
                conds.append(B(znear(X, v, k)))
                suff.append(B(eqz(X, lead(b, v, k))))
                if a.op == 'sitofp':
                    conds.append(znonneg(X))
                    suff.append(znonneg(X))
                f = Form(F(1), -k * LN2, F(1, 1 << 50))
                f.err += f.max(lo, hi) * F(1, 1 << 52)
                return f
            f = go(a)
            if f.al or f.be <= 0:
                raise Give('log of something else')
            l = F(Decimal(f.be.numerator).ln() - Decimal(f.be.denominator).ln())
            return Form(F(0), l, f.err / f.be * 2 + abs(l) * F(1, 1 << 52))
        if op in ('fadd', 'fsub'):
            x, y = go(t.a), go(t.b)
            s = 1 if op == 'fadd' else -1
            return rnd(Form(x.al + s * y.al, x.be + s * y.be, x.err + y.err))
        if op in ('fmul', 'fdiv'):
            x, y = go(t.a), go(t.b)
            if op == 'fmul' and x.al == 0 and y.al:
                x, y = y, x
            if y.al:
                raise Give('product of logarithms of the value')
            if op == 'fdiv':
                if abs(y.be) <= 2 * y.err:
                    raise Give('division by about zero')
                c = 1 / y.be
                ce = y.err / abs(y.be) / (abs(y.be) - y.err)
            else:
                c, ce = y.be, y.err
            return rnd(Form(x.al * c, x.be * c, x.err * (abs(c) + ce) + x.max(lo, hi) * ce))
        raise Give('operation ' + op)
    return go(r)


def ev_z(v, env):
    v = zof(v)
    return T.zeval(v, env) if hasattr(T, 'zeval') else T.sgn(T.evaluate(zbits(v, zw(v) + 1), env, T.new_epoch()), zw(v) + 1)


def near(x, v, k):
    if k >= 0:
        x <<= k
    else:
        v <<= -k
    return abs(x - v) << 52 <= v


def znear(X, v, k):
    X, v = zof(X), zof(v)
    if k >= 0:
        X = X * (1 << k)
    else:
        v = v * (1 << -k)
    d = X - v
    p = 1 << 52
    return land(lnot(v < d * p), lnot(v < -(d * p)))


def tolerance(bits, lnb):
    return F(max(64, bits)) * LN2 / abs(lnb) / (1 << 47)


def linear_ok(f, lnb, lo, hi, tol):
    """the solver: |al*l + be - l/lnb| + err <= tol for every l in [lo, hi]?"""
    s = z3.Solver()
    l = z3.Real('l')
    q = lambda x: z3.RealVal('%d/%d' % (x.numerator, x.denominator))
    s.add(l >= q(lo), l <= q(hi))
    d = q(f.al - 1 / lnb) * l + q(f.be)
    t = q(tol - f.err)
    s.add(z3.Or(d > t, d < -t))
    mc.ctl.stats.queries += 1
    r = s.check()
    if r == z3.unsat:
        mc.ctl.stats.unsat += 1
    return r == z3.unsat


def expected(v, base):
    """exact expectation for a concrete value: (kind, rational)"""
    if base == 1 or v < 0 or base != base:
        return 'nan'
    if v == 0:
        return '-inf'
    return F(Decimal(v).ln()) / lnd(base)


def cases(b):
    """[(condition, bit length)] of the magnitude of a positive operand"""
    if not b.limbs:
        return [(1, 31)]
    top = b.limbs[-1]
    n = 32 * (len(b.limbs) - 1)
    if top.__class__ is int:
        return [(1, n + top.bit_length())]
    out = []
    for t in range(1, 33):
        if top.lo >> t or top.hi < 1 << (t - 1):
            continue
        out.append((land(T.not_(T.ult(top, 1 << (t - 1), 32)), 1 if t == 32 else T.ult(top, 1 << t, 32)), n + t))
    return out


def o_special(base):
    """1, negative, NaN: no logarithm; 0 and infinity: only of 1"""
    def g(I, O):
        if not O.ok():
            return [('returns normally (got %s)' % (O.exc,), 0)]
        r, v = O.r[0], I.big[0].val()
        if base is None or base != base or base == 1 or base < 0:
            return [('NaN', isnan(r))]
        one = eqz(v, 1)
        zero = int(unpack(r) == 0) if r.__class__ is int else T.eq(T.and_(r, (1 << 63) - 1, 64), 0, 64)
        return [('NaN unless the value is 1', lor(one, isnan(r))), ('log(1) == 0', implies(one, zero))]
    return g


def fnan(I):
    m = T.var('nan', 52, 1, (1 << 52) - 1)
    s = T.var('nansign', 1)
    return T.or_(T.or_(T.zext(m, 64), 0x7FF << 52, 64), T.shl(T.zext(s, 64), 63, 64), 64)


def o_log(base):
    lnb = None if base == 1 else lnd(base)

    def g(I, O):
        if not O.ok():
            return [('returns normally (got %s)' % (O.exc,), 0)]
        b, r = I.big[0], O.r[0]
        v = b.val()
        if v.__class__ is int and r.__class__ is int:
            e = expected(v, base)
            d = unpack(r)
            if e == 'nan':
                return [('NaN', int(d != d))]
            if e == '-inf':
                return [('log(0) is -infinity times the sign of log(base)', int(d == (-math.inf if base > 1 else math.inf)))]
            if d != d or math.isinf(d):
                return [('a finite logarithm', 0)]
            if v == 1:
                return [('log(1) == 0', int(d == 0))]
            return [('the logarithm up to rounding', int(abs(F(d) - e) <= tolerance(v.bit_length(), lnb)))]
        if T.B(v < 0) == 1 or base == 1:
            # every value of the shape is negative
            return [('NaN', isnan(r))]
        out = []
        for c, bits in cases(b):
            lab = 'the logarithm of a %d-bit value up to rounding' % bits if b.limbs else 'the logarithm up to rounding'
            ctl = mc.ctl
            pc = ctl.pc + ([c] if c.__class__ is Term else [])
            env = ctl.env if ctl.env is not None and ctl.genuine(ctl.env) and (c.__class__ is int or T.evaluate(c, ctl.env, T.new_epoch()) == 1) else None
            if env is None:
                m = explore.model(ctl, pc, 3000) if pc else ('sat', {x: max(y.lo, 1) for x, y in T.VARS.items()})
                if m[0] == 'unsat':
                    out.append((lab, lnot(c)))
                    continue
                if m[0] != 'sat':
                    out.append((lab, T.opaque('undecided', 1, 0)))
                    continue
                env = m[1]
            lo, hi = (bits - 1) * LN2, bits * LN2
            if not b.limbs:
                lo = F(0)
            if v.__class__ is Z:
                lo = max(lo, lnz(v.lo)) if v.lo > 1 else lo
                hi = min(hi, lnz(v.hi))
            conds, suff = [], []
            try:
                if r.__class__ is int and not b.limbs:
                    # a constant is a logarithm of one value only
                    w = v if v.__class__ is int else ev_z(v, env)
                    conds.append(eqz(v, w))
                    suff.append(eqz(v, w))
                    lo = hi = lnz(w) if w > 0 else 1 / F(0)
                f = analyse(r, env, b, v, lo, hi, conds, suff)
                good = linear_ok(f, lnb, lo, hi, tolerance(bits, lnb))
            except (Give, ZeroDivisionError):
                good = False
            if not good:
                # not shown: the solver's model of the case is run against the real code
                out.append((lab, lnot(c)))
            else:
                out.append((lab, (implies(c, land(*suff)) if suff else 1, implies(c, land(*conds)) if conds else 1)))
        return out
    return g


def isnan(r):
    if r.__class__ is int:
        d = unpack(r)
        return int(d != d)
    m = (1 << 52) - 1
    return land(T.eq(T.and_(r, 0x7FF << 52, 64), 0x7FF << 52, 64), lnot(T.eq(T.and_(r, m, 64), 0, 64)))


E = 2.7182818284590451
BASES = [2.0, 10.0, 0.5, 3.0, 1.5, 16.0, 1e300, 1e-300, 1 + 2.0 ** -52, 7.0, 0.1, 4294967296.0]


def c21(tier, rnd):
    q = tier == 'quick'
    jobs = []
    bv = dict(mode='bv', vc_timeout=5000)

    def forms(a, n_bases, **kw):
        jobs.append(J('h_log', (a,), o_log(E), k=(0, 0), tag='log', **bv, **kw))
        jobs.append(J('h_log', (a,), o_log(10.0), k=(2, 0), tag='log10', **bv, **kw))
        for b in BASES[:3] + rnd.sample(BASES[3:], n_bases):
            jobs.append(J('h_log', (a,), o_log(b), k=(1, pack(b)), tag='base %r' % b, **bv, **kw))
    for a in ('p', ('c', 0), ('c', 1), ('c', 2), 1, 2, 3, 4) + (() if q else (5, 6, 8)):
        forms(a, 2 if q else 9, weight=abs(a) if isinstance(a, int) else 1)
    for a in ('n', -1, -2, -3):
        forms(a, 1)
    for a in ('p', 'n', '0', 1, -1, 2, 3):
        jobs.append(J('h_log', (a,), o_log(1), k=(1, pack(1.0)), tag='base 1', **bv))
    for a in ('p', 'n', '0', ('c', 1), 1, -1, 2, 3, 5, L(40, 'M', 1, (39, 38), rnd)):
        for b in (0.0, -0.0, math.inf):
            jobs.append(J('h_log', (a,), o_special(b), k=(1, pack(b)), tag='base %r' % b, **bv))
        for b in (-math.inf, -1.0, -2.0, -0.5, -1e300):
            jobs.append(J('h_log', (a,), o_special(b), k=(1, pack(b)), tag='base %r' % b, **bv))
        jobs.append(J('h_log', (a,), o_special(None), k=(1, fnan), tag='any NaN base', **bv))
    # beyond the range of double: 1024 bits and more
    for n in (31, 32, 33, 34, 64, 100, 400) if q else (31, 32, 33, 34, 48, 64, 65, 100, 128, 400, 1000):
        for kd in 'FZMR8':
            for sy in ((n - 1, n - 2, n - 3), (n - 3,), (n - 1,), (0, n - 2)):
                if q and n > 40 and kd in 'R8':
                    continue
                forms(L(n, kd, 1, sy, rnd), 0 if q else 3, weight=2 + n / 40)
            jobs.append(J('h_log', (L(n, kd, -1, (0, n - 1), rnd),), o_log(E), k=(0, 0), tag='log', **bv))
    # narrow patterns around powers of two
    for n in (2, 3, 4, 5):
        for top in (1, 2, 3, 0x7fffffff, 0x80000000, M32):
            for kd in 'FZ':
                forms(L(n, kd, 1, (n - 2,), rnd, top=top), 0)
    return jobs


PROPS = [
    Prop('C21', 'logarithms', c21, {
        'quick': 'log, log10 and log to five or more of twelve bases: every positive value of up to 4 limbs, values of 31-400 limbs with up to three free leading limbs (or one lower one) over fixed '
                 'patterns; every negative value of up to 3 limbs; 0 and 1; base 1, bases 0, -0 and infinity, five negative bases, every NaN base',
        'thorough': 'every value of up to 8 limbs, all twelve bases, structured ones up to 1000 limbs'},
        assumptions=['the C library\'s log is correct to one unit in the last place and is not encoded; the arithmetic around it is judged by the standard error model of IEEE double',
                     'the bases are concrete'], budget_quick=8, vc_quick=2000, wall_quick=110),
]
