"""C14 pow, C15 mod_pow, C16 gcd."""
import math
from lib import *
from p_arith import shapes
from run import InBig


def zpow(a, e):
    r = 1
    for _ in range(e):
        r = r * a
    return r


def o_pow(e):
    @ok
    def g(I, O):
        v = I.big[0].val()
        return [('a^%d' % e, eqz(O.out[0].val(), v ** e if v.__class__ is int else zpow(v, e)))]
    return g


def o_pow_sym(I, O):
    """trivial bases, any exponent"""
    if not O.ok():
        return [('returns normally (got %s)' % (O.exc,), 0)]
    v = I.big[0].val()
    k = I.k[0]
    odd = T.eq(T.trunc(k, 1), 1, 1) if k.__class__ is not int else k & 1
    if v == -1:
        e = zite(odd, -1, 1)
    elif v == 1:
        e = 1
    else:
        e = zite(T.eq(k, 0, 64), 1, 0)
    return [('(%d)^k' % v, eqz(O.out[0].val(), e))]


def c14(tier, rnd):
    q = tier == 'quick'
    jobs = []
    for s in ('0', 'p', 'n', 1, -1, 2, -2, 3, -3) + (() if q else (4, -4, 5, 6)):
        n = abs(s) if isinstance(s, int) else 1
        top = {1: 40, 2: 8, 3: 6, 4: 5, 5: 4, 6: 3}[n] if q else {1: 64, 2: 16, 3: 9, 4: 8, 5: 6, 6: 5}[n]
        if isinstance(s, str) and s != '0':
            top = 10 if q else 20
        for e in range(0, top + 1):
            jobs.append(J('h_pow', (s,), o_pow(e), k=(e,), weight=n * e * (1 if isinstance(s, int) else 3)))
    # negative exponents
    for s in SM + [1, -1, 2, -3, ('c', 1), ('c', -1)]:
        jobs.append(J('h_pow', (s,), throws(RANGE), k=(ksym('k', -2**31, -1),), tag='k < 0', mode='bv'))
    for v in (0, 1, -1):
        jobs.append(J('h_pow', (('c', v),), o_pow_sym, k=(ksym('k', 0, 2**31 - 1),), tag='any k >= 0', mode='bv'))
    # longer bases with free limbs
    for n in (4, 7, 10, 15, 20, 31, 32, 33, 40) if q else (4, 7, 10, 15, 20, 31, 32, 33, 40, 63, 64, 65, 80, 128):
        for kd in 'RFM':
            for e in (2, 3, 4, 5, 6):
                if n * e > (90 if q else 300) or q and (e > 3 or kd != 'R') and (n > 33 or n % 2 or (kd == 'F' and e > 2)):
                    continue
                for sy in ((0,), (n - 1,), (rnd.randrange(n),)) if not q or e < 4 else ((0,),):
                    sg = rnd.choice((1, -1))
                    jobs.append(J('h_pow', (L(n, kd, sg, sy, rnd),), o_pow(e), k=(e,), weight=n * e))
    # powers of two and other sparse bases times a free small factor
    for v in (2, 3, 10, 2**16, 2**31 - 1, 2**32, 2**32 - 1, 2**64, 2**96 - 1):
        for e in (2, 3, 5, 31, 32, 33, 64, 65) + (() if q else (100, 127, 128, 200, 255, 256)):
            if v.bit_length() * e < (6000 if q else 20000):
                jobs.append(J('h_pow', (('c', v if e & 1 else -v),), o_pow(e), k=(e,)))
    return jobs


from p_bits import ksym


# ---------------------------------------------------------------- C15

def o_modpow(e):
    """r == a^e (mod m), |r| < |m|, and r is 0 or has the sign of a^e"""
    @ok
    def g(I, O):
        a, m, r = I.big[0].val(), zabs(I.big[2].val()), O.out[0].val()
        p = a ** e if a.__class__ is int else zpow(a, e)
        return [('congruent to a^e', zdvd(r - p, m)),
                ('below |m|', land(zof(r) < m, -zof(m) < r)),
                ('sign of a^e', lor(eqz(r, 0), iff(zof(r) < 0, zof(p) < 0)))]
    return g


def o_modpow_res(e, m):
    """the same for huge e and tiny |m|, by the residue of a"""
    am = abs(m)

    @ok
    def g(I, O):
        a, r = I.big[0].val(), O.out[0].val()
        aa = zof(zabs(a))
        W = zw(aa)
        t = T.urem(zbits(aa, W), am, W)
        x = 0
        for i in range(1, am):
            x = zite(T.eq(t, i, W), pow(i, e, am), x)
        neg = land(e & 1, zof(a) < 0)
        return [('a^e mod m', eqz(r, zite(neg, -zof(x), x)))]
    return g


def o_modpow_uni(e, K, m):
    """base 1 + x*K with m | K*K: the power is 1 + e*x*K (mod m)"""
    @ok
    def g(I, O):
        a, r = I.big[0].val(), O.out[0].val()
        return [('1 + e*x*K mod m', zdvd(r - (1 + (zof(a) - 1) * e), m)), ('range', land(znonneg(zof(r)), zof(r) < m))]
    return g


def o_modpow_nil(e, m):
    """m | a^2"""
    @ok
    def g(I, O):
        a, r = I.big[0].val(), O.out[0].val()
        return [('power', eqz(r, 1 if e == 0 else a if e == 1 else 0))]
    return g


def JR(m, i, e, neg, oracle):
    am = abs(m)

    def setup(I):
        y = T.var('y', 32, 1, (2**31 - 1 - i) // am)
        x = T.add(T.mul(y, am, 32), i, 32)
        I.big[0] = InBig(T.sub(0, x, 32) if neg else x, [])
        I.num(1, e)
        I.num(2, m)
    return Job('modpow(%s(%d*y+%d), %s, %d)' % ('-' if neg else '', am, i, hex(e), m), 'h_modpow', setup, oracle, weight=3)


def JE(b, limbs, i, lo, hi, m):
    """base b, modulus m, an exponent of several limbs whose limb i is any value in [lo, hi]"""
    def setup(I):
        I.num(0, b)
        I.big[1] = InBig(1, [T.var('e%d' % i, 32, lo, hi) if j == i else x for j, x in enumerate(limbs)])
        I.num(2, m)

    @ok
    def oracle(I, O):
        e, r = I.big[1].val(), O.out[0].val()
        rest = sum(x << 32 * j for j, x in enumerate(limbs) if j != i)
        out = 1
        for x in range(lo, hi + 1):
            f = rest + (x << 32 * i)
            w = pow(abs(b), f, abs(m))
            out = land(out, implies(eqz(e, f), eqz(r, -w if b < 0 and f & 1 else w)))
        return [('base^e mod |m|', out)]
    return Job('modpow(%s, %s, %s)' % (vname(b), '+'.join('[%d..%d]*2^%d' % (lo, hi, 32 * j) if j == i else '%#x*2^%d' % (x, 32 * j) for j, x in enumerate(limbs)), hex(m)[:24]),
               'h_modpow', setup, oracle, weight=20, qb=20 if m >> 1000 else 5)


def JU(b, e, m, nil):
    """a small base: 1 + x*2^16 or x*2^16, modulus 2^32: the power is 1 + e*x*2^16, or 0 from the square on"""
    def setup(I):
        x = T.var('x', 32, 1, 2**15 - 1)
        I.big[0] = InBig(T.add(T.shl(x, 16, 32), b, 32), [])
        I.num(1, e)
        I.num(2, m)
    o = o_modpow_nil(e, m) if nil else o_modpow_uni(e, 1 << 16, m)
    return Job('modpow(%d+x*2^16, %s, %s)' % (b, hex(e), hex(m)), 'h_modpow', setup, o, weight=10, mode='bv')


def c15(tier, rnd):
    q = tier == 'quick'
    jobs = []
    sm = [('s', 1, 2**31 - 1), ('s', -2**31 + 1, -1)]
    # any single-int modulus, free base
    for s in ('0', 'p', 'n', 1, -1, 2, -2, 3, -3) + (() if q else (4, -4, 5)):
        for m in sm:
            for e in (0, 1, 2, 3, 4, 5, 6) + (() if q else (7, 8, 9, 10, 15, 16, 17)):
                jobs.append(J('h_modpow', (s, ('c', e), m), o_modpow(e), weight=e + 1, vc_timeout=4000))
    # a symbolic exponent
    for s in ('p', 'n', 2, -2):
        for m in sm:
            jobs.append(J('h_modpow', (s, ('s', 0, 5 if q else 11), m), o_modpow_any(5 if q else 11), weight=4))
    # multi-limb moduli
    mods = [2**31, 2**32 - 1, 2**32, 2**33 + 7, 2**64 - 59, -(2**63 + 12345), 2**64, 2**96 - 17, 2**128 + 51, -(2**160 - 2**64 + 1)]
    for s in ('p', 'n', 1, -1, 2, -2, 3):
        for m in mods:
            for e in (0, 1, 2, 3) if q else (0, 1, 2, 3, 4, 5):
                if q and e > 1 and s in (1, -2, 3):
                    continue
                jobs.append(J('h_modpow', (s, ('c', e), ('c', m)), o_modpow(e), weight=10 + 10 * e, feas_timeout=500, budget=20 if q else 120, tag=hex(m)))
    for s in ('p', 'n', 1, 2, -3):
        for m in (1, -1, 2, -2, 3):
            for e in (0, 1) if q else (0, 1, 2):
                jobs.append(J('h_modpow', (s, ('c', e), m), o_modpow(e), weight=10 + 10 * e, feas_timeout=500, tag='free modulus'))
    # negative exponents
    for s in ('0', 'p', -1, 2):
        for e in ('n', -1, -2, ('c', -1), ('c', -2**32)):
            for m in ('p', 'n', 1, -2):
                jobs.append(J('h_modpow', (s, e, m), throws(RANGE)))
    # huge exponents, tiny moduli
    exps = [7, 8, 255, 65537, 2**31 - 1, 2**31, 2**32, 2**32 - 1, 2**33 + 5, 2**63 - 1, 2**64, 2**64 + 2**40 + 6, 2**96 - 1] + [rnd.getrandbits(90) for _ in range(1 if q else 6)]
    for e in exps:
        for m in (2, -3, 4, 5, -7, 10) if q else (2, 3, -3, 4, 5, 6, 7, -7, 8, 9, 10, 11, 12, 13, -16):
            for s in ('p', 'n', 1, -1, 2, -2):
                if q and isinstance(s, int) and abs(s) == 2 and abs(m) > 5:
                    continue
                if s in ('p', 'n'):
                    # x = |m|*y + i
                    for i in range(abs(m)):
                        jobs.append(JR(m, i, e, s == 'n', o_modpow_res(e, m)))
                    continue
                jobs.append(J('h_modpow', (s, ('c', e), ('c', m)), o_modpow_res(e, m), conc_urem=16, weight=3))
    # huge exponents, powers of 2^32 as moduli: base 1 + x*K, K*K = 0 mod m, and base x*K
    for k in (1, 2, 3, 4, 16, 32, 33) if q else (1, 2, 3, 4, 5, 6, 7, 8, 15, 16, 17, 30, 31, 32, 33, 34, 35, 47, 48, 63, 64, 65):
        m = 1 << 32 * k
        h = (k + 1) // 2 if k > 1 else 0
        for e in [0, 1, 2, 3, 5, 2**32 + 1, 2**33 - 1, 2**31] if q else exps + [0, 1, 2, 3, 4, 5, 6]:
            if q and k > 30 and e > 6 and e != 2**32 + 1:
                continue
            if k > 1:
                for nm, lim in (('1+x*2^%d' % (32 * h), [1] + [0] * (h - 1) + [None]), ('1-x*2^%d' % (32 * h), [1] + [0] * (h - 1) + [None] + [M32] * (k - h - 1))):
                    jobs.append(J('h_modpow', (('l', 1, lim, nm), ('c', e), ('c', m)), o_modpow_uni(e, 1 << 32 * h, m), weight=k, feas_timeout=500,
                                  tag='m=2^%d e=%d' % (32 * k, e)))
                jobs.append(J('h_modpow', (('l', 1, [0] * h + [None], 'x*2^%d' % (32 * h)), ('c', e), ('c', m)), o_modpow_nil(e, m), weight=k, feas_timeout=500,
                              tag='m=2^%d e=%d' % (32 * k, e)))
    # small concrete bases and any exponent of a range: every set of exponent bits, results below, around and past the modulus
    for b in (2, 3, -2, 2**31, 2**32 - 1, -2**32, 2**64 - 1) + ((10, -7, 2**63, 2**96 - 1) if not q else ()):
        for m in [rnd.choice(mods), 0x5000000000000001, 2**62 + 1, -(2**95 + 7)] + ([1 << 64, 2**127 - 1, 2**33 - 9, 1 << 1023 | 1, (1 << 1056) - 5] if not q or abs(b) == 2 else []):
            bl = m.bit_length()
            for lo, hi in ((0, 31), (bl - 16, bl + 15)) if q and bl < 1000 else ((0, 31), (bl - 32, bl + 31), (2 * bl, 2 * bl + 31)) if not q else ((bl - 4, bl + 3),):
                if not q or rnd.random() < (.6 if abs(b) > 2 else 1):
                    jobs.append(J('h_modpow', (('c', b), ('s', lo, hi), ('c', m)), o_modpow_tab(b, lo, hi, m), weight=12, tag='%s^[%d..%d] mod %s' % (vname(b), lo, hi, hex(m)[:20])))
    # exponents of several limbs with a free one, every size of base and modulus
    for b in (2, -3, 2**31 - 1, -2**40 + 1, 3**60):
        for m in (2**31 - 1, 2**33 + 7, -(2**64 - 59), 2**96 - 17) + (((1 << 1024) - 105, (1 << 1056) - 5) if b in (2, 3**60) or not q else ()):
            w = 2 if m >> 1000 else 4 if q else 16
            lo = rnd.getrandbits(32) & ~15
            jobs.append(JE(b, [0, 1], 0, lo, lo + w - 1, m))
            jobs.append(JE(b, [rnd.choice((0, 1, M32, lo)), 0], 1, 1, w, m))
            if not q or m.bit_length() < 100:
                jobs.append(JE(b, [rnd.choice((0, 1, M32)), 0, 1 + rnd.getrandbits(3)], 1, 0, w - 1, m))
    # exponents with words of zeros, by both reductions
    for m in (2**96 - 17, (1 << 1024) - 105) + (() if q else ((1 << 1056) - 5, (1 << 2048) - 1942289)):
        for b in (2,) if q and m >> 1000 else (2, -3, 3**60):
            for e, i in (([0, 0, 0], 2), ([0, 0, 1], 0), ([1, 0, 0, 1], 0)) if q and m >> 1000 else (([0, 0, 0], 2), ([0, 0, 1], 0), ([0, 0, 0, 1], 1), ([1, 0, 0, 1], 0), ([M32, 0, M32, 0, 0], 4)):
                lo = 2 if i == 0 else 1
                jobs.append(JE(b, e, i, lo, lo + 1, m))
    for e in (0, 1, 2, 3, 2**31, 2**32 + 1, 2**33 - 1, 2**63 + 2**31 + 5) if q else exps:
        jobs.append(JU(1, e, 2**32, False))
        jobs.append(JU(0, e, 2**32, True))
    # Barrett reduction (moduli of 32 limbs and more): bases close to the modulus, and one free limb
    for n in (32, 33, 34) if q else (31, 32, 33, 34, 40, 48, 63, 64, 65):
        for kd in 'F8RZN':
            ml = limbs(n, kd, (), rnd)
            ml[0] |= 1 if kd != 'Z' else 0
            m = sum(x << 32 * i for i, x in enumerate(ml))
            for e in (1, 2, 3):
                for nm, base in (('x', 'p'), ('m-x', sublow(m, n)), ('x*2^992', ('l', 1, [0] * 31 + [None], 'x*2^992')), ('top', L(n, 'R', 1, (n - 1,), rnd)),
                                 ('long', L(n + 1, 'R', -1, (0,), rnd)), ('long', L(2 * n, 'F', 1, (n,), rnd))):
                    if q and nm in ('top', 'long') and (e > 1 or kd not in 'FR'):
                        continue
                    jobs.append(J('h_modpow', (base, ('c', e), ('c', m)), o_modpow(e), weight=30 * e, feas_timeout=500, vc_timeout=4000,
                                  tag='%s mod %d limbs %s' % (nm, n, kd)))
    return jobs


def sublow(m, n):
    """limbs of m with the lowest replaced by a free one: m - x or m + x for a small x"""
    return ('l', 1, [None] + [m >> 32 * i & M32 for i in range(1, n)], 'modulus with a free low limb')


def o_modpow_tab(base, lo, hi, m):
    """a concrete base, any exponent in [lo, hi]: the result is the entry of the table of powers"""
    @ok
    def g(I, O):
        e, r = I.big[1].val(), O.out[0].val()
        out = 1
        for i in range(lo, hi + 1):
            w = pow(abs(base), i, abs(m))
            w = -w if base < 0 and i & 1 else w
            out = land(out, implies(eqz(e, i), eqz(r, w)))
        return [('base^e mod |m|', out)]
    return g


def o_modpow_any(top):
    @ok
    def g(I, O):
        a, e, m, r = I.big[0].val(), I.big[1].val(), zabs(I.big[2].val()), O.out[0].val()
        out = []
        for i in range(top + 1):
            c = eqz(e, i)
            if c.__class__ is int and not c:
                continue
            p = a ** i if a.__class__ is int else zpow(a, i)
            out += [('congruent to a^%d' % i, implies(c, zdvd(r - p, m))),
                    ('sign of a^%d' % i, implies(c, lor(eqz(r, 0), iff(zof(r) < 0, zof(p) < 0))))]
        return out + [('below |m|', land(zof(r) < m, -zof(m) < r))]
    return g



# ---------------------------------------------------------------- C16

def JG(x, y, na, nb, sa=1, sb=1, name='', lo=1, hi=None, **kw):
    """gcd(x*s, y*s), x and y coprime, s any value for which the operands have na and nb limbs (0: small)"""
    for v, n in ((x, na), (y, nb)):
        if v == 0:
            if n:
                return None
            continue
        if n == 0:
            l, h = 1, 2**31 - 1
        else:
            l, h = (2**31 if n == 1 else 1 << 32 * (n - 1)), (1 << 32 * n) - 1
        lo = max(lo, -(-l // v))
        h = h // v
        hi = h if hi is None else min(hi, h)
    if lo >= hi:
        return None
    W = max(na, nb, 2) * 32 + 2

    def setup(I):
        s = T.var('s', W, lo, hi)
        I.s = s
        for i, v, n, sg in ((0, x, na, sa), (1, y, nb, sb)):
            p = T.mul(s, v, W) if v else 0
            if n == 0:
                t = T.trunc(p, 32) if v else 0
                I.big[i] = InBig(T.sub(0, t, 32) if sg < 0 else t, [])
            else:
                I.big[i] = InBig(sg & M32, [T.trunc(T.lshr(p, 32 * j, W), 32) for j in range(n)])

    @ok
    def oracle(I, O):
        r = O.out[0].val()
        if I.concrete:
            return [('gcd', int(r == math.gcd(I.big[0].val(), I.big[1].val())))]
        return [('gcd is s', eqz(r, zunsigned(I.s, W)))]
    kw.setdefault('weight', na + nb)
    j = Job('gcd(%s%s*s, %s%s*s) %d,%d limbs %s' % ('-' if sa < 0 else '', vname(x), '-' if sb < 0 else '', vname(y), na, nb, name),
               'h_gcd', setup, oracle, fork_udiv=True, **kw)
    j.rng = (lo, hi)
    return j


def vname(v):
    return str(v) if v < 10**6 else '%d-bit' % v.bit_length()


def cf(qs):
    """the coprime pair x > y with these Euclidean quotients"""
    x, y = 1, 0
    for q in reversed(qs):
        x, y = q * x + y, x
    return x, y


def lehmer_events(x, y):
    """What Lehmer's algorithm (HAC 14.57 with Jebelean's condition, 64-bit digits) meets on x >= y: used only to choose operands"""
    L = lambda v: (v.bit_length() + 31) // 32
    ev = set()
    while L(y) > 2:
        k = max(x.bit_length() - 63, 0)
        u, v = x >> k, y >> k
        d = L(x) - L(y)
        ev.add('len%d' % min(d, 3))
        a, b, c, e = 1, 0, 0, 1
        it = 0
        while v:
            q = u // v
            if q > M32:
                ev.add('q>32')
                break
            odd = not it & 1
            r, s, t = (a + q * c, b + q * e, u - q * v) if odd else (e + q * b, c + q * a, u - q * v)
            w = 'odd' if odd else 'even'
            # the true rows: is stopping here necessary, or only cautious?
            V, R = (e * y - c * x, r * x - s * y) if odd else (a * x - b * y, r * y - s * x)
            nec = ' negative' if R < 0 else ' unordered' if R > V else ''
            if r > 2**31 - 1 or s > 2**31 - 1:
                ev.add('big %s%s' % (w, '' if r > M32 or s > M32 or t < s or t + r > v - (c if odd else b) else ' only'))
                break
            if t < s:
                ev.add('t<s ' + w + nec)
                break
            if t + r > v - (c if odd else b):
                ev.add('t+r %s%s%s' % (w, ' only' if t + r <= v else '', nec))
                break
            if odd:
                a, b = r, s
            else:
                e, c = r, s
            u, v = v, t
            it += 1
            if odd and v == b or not odd and v == c:
                ev.add('equal ' + w)
                break
        if not b:
            ev.add('euclid')
            x, y = y, x % y
        else:
            ev.add('parity%d%s' % (it & 1, ' first' if it < 3 else ''))
            if it & 1:
                x, y = a * x - b * y, e * y - c * x
                x, y = y, x
            else:
                x, y = a * x - b * y, e * y - c * x
            if L(x) < L(y):
                ev.add('shorter')
        if y == 0 or x < y:
            break
    ev.add('end%d,%d' % (L(x), L(y)))
    return ev


WEAKER = ['t<s odd', 't<s even', 't+r odd', 't+r even', '-c', '-b', 'q odd', 'q even', 'bound odd', 'bound even', 'equal odd', 'equal even', 'parity', 'order']


def lehmer_weaker(x, y, w):
    """does the algorithm with condition w left out go wrong on these operands?  also used only to choose operands"""
    L = lambda v: (v.bit_length() + 31) // 32
    g = math.gcd(x, y)
    for _ in range(200):
        if L(y) <= 2:
            return y >= 0 and math.gcd(x, y) != g
        k = max(x.bit_length() - 63, 0)
        u, v = x >> k, y >> k
        if u < v or L(x) < L(y):
            return True
        a, b, c, e = 1, 0, 0, 1
        it = 0
        while v:
            odd = not it & 1
            n = 'odd' if odd else 'even'
            q = u // v
            if q > M32 and w != 'q ' + n:
                break
            r, s, t = (a + q * c, b + q * e, u - q * v) if odd else (e + q * b, c + q * a, u - q * v)
            if (r > 2**31 - 1 or s > 2**31 - 1) and w != 'bound ' + n:
                break
            if t < s and w != 't<s ' + n:
                break
            if t + r > v - ((c if w != '-c' else 0) if odd else (b if w != '-b' else 0)) and w != 't+r ' + n:
                break
            r, s = r & M32, s & M32
            if odd:
                a, b = r, s
            else:
                e, c = r, s
            u, v = v, t
            it += 1
            if v == (b if odd else c) and w != 'equal ' + n:
                break
        if not b:
            x, y = y, x % y
        else:
            x, y = a * x - b * y, e * y - c * x
            if (it & 1) != (w == 'parity' and it < 2):
                x, y = y, x
            if x < 0 or y < 0:
                return True
        if w == 'order' and x < y:
            return True
    return True


def c16(tier, rnd):
    q = tier == 'quick'
    jobs = []
    sg = lambda: (rnd.choice((1, -1)), rnd.choice((1, -1)))

    def put(x, y, na, nb, name='', **kw):
        if q and min(na, nb) >= 2 and 'lo' not in kw:
            # one bit length of s at a time, or the position of the leading bits multiplies the paths
            j = JG(x, y, na, nb, 1, 1)
            if j is None:
                return False
            for k in sorted(set((rnd.choice((j.rng[0].bit_length(), j.rng[1].bit_length())), rnd.randint(j.rng[0].bit_length(), j.rng[1].bit_length())))):
                put(x, y, na, nb, name + ' s of %d bits' % k, lo=1 << k - 1, hi=(1 << k) - 1)
            return True
        j = JG(x, y, na, nb, *sg(), name, **kw)
        if j is not None:
            jobs.append(j)
            return True
        return False
    # zero operands
    for n in range(0, 6):
        for s1 in (1, -1):
            jobs.append(JG(1, 0, n, 0, s1, 1))
            jobs.append(JG(0, 1, 0, n, 1, s1))
    jobs.append(J('h_gcd', (('c', 0), ('c', 0)), ok(lambda I, O: [('gcd(0,0)', eqz(O.out[0].val(), 0))])))
    # single-limb ratios, every combination of sizes that some s gives
    pairs = [(1, 1), (2, 1), (3, 2), (5, 3), (7, 2), (10, 3), (1000, 999), (46368, 28657), (2**31 - 1, 2**31 - 2), (2**31 - 1, 2), (65536, 65535), (10**9, 7)]
    pairs += [cf([rnd.randrange(1, 9) for _ in range(rnd.randrange(2, 9))]) for _ in range(6 if q else 30)]
    for x, y in pairs:
        for na in range(0, 5 if q else 7):
            for nb in range(0, na + 1):
                put(x, y, na, nb)
                if x != y:
                    put(y, x, nb, na)
    # operands on which every stopping condition of Lehmer's guessing, and every combination of lengths, is met
    seen = {}
    for _ in range(6000 if q else 40000):
        kind = rnd.randrange(6)
        bits = rnd.choice((24, 30, 31, 32, 33, 36, 48, 60, 64, 66, 90))
        qs = []
        while cf(qs + [2])[0].bit_length() < bits:
            qs.append(1 if kind == 0 else rnd.choice((1, 1, 2, 3)) if kind == 1 else rnd.choice((1, 2, 5, 100, 2**rnd.randrange(1, 34))) if kind == 2 else
                      rnd.randrange(1, 20) if kind == 3 else rnd.choice((1, 1, 2, 2**rnd.randrange(3, 36))))
        if kind == 5:
            qs.insert(rnd.choice((0, 0, len(qs) // 2)), rnd.getrandbits(rnd.randrange(28, 110)) | 1)
        x, y = cf(qs + [2])
        ns = rnd.choice((33, 40, 64, 65, 70, 96)) + rnd.choice((0, 32, 64) if y.bit_length() < 40 else (0,))
        if kind == 5:
            # the leading 96 bits do not depend on the free ones: dividing by a much shorter divisor is linear then
            ns = rnd.choice((112, 128, 140))
        s0 = rnd.getrandbits(ns) | 1 << ns - 1
        if (y * s0).bit_length() <= 64 or (x * s0).bit_length() > 32 * 10:
            continue
        ev = lehmer_events(x * s0, y * s0)
        ev |= {'without ' + w for w in WEAKER if min(x, y).bit_length() > 30 and x != y and lehmer_weaker(max(x, y) * s0, min(x, y) * s0, w)}
        new = [e for e in ev if seen.get(e, 0) < (3 if q else 12)]
        if not new:
            continue
        free = rnd.choice((4, 6, 10, 16))
        lo = s0 >> free << free
        na, nb = [((v * s0).bit_length() + 31) // 32 for v in (x, y)]
        if any(((v * w).bit_length() + 31) // 32 != n for v, n in ((x, na), (y, nb)) for w in (lo, lo + (1 << free) - 1)):
            continue
        for e in ev:
            seen[e] = seen.get(e, 0) + 1
        swap = rnd.random() < 0.3
        put(*((y, x, nb, na) if swap else (x, y, na, nb)), 'event ' + '/'.join(sorted(new)), lo=lo, hi=lo + (1 << free) - 1, weight=5, qb=7)
    # multi-limb cofactors: Lehmer steps on operands of three and more limbs
    def pick(bits, kind):
        qs = []
        while cf(qs + [2])[0].bit_length() < bits:
            if kind == 'fib':
                qs.append(1)
            elif kind == 'small':
                qs.append(rnd.choice((1, 1, 1, 2, 2, 3, 4, 5, 7, 11)))
            elif kind == 'big':
                qs.append(rnd.choice((1, 2, 3, 2**16 + 1, 2**31, 2**32 - 1, 2**32, 2**33 + 5)))
            else:
                qs.append(rnd.choice((1, 2, 40, 300, 2**20 + 3)))
        return cf(qs + [2])
    for bits in (40, 64, 70, 96, 128, 160) if q else (33, 40, 63, 64, 65, 70, 95, 96, 97, 128, 160, 192, 256, 320):
        for kind in ('fib', 'small', 'big', 'mid'):
            for rep in range(2 if q else 6):
                x, y = pick(bits, kind)
                if rep & 1:
                    x, y = y, x
                lx, ly = x.bit_length(), y.bit_length()
                got = 0
                for ns in (1, 16, 32, 64, 96):
                    # s of about ns bits
                    for na in range((lx + ns) // 32, (lx + ns) // 32 + 2):
                        for nb in range((ly + ns) // 32, (ly + ns) // 32 + 2):
                            if na and nb:
                                got += put(x, y, na, nb, kind, lo=1 << ns - 1, hi=(1 << ns) - 1 if ns > 1 else 255)
                    if q and got >= 3:
                        break
    # a free multi-limb value against itself and against small multiples: Lehmer with equal and nearly equal operands
    for n in (3, 4, 5) if q else (3, 4, 5, 6, 8, 10):
        for x, y in ((1, 1), (2, 1), (3, 1), (3, 2), (4, 3), (17, 16), (2**32 - 1, 1), (2**32 - 1, 2**32 - 2)):
            for na in (n, n + 1):
                put(x, y, na, n, 'free')
    return [j for j in jobs if j]


PROPS = [
    Prop('C14', 'pow', c14, {
        'quick': 'every small base up to exponent 10, one-limb bases up to 40, two-limb up to 8, three-limb up to 6 (both signs), every negative exponent, '
                 'bases 0, 1, -1 with every exponent; bases of 4-40 limbs with one free limb, exponents 2-4 (some 5, 6); selected concrete bases up to exponent 65',
        'thorough': 'small bases up to exponent 20, one limb up to 64, two up to 16, three up to 9, four up to 8, five and six limbs; structured bases up to 128 limbs; exponents to 256 for concrete bases'}, budget_quick=10, vc_quick=3000),
    Prop('C15', 'mod_pow', c15, {
        'quick': 'every single-int modulus (symbolic, both signs) with bases 0, small, 1-3 limbs (both signs) and exponents 0-6, or a symbolic exponent 0-5; '
                 'ten multi-limb moduli up to 5 limbs with free bases up to 3 limbs, exponents 0-3, and free 1-3-limb moduli with exponents 0-1 (paths as time allows); '
                 'exponents up to 96 bits with moduli up to 10; moduli 2^(32k), k up to 34, with bases 1+x*2^(32h) and x*2^(32h) and exponents up to 2^33; '
                 'moduli of 32-34 limbs with one free base limb, exponents 1-3 (paths as time allows); every negative exponent',
        'thorough': 'the same with bases up to 5 limbs, exponents to 17, symbolic exponents to 11, moduli to 16 for huge exponents, 2^(32k) to k = 65, structured moduli to 65 limbs'},
        budget_quick=2, vc_quick=1200, wall_quick=110),
    Prop('C16', 'gcd', c16, {
        'quick': 'operands x*s and y*s for about 70 coprime pairs (x, y) up to 160 bits (chosen by their Euclidean quotients: Fibonacci, small, large and mixed) and every s '
                 'that gives operands of 0-6 limbs in the listed combinations, all signs; zero operands',
        'thorough': 'about 380 pairs up to 320 bits, operands to 14 limbs'},
        assumptions=['the quotients of Euclid\'s algorithm are concrete per job; the scale s is symbolic'], budget_quick=2, vc_quick=1000, wall_quick=140),
]
