"""C05 bitwise operators, C06 shifts, C08/C09 byte arrays, C12 machine integers, C17 predicates, C23 word arrays."""
from lib import *
from p_arith import shapes, UN, o_un


def k32(v):
    """the low 32 bits of an argument as a signed integer"""
    return zsigned(v & M32 if v.__class__ is int else T.trunc(v, 32), 32)


def ksym(name, lo, hi):
    """a symbolic 64-bit argument carrying an int in [lo, hi]"""
    def f(I):
        if lo >= 0 or hi < 0:
            return T.zext(T.var(name, 32, lo & M32, hi & M32), 64)
        v = T.var(name, 32)
        I.assume += [T.not_(T.slt(v, lo & M32, 32)), T.not_(T.slt(hi & M32, v, 32))]
        return T.zext(v, 64)
    f.rng = (lo, hi)
    return f


# ---------------------------------------------------------------- C05

BIT = {'and': lambda a, b: a & b, 'or': lambda a, b: a | b, 'xor': lambda a, b: a ^ b}


def o_bit(f):
    @ok
    def g(I, O):
        a, b = I.big[0].val(), I.big[1].val()
        if a.__class__ is int and b.__class__ is int:
            e = f(a, b)
        else:
            e = f(zof(a), zof(b))
        return [('bitwise result of the infinite two\'s complement operands', eqz(O.out[0].val(), e))]
    return g


@ok
def o_bit_self_id(I, O):
    return [('a op a == a', eqz(O.out[0].val(), I.big[0].val()))]


@ok
def o_zero(I, O):
    return [('a ^ a == 0', eqz(O.out[0].val(), 0))]


def c05(tier, rnd):
    q = tier == 'quick'
    jobs = []
    S = shapes(3 if q else 5)
    bv = dict(mode='bv')
    for a in S:
        for b in S:
            three = 3 in (a, b, -a if isinstance(a, int) else 0, -b if isinstance(b, int) else 0)
            if q and a == b == -3:
                continue
            for op in BIT if not (q and three) else (sorted(BIT)[len(jobs) % 3],):
                jobs.append(J('h_' + op, (a, b), o_bit(BIT[op]), weight=1 + 2 * three, **bv))
    for a in shapes(2):
        for b in shapes(2):
            for op in BIT if not q else (sorted(BIT)[len(jobs) % 3],):
                jobs.append(J('h_%s_eq' % op, (a, b), o_bit(BIT[op]), **bv))
    for a in shapes(3):
        for op in BIT:
            o = o_zero if op == 'xor' else o_bit_self_id
            jobs.append(J('h_%s_self' % op, (a,), o, **bv))
            jobs.append(J('h_%s_same' % op, (a,), o, **bv))
        jobs.append(J('h_un', (a,), o_un(2), k=(2,)))
    for a, b in ((4, 4), (8, 8), (6, 1), (-4, 'p'), (5, 'n'), (-5, 1)) if q else \
            ((4, 4), (-4, 4), (-5, 5), (5, -6), (-6, -6), (6, 1), (-6, 1), (1, -6), (-7, -2), (8, -8), (-8, -8), (12, 12)):
        for op in BIT:
            jobs.append(J('h_' + op, (a, b), o_bit(BIT[op]), weight=2, **bv))
    # negative operands of 4-8 limbs, some limbs fixed
    for n, m in ((4, 4), (5, 4), (4, 6), (8, 8)):
        for sa, sb in ((-1, 1), (1, -1), (-1, -1)):
            for ka, kb in (('Z', 'M'), ('M', 'F'), ('8', 'Z')):
                la = L(n, ka, sa, (0, n - 1), rnd)
                lb = L(m, kb, sb, (rnd.randrange(m), m - 1), rnd)
                op = sorted(BIT)[len(jobs) % 3]
                jobs.append(J('h_' + op, (la, lb), o_bit(BIT[op]), weight=2, **bv))
    for n in (9, 13) if q else (9, 17, 33, 65, 129):
        for ka, kb in (('F', 'Z'), ('Z', 'Z'), ('M', 'M'), ('8', 'F'), ('Z', 'F')):
            for sa, sb in ((-1, -1), (-1, 1), (1, -1), (1, 1)):
                m = rnd.choice((n, n - 1, n // 2, 2))
                la = L(n, ka, sa, (0, rnd.randrange(n), n - 1), rnd)
                lb = L(m, kb, sb, (rnd.randrange(m), m - 1), rnd)
                op = rnd.choice(sorted(BIT))
                jobs.append(J('h_' + op, (la, lb), o_bit(BIT[op]), weight=2, **bv))
    return jobs


# ---------------------------------------------------------------- C06

def o_shift(left, hi):
    @ok
    def g(I, O):
        a, r = I.big[0].val(), O.out[0].val()
        k = k32(I.k[0])
        if k.__class__ is int:
            s = k if left else -k
            e = zshl(a, s, s) if s >= 0 else zshr(a, -s) if -s < 1 << 20 or a.__class__ is int else zite(B(a < 0), -1, 0)
        else:
            # k is symbolic with a known sign in its range
            neg = k.hi < 0
            m = -k if neg else k
            t = zbits(m, 64)
            e = zshl(a, t, hi) if left != neg else zshr(a, t)
        return [('a * 2^k' if left else 'floor(a / 2^k)', eqz(r, e))]
    return g


def shift_jobs(fn, a, lo, hi, left, **kw):
    return J(fn, (a,), o_shift(left, max(abs(lo), abs(hi))), k=(ksym('k', lo, hi),), tag='k in [%d..%d]' % (lo, hi), mode='bv', **kw)


def c06(tier, rnd):
    q = tier == 'quick'
    jobs = []
    N = 3 if q else 5
    for a in shapes(N):
        n = abs(a) if isinstance(a, int) else 1
        for d in range(n + 2):
            jobs.append(shift_jobs('h_shr', a, 32 * d, 32 * d + 31, False, weight=1 + d))
            jobs.append(shift_jobs('h_shl', a, 32 * d, 32 * d + 31, True, weight=1 + d))
            if n <= 2:
                jobs.append(shift_jobs('h_shr', a, -32 * d - 31, -32 * d - 1 if d == 0 else -32 * d, False, weight=1 + d))
                jobs.append(shift_jobs('h_shl', a, -32 * d - 31, -32 * d - 1 if d == 0 else -32 * d, True, weight=1 + d))
                jobs.append(shift_jobs('h_shr_eq', a, 32 * d, 32 * d + 31, False, weight=1 + d))
                jobs.append(shift_jobs('h_shl_eq', a, 32 * d, 32 * d + 31, True, weight=1 + d))
        for k in (0x7fffffff, 0x7fffffff - 31, 1 << 20, 32 * n, 32 * n - 1, 32 * n + 1):
            jobs.append(J('h_shr', (a,), o_shift(False, k), k=(k,), mode='bv'))
            jobs.append(J('h_shl', (a,), o_shift(True, k), k=(-k,), mode='bv'))
        jobs.append(J('h_shl', (a,), o_shift(True, 1 << 31), k=(-(1 << 31),), mode='bv'))
    for k in (0, 1, 31, 32, 33, 0x7fffffff, -0x80000000, -1, -32, -0x7fffffff):
        if -1 << 20 < k < 1 << 20:
            jobs.append(J('h_shl', ('0',), o_shift(True, 64), k=(k,), mode='bv'))
        if k >= -1 << 20:
            jobs.append(J('h_shr', ('0',), o_shift(False, 64), k=(k,), mode='bv'))
    # long operands; the interesting negative case is a magnitude whose low limbs are all zero
    for n in (4, 5, 9, 33) if q else (4, 5, 6, 9, 17, 33, 65, 129):
        for kd in 'ZFM8':
            for s in (1, -1):
                for d in sorted({0, 1, n - 2, n - 1, rnd.randrange(n)}):
                    lo = 32 * d
                    if n > 6:
                        # one bit offset on long operands, symbolic limbs at both ends
                        lo = hi = 32 * d + rnd.choice((0, 0, 1, 31, rnd.randrange(32)))
                    else:
                        hi = lo + 31
                    la = L(n, kd, s, (0, n - 1, d), rnd) if rnd.random() < .5 else L(n, kd, s, (n - 1, d), rnd)
                    if n > 6:
                        jobs.append(J('h_shr', (la,), o_shift(False, hi), k=(lo,), mode='bv', weight=2))
                        jobs.append(J('h_shl', (la,), o_shift(True, hi), k=(lo,), mode='bv', weight=2))
                    else:
                        jobs.append(shift_jobs('h_shr', la, lo, hi, False, weight=2))
                        jobs.append(shift_jobs('h_shl', la, lo, hi, True, weight=2))
    return jobs


# ---------------------------------------------------------------- C08

def le(b, big):
    return list(reversed(b)) if big else list(b)


def signed_value(ws, w):
    """two's complement value of little-endian words"""
    if not ws:
        return 0
    v = zvalue(ws, w)
    return v - zite(T.not_(T.ult(ws[-1], 1 << (w - 1), w)) if ws[-1].__class__ is Term else int(ws[-1] >> (w - 1)), 1 << (w * len(ws)), 0)


def minimal(ws, w):
    """no shorter two's complement representation"""
    if len(ws) <= 1:
        return 1
    top, nxt = ws[-1], ws[-2]
    m = (1 << w) - 1
    hi = lambda x: T.not_(T.ult(x, 1 << (w - 1), w)) if x.__class__ is Term else int(x >> (w - 1))
    return lnot(lor(land(T.eq(top, 0, w), lnot(hi(nxt))), land(T.eq(top, m, w), hi(nxt))))


def o_bytes(unsigned, big):
    def g(I, O):
        v = I.big[0].val()
        neg = B(v < 0)
        if O.status == 'throw':
            return [('throws only for a negative value exported as unsigned', land(neg, int(unsigned)))]
        if not O.ok():
            return [('returns normally (got %s)' % (O.exc,), 0)]
        b = le(O.obuf, big)
        cnt = k32(O.r[0])
        res = [('at least one byte', int(len(b) > 0)), ('get_byte_count == length', eqz(cnt, len(b)))]
        if unsigned:
            res.append(('no result for a negative value', lnot(neg)))
            res.append(('bytes encode the value', eqz(zvalue(b, 8), v)))
            if len(b) > 1:
                res.append(('no redundant byte', lnot(T.eq(b[-1], 0, 8))))
        else:
            res.append(('bytes encode the value', eqz(signed_value(b, 8), v)))
            res.append(('no redundant byte', minimal(b, 8)))
        return res
    return g


def o_bytes_rt(unsigned, big):
    def g(I, O):
        neg = B(I.big[0].val() < 0)
        if O.status == 'throw':
            return [('throws only for a negative value exported as unsigned', land(neg, int(unsigned)))]
        if not O.ok():
            return [('returns normally (got %s)' % (O.exc,), 0)]
        return [('import(export(a)) == a', eqz(O.out[0].val(), I.big[0].val())), ('identical object', O.out[0].same(I.big[0]))]
    return g


def o_count(unsigned):
    def g(I, O):
        neg = B(I.big[0].val() < 0)
        if O.status == 'throw':
            return [('throws only for a negative value counted as unsigned', land(neg, int(unsigned)))]
        if not O.ok():
            return [('returns normally (got %s)' % (O.exc,), 0)]
        return [('no unsigned count for a negative value', lnot(land(neg, int(unsigned)))),
                ('at least one byte', lnot(eqz(k32(O.r[0]), 0)))]
    return g


def c08(tier, rnd):
    q = tier == 'quick'
    jobs = []
    for a in shapes(4 if q else 8):
        for u in (0, 1):
            jobs.append(J('h_bytecount', (a,), o_count(u), k=(u,), mode='bv'))
            for b in (0, 1):
                jobs.append(J('h_bytes', (a,), o_bytes(u, b), k=(u, b), mode='bv'))
                jobs.append(J('h_bytes_rt', (a,), o_bytes_rt(u, b), k=(u, b), mode='bv', weight=2))
    for n in (5, 9, 33) if q else (9, 17, 33, 65, 129):
        for kd in 'FZ8M':
            for s in (1, -1):
                u, b = rnd.choice((0, 1)), rnd.choice((0, 1))
                u = u if s > 0 else 0
                la = L(n, kd, s, (0, n // 2, n - 1), rnd)
                lb = L(n, kd, s, (n - 1,), rnd)
                for x in (la, lb):
                    jobs.append(J('h_bytes', (x,), o_bytes(u, b), k=(u, b), mode='bv', weight=2))
                    jobs.append(J('h_bytes_rt', (x,), o_bytes_rt(u, 1 - b), k=(u, 1 - b), mode='bv', weight=3))
    return jobs


# ---------------------------------------------------------------- C09

def o_from(unsigned, big):
    @ok
    def g(I, O):
        b = le(I.buf, big)
        v = zvalue(b, 8) if unsigned else signed_value(b, 8)
        return [('value of the bytes', eqz(O.out[0].val(), v)), ('canonical', O.out[0].canon())]
    return g


def jbuf(fn, buf, oracle, k=(), tag='', mode='bv', shp=(), **kw):
    """buf: list of ints, None (any byte) or (lo, hi)"""
    def setup(I):
        for i, s in enumerate(shp):
            I.operand(i, shape(s))
        for i, v in enumerate(k):
            I.k[i] = v & M64
        I.buf = [x if isinstance(x, int) else T.var('s%d' % i, 8, *(x or (0, 255))) for i, x in enumerate(buf)]
    name = '%s(%d bytes%s) k=%s' % (fn[2:], len(buf), tag and ' ' + tag, ','.join(map(str, k)))
    return Job(name, fn, setup, oracle, mode=mode, **kw)


def c09(tier, rnd):
    q = tier == 'quick'
    jobs = []
    for n in list(range(0, 14)) + ([16, 17] if q else list(range(14, 34))):
        for u in (0, 1):
            for b in (0, 1):
                jobs.append(jbuf('h_frombytes', [None] * n, o_from(u, b), (u, b), weight=1 + n / 8))
                # redundant sign bytes above the symbolic ones
                for pad, z in ((0, rnd.randrange(1, 9)), (0xFF, rnd.randrange(1, 9))):
                    x = [None] * n + [pad] * z
                    if n <= 9 or not q:
                        jobs.append(jbuf('h_frombytes', x[::-1] if b else x, o_from(u, b), (u, b), 'top %d of %#x' % (z, pad), weight=2))
                # redundant low zeros
                z = rnd.randrange(1, 14)
                x = [0] * z + [None] * n
                if n <= 9 or not q:
                    jobs.append(jbuf('h_frombytes', x[::-1] if b else x, o_from(u, b), (u, b), 'low %d of 0' % z, weight=2))
    for n in (33, 64, 130, 132) if q else (33, 64, 65, 130, 131, 132, 133, 260):
        for u in (0, 1):
            for b in (0, 1):
                for kd in (0, 0xFF, None):
                    x = [kd if kd is not None else rnd.choice((0, 0, 255, 255, 128, 1, rnd.randrange(256))) for _ in range(n)]
                    for i in (0, n - 1, n - 2, n - 5, rnd.randrange(n)):
                        x[i] = None
                    jobs.append(jbuf('h_frombytes', x, o_from(u, b), (u, b), 'pattern', weight=3))
    return jobs


# ---------------------------------------------------------------- C12

def o_ctor(kind):
    @ok
    def g(I, O):
        v = I.k[1]
        t = lambda w: v & ((1 << w) - 1) if v.__class__ is int else T.trunc(v, w)
        e = {0: lambda: zsigned(t(32), 32), 1: lambda: zunsigned(t(32), 32), 2: lambda: zsigned(v, 64), 3: lambda: zunsigned(v, 64)}[kind]()
        return [('value', eqz(O.out[0].val(), e)), ('canonical', O.out[0].canon())]
    return g


RANGES = {0: (-2**31, 2**31 - 1), 1: (0, 2**32 - 1), 2: (-2**63, 2**63 - 1), 3: (0, 2**64 - 1)}


def o_cast(kind):
    lo, hi = RANGES[kind]

    def g(I, O):
        v = I.big[0].val()
        inr = land(lnot(B(v < lo)), lnot(B(v > hi)))
        if O.status == 'throw':
            return [('throws only when the value does not fit', lnot(inr)), ('throws overflow_error', int(is_exc(O.exc, OVERFLOW)))]
        if not O.ok():
            return [('returns normally (got %s)' % (O.exc,), 0)]
        r = zsigned(O.r[0], 64)
        if kind == 3:
            r = zunsigned(O.r[0], 64)
        return [('throws when the value does not fit', inr), ('exact value', implies(inr, eqz(r, v)))]
    return g


@ok
def o_words(I, O):
    """BigInteger(words, negative)"""
    m = I.big[0].mag() if I.big[0].limbs else 0
    n = I.k[1]
    e = -m if n else m
    return [('value', eqz(O.out[0].val(), e)), ('canonical form', O.out[0].canon())]


def c12(tier, rnd):
    q = tier == 'quick'
    jobs = []
    for kind in range(4):
        jobs.append(J('h_ctor', (), o_ctor(kind), k=(kind, lambda I: T.var('k', 64)), mode='bv', tag='any value'))
        for v in (0, 1, -1, 2**31 - 1, -2**31, 2**31, 2**32 - 1, 2**32, -2**31 - 1, 2**63 - 1, -2**63, -2**63 + 1, -2**32, -2**32 + 1):
            jobs.append(J('h_ctor', (), o_ctor(kind), k=(kind, v), mode='bv'))
        for a in shapes(4 if q else 8):
            jobs.append(J('h_cast', (a,), o_cast(kind), k=(kind,), mode='bv'))
        for n in (5, 33) if q else (9, 33, 65):
            for s in (1, -1):
                jobs.append(J('h_cast', (L(n, 'Z', s, (0, n - 1), rnd),), o_cast(kind), k=(kind,), mode='bv'))
    return jobs


# ---------------------------------------------------------------- C17

def bitlen(v):
    """position of the highest bit that differs from the sign, plus one"""
    if v.__class__ is int:
        return (v if v >= 0 else ~v).bit_length()
    w = zw(v)
    x = zbits(v, w)
    x = T.xor(x, T.ashr(x, w - 1, w), w)     # v or ~v
    r = 0
    for i in range(w):
        r = zite(T.not_(T.ult(x, 1 << i, w)), i + 1, r)
    return r


def bitlen_of(b):
    """the same for an operand, from its limbs: the top limb decides, except for a negative power of two"""
    if not b.limbs or b.sign.__class__ is not int or I_int(b):
        return bitlen(b.val())
    top = b.limbs[-1]
    r = 0
    if top.__class__ is int:
        r = top.bit_length()
    else:
        for i in range(32):
            r = zite(T.not_(T.ult(top, 1 << i, 32)), i + 1, r)
    low0 = land(*[T.eq(x, 0, 32) for x in b.limbs[:-1]])
    p2 = land(low0, int(top & (top - 1) == 0) if top.__class__ is int else T.eq(T.and_(top, T.sub(top, 1, 32), 32), 0, 32))
    base = 32 * (len(b.limbs) - 1) + r
    return base if T.sgn(b.sign, 32) > 0 else base - zite(p2, 1, 0)


def I_int(b):
    return all(x.__class__ is int for x in b.limbs)


def o_pred(I, O):
    if not O.ok():
        return [('returns normally (got %s)' % (O.exc,), 0)]
    v = I.big[0].val()
    r = [k32(O.r[i]) for i in range(5)]
    b = lambda x: T.eq(x & 1, 1, 1) if x.__class__ is int else x
    is1 = lambda x: eqz(x, 1)
    sg = zite(B(v < 0), -1, zite(eqz(v, 0), 0, 1))
    bl = bitlen_of(I.big[0])
    if v.__class__ is int:
        p2 = int(v > 0 and v & (v - 1) == 0)
        even = int(v % 2 == 0)
    else:
        w = zw(v) + 1
        x = zbits(v, w)
        p2 = land(B(v > 0), T.eq(T.and_(x, T.sub(x, 1, w), w), 0, w))
        even = T.eq(T.trunc(x, 1), 0, 1)
    return [
        ('is_zero', iff(is1(r[0]), eqz(v, 0))), ('is_one', iff(is1(r[1]), eqz(v, 1))), ('is_even', iff(is1(r[2]), even)),
        ('is_power_of_two', iff(is1(r[3]), p2)), ('sign has the sign of the value', land(iff(B(r[4] < 0), B(v < 0)), iff(B(r[4] > 0), B(v > 0)))),
        ('get_bit_length', eqz(zunsigned(O.r[5], 64), bl)),
    ]


@ok
def o_const(I, O):
    return [('zero', eqz(O.out[0].val(), 0)), ('one', eqz(O.out[1].val(), 1)), ('minus_one', eqz(O.out[2].val(), -1)),
            ('default', eqz(O.out[3].val(), 0))]


def c17(tier, rnd):
    q = tier == 'quick'
    jobs = [J('h_const', (), o_const)]
    for a in shapes(6 if q else 12):
        jobs.append(J('h_pred', (a,), o_pred, mode='bv'))
    for n in (9, 33) if q else (16, 33, 65, 129):
        for kd in 'FZ8M':
            for s in (1, -1):
                for sym in ((0,), (n - 1,), (n // 2,), (0, n - 1)):
                    jobs.append(J('h_pred', (L(n, kd, s, sym, rnd),), o_pred, mode='bv'))
    return jobs


# ---------------------------------------------------------------- C23

@ok
def o_u32(I, O):
    w = O.obuf
    res = [('two\'s complement words encode the value', eqz(signed_value(w, 32), I.big[0].val())), ('no redundant word', minimal(w, 32))]
    return res


def c23(tier, rnd):
    q = tier == 'quick'
    jobs = []
    for a in shapes(5 if q else 10):
        jobs.append(J('h_u32', (a,), o_u32, mode='bv'))
    for n in (9, 33) if q else (9, 17, 33, 65, 129):
        for kd in 'FZ8M':
            for s in (1, -1):
                for sym in ((0, n - 1), (n - 1,), (n // 2, n - 1)):
                    jobs.append(J('h_u32', (L(n, kd, s, sym, rnd),), o_u32, mode='bv', weight=2))
    # two's complement words, made and read back: x & -1, x ^ 0, x ^ -1
    def back(f):
        return ok(lambda I, O: [('value read back from the words', eqz(O.out[0].val(), f(I.big[0].val()))), ('canonical form', O.out[0].canon())])
    for a in shapes(4 if q else 8) + [L(n, kd, s, (0, n - 1), rnd) for n in ((9, 33) if q else (9, 17, 33, 65)) for kd in 'FZ8' for s in (1, -1)]:
        jobs.append(J('h_and', (a, ('c', -1)), back(lambda v: v), mode='bv'))
        jobs.append(J('h_xor', (a, ('c', -1)), back(lambda v: -v - 1), mode='bv'))
        jobs.append(J('h_xor', (a, ('c', 0)), back(lambda v: v), mode='bv'))
        jobs.append(J('h_or', (a, ('c', 0)), back(lambda v: v), mode='bv'))
        for k in (1, -2**31 + 1, 2**31 - 1, -2):
            jobs.append(J('h_xor', (a, ('c', k)), ok(lambda I, O: [('canonical form', O.out[0].canon())]), mode='bv'))
    # sign and magnitude words, with leading zeros, into a value
    for n in range(0, 4 if q else 7):
        for neg in (0, 1):
            for z in (0, 1, 2):
                ls = [None] * n + [0] * z

                def setup(I, ls=ls, neg=neg):
                    I.big[0] = InBig(0, [T.var('a%d' % i, 32) if x is None else x for i, x in enumerate(ls)])
                    I.k[0] = 5
                    I.k[1] = neg
                jobs.append(Job('words(%d any, %d zero, negative=%d)' % (n, z, neg), 'h_ctor', setup, o_words, mode='bv'))
    return jobs


from run import InBig

PROPS = [
    Prop('C05', 'bitwise', c05, {
        'quick': 'all operand pairs of up to 3 limbs (every sign and the small representation), selected pairs up to 8 limbs, '
                 '9/13-limb operands with up to 3 symbolic limbs',
        'thorough': 'all pairs of up to 5 limbs, selected up to 16, structured up to 129 limbs'}),
    Prop('C06', 'shift', c06, {
        'quick': 'all values of up to 3 limbs by every shift of up to 32*(limbs+2)-1 (symbolic amount, both signs), very large right '
                 'shifts, 4-33 limb structured operands',
        'thorough': 'all values of up to 5 limbs; structured operands up to 129 limbs'}),
    Prop('C08', 'export', c08, {
        'quick': 'all values of up to 4 limbs, all flags; 5/9/33-limb structured values with up to 3 symbolic limbs',
        'thorough': 'all values of up to 8 limbs; structured up to 129 limbs'}),
    Prop('C09', 'import', c09, {
        'quick': 'every byte string of 0-13, 16, 17 bytes, all flags; longer ones with sign padding or patterns and 5 symbolic bytes '
                 '(up to 132 bytes)',
        'thorough': 'every byte string of up to 33 bytes; patterns up to 260 bytes'}),
    Prop('C12', 'machine integers', c12, {
        'quick': 'constructors: every 32/64-bit argument; casts: all values of up to 4 limbs and structured 5/33-limb ones',
        'thorough': 'casts: all values of up to 8 limbs, structured up to 65 limbs'}),
    Prop('C17', 'predicates', c17, {
        'quick': 'all values of up to 6 limbs; structured 9/33-limb values', 'thorough': 'all values of up to 12 limbs; up to 129'}),
    Prop('C23', 'words', c23, {
        'quick': 'all values of up to 5 limbs; structured 9/33-limb; construction from up to 3 arbitrary and 2 zero words',
        'thorough': 'all values of up to 10 limbs; structured up to 129 limbs; construction from up to 6 arbitrary words'}),
]
