"""C10 decimal output, C11 decimal input."""
from lib import *
from p_arith import shapes
from p_bits import jbuf

D0 = 48


def o_str(I, O):
    if not O.ok():
        return [('returns normally (got %s)' % (O.exc,), 0)]
    v = I.big[0].val()
    neg = B(v < 0)
    bs = O.obuf
    if not bs:
        return [('not empty', 0)]
    minus = T.eq(bs[0], 45, 8)
    res = [('a minus sign exactly for negative values', iff(minus, neg))]
    # the sign is concrete on every path except when it could not be decided
    if minus.__class__ is not int and neg.__class__ is int:
        minus = neg
    if minus.__class__ is not int:
        res.append(('the first character is decided', 0))
        return res
    ds = bs[1:] if minus else bs
    n = len(ds)
    if n == 0:
        return res + [('has digits', 0)]
    zs = [zunsigned(d, 8) - 48 for d in ds]
    res.append(('only digits', land(*[land(lnot(B(z < 0)), lnot(B(z > 9))) for z in zs])))
    tot = 0
    for i, z in enumerate(zs):
        tot = tot + z * 10 ** (n - 1 - i)
    res.append(('digits have the value', eqz(tot, zabs(v))))
    if n > 1:
        res.append(('no leading zero', lnot(T.eq(ds[0], 48, 8))))
    return res


@ok
def o_str_rt(I, O):
    return [('parse(to_string(a)) == a', eqz(O.out[0].val(), I.big[0].val())), ('identical object', O.out[0].same(I.big[0]))]


DIGITS = [(1, 9)] + [(10 ** i, 10 ** (i + 1) - 1) for i in range(1, 9)] + [(10 ** 9, 2 ** 31 - 1)]


def c10(tier, rnd):
    q = tier == 'quick'
    jobs = []
    for lo, hi in [(0, 0)] + DIGITS:
        for s in (1, -1):
            if lo or s == 1:
                rg = ('s', lo, hi) if s == 1 else ('s', -hi, -lo)
                rg = rg if hi else ('c', 0)
                jobs.append(J('h_str', (rg,), o_str, mode='int'))
                if hi < 10 ** 9:
                    jobs.append(J('h_str_rt', (rg,), o_str_rt, mode='int'))
    jobs.append(J('h_str', (('c', -(2 ** 31)),), o_str))
    for n in range(1, 7 if q else 10):
        for s in (n, -n):
            jobs.append(J('h_str', (s,), o_str, weight=n, mode='int', budget=900))
    for s in (1, -1):
        jobs.append(J('h_str_rt', (s,), o_str_rt, mode='int'))
    # longer values, some limbs symbolic
    for n in (7, 9, 12, 16) if q else (7, 9, 12, 16, 24, 33, 48):
        for kd in 'FRMZ8':
            for sg in (1, -1):
                for sy in ((0,), (rnd.randrange(n // 2),)):
                    jobs.append(J('h_str', (L(n, kd, sg, sy, rnd),), o_str, weight=3, mode='int', budget=300))
    # decimal boundaries: around powers of ten (every residue of the digit count modulo the nine-digit groups)
    for e in range(10, 64 if q else 200):
        for d in (0, -1) if q else (0, -1, 1, 7):
            v = 10 ** e + d
            ls = [(v >> (32 * i)) & M32 for i in range((v.bit_length() + 31) // 32)]
            sg = -1 if (e + d) & 1 or not q else 1
            for s2 in (sg,) if q else (1, -1):
                jobs.append(J('h_str', (('l', s2, [None] + ls[1:], '10^%d%+d, lowest limb free' % (e, d)),), o_str, weight=1.5, mode='int'))
                if e % 9 in (0, 8):
                    jobs.append(J('h_str', (('c', s2 * v),), o_str, weight=1))
    # round trip of long values whose low limb is free
    for n in (2, 3, 5, 8) if q else (2, 3, 5, 8, 12, 20, 33):
        for kd in 'RM':
            for sg in (1, -1):
                jobs.append(J('h_str_rt', (L(n, kd, sg, (0,), rnd, top=rnd.getrandbits(31) | 1 << 20),), o_str_rt, weight=3, mode='int'))
    return jobs


# ---------------------------------------------------------------- C11

def expected(buf):
    """[(condition, value)] over the possible lengths of the digit run; the first that applies"""
    alts = []

    def dig(x):
        return land(T.not_(T.ult(x, 48, 8)) if x.__class__ is Term else int(x >= 48), T.ult(x, 58, 8) if x.__class__ is Term else int(x < 58))
    if not buf:
        return [(1, 0)]
    minus = T.eq(buf[0], 45, 8)
    plus = T.eq(buf[0], 43, 8)
    for sg, cond in ((-1, minus), (1, plus), (0, lnot(lor(minus, plus)))):
        if cond.__class__ is int and not cond:
            continue
        rest = buf[1:] if sg else buf
        run = cond
        v = 0
        for i in range(len(rest) + 1):
            if i == len(rest):
                alts.append((run, v * (sg or 1)))
                break
            d = dig(rest[i])
            alts.append((land(run, lnot(d)), v * (sg or 1)))
            run = land(run, d)
            if run.__class__ is int and not run:
                break
            v = v * 10 + (zunsigned(rest[i], 8) - 48)
    return [(c, v) for c, v in alts if not (c.__class__ is int and not c)]


@ok
def o_parse(I, O):
    r = O.out[0].val()
    conds = [implies(c, eqz(r, v)) for c, v in expected(I.buf)]
    return [('value of the digits', land(*conds)), ('canonical', O.out[0].canon())]


@ok
def o_try(I, O):
    return o_parse(I, O) + [('reports success', T.eq(O.r[0], 1, 64))]


def digits(fn, oracle, n, pre='', post=(), conc=None, tag='', k=(), shp=()):
    """pre, n decimal digits (free except those in conc), post"""
    conc = conc or {}
    buf = [ord(c) for c in pre] + [48 + conc[i] if i in conc else (48, 57) for i in range(n)] + \
          [ord(c) if isinstance(c, str) else c for c in post]
    return jbuf(fn, buf, oracle, k, tag or '%r + %d digits%s' % (pre, n, ' + %r' % (list(post),) if post else ''), 'int', shp=shp,
                weight=1 + n / 10)


def c11(tier, rnd):
    q = tier == 'quick'
    jobs = []
    for n in range(0, 6 if q else 9):
        jobs.append(jbuf('h_parse', [None] * n, o_parse, (), 'any', 'int', budget=600))
        if n < 4:
            for s in ('0', 'p', -2):
                jobs.append(jbuf('h_try_parse', [None] * n, o_try, (), 'any, target %s' % sname(s), 'int', shp=(s,)))
    for n in range(5, 12 if q else 14):
        for pre in ('', '-', '+'):
            jobs.append(digits('h_parse', o_parse, n, pre))
    # leading zeros
    for z in (1, 8, 9, 10, 40):
        for pre in ('', '-', '+'):
            jobs.append(digits('h_parse', o_parse, 9, pre + '0' * z))
    # one or two free bytes anywhere in or after the digits: they end the number, or are part of it
    for n in (8, 9, 10, 11, 19, 20, 29) if q else range(6, 40):
        for _ in range(3):
            x = [rnd.randrange(48, 58) for _ in range(n)]
            x[0] = rnd.randrange(49, 58)
            for i in {rnd.randrange(1, n), n - 1}:
                x[i] = None
            pre = rnd.choice(('', '-', '+'))
            jobs.append(jbuf('h_parse', [ord(c) for c in pre] + x, o_parse, (), '%r, digits, free bytes' % pre, 'int', weight=2))
    for n in (5, 12, 21, 35):
        x = [rnd.randrange(48, 58) for _ in range(n)]
        for pre in ('', '-'):
            jobs.append(jbuf('h_parse', [None] + [ord(c) for c in pre] + x, o_parse, (), 'free byte, %r, %d digits' % (pre, n), 'int', weight=2))
            jobs.append(jbuf('h_try_parse', [None] + [ord(c) for c in pre] + x, o_try, (), 'free byte, %r, %d digits' % (pre, n), 'int', shp=(-3,), weight=2))
            jobs.append(jbuf('h_parse', [ord(c) for c in pre] + x + [None, None, 55], o_parse, (), '%r, %d digits, two free bytes, 7' % (pre, n), 'int', weight=2))
    # long digit strings, some digits free
    for n in (12, 19, 20, 28, 40, 60, 100, 160) if q else (12, 19, 20, 21, 28, 29, 38, 40, 60, 80, 100, 160, 240, 320):
        for pre in ('', '-'):
            for sy in ((n - 1,), (n // 2,), (n - 1, n - 2, n - 3, n - 4), (rnd.randrange(1, n), rnd.randrange(1, n))) + (((0,), (0, n - 1)) if n <= (40 if q else 80) else ()):
                conc = {i: rnd.randrange(1, 10) if i == 0 else rnd.choice((0, 9, rnd.randrange(10))) for i in range(n) if i not in sy}
                jobs.append(digits('h_parse', o_parse, n, pre, (), conc, '%r + %d digits, free at %s' % (pre, n, ','.join(map(str, sorted(set(sy)))))))
    # around the one-, two- and three-limb boundaries
    for v in (2 ** 31, 2 ** 32, 2 ** 63, 2 ** 64, 2 ** 96, 2 ** 128):
        s = str(v)
        for pre in ('', '-'):
            for f in (1, 2, 3) if q else (1, 2, 3, 4, 5, 6):
                n = len(s)
                jobs.append(digits('h_parse', o_parse, n, pre, (), {i: int(s[i]) for i in range(n - f)}, '%r, digits near %s, last %d free' % (pre, s, f)))
    return jobs


PROPS = [
    Prop('C10', 'to_string', c10, {
        'quick': 'every value of up to 6 limbs (192 bits), every value within 2^32 of 10^10..10^63 or of one below, values of 7-16 limbs with one '
                 'free limb and the others fixed by pattern; round trip through parse: every value below 10^9 and every one-limb value, values of 2-8 limbs with a free low limb',
        'thorough': 'every value of up to 9 limbs, powers of ten up to 10^199 with a free low limb, values of up to 48 limbs with one free limb; round trip up to 33 limbs with a free low limb'}),
    Prop('C11', 'parse', c11, {
        'quick': 'every string of up to 5 bytes; a sign and every string of 5-11 digits, leading zeros; digit strings of up to 160 digits with 1-4 free digits; '
                 'strings of up to 35 digits with one or two free bytes; every last 1-3 digits around 2^31..2^128; NUL bytes are ordinary bytes',
        'thorough': 'every string of up to 8 bytes, every string of 5-13 digits, digit strings of up to 320 digits with 1-4 free digits, strings of up to 39 digits with free bytes'}),
]
