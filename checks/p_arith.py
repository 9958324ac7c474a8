"""C01-C04, C07: addition, multiplication, division, comparison."""
from lib import *

ALL1 = SM + [1, -1]


def shapes(n):
    return SM + [s * i for i in range(1, n + 1) for s in (1, -1)]


# ---------------------------------------------------------------- C01

def o_bin(f):
    @ok
    def g(I, O):
        r = [('exact result', eqz(O.out[0].val(), f(I.big[0].val(), I.big[1].val())))]
        return r
    return g


def o_self(f):
    @ok
    def g(I, O):
        return [('exact result', eqz(O.out[0].val(), f(I.big[0].val(), I.big[0].val())))]
    return g


UN = {0: lambda v: -v, 1: lambda v: v, 2: lambda v: -v - 1 if v.__class__ is Z else ~v, 3: lambda v: -v, 4: zabs,
      5: lambda v: v + 1, 6: lambda v: v - 1, 7: lambda v: v + 1, 8: lambda v: v - 1}


def o_un(k):
    @ok
    def g(I, O):
        return [('exact result', eqz(O.out[0].val(), UN[k](I.big[0].val())))]
    return g


ADD = lambda a, b: a + b
SUB = lambda a, b: a - b
MUL = lambda a, b: a * b


def big_pairs(n, rnd, quick):
    """long operands: carries and borrows run through concrete limbs, symbolic limbs at the ends and in the middle"""
    out = []
    for ka, kb in (('F', 'Z'), ('F', 'F'), ('Z', 'Z'), ('A', 'A'), ('M', 'M'), ('R', 'R')):
        la = L(n, ka, 1, (0, n // 2, n - 1), rnd)
        lb = L(n, kb, 1, (0, n // 2, n - 1), rnd)
        out.append((la, lb))
        lc = L(n, ka, -1, (0, n - 1), rnd)
        out.append((lc, L(n, kb, 1, (0, n - 1), rnd)))
        out.append((L(n, ka, 1, (0,), rnd), L(max(1, n - rnd.randrange(1, n)), kb, -1, (0, -1), rnd)))
    return out


def c01(tier, rnd):
    q = tier == 'quick'
    N = 3 if q else 6
    jobs = []
    S = shapes(N)
    for a in S:
        for b in S:
            jobs.append(J('h_add', (a, b), o_bin(ADD)))
            jobs.append(J('h_sub', (a, b), o_bin(SUB)))
    for a, b in ((4, 4), (-5, 5), (6, 2), (2, -6), (8, 8), (-8, 8)) + (() if q else ((16, 16), (-16, 16), (24, 20))):
        jobs.append(J('h_add', (a, b), o_bin(ADD), weight=2))
        jobs.append(J('h_sub', (a, b), o_bin(SUB), weight=2))
    S2 = shapes(2)
    for a in S2:
        for b in S2:
            for v in ('_eq', '_static'):
                jobs.append(J('h_add' + v, (a, b), o_bin(ADD)))
                jobs.append(J('h_sub' + v, (a, b), o_bin(SUB)))
    for a in shapes(N + 1):
        for v in ('_self', '_same'):
            jobs.append(J('h_add' + v, (a,), o_self(ADD)))
            jobs.append(J('h_sub' + v, (a,), o_self(SUB)))
        for k in (0, 1, 3, 5, 6, 7, 8):
            jobs.append(J('h_un', (a,), o_un(k), k=(k,)))
    for n in (33, 65) if q else (17, 33, 64, 65, 129, 257):
        for a, b in big_pairs(n, rnd, q):
            jobs.append(J('h_add', (a, b), o_bin(ADD)))
            jobs.append(J('h_sub', (a, b), o_bin(SUB)))
    return jobs


# ---------------------------------------------------------------- C02

def c02(tier, rnd):
    q = tier == 'quick'
    jobs = []
    S = shapes(3)
    for a in S:
        for b in S:
            jobs.append(J('h_mul', (a, b), o_bin(MUL)))
    for a, b in ((4, 4), (-5, 4), (5, 5), (6, -2), (8, 3)) + (() if q else ((6, 6), (8, 8), (10, 10), (-12, 4), (16, 2))):
        jobs.append(J('h_mul', (a, b), o_bin(MUL), weight=3, budget=120))
    for a in shapes(2):
        for b in shapes(2):
            for v in ('_eq', '_static'):
                jobs.append(J('h_mul' + v, (a, b), o_bin(MUL)))
    for a in shapes(4 if q else 6):
        jobs.append(J('h_mul_self', (a,), o_self(MUL), weight=2))
        jobs.append(J('h_mul_same', (a,), o_self(MUL), weight=2))
    # around the divide-and-conquer thresholds (32 limbs, 64 limbs, heap/stack buffers at 256)
    sizes = [(31, 31), (32, 32), (33, 32), (33, 33), (40, 35), (63, 33), (64, 64), (65, 64), (65, 32), (96, 40), (70, 33)]
    if not q:
        sizes += [(127, 65), (128, 128), (129, 127), (200, 33), (300, 40), (260, 260), (515, 257)]
    kw = dict(budget=8, hard=False, feas_timeout=800, vc_timeout=2500) if q else dict(budget=120, hard=False)
    for n, m in sizes:
        w = 2 + n * m / 300.0
        big = n * m > 2500
        # one factor concrete: every path is linear
        for ka, kb in (('F', 'F'), ('R', 'M'), ('M', 'F'), ('A', 'R'), ('F', 'M'), ('R', 'R'))[:5 if q else 6]:
            sb = (0, m // 2, m - 1) if not q or (n * m < 1100 and ka == 'F') else (rnd.randrange(m), rnd.randrange(m)) if ka == 'F' else \
                (rnd.randrange(m),)
            sa = (rnd.randrange(n), n - 1) if not q or ka == 'F' else (rnd.randrange(n),)
            jobs.append(J('h_mul', (L(n, ka, rnd.choice((1, -1)), (), rnd), L(m, kb, rnd.choice((1, -1)), sb, rnd)), o_bin(MUL),
                          weight=w, **kw))
            jobs.append(J('h_mul', (L(m, kb, 1, (), rnd), L(n, ka, -1, sa, rnd)), o_bin(MUL), weight=w, **kw))
        # both factors symbolic in one limb
        for ka, kb in (('F', 'F'), ('Z', 'M'), ('R', 'R'), ('M', 'M'))[:2 if q else 4]:
            sa = (0,) if big or q else (0, n // 2)
            sb = (m - 1,) if big or q else (m - 1, m // 2)
            jobs.append(J('h_mul', (L(n, ka, 1, sa, rnd), L(m, kb, -1, sb, rnd)), o_bin(MUL), weight=3 * w, **kw))
    if q:
        # the branch for large middle products starts at 254 limbs
        kl = dict(qb=40, hard=False, feas_timeout=800, vc_timeout=2500)
        for n, m, ka, kb in ((261, 260, 'F', 'F'), (258, 255, 'M', 'F'), (300, 256, 'R', 'M'), (257, 257, 'F', 'M')):
            jobs.append(J('h_mul', (L(n, ka, 1, (), rnd), L(m, kb, -1, (m // 2 + 1,), rnd)), o_bin(MUL), weight=60, **kl))
        for n, ka in ((257, 'F'), (258, 'M')):
            jobs.append(J('h_mul_same', (L(n, ka, 1, (n - 1,), rnd),), o_self(MUL), weight=60, **kl))
    for n in (31, 32, 33, 40, 64, 65, 67) + (() if q else (96, 128, 129, 256, 257, 300)):
        for ka in ('F', 'Z', 'M', 'R') if q else ('F', 'R', 'M', 'Z', 'A'):
            s = (rnd.randrange(n),) if q else (0, n // 2, n - 1) if n < 50 else (n // 2,)
            jobs.append(J('h_mul_same', (L(n, ka, 1, s, rnd),), o_self(MUL), weight=2 + n * n / 150.0, **kw))
            jobs.append(J('h_mul_self', (L(n, ka, -1, (rnd.randrange(n),), rnd),), o_self(MUL), weight=2 + n * n / 150.0, **kw))
    return jobs


# ---------------------------------------------------------------- C03

def trunc_div(a, b, q, r):
    """q, r are the truncated quotient and remainder of a by b"""
    ar, ab = zabs(r), zabs(b)
    lt = ar < ab
    sg = implies(lnot(eqz(r, 0)), iff(B(r < 0), B(a < 0)))
    return [('dividend == quotient*divisor + remainder', eqz(q * b + r, a)), ('|remainder| < |divisor|', lt),
            ('remainder has the sign of the dividend', sg)]


@ok
def o_divall(I, O):
    a, b = I.big[0].val(), I.big[1].val()
    q, r = O.out[0], O.out[1]
    res = trunc_div(a, b, q.val(), r.val())
    res.append(('/ agrees with div_rem', O.out[4].same(q)))
    res.append(('% agrees with div_rem', O.out[5].same(r)))
    return res


@ok
def o_div(I, O):
    # the quotient alone: a - q*b is the remainder
    a, b, q = I.big[0].val(), I.big[1].val(), O.out[0].val()
    r = a - q * b
    return trunc_div(a, b, q, r)[1:]


@ok
def o_rem(I, O):
    a, b, r = I.big[0].val(), I.big[1].val(), O.out[0].val()
    t = trunc_div(a, b, 0, r)[1:]
    if a.__class__ is int and b.__class__ is int and r.__class__ is int:
        t.append(('divides the difference', int((a - r) % b == 0)))
    return t


@ok
def o_divself(I, O):
    return [('a/a == 1', eqz(O.out[0].val(), 1))]


@ok
def o_remself(I, O):
    return [('a%a == 0', eqz(O.out[0].val(), 0))]


@ok
def o_divrem(I, O):
    a, b = I.big[0].val(), I.big[1].val()
    return trunc_div(a, b, O.out[0].val(), O.out[1].val())


NZ = [s for s in SM if s != '0']
DIVISORS = [
    [0, 1 << 31], [M32, M32], [0, 1], [1, 1 << 31], [M32, 1], [M32, (1 << 31) - 1], [1, M32], [0x12345678, 0x9ABCDEF0],
]


def divisors(n, rnd, k):
    """concrete n-limb divisors that stress the quotient-digit guess"""
    c = [
        [0] * (n - 1) + [1 << 31], [M32] * n, [0] * (n - 1) + [1], [1] + [0] * (n - 2) + [1 << 31] if n > 1 else [M32],
        [M32] * (n - 1) + [1 << 31], [M32] * (n - 1) + [(1 << 31) - 1], [M32] * (n - 1) + [1], [0] * (n - 1) + [M32],
        ([0, 0, 1, 1 << 31] * n)[-n:], ([1, M32, 0, M32] * n)[-n:], ([3, 0, M32, 0x80000000] * n)[-n:],
    ]
    out = []
    for x in c:
        if x not in out:
            out.append(x)
    out = out[:k]
    for _ in range(max(0, k // 3)):
        out.append(limbs(n, 'R', (), rnd))
        out.append(limbs(n, 'M', (), rnd))
    return out


def c03(tier, rnd):
    q = tier == 'quick'
    jobs = []
    dv = dict(budget=12, vc_timeout=2500, feas_timeout=1000) if q else dict(budget=400, vc_timeout=10000)
    # one-word divisors, fully symbolic
    for a in SM + [1, -1, 2, -2, 3, -3] + ([] if q else [4, 5, -6]):
        for b in ('p', 'n'):
            jobs.append(J('h_divall', (a, b), o_divall, weight=3, **dv))
    # shorter dividend, equal length of one limb
    for a, b in (('p', 1), ('n', 2), ('p', -1), (1, 2), (-1, 3), (2, -3), ('0', 2), ('0', -1)):
        jobs.append(J('h_divall', (a, b), o_divall, **dv))
    # multi-limb divisors: concrete and adversarial, the dividend symbolic
    for n in (1, 2, 3) if q else (1, 2, 3, 4, 5):
        for i, d in enumerate(divisors(n, rnd, 6 if q else 11)):
            if n == 1 and d[0] < 1 << 31:
                d = [d[0] | 1 << 31]
            shifted = d[-1] < 1 << 31
            for m in range(n, n + (2 if q else 3)):
                for sa, sb in ((1, 1), (-1, 1), (1, -1), (-1, -1))[:(1 if m > n else 2) if q else 4]:
                    if q and m > n and shifted:
                        # the top limbs range over everything, the low ones are fixed
                        la = ('l', sa, limbs(m, 'M', (m - 1, m - 2)[:1 if n > 2 else 2], rnd), 'low limbs fixed')
                    else:
                        la = sa * m
                    w = 2 + (m - n) * 3 + (3 if shifted else 0) + (n > 2)
                    jobs.append(J('h_divall' if m == n else 'h_divrem', (la, const(d, sb)), o_divall if m == n else o_divrem, weight=w, maxpaths=400,
                                  hard=not q, **dv))
    # dividends with symbolic limbs where the correction steps live
    for n in (2, 3, 5, 9, 33) if q else (2, 3, 4, 5, 9, 17, 33, 40, 65):
        for d in divisors(n, rnd, 8 if q else 11):
            for m in (n + 1, n + 3, 2 * n) if not q else (n + 2,):
                k = rnd.choice('FZAMR')
                sym = (rnd.choice((m - 1, m - 2, 0)),) if q else (m - 1, m - n - 1) if n > 3 else (m - 1, m - 2, 0)
                jobs.append(J('h_divrem', (L(m, k, rnd.choice((1, -1)), sym, rnd), const(d, rnd.choice((1, -1)))), o_divrem,
                              weight=4 + n / 10, maxpaths=200, hard=not q, **dv))
    # dividends of the form q*d + small symbolic offset, both sides of a multiple of the divisor
    for n in (2, 3, 4, 8) if q else (2, 3, 4, 5, 8, 16, 32):
        for d in divisors(n, rnd, 8 if q else 11):
            D = const(d)[1]
            for qq in (M32, 1 << 31, (1 << 64) - 1, (M32 << 32)):
                for off in ((rnd.choice((-1, 0, 1)),) if q else (-1, 0, 1)):
                    a = D * qq + off
                    if a <= 0:
                        continue
                    ls = []
                    while a:
                        ls.append(a & M32)
                        a >>= 32
                    s = list(ls)
                    s[0] = None
                    if n > 2 and not q:
                        s[1] = None
                    jobs.append(J('h_divrem', (('l', 1, s, 'near a multiple'), ('c', D)), o_divrem, weight=1, maxpaths=200,
                                  hard=not q, **dv))
    # aliasing forms
    for a, b in (('p', 'p'), ('n', 'p'), (2, 'p'), (-2, 'n'), (2, const([5, 7])), (-3, const([M32, 1 << 31], -1)), ('p', 2), (1, 2)):
        for f in ('h_divrem_rb', 'h_divrem_ra', 'h_divrem'):
            jobs.append(J(f, (a, b), o_divrem, weight=2, **dv))
        for v in ('', '_eq', '_static'):
            jobs.append(J('h_div' + v, (a, b), o_div, weight=2, **dv))
            jobs.append(J('h_rem' + v, (a, b), o_rem, weight=2, **dv))
    for a in NZ + [1, -1, const([1, 2]), const([M32] * 3, -1), const(limbs(33, 'R', (), rnd))]:
        jobs.append(J('h_div_self', (a,), o_divself, **dv))
        jobs.append(J('h_rem_self', (a,), o_remself, **dv))
        jobs.append(J('h_div_same', (a,), o_divself, **dv))
        jobs.append(J('h_rem_same', (a,), o_remself, **dv))
    return jobs


# ---------------------------------------------------------------- C04

def c04(tier, rnd):
    jobs = []
    Z0 = throws(DIVZERO)
    for a in shapes(3 if tier == 'quick' else 8) + [L(33, 'R', 1, (0,), rnd), L(65, 'F', -1, (64,), rnd), ('s', -5, 5), 's']:
        for f in ('h_div', 'h_rem', 'h_div_eq', 'h_rem_eq', 'h_div_static', 'h_rem_static', 'h_divrem', 'h_divrem_rb', 'h_divrem_ra'):
            jobs.append(J(f, (a, '0'), Z0))
        for e in ('0', 'p', 1, 2, ('s', 0, 8)) + (() if tier == 'quick' else (5, const(limbs(33, 'R', (), rnd)))):
            jobs.append(J('h_modpow', (a, e, '0'), Z0))
    for f in ('h_div_self', 'h_rem_self', 'h_div_same', 'h_rem_same'):
        jobs.append(J(f, ('0',), Z0))
    # and never otherwise
    for a in shapes(2):
        for b in ['p', 'n', const([M32]), const([1 << 31], -1), const([1, 1]), const([0, 1 << 31], -1)]:
            for f in ('h_div', 'h_rem', 'h_divrem'):
                jobs.append(J(f, (a, b), ok(lambda I, O: [('returned', 1)])))
    return jobs


# ---------------------------------------------------------------- C07

@ok
def o_cmp(I, O):
    a, b = I.big[0].val(), I.big[1].val()
    r = [zsigned(O.r[i], 64) for i in range(11)]
    lt, eq, gt = B(a < b), eqz(a, b), B(a > b)
    c = r[0]
    cb = r[10]
    return [
        ('compare_to < 0 iff a < b', iff(B(c < 0), lt)), ('compare_to == 0 iff a == b', iff(eqz(c, 0), eq)),
        ('compare_to > 0 iff a > b', iff(B(c > 0), gt)),
        ('compare_to is antisymmetric', land(iff(B(cb < 0), gt), iff(B(cb > 0), lt))),
        ('<', eqz(r[1], zite(lt, 1, 0))), ('>', eqz(r[2], zite(gt, 1, 0))), ('<=', eqz(r[3], zite(gt, 0, 1))),
        ('>=', eqz(r[4], zite(lt, 0, 1))), ('==', eqz(r[5], zite(eq, 1, 0))), ('!=', eqz(r[6], zite(eq, 0, 1))),
        ('equals', eqz(r[7], zite(eq, 1, 0))), ('equal values hash alike', implies(eq, eqz(r[8], r[9]))),
    ]


def c07(tier, rnd):
    q = tier == 'quick'
    jobs = []
    S = shapes(3 if q else 5)
    for a in S:
        for b in S:
            jobs.append(J('h_cmp', (a, b), o_cmp))
    for n in (5, 8, 33) if q else (6, 8, 12, 33, 65, 129):
        for s in (1, -1):
            if n < 10:
                jobs.append(J('h_cmp', (s * n, s * n), o_cmp, weight=2))
                jobs.append(J('h_cmp', (s * n, -s * n), o_cmp, weight=2))
                jobs.append(J('h_cmp', (s * n, s * (n - 1)), o_cmp, weight=2))
            for k in 'FZMR':
                base = limbs(n, k, (), rnd)
                for i in (0, n // 2, n - 1):
                    x = list(base)
                    y = list(base)
                    x[i] = None
                    y[i] = None
                    y[0] = None
                    jobs.append(J('h_cmp', (('l', s, x, k), ('l', s, y, k)), o_cmp))
                x = list(base)
                x[-1] = None
                jobs.append(J('h_cmp', (('l', s, x, k), const(base, s)), o_cmp))
    # a computed number against the same number constructed directly: they are equal and hash alike, whatever made them
    from p_class import HC, o_hcanon

    def o_route(I, O):
        return [c for c in o_hcanon(I, O) if c[0] not in ('canonical form', 'exposes the sign and words of the direct construction')]
    for a in shapes(2 if q else 4) + [3, -3, L(5, 'F', 1, (4,), rnd), L(9, 'Z', -1, (8,), rnd)]:
        for op, b, arg, op2, arg2 in ((0, 'p', 0, None, 0), (23, 'n', 0, None, 0), (2, 'p', 0, None, 0), (10, 'p', 0, None, 0), (7, 'n', 0, None, 0), (6, 'p', 0, None, 0),
                                      (8, 'p', 0, None, 0), (12, 'p', 33, 13, 33), (30, 'p', 64, 31, 32), (22, 'p', 0, 23, 0), (15, 'p', 0, None, 0), (13, 'p', 5, None, 0)):
            j = HC(a, b, op, arg, op2, arg2, weight=2)
            j.oracle = o_route
            jobs.append(j)
    return jobs


PROPS = [
    Prop('C01', 'add/sub', c01, {
        'quick': 'all values of up to 3x3 limbs (fully symbolic, all signs and the small representation), 4-8 limb pairs, '
                 '33/65-limb operands with 1-3 symbolic limbs in structured carry patterns',
        'thorough': 'up to 6x6 limbs, selected pairs up to 24 limbs fully symbolic, structured operands up to 257 limbs'}),
    Prop('C02', 'mul', c02, {
        'quick': 'all values of up to 3x3 limbs, selected pairs up to 8x3 and 5x5; structured operands of 31-96 limbs with 1-4 '
                 'symbolic limbs on both sides of the divide-and-conquer thresholds; squares up to 4 limbs and 31-67 structured',
        'thorough': 'selected pairs up to 10x10 fully symbolic; structured operands up to 515x257 limbs'}),
    Prop('C03', 'div', c03, {
        'quick': 'dividends up to 3 limbs by every one-word divisor; up to 4 symbolic limbs by concrete adversarial 1-3 limb divisors; '
                 'structured dividends up to 35 limbs by 2-33 limb divisors',
        'thorough': 'dividends up to 6 limbs by one-word divisors; symbolic dividends of up to 7 limbs by adversarial divisors of '
                    'up to 5 limbs; structured dividends up to 130 limbs'}),
    Prop('C04', 'zero divisor', c04, {
        'quick': 'zero divisor against all values of up to 3 limbs and structured 33/65-limb ones, every entry point',
        'thorough': 'up to 8 limbs'}),
    Prop('C07', 'compare', c07, {
        'quick': 'all pairs of up to 3 limbs, equal-length pairs up to 8, structured pairs of 33 limbs; results of twelve operations and pairs of operations against the same number constructed directly',
        'thorough': 'all pairs of up to 5 limbs, equal-length pairs up to 8, structured up to 129 limbs; results of operations on values of up to 4 limbs against direct construction'}),
]
