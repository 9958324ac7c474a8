"""C18 canonical form, C20 operands and aliasing."""
from lib import *
from p_arith import shapes, o_bin, o_self, o_un, trunc_div, ADD, SUB, MUL, UN, divisors
from p_bits import ksym, k32, o_bit, BIT
from p_num import zpow

BINOPS = ('add', 'sub', 'mul', 'div', 'rem', 'and', 'or', 'xor')


# ---------------------------------------------------------------- C18

def o_canon(I, O):
    """every BigInteger the call produced is in the one canonical form of its value"""
    if not O.ok():
        return []
    return [('result %d is in canonical form' % i, b.canon()) for i, b in sorted(O.out.items())]


def o_cval(f):
    """canonical, and of the expected value: a sign or word lost on the way to the short form is no canonical form of the value"""
    @ok
    def g(I, O):
        a, b = I.big[0].val(), I.big[1].val()
        if not (a.__class__ is int and b.__class__ is int):
            a, b = zof(a), zof(b)
        return o_canon(I, O) + [('of the right value', eqz(O.out[0].val(), f(a, b)))]
    return g


CV = dict({k: o_cval(f) for k, f in BIT.items()}, add=o_cval(ADD), sub=o_cval(SUB))


@ok
def o_cdiv(I, O):
    return o_canon(I, O) + trunc_div(I.big[0].val(), I.big[1].val(), O.out[0].val(), O.out[1].val())


def o_cshr(k):
    return ok(lambda I, O: o_canon(I, O) + [('of the right value', eqz(O.out[0].val(), zshr(I.big[0].val(), k)))])


def o_hcanon(I, O):
    if not O.ok():
        return []
    r, d = O.out[0], O.out[1]
    k = [zsigned(O.r[i], 64) for i in range(7)]
    sg = zite(B(r.val() < 0), -1, zite(eqz(r.val(), 0), 0, 1))
    return [('canonical form', r.canon()), ('exposes the sign and words of the direct construction', same(r, d)),
            ('== the directly constructed value', eqz(k[0], 1)), ('not != it', eqz(k[1], 0)), ('compare_to it is 0', eqz(k[2], 0)),
            ('hashes like it', eqz(k[3], k[4])), ('equals it', eqz(k[5], 1)), ('sign()', eqz(k[6], sg))]


def same(x, y):
    if len(x.limbs) != len(y.limbs):
        return 0
    r = T.eq(x.sign, y.sign, 32)
    for p, q in zip(x.limbs, y.limbs):
        r = land(r, T.eq(p, q, 32))
    return r


BITOPS = (5, 6, 7, 27, 28, 29)
BV_OPS = BITOPS + (9, 12, 13, 15, 16, 30, 31)


def HC(a, b, op, arg=0, op2=None, arg2=0, **kw):
    if op in BV_OPS or op2 in BV_OPS:
        kw.setdefault('mode', 'bv')
    ks = [op, arg, -1 if op2 is None else op2, arg2]
    for i in (1, 3):
        if ks[i].__class__ is tuple:
            ks[i] = ksym('k%d' % i, *ks[i])
    return J('h_canon', (a, b), o_hcanon, k=ks, tag='ops %s(%s) %s(%s)' % (op, arg, op2, arg2), **kw)


def cancel(n, k, rnd, sign=1):
    """a pair of n-limb values that agree in their upper limbs: the difference is short"""
    hi = limbs(n, k, (), rnd)
    x, y = list(hi), list(hi)
    for i in range(min(2, n)):
        x[i] = None
        y[i] = None
    if rnd.random() < .5 and n > 2:
        x[n - 1] = None
    return ('l', sign, x, k + ' shared top'), ('l', sign, y, k + ' shared top')


def c18(tier, rnd):
    q = tier == 'quick'
    jobs = []
    S = shapes(2)
    # every operator on every small shape, in each of its forms
    for a in S:
        for b in S:
            for op in BINOPS:
                bv = dict(mode='bv') if op in BIT else {}
                if op in ('div', 'rem') and isinstance(b, int) and isinstance(a, int):
                    continue
                forms = ['']
                if op not in BIT:
                    forms.append('_static')
                forms.append('_eq')
                for f in [rnd.choice(forms)] if q else forms:
                    jobs.append(J('h_%s%s' % (op, f), (a, b), o_canon, **bv))
    for n in (3, 4) if q else (3, 4, 5, 6):
        for sa in (1, -1):
            for sb in (1, -1):
                for op in ('add', 'sub', 'and', 'or', 'xor'):
                    jobs.append(J('h_' + op, (sa * n, sb * n), o_canon, weight=2, **(dict(mode='bv') if op in BIT else {})))
    for n in (3, 4, 5, 6, 7, 8, 12, 33, 65) if q else (3, 4, 5, 6, 7, 8, 9, 12, 13, 16, 17, 24, 33, 34, 65, 129):
        for k in ('FZMR8' if n in (3, 8, 33) or not q else rnd.sample('FZMR8', 2)):
            for sg in (1, -1) if n < 20 else (rnd.choice((1, -1)),):
                a, b = cancel(n, k, rnd, sg)
                for op in ('sub', 'xor', 'and', 'or'):
                    jobs.append(J('h_' + op + rnd.choice(('', '_eq')), (a, b), CV[op] if n < 20 or op == 'sub' else o_canon, weight=1 + n / 20, **(dict(mode='bv') if op in BIT else {})))
                c = ('l', -a[1], a[2], a[3])
                jobs.append(J('h_add', (c, b), CV['add'], weight=1 + n / 20))
            jobs.append(J('h_or', (c, b), CV['or'] if n < 20 else o_canon, weight=1 + n / 20, mode='bv'))
            jobs.append(J('h_and', (('l', -1, a[2], a[3]), ('l', -1, b[2], b[3])), CV['and'] if n < 20 else o_canon, weight=1 + n / 20, mode='bv'))
            jobs.append(J('h_and', (L(n, k, -1, (n - 1,), rnd), L(n, 'Z', -1, (n - 1, 0), rnd)), CV['and'] if n < 20 else o_canon, weight=1 + n / 20, mode='bv'))
    # products with leading zero words
    for n, m in ((1, 1), (2, 1), (2, 2), (3, 1)) + (() if q else ((3, 2), (3, 3), (4, 2))):
        jobs.append(J('h_mul', (n, -m), o_canon, weight=2))
        jobs.append(J('h_mul_same', (n,), o_canon, weight=2))
    for n in (31, 32, 33, 40) if q else (31, 32, 33, 40, 63, 64, 65, 80):
        for k in 'FRM8Z':
            jobs.append(J('h_mul', (L(n, k, 1, (), rnd), L(n, 'Z', -1, (n - 1,), rnd)), o_canon, weight=6, vc_timeout=2000, hard=False))
            jobs.append(J('h_mul_same', (L(n, k, 1, (n - 1,), rnd),), o_canon, weight=6, vc_timeout=2000, hard=False))
            jobs.append(J('h_mul', (L(n, k, 1, (n - 1,), rnd), L(n // 2 + 1, 'R', 1, (), rnd)), o_canon, weight=6, vc_timeout=2000, hard=False))
    # quotients and remainders
    for a in shapes(3):
        for b in ('p', 'n'):
            jobs.append(J('h_divrem', (a, b), o_canon, weight=2))
    for n in (1, 2, 3):
        for d in divisors(n, rnd, 5 if q else 11):
            if n == 1:
                d = [d[0] | 1 << 31]
            for m in (n, n + 1):
                la = L(m, 'M', rnd.choice((1, -1)), (m - 1, 0), rnd) if m > n else m * rnd.choice((1, -1))
                jobs.append(J('h_divrem', (la, const(d, rnd.choice((1, -1)))), o_canon, weight=3, maxpaths=200, hard=False))
                jobs.append(J('h_divrem_ra', (la, const(d, rnd.choice((1, -1)))), o_canon, weight=3, maxpaths=200, hard=False))
            # multiples of the divisor, and near them: a short remainder
            D = const(d)[1]
            for qq in (M32, 1 << 32, (1 << 64) - 1):
                v = D * qq + rnd.choice((0, 1, -1))
                ls = []
                while v:
                    ls.append(v & M32)
                    v >>= 32
                ls[0] = None
                jobs.append(J('h_divrem', (('l', rnd.choice((1, -1)), ls, 'near a multiple'), ('c', D)), o_cdiv, weight=2, hard=False))
    for n in (3, 4, 6, 8, 9) if q else (3, 4, 5, 6, 7, 8, 9, 12, 16, 33):
        for sd in (1, -1):
            D = const(limbs(n, rnd.choice('MRF'), (), rnd))[1]
            for qq in (1, 7, M32):
                ls = [(D * qq) >> 32 * i & M32 for i in range((D * qq).bit_length() + 31 >> 5)]
                ls[0] = None
                jobs.append(J('h_divrem', (('l', sd, ls, 'near a multiple'), ('c', D * rnd.choice((1, -1)))), o_cdiv, weight=2, hard=False))
    # the unary operators, each at the boundaries of the small form
    for a in shapes(3 if q else 5):
        for k in range(9):
            jobs.append(J('h_un', (a,), o_canon, k=(k,), **(dict(mode='bv') if k == 2 else {})))
    for n in (3, 33, 65):
        for kd in 'FZ8':
            for k in range(9):
                jobs.append(J('h_un', (L(n, kd, rnd.choice((1, -1)), (0,), rnd),), o_canon, k=(k,), **(dict(mode='bv') if k == 2 else {})))
    # shifts
    for a in shapes(3):
        n = abs(a) if isinstance(a, int) else 1
        for d in range(n + 1):
            for f in ('h_shr', 'h_shl', 'h_shr_eq', 'h_shl_eq'):
                if f.endswith('eq') and n > 2:
                    continue
                jobs.append(J(f, (a,), o_canon, k=(ksym('k', 32 * d, 32 * d + 31),), tag='k in [%d..%d]' % (32 * d, 32 * d + 31), mode='bv', weight=1 + d))
    for n in (4, 5, 9, 33):
        for kd in 'Z8FM':
            for s in (1, -1):
                for k in (1, 31, 32, 33, 32 * (n - 1), 32 * (n - 1) + 31, 32 * n - 33):
                    jobs.append(J('h_shr', (L(n, kd, s, (n - 1,), rnd),), o_cshr(k), k=(k,), mode='bv'))
    # imports: bytes, words, digits, doubles
    for n in (0, 1, 2, 3, 4, 5, 7, 8, 9, 12, 13) if q else range(0, 21):
        for un in (0, 1):
            for be in (0, 1):
                jobs.append(JB(n, un, be))
    for n in range(0, 6):
        for neg in (0, 1):
            jobs.append(JW(n, neg))
    for n in (0, 1, 5, 9, 10, 11, 18, 19, 20, 21):
        jobs.append(JD(n, rnd))
    for e in (0, 1, 1022, 1023, 1023 + 30, 1023 + 31, 1023 + 32, 1023 + 52, 1023 + 53, 1023 + 62, 1023 + 63, 1023 + 64, 1023 + 96, 1023 + 500, 2046):
        for s in (0, 1):
            jobs.append(J('h_ctor', (), o_canon, k=(4, fdouble(s, e)), tag='double, exponent %d sign %d' % (e, s), mode='bv'))
    for t in range(4):
        jobs.append(J('h_ctor', (), o_canon, k=(t, lambda I: T.var('v', 64)), tag='any value'))
    # pow, mod_pow, gcd
    for s in ('p', 'n', 1, -1, 2, -2, 3):
        for e in (0, 1, 2, 3, 4) + ((5, 7, 8) if isinstance(s, str) or abs(s) == 1 else ()):
            jobs.append(J('h_pow', (s,), o_canon, k=(e,), weight=2 + e))
        for e in (0, 1, 2, 3):
            for m in ('p', 'n', ('c', 2**31), ('c', 2**64), ('c', -(2**95 + 77))):
                jobs.append(J('h_modpow', (s, ('c', e), m), o_canon, weight=3 + e))
    for a, b in (('p', '0'), ('0', 2), ('p', 1), ('n', 2), (1, 'p'), (-2, 'p'), (1, ('c', 2**31)), (2, ('c', 2**32 + 1))):
        jobs.append(J('h_gcd', (a, b), o_canon, weight=2, fork_udiv=True))
    # results against the direct construction, one step
    for a in S:
        for op in (8, 9, 10, 11, 14, 15, 16, 17, 32, 35):
            jobs.append(HC(a, 'p', op, weight=2))
        for op in (12, 13, 30, 31):
            jobs.append(HC(a, 'p', op, (0, 31), weight=2))
            jobs.append(HC(a, 'p', op, (32, 63), weight=2))
        for b in S:
            for op in (0, 1, 2, 22, 23, 24) + BITOPS:
                if not q or rnd.random() < .4:
                    jobs.append(HC(a, b, op, weight=2))
            if b in ('p', 'n'):
                for op in (3, 4, 21, 25, 26):
                    if not q or rnd.random() < .5:
                        jobs.append(HC(a, b, op, weight=2))
    # and two
    pairs = [(x, y) for x in (0, 1, 2, 8, 9, 10, 11, 12, 13, 17) for y in (0, 1, 3, 5, 6, 7, 8, 9, 10, 11, 13, 14, 22, 23, 31)]
    for x, y in pairs:
        for a, b in [rnd.choice((('p', 'p'), ('n', 'p'), (1, 'n'), (-1, 'p'), (1, 1), (-1, 1), (2, 'p'), (2, 1)))] if q else \
                (('p', 'p'), ('n', 'p'), (1, 'n'), (-1, 'p'), (1, 1), (-1, 1), (2, 'p'), (2, 1), (-2, 2)):
            if y in (3, 4) and b not in ('p', 'n'):
                continue
            if 13 in (x, y) or 12 in (x, y) or 31 in (x, y):
                jobs.append(HC(a, b, x, rnd.choice((1, 31, 32, 33)), y, rnd.choice((1, 31, 32, 33)), weight=4))
            else:
                jobs.append(HC(a, b, x, 0, y, 0, weight=4))
    return jobs


def fdouble(s, e):
    return lambda I: T.or_(T.zext(T.var('m', 52), 64), (s << 63 | e << 52) & M64, 64)


def JB(n, un, be):
    def setup(I):
        I.buf = [T.var('y%d' % i, 8) for i in range(n)]
        I.k[0], I.k[1] = un, be
    return Job('frombytes %d bytes%s%s' % (n, ' unsigned' if un else '', ' big-endian' if be else ''), 'h_frombytes', setup, o_canon, mode='bv')


def JW(n, neg):
    def setup(I):
        I.big[0] = InBig(1, [T.var('w%d' % i, 32) for i in range(n)])
        I.k[0], I.k[1] = 5, neg
    return Job('%d words%s' % (n, ' negative' if neg else ''), 'h_ctor', setup, o_canon)


def JD(n, rnd):
    pat = ['%d' % rnd.randrange(10) for _ in range(n)]

    def setup(I):
        b = []
        for i, ch in enumerate(pat):
            b.append(T.var('d%d' % i, 8, 48, 57) if i < 2 or i == n - 1 else ord(ch))
        I.buf = b
    return Job('parse %d digits' % n, 'h_parse', setup, o_canon)


from run import InBig


# ---------------------------------------------------------------- C20

def o_keep(m, res=None):
    """outputs m = {output: operand} are the operands, untouched, whether or not the call throws (then nothing is visible)"""
    def g(I, O):
        if not O.ok():
            return []
        out = [('operand %d unchanged' % j, O.out[i].same(I.big[j])) for i, j in m.items()]
        if res:
            out += res(I, O)
        return out
    return g


K2 = {1: 0, 2: 1}


def rself(I, O):
    return [('returns the left operand itself', T.eq(T.trunc(O.r[0], 8), 1, 8) if O.r[0].__class__ is Term else int(O.r[0] & 255 == 1))]


def o_throw(I, O):
    if not O.ok():
        return [('no other exception', 0)]
    th = O.r[0]
    t = lnot(T.eq(th, 0, 64)) if th.__class__ is Term else int(th != 0)
    c = land(O.out[0].same(I.big[0]), O.out[1].same(I.big[1]))
    r = O.out[2]
    c77 = int(not r.limbs) and T.eq(r.sign, 77, 32)
    return [('a throwing call leaves its operands alone', implies(t, c)), ('and its output argument', implies(t, c77))]


def o_rdiv(m):
    """div_rem with the remainder stored over an operand: quotient and remainder of the original values"""
    @ok
    def g(I, O):
        a, b = I.big[0].val(), I.big[1].val()
        return trunc_div(a, b, O.out[0].val(), O.out[1].val()) + [('operand %d unchanged' % j, O.out[i].same(I.big[j])) for i, j in m.items()]
    return g


def o_alias(k):
    def g(I, O):
        if not O.ok():
            z = []
            if k in (0, 1, 16, 20, 10, 19):
                z.append(eqz(I.big[1].val(), 0))
            if k in (2, 7, 8, 9, 13):
                z.append(eqz(I.big[0].val(), 0))
            if k in (0,):
                z.append(B(I.big[0].val() < 0))
            if k in (1, 2):
                z.append(B(I.big[1].val() < 0))
            return [('throws only for a zero divisor or a negative exponent', lor(*z) if len(z) > 1 else z[0] if z else 0)]
        a, m, r = I.big[0].val(), I.big[1].val(), O.out[0].val()
        res = [('operand a unchanged', O.out[1].same(I.big[0])), ('operand b unchanged', O.out[2].same(I.big[1]))]
        if k == 3:
            e = zabs(a)
        elif k in (4,):
            e = a + a
        elif k in (5, 8):
            e = 0
        elif k in (6, 18):
            e = a * a
        elif k in (7,):
            e = 1
        elif k == 9:
            res.append(('quotient', eqz(O.out[3].val(), 1)))
            e = 0
        elif k == 10:
            res.append(('quotient', eqz(O.out[3].val(), 1)))
            e = 0
        elif k in (11, 12, 13, 14, 15, 21, 22):
            e = a
        elif k in (16, 19, 20):
            return res + [('remainder', zdvd(r - a, zabs(m))), ('below the divisor', zabs(r) < zabs(m)),
                          ('sign', implies(lnot(eqz(r, 0)), iff(B(r < 0), B(a < 0))))]
        else:
            return res
        return res + [('value', eqz(r, e))]
    return g


def c20(tier, rnd):
    q = tier == 'quick'
    jobs = []
    S = shapes(2)
    dv = dict(hard=False, maxpaths=200)
    bk = lambda op: dict(mode='bv') if op in BIT else {}
    for a in S:
        for b in S:
            for op in BINOPS:
                if op in ('div', 'rem') and isinstance(a, int) and isinstance(b, int):
                    bb = const(limbs(abs(b), 'R', (), rnd), 1 if b > 0 else -1)
                else:
                    bb = b
                fs = [('', K2, None), ('_eq', {2: 1}, rself)] + ([('_static', K2, None)] if op not in BIT else [])
                for f, m, r in [rnd.choice(fs)] if q else fs:
                    jobs.append(J('h_%s%s' % (op, f), (a, bb), o_keep(m, r), **bk(op)))
    for a, b in ((3, 2), (-3, 3), (2, -4), (5, 5), (-5, 4)):
        for op in ('add', 'sub', 'and', 'or', 'xor'):
            for f, m, r in (('', K2, None), ('_eq', {2: 1}, rself)):
                jobs.append(J('h_%s%s' % (op, f), (a, b), o_keep(m, r), weight=2, **bk(op)))
    for n, m in ((5, 5), (9, 4), (33, 33), (40, 33), (65, 20)):
        for op in BINOPS:
            a = L(n, rnd.choice('FZMR'), rnd.choice((1, -1)), (0, n - 1) if op not in ('mul', 'div', 'rem') else (n - 1,), rnd)
            b = L(m, rnd.choice('FZMR'), rnd.choice((1, -1)), (m - 1,) if op not in ('mul', 'div', 'rem') else (), rnd)
            for f, mm, r in (('', K2, None), ('_eq', {2: 1}, rself)) + ((('_static', K2, None),) if op not in BIT else ()):
                jobs.append(J('h_%s%s' % (op, f), (a, b), o_keep(mm, r), weight=2 + n / 10, **bk(op), **dv))
    # one object on both sides
    for a in shapes(3 if q else 5):
        for op, f in (('add', ADD), ('sub', SUB), ('mul', MUL)):
            jobs.append(J('h_%s_self' % op, (a,), o_self(f)))
            jobs.append(J('h_%s_same' % op, (a,), o_keep({1: 0}, o_self(f))))
        for op in ('and', 'or', 'xor'):
            o = lambda I, O, op=op: [('a %s a' % op, eqz(O.out[0].val(), 0 if op == 'xor' else I.big[0].val()))]
            jobs.append(J('h_%s_self' % op, (a,), ok(o), mode='bv'))
            jobs.append(J('h_%s_same' % op, (a,), o_keep({1: 0}, ok(o)), mode='bv'))
    for a in ['p', 'n', 1, -1, 2, const([1, 2]), L(3, 'M', -1, (0,), rnd), L(5, 'Z', 1, (0,), rnd), L(33, 'R', 1, (3,), rnd)]:
        for op, v in (('div', 1), ('rem', 0)):
            o = ok(lambda I, O, v=v: [('a op a', eqz(O.out[0].val(), v))])
            jobs.append(J('h_%s_self' % op, (a,), o))
            jobs.append(J('h_%s_same' % op, (a,), o_keep({1: 0}, o)))
    for n in (33, 40, 65):
        a = L(n, 'R', -1, (0,), rnd)
        jobs.append(J('h_mul_self', (a,), o_self(MUL), weight=8, hard=False))
        jobs.append(J('h_sub_self', (a,), o_self(SUB)))
        jobs.append(J('h_add_self', (a,), o_self(ADD)))
    # the remainder stored over an operand
    for a, b in [(x, y) for x in ('0', 'p', 'n', 1, -1, 2, -2, 3) for y in ('p', 'n')] + \
            [('p', 1), ('n', -2), (1, 2), (-1, -2), (2, const([5, 7])), (-2, const([M32, 1 << 31])), (3, const([1, 1 << 31], -1)), (-3, const([M32, M32])),
             (L(5, 'M', 1, (4,), rnd), const([9, 1 << 31, 1 << 31])), (L(4, 'R', -1, (0,), rnd), const([3, 2])), (L(35, 'R', -1, (0,), rnd), const(limbs(33, 'R', (), rnd)))]:
        jobs.append(J('h_divrem_rb', (a, b), o_rdiv({2: 0}), weight=2, maxpaths=200))
        jobs.append(J('h_divrem_ra', (a, b), o_rdiv({2: 1}), weight=2, maxpaths=200))
        jobs.append(J('h_divrem', (a, b), o_rdiv({2: 0, 3: 1}), weight=2, maxpaths=200))
    A = ['p', 'n', 1, -1, 2, -2]
    for k in range(23):
        for a in A + ([3] if k in (3, 4, 5, 6, 11, 12, 14, 15) else []):
            for b in ('p', 'n', 1, -2) if k in (21, 22, 16, 17, 19, 20) else ('p',):
                if k in (16, 19, 20) and isinstance(b, int):
                    b = const(limbs(abs(b), 'R', (), rnd), rnd.choice((1, -1)))
                    if b[1] & 1 << 31 == 0 and b[1].bit_length() < 33:
                        b = ('c', 2**31 + 5)
                if k == 17 and (isinstance(a, int) or isinstance(b, int)):
                    b = '0'
                if k in (0, 1, 2):
                    # concrete operands in the aliased positions, the other free
                    v = rnd.choice((1, 2, 3, 5))
                    if k == 0:
                        jobs.append(J('h_alias', (('c', v), a), o_alias(k), k=(k,), weight=3, **dv))
                    elif k == 1:
                        jobs.append(J('h_alias', (a, ('c', v)), o_alias(k), k=(k,), weight=3, **dv))
                    else:
                        jobs.append(J('h_alias', (a, ('c', v)), o_alias(k), k=(k,), weight=3, **dv))
                    continue
                if k in (7, 8, 9, 13) and isinstance(a, int) and abs(a) == 2:
                    a = L(2, 'M', 1 if a > 0 else -1, (0,), rnd)
                if k == 10:
                    for b in ('p', 'n', 1, L(2, 'M', -1, (0,), rnd)):
                        jobs.append(J('h_alias', ('p', b), o_alias(k), k=(k,), weight=2, **dv))
                    break
                if k == 17 and b != '0':
                    continue
                kw = dict(mode='bv') if k in (15, 21, 22) else {}
                jobs.append(J('h_alias', (a, b), o_alias(k), k=(k,), weight=2 + 3 * (k in (6, 13, 18)), **kw, maxpaths=200))
    # conversions, predicates and functions of one operand
    keep1 = {0: 0}
    for a in S + [3, -3, 5]:
        for k in range(5):
            jobs.append(J('h_un', (a,), o_keep({1: 0}), k=(k,)))
        jobs.append(J('h_pred', (a,), o_keep(keep1), mode='bv'))
        for un in (0, 1):
            for be in (0, 1):
                jobs.append(J('h_bytes', (a,), o_keep(keep1), k=(un, be), mode='bv'))
        jobs.append(J('h_u32', (a,), o_keep(keep1), mode='bv'))
        for k in range(6):
            jobs.append(J('h_cast', (a,), o_keep(keep1), k=(k,), mode='bv', weight=2))
        for f, lo, hi in (('h_shl', 0, 31), ('h_shl', 32, 63), ('h_shr', 0, 31), ('h_shr', 32, 63), ('h_shl', -31, -1), ('h_shr', -31, -1)):
            jobs.append(J(f, (a,), o_keep({1: 0}), k=(ksym('k', lo, hi),), mode='bv', tag='k in [%d..%d]' % (lo, hi), weight=2))
        for e in (0, 1, 2, 3):
            jobs.append(J('h_pow', (a,), o_keep({1: 0}), k=(e,), weight=2 + e))
        jobs.append(J('h_copy', (a,), o_copy))
    for a in ('p', 'n', '0', 1, -1):
        jobs.append(J('h_str', (a,), o_keep(keep1), weight=3))
        for e in (0, 1, 2, 3):
            for m in ('p', 'n', ('c', 2**33 + 1), ('c', -2**64)):
                jobs.append(J('h_modpow', (a, ('c', e), m), o_keep({1: 0, 2: 1, 3: 2}), weight=3 + e))
        for b in S:
            jobs.append(J('h_cmp', (a, b), o_keep({0: 0, 1: 1})))
    for a, b in (('p', '0'), ('0', 2), ('p', ('s', 1, 1000)), ('n', 2), (1, 'p'), (-2, 'p'), (2, ('c', 2**32 + 1)), (('c', 3**80), ('l', -1, [None, 5, 6, 7], 'low'))):
        jobs.append(J('h_gcd', (a, b), o_keep(K2), weight=3, fork_udiv=True))
    # throwing calls
    for a in S:
        for b in ('0', 'n', -1, 'p'):
            for op in (0, 1, 2, 3, 10):
                if op == 10 and b != '0' and a in ('p', 'n'):
                    continue
                if op in (3, 10) and b != '0' and a not in ('n', -1, -2):
                    continue
                jobs.append(J('h_throw', (a, b), o_throw, k=(op,)))
        jobs.append(J('h_throw', (a, 'p'), o_throw, k=(4, ksym('k', -2**31, -1)), tag='negative exponent', mode='bv'))
        for op in (5, 6, 7, 8, 9):
            jobs.append(J('h_throw', (a, 'p'), o_throw, k=(op,), mode='bv'))
        for d in (0x7ff << 52, 0xfff << 52, 0x7ff8 << 48):
            jobs.append(J('h_throw', (a, 'p'), o_throw, k=(11, d), tag=hex(d)))
    return jobs


@ok
def o_copy(I, O):
    a = I.big[0]
    return [('the copy keeps the value', O.out[0].same(a)), ('the assigned copy keeps the value', O.out[1].same(a)),
            ('the source was incremented', eqz(O.out[2].val(), a.val() + 1)), ('self-assignment', O.out[3].same(a))]


PROPS = [
    Prop('C18', 'canonical form', c18, {
        'quick': 'results of every operator and its compound/static forms on all values of up to 2x2 limbs (divisors small, or concrete up to 3 limbs), additive and bitwise up to 4x4; '
                 'cancelling pairs of 3-65 limbs with 2-5 free limbs and dividends near multiples of 3-9 limb divisors, also against the expected value; shifts of up to 3 free limbs by 0-127; imports of up to 13 bytes, 5 words, 21 digits, doubles by exponent; '
                 'pow/mod_pow/gcd on small shapes; about 500 one- and two-operation sequences against the value constructed directly',
        'thorough': 'the same with all forms of each operator, additive and bitwise up to 6x6 limbs, cancelling pairs up to 129 limbs, nine shape pairs per two-operation sequence'},
        budget_quick=4, vc_quick=1500, wall_quick=110,
        assumptions=['longer histories follow from the one-step claim because an object is nothing but its sign and words; two-step sequences are checked as well']),
    Prop('C20', 'operands and aliasing', c20, {
        'quick': 'operands after every operator (one form per shape pair) on values of up to 2x2 limbs, additive and bitwise up to 5x5, structured ones up to 65 limbs; one object on both sides, up to 3 free limbs; '
                 'div_rem with the remainder stored over either operand; 23 further aliasing patterns; conversions, shifts, pow, mod_pow, gcd, comparison; every throwing operation; copies',
        'thorough': 'the same with every form of every operator on every shape pair and one object on both sides up to 5 limbs'},
        budget_quick=8, vc_quick=3000, wall_quick=110),
]
