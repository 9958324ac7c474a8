"""Helpers shared by the property definitions: operand shapes, structured operands, oracle pieces."""
import terms as T
from terms import Term, Z, zdvd, land, lor, lnot, implies, iff, zvalue, zsigned, zunsigned, zite, zof, zbits, zw, B
from run import Job, Inputs

M32 = 0xFFFFFFFF
M64 = (1 << 64) - 1

SMALL = {'0': ('c', 0), 'p': ('s', 1, 2**31 - 1), 'n': ('s', -(2**31 - 1), -1), 's': 0}
SM = ['0', 'p', 'n']


def shape(s):
    return SMALL.get(s, s) if isinstance(s, str) else s


def sname(s):
    if isinstance(s, tuple):
        if s[0] == 'c':
            v = s[1]
            return hex(v) if abs(v) < 1 << 70 else '%s%d-limb const' % ('-' if v < 0 else '', (abs(v).bit_length() + 31) // 32)
        if s[0] == 's':
            return '[%d..%d]' % (s[1], s[2])
        if s[0] == 'l':
            n = len(s[2])
            return '%s%d limbs(%s)' % ('-' if s[1] < 0 else '', n, s[3] if len(s) > 3 else 'mixed')
    return {'0': '0', 'p': 'small+', 'n': 'small-', 's': 'small'}.get(s, '%+d limbs' % s if isinstance(s, int) else str(s))


def J(fn, shapes, oracle, k=(), tag='', **kw):
    shapes = list(shapes)

    def setup(I):
        for i, s in enumerate(shapes):
            if s is not None:
                I.operand(i, shape(s))
        for i, v in enumerate(k):
            if v is not None:
                I.k[i] = v(I) if callable(v) else v & M64
    ks = [v for v in k if v is not None and not callable(v)]
    name = '%s(%s)' % (fn[2:], ', '.join(sname(s) for s in shapes if s is not None)) + \
           (' k=%s' % ','.join(map(str, ks)) if ks else '') + (' ' + tag if tag else '')
    return Job(name, fn, setup, oracle, **kw)


def ok(f):
    """the call returns normally and then f's assertions hold"""
    def g(I, O):
        if not O.ok():
            return [('returns normally (got %s)' % (O.exc,), 0)]
        return f(I, O)
    return g


def throws(name, f=None):
    def g(I, O):
        if O.status != 'throw':
            return [('throws %s' % name, 0)]
        return [('throws %s' % name, int(is_exc(O.exc, name)))]
    return g


def is_exc(e, name):
    return e is not None and e.endswith(name)


DIVZERO = '12DivideByZero'.replace('12', '%d' % len('DivideByZero'))
OVERFLOW = 'overflow_error'
RANGE = 'out_of_range'


def same_in(O, i, b, label=None):
    """output i is exactly the input operand b"""
    return (label or 'operand unchanged', O.out[i].same(b))


# ---- structured large operands: concrete limbs with a few symbolic ones

def limbs(n, kind, sym=(), rnd=None, top=None):
    """n limbs by pattern: 'F' all ones, 'Z' zeros with top 1, '8' top bit only, 'R' seeded random, 'A' alternating,
    with None (fresh symbolic) at the positions in sym."""
    if kind == 'F':
        r = [M32] * n
    elif kind == 'Z':
        r = [0] * n
        r[-1] = 1
    elif kind == '8':
        r = [0] * n
        r[-1] = 1 << 31
    elif kind == 'A':
        r = [M32 if i % 2 else 0 for i in range(n)]
        r[-1] = r[-1] or 1
    elif kind == 'R':
        r = [rnd.getrandbits(32) for _ in range(n)]
        r[-1] |= 1
    elif kind == 'N':
        # nearly a power of the base: 0xFFFFFFFF at the top, small below
        r = [rnd.getrandbits(2) if rnd else 1 for _ in range(n)]
        r[-1] = M32
    elif kind == 'M':
        r = [rnd.choice((0, 0, 1, M32, M32, 1 << 31, (1 << 31) - 1, rnd.getrandbits(32))) for _ in range(n)]
        r[-1] = r[-1] or 1
    else:
        raise ValueError(kind)
    if top is not None:
        r[-1] = top
    for i in sym:
        r[i % n] = None
    return r


def L(n, kind, sign=1, sym=(), rnd=None, top=None):
    sym = tuple(i % n for i in sym)
    return ('l', sign, limbs(n, kind, sym, rnd, top), '%s, symbolic %s' % (kind, ','.join(map(str, sorted(sym))) or 'none'))


def const(ls, sign=1):
    v = 0
    for i, x in enumerate(ls):
        v |= x << (32 * i)
    return ('c', sign * v)


# ---- integer helpers that work symbolically and on replay

def fit(k, W):
    if k.__class__ is int:
        return k
    if k.w > W:
        return T.trunc(k, W)
    return T.zext(k, W)


def zshl(v, k, kmax):
    """v * 2**k, 0 <= k <= kmax"""
    if k.__class__ is int:
        if v.__class__ is int:
            return v << k
        if k == 0:
            return v
        m = T._unneg(v) if v.hi <= 0 else None
        if m is not None:
            return -zshl(m, k, kmax)
        W = zw(v) + k
        return T.znew(T.shl(zbits(v, W), k, W), W, v.lo << k, v.hi << k)
    v = zof(v)
    m = T._unneg(v) if v.hi <= 0 else None
    if m is not None and v.lo < 0:
        return -zshl(m, k, kmax)
    W = max(zw(v) + kmax, 65)
    return T.znew(T.shl(zbits(v, W), fit(k, W), W), W, min(v.lo, v.lo << kmax), max(v.hi, v.hi << kmax))


def zshr(v, k):
    """floor(v / 2**k), k >= 0"""
    if k.__class__ is int:
        return v >> k
    v = zof(v)
    W = max(zw(v), 65)
    return T.znew(T.ashr(zbits(v, W), fit(k, W), W), W, min(v.lo, -1), max(v.hi, 0))


def znonneg(v):
    return lnot(v < 0) if v.__class__ is Z else int(v >= 0)


def zabs(v):
    if v.__class__ is int:
        return abs(v)
    return zite(v < 0, -v, v)


def eqz(a, b):
    if a.__class__ is int and b.__class__ is int:
        return int(a == b)
    return zof(a) == b


class Prop:
    def __init__(self, pid, title, jobs, bounds, ub=False, wall_quick=90, wall_thorough=3000, assumptions=(),
                 budget_quick=20, vc_quick=4000, py=False):
        self.py = py
        self.budget_quick = budget_quick
        self.vc_quick = vc_quick
        self.id = pid
        self.title = title
        self.jobs = jobs
        self.bounds = bounds
        self.ub = ub
        self.wall_quick = wall_quick
        self.wall_thorough = wall_thorough
        self.assumptions = list(assumptions)
