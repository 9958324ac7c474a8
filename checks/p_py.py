"""C22 the Python bindings: the current bindings source against models of pybind11 and of Python's integers."""
import copy
import os
import re
import types
from lib import *
from p_arith import shapes, trunc_div, divisors, ADD, SUB, MUL
from p_bits import BIT, ksym, o_bytes, o_pred, signed_value, bitlen_of, jbuf, k32
from p_text import o_str
from p_num import zpow, o_modpow
from p_log import o_log
from p_float import pack
import p_hist

BIG, INT, FLOAT, BOOL, BYTES, STR, NONE, TUPLE, INTFLOAT = range(9)
HERE = os.path.dirname(os.path.abspath(__file__))
NAMES = re.findall(r'"(\w+)"', open(os.path.join(HERE, '../harness/pybind.cpp')).read().split('names[] = {')[1].split('};')[0])
IX = {n: i for i, n in enumerate(NAMES)}
KN = 'BI'


def kind(O, i=0):
    k = O.r[2 * i]
    return k if k.__class__ is int else None


def PY(name, kinds, shps, oracle, k67=(), tag='', **kw):
    ks = [IX[name], len(kinds)] + list(kinds) + [0] * (4 - len(kinds)) + list(k67)
    j = J('h_py', shps, oracle, k=ks, **kw)
    j.name = '%s(%s)%s' % (name, ', '.join('%s %s' % ('BigInteger' if x == BIG else 'int' if x == INT else {BOOL: 'bool', FLOAT: 'float'}.get(x, 'object'),
                                                      sname(s) if s is not None else '') for x, s in zip(kinds, list(shps) + [None] * 4)), ' ' + tag if tag else '')
    return j


def val(O, i=0):
    return O.out[i].val()


def isk(O, k, i=0):
    return ('the result is a %s' % ('BigInteger', 'Python int', 'float', 'bool', 'bytes', 'str', 'None', 'tuple', 'float')[k], int(kind(O, i) == k))


def keeps(I, O, kinds):
    """the BigInteger operands are what they were"""
    return [('operand %d unchanged' % i, O.out[4 + i].same(I.big[i])) for i, k in enumerate(kinds) if k == BIG and 4 + i in O.out and i in I.big]


def o_val(f, rk, kinds, swap=False):
    @ok
    def g(I, O):
        a, b = I.big[0].val(), I.big[1].val() if 1 in I.big else 0
        if swap:
            a, b = b, a
        if kind(O) != rk:
            return [isk(O, rk)]
        if not (a.__class__ is int and b.__class__ is int):
            a, b = zof(a), zof(b)
        return [('value', eqz(val(O), f(a, b)))] + keeps(I, O, kinds)
    return g


def o_dm(what, rk, kinds, swap=False):
    def g(I, O):
        a, b = I.big[0].val(), I.big[1].val()
        if swap:
            a, b = b, a
        z = eqz(b, 0)
        if not O.ok():
            return [('raises only for a zero divisor (got %s)' % (O.exc,), z if O.status == 'throw' else 0)]
        nz = [('a zero divisor raises', lnot(z))]
        if what == 'divmod':
            if kind(O) != TUPLE or kind(O, 1) != rk or kind(O, 2) != rk:
                return [isk(O, TUPLE), isk(O, rk, 1), isk(O, rk, 2)]
            return nz + trunc_div(a, b, val(O, 1), val(O, 2)) + keeps(I, O, kinds)
        if kind(O) != rk:
            return [isk(O, rk)]
        r = val(O)
        if what == 'mod':
            return nz + [('dividend minus remainder is a multiple of the divisor', zdvd(a - r, zabs(b))), ('|remainder| < |divisor|', zabs(r) < zabs(b)),
                         ('remainder has the sign of the dividend', implies(lnot(eqz(r, 0)), iff(B(r < 0), B(a < 0))))] + keeps(I, O, kinds)
        q = r
        rem = a - q * b
        return nz + trunc_div(a, b, q, rem)[1:] + keeps(I, O, kinds)
    return g


REL = {'lt': lambda a, b: B(a < b), 'le': lambda a, b: lnot(B(b < a)), 'gt': lambda a, b: B(b < a), 'ge': lambda a, b: lnot(B(a < b)), 'eq': eqz}


def o_rel(f, kinds):
    @ok
    def g(I, O):
        a, b = zof(I.big[0].val()), zof(I.big[1].val())
        if kind(O) != BOOL:
            return [isk(O, BOOL)]
        r = O.r[1]
        t = lnot(T.eq(r, 0, 64)) if r.__class__ is Term else int(r != 0)
        return [('the truth of the comparison', iff(t, f(a, b)))] + keeps(I, O, kinds)
    return g


def o_raise(I, O):
    return [('raises a Python exception', int(O.status == 'throw'))]


def o_shift(left, rk, lo, hi, sh=1, kinds=(0, 0)):
    """operand `sh` is the count, in [lo, hi]"""
    @ok
    def g(I, O):
        a, k = I.big[1 - sh].val(), I.big[sh].val()
        if kind(O) != rk:
            return [isk(O, rk)]
        # the count is decided bit by bit on most paths; a symbolic one is a 32-bit term
        c = I.big[sh].sign
        r = val(O)
        if c.__class__ is int:
            n = T.sgn(c, 32)
            n = n if left else -n
            e = zshl(a, n, n) if n >= 0 else zshr(zof(a) if a.__class__ is not int else a, -n)
        else:
            m = T.trunc(c, 32) if c.w > 32 else c
            up = (lo >= 0) == left
            if lo < 0:
                m = T.sub(0, m, 32)
            e = zshl(a, m, max(abs(lo), abs(hi))) if up else zshr(a, m)
        return [('value', eqz(r, e))] + keeps(I, O, kinds)
    return g


def sub(I, O, oracle, n=1):
    """an oracle of another property on the BigInteger in argument 0 and the result in r0/obuf"""
    o = types.SimpleNamespace(status=O.status, exc=O.exc, out=O.out, obuf=O.obuf, olen=O.olen, r={0: O.r.get(1)}, ok=O.ok)
    return oracle(I, o)


def o_bytes_py(u, b, kinds=(BIG,)):
    f = o_bytes(u, b)

    def g(I, O):
        if O.ok():
            if kind(O) != BYTES:
                return [isk(O, BYTES)]
            o = types.SimpleNamespace(status=O.status, exc=O.exc, out=O.out, obuf=O.obuf, olen=O.olen, r={0: len(O.obuf or ())}, ok=O.ok)
            return f(I, o) + keeps(I, O, kinds)
        return f(I, O)
    return g


def o_strp(I, O):
    if O.ok() and kind(O) != STR:
        return [isk(O, STR)]
    return o_str(I, O)


def o_logp(base):
    f = o_log(base)

    def g(I, O):
        if O.ok() and kind(O) != FLOAT:
            return [isk(O, FLOAT)]
        return sub(I, O, f)
    return g


def o_truth(f):
    @ok
    def g(I, O):
        if kind(O) != BOOL:
            return [isk(O, BOOL)]
        r = O.r[1]
        t = lnot(T.eq(r, 0, 64)) if r.__class__ is Term else int(r != 0)
        return [('the truth', iff(t, f(I.big[0])))]
    return g


def pow2(b):
    v = b.val()
    if v.__class__ is int:
        return int(v > 0 and v & v - 1 == 0)
    W = zw(v) + 1
    x = zbits(v, W)
    return land(lnot(B(v < 0)), lnot(T.eq(x, 0, W)), T.eq(T.and_(x, T.sub(x, 1, W), W), 0, W))


def even(b):
    low = b.limbs[0] if b.limbs else b.sign
    return T.eq(T.and_(low, 1, 32), 0, 32)


def o_from_bytes(I, O):
    if not O.ok():
        return [('returns normally (got %s)' % (O.exc,), 0)]
    if kind(O) != BIG:
        return [isk(O, BIG)]
    return [('two\'s complement value of the bytes', eqz(val(O), signed_value(list(I.buf), 8)))]


def o_float(I, O):
    """float() is Python's own conversion of the right integer"""
    if not O.ok():
        return [('returns normally (got %s)' % (O.exc,), 0)]
    if O.r[0] == FLOAT:
        # replayed under the interpreter
        v = I.big[0].val()
        return [('float(int(x))', int(O.r[1] == pack(float(v))))] if I.concrete else [('float(int(x))', 0)]
    if kind(O) != INTFLOAT:
        return [isk(O, INTFLOAT)]
    return [('the integer that is made a float', eqz(val(O), I.big[0].val()))]


def o_sign(I, O):
    if not O.ok() or kind(O) != INT:
        return [isk(O, INT)] if O.ok() else [('returns normally', 0)]
    v = I.big[0].val()
    return [('sign', eqz(val(O), zite(B(v < 0), -1, zite(eqz(v, 0), 0, 1))))]


def o_bl(I, O):
    if not O.ok() or kind(O) != INT:
        return [isk(O, INT)] if O.ok() else [('returns normally', 0)]
    return [('bit length', eqz(val(O), bitlen_of(I.big[0])))]


@ok
def o_hash(I, O):
    if kind(O) != INT or kind(O, 1) != INT:
        return [isk(O, INT), isk(O, INT, 1)]
    return [('equal numbers have equal hashes', eqz(val(O), val(O, 1)))]


def c22(tier, rnd):
    q = tier == 'quick'
    jobs = []
    # a Python int of n limbs has a bit length that the conversion looks at: one job covers all of them
    S = ['0', 'p', 'n', 1, -1, 2, -2]
    D = S if q else S + [3, -3, 4, -4]

    def unary(a, w):
        for nm in ('__int__', '__index__'):
            jobs.append(PY(nm, (BIG,), (a,), o_val(lambda x, y: x, INT, (BIG,)), weight=w, mode='bv'))
        jobs.append(PY('__float__', (BIG,), (a,), o_float, weight=w, mode='bv'))
        for nm, f in (('__neg__', lambda x, y: -x), ('__pos__', lambda x, y: x), ('__abs__', lambda x, y: zabs(x)), ('__invert__', lambda x, y: -x - 1),
                      ('__deepcopy__', lambda x, y: x)):
            jobs.append(PY(nm, (BIG, NONE) if nm == '__deepcopy__' else (BIG,), (a,), o_val(f, BIG, (BIG,)), weight=w, mode='bv'))
        jobs.append(PY('__bytes__', (BIG,), (a,), o_bytes_py(0, 0), mode='bv', weight=w))
        for u in (0, 1):
            for b in (0, 1):
                jobs.append(PY('to_array', (BIG, BOOL, BOOL), (a,), o_bytes_py(u, b), (b, u), 'unsigned=%d big-endian=%d' % (u, b), mode='bv', weight=w))
        jobs.append(PY('to_array', (BIG,), (a,), o_bytes_py(0, 0), mode='bv', weight=w))
        jobs.append(PY('is_power_of_two', (BIG,), (a,), o_truth(pow2), mode='bv', weight=w))
        jobs.append(PY('is_even', (BIG,), (a,), o_truth(even), mode='bv', weight=w))
        jobs.append(PY('sign', (BIG,), (a,), o_sign, mode='bv', weight=w))
        jobs.append(PY('get_bit_Length', (BIG,), (a,), o_bl, mode='bv', weight=w))
        jobs.append(PY('__hash__', (BIG,), (a,), o_hash, mode='bv', weight=w))
    for a in D + ([3, -3, 4, -4] if q else [5, -5, 6, -6]):
        w = abs(a) if isinstance(a, int) else 1
        jobs.append(PY('__init__', (INT,), (a,), o_val(lambda x, y: x, BIG, (INT,)), weight=w, mode='bv'))
        unary(a, w)
    for n in (4, 8, 16) if q else (4, 5, 6, 7, 8, 12, 16, 17, 33, 65, 128):
        for kd in rnd.sample('FZ8M', 2) if q else 'FZ8M':
            for s in (1, -1):
                x = L(n, kd, s, (0, n - 1) if n < 9 else (n - 1,), rnd)
                jobs.append(PY('__init__', (INT,), (x,), o_val(lambda x, y: x, BIG, (INT,)), weight=1 + n / 8, mode='bv'))
                jobs.append(PY('__int__', (BIG,), (x,), o_val(lambda x, y: x, INT, (BIG,)), weight=1 + n / 8, mode='bv'))
                unary(x, 1 + n / 8)
    for n in range(0, 14) if q else range(0, 34):
        j = jbuf('h_py', [None] * n, o_from_bytes, (0, 1, BYTES), weight=1 + n / 4)
        j.name = '__init__(%d bytes)' % n
        jobs.append(j)
    for lo, hi in ((0, 9), (10, 99), (100, 99999), (10**8, 10**9 - 1), (10**9, 2**31 - 1)):
        jobs.append(PY('__str__', (BIG,), (('s', lo, hi) if hi < 2**31 else hi,), o_strp, tag='digits of [%d..%d]' % (lo, hi)))
        jobs.append(PY('__str__', (BIG,), (('s', -hi, -max(lo, 1)),), o_strp, tag='digits of -[%d..%d]' % (lo, hi)))
    jobs.append(PY('__str__', (BIG,), (1,), o_strp, weight=3))
    jobs.append(PY('__str__', (BIG,), (-2,), o_strp, weight=6))
    for nm, v in (('zero', 0), ('one', 1), ('minus_one', -1)):
        jobs.append(PY(nm, (), (), ok(lambda I, O, v=v: [isk(O, BIG), ('value', eqz(val(O), v))])))
    # binary operators: both BigInteger, int on the right, int on the left
    OPS = [('add', ADD), ('sub', SUB), ('mul', MUL), ('and', BIT['and']), ('or', BIT['or']), ('xor', BIT['xor'])]
    for op, f in OPS:
        kw = dict(mode='bv') if op in BIT else {}
        for a in D:
            for b in D:
                big = (isinstance(a, int)) + (isinstance(b, int))
                if op == 'mul' and isinstance(a, int) and isinstance(b, int) and abs(a) + abs(b) > (3 if q else 5):
                    continue
                if q and big == 2 and rnd.random() < .5:
                    continue
                w = 1 + (abs(a) if isinstance(a, int) else 1) + (abs(b) if isinstance(b, int) else 1)
                forms = [('__%s__' % op, (BIG, BIG), BIG, False), ('__%s__' % op, (BIG, INT), BIG, False), ('__r%s__' % op, (BIG, INT), INT, True)]
                for nm, kn, rk, sw in forms if not q or rnd.random() < .1 else rnd.sample(forms + forms[1:2], 1):
                    jobs.append(PY(nm, kn, (a, b), o_val(f, rk, kn, sw), weight=w, **kw))
    for op, what in (('mod', 'mod'), ('divmod', 'divmod'), ('truediv', 'div'), ('floordiv', 'div')):
        for a in D:
            for b in D:
                # reflected: the first argument is the divisor
                for nm, kn, rk, sw in [('__%s__' % op, (BIG, BIG), BIG, False), ('__%s__' % op, (BIG, INT), BIG, False), ('__r%s__' % op, (BIG, INT), INT, True)]:
                    x, y = (a, b) if not sw else (b, a)
                    if isinstance(x, int) and isinstance(y, int):
                        if abs(y) > 2 or q and rnd.random() < .6:
                            continue
                        y = const(limbs(abs(y), rnd.choice('MRF8'), (), rnd), 1 if y > 0 else -1)
                        if abs(y[1]) < 2**31:
                            y = ('c', 2**31 + 7)
                    elif q and rnd.random() < (.7 if sw else .4):
                        continue
                    elif y != '0' and not isinstance(y, int) and (kn[1] == INT or isinstance(x, int)):
                        # through the conversions, one divisor at a time
                        y = ('c', rnd.choice((7919, 3, 65536, 2**31 - 1)) * (1 if y == 'p' else -1))
                    if sw and isinstance(x, str) and isinstance(y, int):
                        y = const(limbs(abs(y), 'R', (), rnd), 1 if y > 0 else -1)
                    if sw and (q or what == 'divmod') and x != '0':
                        # the result is converted too: a range of dividends
                        k = rnd.choice((0, 1000, 2**24, 2**31 - 301))
                        x = ('s', k, k + 300) if x == 'p' else ('s', -k - 300, -k) if x == 'n' else L(abs(x), 'R', 1 if x > 0 else -1, (), rnd)
                    sh = (x, y) if not sw else (y, x)
                    jobs.append(PY(nm, kn, sh, o_dm(what, rk, kn, sw), weight=3 + (op == 'divmod' and sw) * 4, hard=isinstance(x, str) and isinstance(y, str), maxpaths=300,))
        for b in (BIG, INT):
            for a in ('p', 'n', '0', 1, -2):
                jobs.append(PY('__%s__' % op, (BIG, b), (a, '0'), o_raise, tag='zero divisor'))
                if b == INT:
                    jobs.append(PY('__r%s__' % op, (BIG, b), ('0', a), o_raise, tag='zero divisor'))
    for op, f in REL.items():
        for a in D:
            for b in D:
                for kn in ((BIG, BIG), (BIG, INT)):
                    if q and rnd.random() < (.5 if kn[1] == BIG else .7):
                        continue
                    jobs.append(PY('__%s__' % op, kn, (a, b), o_rel(f, kn), weight=2))
    # operands of three to five limbs: of one pattern, so that they can be equal or opposite in all but the symbolic limbs
    for op, f in OPS + list(REL.items()):
        kw = dict(mode='bv') if op in BIT else {}
        forms = [((BIG, BIG), False), ((BIG, INT), False)] + ([((BIG, INT), True)] if op not in REL else [])
        for kn, sw in forms:
            for sa in (1, -1):
                for sb in (1, -1):
                    n = rnd.choice((3, 3, 4)) if op != 'mul' else 3
                    kd = rnd.choice('FZ8M')
                    sym = (0,) if op != 'mul' else ()
                    a, b = L(n, kd, sa, sym, rnd), L(n if rnd.random() < .6 or op in REL else 5 - n % 3, kd, sb, (0,), rnd)
                    nm = '__%s%s__' % ('r' if sw else '', op)
                    if op in REL:
                        jobs.append(PY(nm, kn, (a, b), o_rel(f, kn), weight=2))
                    else:
                        jobs.append(PY(nm, kn, (a, b), o_val(f, INT if sw else BIG, kn, sw), weight=4, **kw))
    for op, what in (('mod', 'mod'), ('divmod', 'divmod'), ('truediv', 'div'), ('floordiv', 'div')):
        for kn, sw in ((BIG, BIG), False), ((BIG, INT), False), ((BIG, INT), True):
            for sx in (1, -1):
                for sy in (1, -1):
                    x = L(4, rnd.choice('RFZ8'), sx, (0,) if not sw else (), rnd)
                    y = L(3, rnd.choice('RFM8'), sy, (), rnd)
                    sh = (x, y) if not sw else (y, x)
                    jobs.append(PY('__%s%s__' % ('r' if sw else '', op), kn, sh, o_dm(what, INT if sw else BIG, kn, sw), weight=4, hard=False, maxpaths=300))
    # shifts
    for d, left in (('l', True), ('r', False)):
        for a in ['0', 'p', 'n', 1, -1, 2, -2] + ([] if q else [3, -3]):
            for lo, hi in ((0, 0), (1, 31), (32, 63)) + (((-31, -1),) if not q or isinstance(a, str) else ()) + (() if q else ((64, 95), (-63, -32))):
                for nm, kn, rk, sh in (('__%sshift__' % d, (BIG, BIG), BIG, 1), ('__%sshift__' % d, (BIG, INT), BIG, 1), ('__r%sshift__' % d, (BIG, INT), INT, 0)):
                    if q and rnd.random() < (.7 if sh == 0 else .4):
                        continue
                    k = ('s', lo, hi) if lo < hi else ('c', lo)
                    jobs.append(PY(nm, kn, (a, k) if sh else (k, a), o_shift(left, rk, lo, hi, sh, kn), weight=3 + hi / 32, mode='bv', maxpaths=500))
        for kn in ((BIG, BIG), (BIG, INT)):
            for k in (1, -1, 2, -2):
                if abs(k) == 1 and k < 0:
                    k = ('l', -1, [('v')], '') if False else L(1, 'R', -1, (), rnd, top=2**31 + 77)
                for a in ('p', -1):
                    jobs.append(PY('__%sshift__' % d, kn, (a, k), o_raise, tag='count beyond int'))
    # powers
    for a in ['p', 'n', 1, -1, 2] + ([] if q else [-2, 3]):
        for e in (0, 1, 2, 3) + (() if q else (4, 5)):
            f = lambda x, y, e=e: x ** e if x.__class__ is int else zpow(x, e)
            for nm, kn, rk, sw in (('__pow__', (BIG, BIG), BIG, False), ('__pow__', (BIG, INT), BIG, False), ('__rpow__', (BIG, INT), INT, True)):
                k = ('c', e)
                jobs.append(PY(nm, kn, (a, k) if not sw else (k, a), o_val(lambda x, y, f=f, sw=sw: f(x, y), rk, kn, sw), weight=3 + 3 * e))
    for nm, kn, sw in (('__pow__', (BIG, BIG), 0), ('__pow__', (BIG, INT), 0), ('__rpow__', (BIG, INT), 1)):
        for e in ('n', 1, -1, 2, -2):
            for a in ('p', -1):
                jobs.append(PY(nm, kn, (a, e) if not sw else (e, a), o_raise, tag='negative exponent, or beyond int'))
    for kn in ((BIG, BIG, BIG), (BIG, INT, BIG), (BIG, BIG, INT)):
        for e in (0, 1, 2, 3):
            for a in ('p', 'n', 1, -1):
                for m in ('p', 'n', ('c', 2**33 + 5), ('c', -2**64)):
                    if q and rnd.random() < .75:
                        continue
                    def om(e):
                        f = o_modpow(e)
                        return lambda I, O: f(I, O) if not O.ok() or kind(O) == BIG else [isk(O, BIG)]
                    jobs.append(PY('__pow__', kn, (a, ('c', e), m), om(e), weight=6 + 5 * e))
        for e in ('n', -1):
            jobs.append(PY('__pow__', kn, ('p', e, 'p'), o_raise, tag='negative exponent'))
        jobs.append(PY('__pow__', kn, ('p', 'p', '0'), o_raise, tag='zero modulus'))
    # logarithms
    for kn in (BIG, INT):
        for a in ['p', 1, 2, 3, -1]:
            jobs.append(PY('log', (kn,), (a,), o_logp(2.7182818284590451), mode='bv', weight=3))
            jobs.append(PY('log10', (kn,), (a,), o_logp(10.0), mode='bv', weight=3))
            for d in rnd.sample((1.5, 2.0, 0.5, 16.0, 1e30), 2) + [3.0] if q else (1.0625, 1.5, 2.0, 3.0, 0.5, 0.001, 16.0, 1e30):
                jobs.append(PY('log', (kn, FLOAT), (a,), o_logp(d), (pack(d),), tag='base %g' % d, mode='bv', weight=3))
            jobs.append(PY('log', (kn, FLOAT), (a,), o_logp(1.0), (pack(1.0),), tag='base 1', mode='bv', weight=3))
    # methods called before in the same process
    H = p_hist.HISTORIES[:1] + p_hist.HISTORIES[2:4] + p_hist.DERIVED
    by = {}
    for j in jobs:
        if j.weight <= 4:
            by.setdefault(j.name.split('(')[0], []).append(j)
    for i, nm in enumerate(sorted(by)):
        for n, j in enumerate(rnd.sample(by[nm], min(len(by[nm]), 2 if q else 20))):
            what, h = H[(2 * i + n) % len(H)]
            c = copy.copy(j)
            c.prelude, c.oracle, c.name = h(j.fn), p_hist.same_as_fresh, j.name + ' ' + what
            jobs.append(c)
    return jobs


PROPS = [
    Prop('C22', 'Python bindings', c22, {
        'quick': 'every method of the class: conversions and unary methods of every int and value of up to 4 limbs and of patterned ones up to 16, bytes of length 0-13; the binary operators, with both '
                 'operands BigInteger, an int on the right and an int on the left, on up to 2x2 limbs (products 1x2, divisors mostly concrete; reflected division on ranges) and patterned 3-5 limb ones, shifts by 0-63, exponents 0-3, '
                 'three-argument pow, the throwing cases with every operand of the shape; strings of up to two limbs; logarithms up to 3 limbs',
        'thorough': 'conversions up to 6 free limbs and structured ones up to 128, bytes to 33, operators on up to 4x4 limbs (products up to 5 limbs in all), shifts to 95, exponents to 5'},
        budget_quick=6, vc_quick=2000, wall_quick=110, py=True,
        assumptions=['pybind11 and the interpreter are models in /verif/harness/py (conversion by parameter type, overloads in order of registration, integers as sign and magnitude); '
                     'up to three paths per job are compared with the real module, built from the same sources, under the real interpreter; a violation is reported only if that module shows it',
                     'the replayed result of a throwing path is any Python exception; float(x) is judged by the integer handed to the interpreter']),
]
