"""Hash-consed bit-vector terms.

A value in the symbolic executor is either a plain Python int (the canonical unsigned value of a machine word) or a
Term.  Python's operators on Terms mirror the machine operations, so the code generated from the IR is the same for
concrete and symbolic values:

    +  -  *      modular arithmetic           <<  >>     shl / logical shift right
    &  |  ^      bitwise                      < <= > >=  unsigned comparison (an i1: a Term of width 1, or 0/1)
    ==  !=       i1
"""
from math import gcd


class Term:
    __slots__ = ('op', 'w', 'a', 'b', 'c', 'lo', 'hi', 'id', 'rep', 'bv', 'ev', 'ep', 'fo', 'k')

    def __repr__(self):
        return show(self, 4)

    def __hash__(self):
        return self.id * 0x9E3779B97F4A7C15 & 0x7FFFFFFFFFFFFFF

    def __bool__(self):
        raise TypeError('symbolic value used as a concrete condition')

    def __index__(self):
        raise TypeError('symbolic value used as a concrete integer')

    def __pos__(self):
        return self

    def __add__(self, o):
        return add(self, o, self.w)

    __radd__ = __add__

    def __sub__(self, o):
        return sub(self, o, self.w)

    def __rsub__(self, o):
        return sub(o, self, self.w)

    def __mul__(self, o):
        return mul(self, o, self.w)

    __rmul__ = __mul__

    def __and__(self, o):
        return and_(self, o, self.w)

    __rand__ = __and__

    def __or__(self, o):
        return or_(self, o, self.w)

    __ror__ = __or__

    def __xor__(self, o):
        return xor(self, o, self.w)

    __rxor__ = __xor__

    def __lshift__(self, o):
        return shl(self, o, self.w)

    def __rlshift__(self, o):
        return shl(o & ((1 << self.w) - 1), self, self.w)

    def __rshift__(self, o):
        return lshr(self, o, self.w)

    def __rrshift__(self, o):
        return lshr(o, self, self.w)

    def __floordiv__(self, o):
        return udiv(self, o, self.w)

    def __mod__(self, o):
        return urem(self, o, self.w)

    def __lt__(self, o):
        return ult(self, o, self.w)

    def __gt__(self, o):
        return ult(o, self, self.w)

    def __le__(self, o):
        return not_(ult(o, self, self.w))

    def __ge__(self, o):
        return not_(ult(self, o, self.w))

    def __eq__(self, o):
        return eq(self, o, self.w)

    def __ne__(self, o):
        return not_(eq(self, o, self.w))


TABLE = {}
NEXT = [1]
VARS = {}


def reset():
    TABLE.clear()
    VARS.clear()
    NEXT[0] = 1


def key(x):
    if x.__class__ is int:
        return x
    return -x.id


def mk(op, w, a, b, c, lo, hi):
    if lo == hi:
        return lo
    k = (op, w, a if a.__class__ is int else (-a.id if a.__class__ is Term else a),
         b if b.__class__ is int else (-b.id if b.__class__ is Term else b),
         c if c.__class__ is int else (-c.id if c.__class__ is Term else c))
    t = TABLE.get(k)
    if t is not None:
        return t
    t = Term()
    t.op = op
    t.w = w
    t.a = a
    t.b = b
    t.c = c
    t.lo = lo
    t.hi = hi
    t.id = NEXT[0]
    NEXT[0] += 1
    t.rep = None
    t.bv = None
    t.ep = 0
    t.fo = None
    t.k = None
    TABLE[k] = t
    return t


def var(name, w, lo=0, hi=None):
    if hi is None:
        hi = (1 << w) - 1
    t = mk('var', w, name, 0, 0, lo, hi)
    if t.__class__ is Term:
        VARS[name] = t
    return t


def rng(x):
    return (x, x) if x.__class__ is int else (x.lo, x.hi)


def add(a, b, w):
    if a.__class__ is int:
        if b.__class__ is int:
            return (a + b) & ((1 << w) - 1)
        a, b = b, a
    if b.__class__ is int:
        b &= (1 << w) - 1
        if b == 0:
            return a
        if a.op == 'add' and a.b.__class__ is int:
            return add(a.a, (a.b + b) & ((1 << w) - 1), w)
        if a.op == 'sub' and a.a.__class__ is int:
            return sub((a.a + b) & ((1 << w) - 1), a.b, w)
        bl = bh = b
    else:
        bl, bh = b.lo, b.hi
        if a.id > b.id:
            a, b = b, a
            return mk('add', w, a, b, 0, *_addr(a.lo, a.hi, b.lo, b.hi, w))
    return mk('add', w, a, b, 0, *_addr(a.lo, a.hi, bl, bh, w))


def _addr(al, ah, bl, bh, w):
    m = 1 << w
    l = al + bl
    h = ah + bh
    if h < m:
        return l, h
    if l >= m:
        return l - m, h - m
    return 0, m - 1


def sub(a, b, w):
    if a.__class__ is int and b.__class__ is int:
        return (a - b) & ((1 << w) - 1)
    if b.__class__ is int:
        return add(a, -b & ((1 << w) - 1), w)
    if a is b:
        return 0
    al, ah = rng(a)
    m = 1 << w
    if a.__class__ is int:
        al = ah = a = a & (m - 1)
        if b.op == 'sub' and b.a.__class__ is int:
            # c - (d - x) = x + (c - d)
            return add(b.b, (a - b.a) & (m - 1), w)
    l = al - b.hi
    h = ah - b.lo
    if l < 0:
        if h < 0:
            l += m
            h += m
        else:
            l, h = 0, m - 1
    return mk('sub', w, a, b, 0, l, h)


def mul(a, b, w):
    if a.__class__ is int:
        if b.__class__ is int:
            return a * b & ((1 << w) - 1)
        a, b = b, a
    if b.__class__ is int:
        b &= (1 << w) - 1
        if b == 0:
            return 0
        if b == 1:
            return a
        bl = bh = b
    else:
        if a.id > b.id:
            a, b = b, a
        bl, bh = b.lo, b.hi
    h = a.hi * bh
    if h < 1 << w:
        return mk('mul', w, a, b, 0, a.lo * bl, h)
    return mk('mul', w, a, b, 0, 0, (1 << w) - 1)


def and_(a, b, w):
    if a.__class__ is int:
        if b.__class__ is int:
            return a & b
        a, b = b, a
    if b.__class__ is int:
        b &= (1 << w) - 1
        if b == 0:
            return 0
        if a.hi <= b and b & (b + 1) == 0:
            return a
        if b == (1 << w) - 1:
            return a
        l, h = bitrange(int.__and__, a, b, w)
        return mk('and', w, a, b, 0, l, min(a.hi, b, h))
    if a is b:
        return a
    if a.id > b.id:
        a, b = b, a
    if w == 1:
        return mk('and', w, a, b, 0, 0, 1)
    l, h = bitrange(int.__and__, a, b, w)
    return mk('and', w, a, b, 0, l, min(a.hi, b.hi, h))


def or_(a, b, w):
    if a.__class__ is int:
        if b.__class__ is int:
            return a | b
        a, b = b, a
    if b.__class__ is int:
        b &= (1 << w) - 1
        if b == 0:
            return a
        if b == (1 << w) - 1:
            return b
        if a.op == 'shl' and a.b.__class__ is int and b < 1 << a.b:
            return add(a, b, w)
        l, h = bitrange(int.__or__, a, b, w)
        return mk('or', w, a, b, 0, max(a.lo, b, l), h)
    if a is b:
        return a
    if a.id > b.id:
        a, b = b, a
    l, h = bitrange(int.__or__, a, b, w)
    return mk('or', w, a, b, 0, max(a.lo, b.lo, l), h)


def xor(a, b, w):
    if a.__class__ is int:
        if b.__class__ is int:
            return a ^ b
        a, b = b, a
    if b.__class__ is int:
        b &= (1 << w) - 1
        if b == 0:
            return a
        if w == 1:
            return not_(a)
        m = (1 << w) - 1
        if b == m:
            if a.op == 'xor' and a.b.__class__ is int and a.b == m:
                return a.a
            return mk('xor', w, a, b, 0, m - a.hi, m - a.lo)
        return mk('xor', w, a, b, 0, *bitrange(int.__xor__, a, b, w))
    if a is b:
        return 0
    if a.id > b.id:
        a, b = b, a
    return mk('xor', w, a, b, 0, *bitrange(int.__xor__, a, b, w))


def not_(a):
    if a.__class__ is int:
        return a ^ 1
    if a.op == 'not':
        return a.a
    return mk('not', 1, a, 0, 0, 0, 1)


def shl(a, b, w):
    m = (1 << w) - 1
    if b.__class__ is int:
        if b == 0:
            return a
        if b >= w:
            raise ShiftRange()
        if a.__class__ is int:
            return a << b & m
        h = a.hi << b
        if h <= m:
            return mk('shl', w, a, b, 0, a.lo << b, h)
        return mk('shl', w, a, b, 0, 0, m - ((1 << b) - 1))
    return mk('shl', w, a, b, 0, 0, m)


def lshr(a, b, w):
    if b.__class__ is int:
        if b == 0:
            return a
        if b >= w:
            raise ShiftRange()
        if a.__class__ is int:
            return a >> b
        if a.op == 'lshr' and a.b.__class__ is int:
            if a.b + b >= w:
                return 0
            return lshr(a.a, a.b + b, w)
        return mk('lshr', w, a, b, 0, a.lo >> b, a.hi >> b)
    al, ah = rng(a)
    return mk('lshr', w, a, b, 0, al >> min(b.hi, w), ah >> b.lo)


def prefix(a, b):
    """(value of a's and b's common-length fixed high bits, number of free low bits)"""
    al, ah = rng(a)
    bl, bh = rng(b)
    n = max((al ^ ah).bit_length(), (bl ^ bh).bit_length())
    return al >> n, bl >> n, n


def bitrange(f, a, b, w):
    x, y, n = prefix(a, b)
    v = f(x, y) << n
    return v, v | ((1 << n) - 1)


class ShiftRange(Exception):
    pass


def ashr(a, b, w):
    if b.__class__ is int:
        if b == 0:
            return a
        if b >= w:
            raise ShiftRange()
        if a.__class__ is int:
            if a >> (w - 1):
                return ((a - (1 << w)) >> b) & ((1 << w) - 1)
            return a >> b
    h = 1 << (w - 1)
    if a.__class__ is int:
        if a < h:
            return lshr(a, b, w)
    elif a.hi < h:
        return lshr(a, b, w)
    if b.__class__ is int and a.__class__ is Term and a.lo >= h:
        m = 1 << w
        return mk('ashr', w, a, b, 0, ((a.lo - m) >> b) + m, ((a.hi - m) >> b) + m)
    return mk('ashr', w, a, b, 0, 0, (1 << w) - 1)


def trunc(a, w):
    m = (1 << w) - 1
    if a.__class__ is int:
        return a & m
    if a.w == w:
        return a
    if a.op == 'zext' or a.op == 'sext':
        x = a.a
        if x.w == w:
            return x
        if x.w > w:
            return trunc(x, w)
        return zext(x, w) if a.op == 'zext' else sext(x, w)
    if a.op == 'trunc':
        return trunc(a.a, w)
    if a.op == 'or' and a.b.__class__ is Term:
        # concatenations: drop the part that lies above
        for x, y in ((a.a, a.b), (a.b, a.a)):
            if x.op == 'shl' and x.b.__class__ is int and x.b >= w:
                return trunc(y, w)
    if a.lo >> w == a.hi >> w:
        return mk('trunc', w, a, 0, 0, a.lo & m, a.hi & m)
    return mk('trunc', w, a, 0, 0, 0, m)


def zext(a, w):
    if a.__class__ is int:
        return a
    if a.w == w:
        return a
    if a.op == 'zext':
        return zext(a.a, w)
    if a.op == 'trunc' and a.a.w <= w and a.a.hi <= (1 << a.w) - 1:
        return zext(a.a, w)
    return mk('zext', w, a, 0, 0, a.lo, a.hi)


def sext(a, w, fw=None):
    if a.__class__ is int:
        if a >> (fw - 1):
            return a + (1 << w) - (1 << fw)
        return a
    if a.w == w:
        return a
    h = 1 << (a.w - 1)
    if a.hi < h:
        return zext(a, w)
    if a.op == 'sext':
        return sext(a.a, w)
    d = (1 << w) - (1 << a.w)
    if a.lo >= h:
        return mk('sext', w, a, 0, 0, a.lo + d, a.hi + d)
    return mk('sext', w, a, 0, 0, 0, (1 << w) - 1)


def ite(c, a, b, w):
    if c.__class__ is int:
        return a if c else b
    if a is b or (a.__class__ is int and b.__class__ is int and a == b):
        return a
    if c.op == 'not':
        c, a, b = c.a, b, a
    if w == 1:
        if a.__class__ is int and b.__class__ is int:
            return c if a else not_(c)
        if a.__class__ is int:
            return or_(c, b, 1) if a else and_(not_(c), b, 1)
        if b.__class__ is int:
            return or_(not_(c), a, 1) if b else and_(c, a, 1)
    al, ah = rng(a)
    bl, bh = rng(b)
    return mk('ite', w, c, a, b, min(al, bl), max(ah, bh)) if (al, ah) != (bl, bh) or al != ah else a


def eq(a, b, w):
    if a.__class__ is int:
        if b.__class__ is int:
            return 1 if a == b else 0
        a, b = b, a
    if a is b:
        return 1
    if w == 1:
        if b.__class__ is int:
            return a if b else not_(a)
        return not_(xor(a, b, 1))
    bl, bh = rng(b)
    if a.hi < bl or bh < a.lo:
        return 0
    if b.__class__ is int:
        b &= (1 << w) - 1
        if a.op in ('zext',):
            if b > a.a.hi:
                return 0
            return eq(a.a, b, a.a.w)
        if a.op == 'ite' and a.b.__class__ is int and a.c.__class__ is int:
            if a.b == b:
                return a.a if a.c != b else 1
            if a.c == b:
                return not_(a.a)
            return 0
        if a.op == 'add' and a.b.__class__ is int:
            return eq(a.a, (b - a.b) & ((1 << w) - 1), w)
        if a.op == 'xor' and a.b.__class__ is int:
            return eq(a.a, b ^ a.b, w)
        if a.op == 'sub' and b == 0:
            return eq(a.a, a.b, w)
        if a.op == 'or' and b == 0:
            # remembered: the operands of nested disjunctions may share a lot
            k = ('eq or', a.id)
            r = TABLE.get(k)
            if r is None:
                r = TABLE[k] = and_(eq(a.a, 0, w), eq(a.b, 0, w), 1)
            return r
    elif a.op == 'zext' and b.op == 'zext' and a.a.w == b.a.w:
        return eq(a.a, b.a, a.a.w)
    elif a.id > b.id:
        a, b = b, a
    return mk('eq', 1, a, b, 0, 0, 1)


def ult(a, b, w):
    al, ah = rng(a)
    bl, bh = rng(b)
    if ah < bl:
        return 1
    if al >= bh:
        return 0
    if a is b:
        return 0
    if b.__class__ is int and b == 1:
        return eq(a, 0, w)
    if a.__class__ is int and a == 0:
        return not_(eq(b, 0, w))
    if a.__class__ is Term and a.op == 'zext':
        if b.__class__ is Term and b.op == 'zext' and a.a.w == b.a.w:
            return ult(a.a, b.a, a.a.w)
        if b.__class__ is int:
            return ult(a.a, b, a.a.w)
    elif b.__class__ is Term and b.op == 'zext' and a.__class__ is int:
        return ult(a, b.a, b.a.w)
    return mk('ult', 1, a, b, 0, 0, 1)


def slt(a, b, w):
    if a.__class__ is int and b.__class__ is int:
        h = 1 << (w - 1)
        return 1 if (a ^ h) < (b ^ h) else 0
    h = 1 << (w - 1)
    al, ah = rng(a)
    bl, bh = rng(b)
    if ah < h and bh < h or al >= h and bl >= h:
        return ult(a, b, w)
    if ah < h and bl >= h:
        return 0
    if al >= h and bh < h:
        return 1
    if a is b:
        return 0
    # sign bits of bitwise combinations
    if b.__class__ is int and b == 0 and a.op in ('xor', 'and', 'or'):
        f = {'xor': xor, 'and': and_, 'or': or_}[a.op]
        return f(slt(a.a, 0, w), slt(a.b, 0, w), 1)
    if a.__class__ is int and a == m1(w) and b.op in ('xor', 'and', 'or'):
        return not_(slt(b, 0, w))
    return mk('slt', 1, a, b, 0, 0, 1)


def m1(w):
    return (1 << w) - 1


def udiv(a, b, w):
    if b.__class__ is int:
        if b == 1:
            return a
        if a.__class__ is int:
            return a // b
        if b & (b - 1) == 0:
            return lshr(a, b.bit_length() - 1, w)
        return mk('udiv', w, a, b, 0, a.lo // b, a.hi // b)
    al, ah = rng(a)
    return mk('udiv', w, a, b, 0, al // max(b.hi, 1), ah // max(b.lo, 1))


def urem(a, b, w):
    if b.__class__ is int:
        if b == 1:
            return 0
        if a.__class__ is int:
            return a % b
        if b & (b - 1) == 0:
            return and_(a, b - 1, w)
        if a.hi < b:
            return a
        return mk('urem', w, a, b, 0, 0, b - 1)
    al, ah = rng(a)
    if ah < b.lo:
        return a
    return mk('urem', w, a, b, 0, 0, min(ah, max(b.hi - 1, 0)))


def dvd(a, b, w):
    """i1: the positive number b divides the signed number a"""
    if a.__class__ is int:
        a = sgn(a, w)
        if a == 0:
            return 1
        if b.__class__ is int:
            return int(a % b == 0)
        a &= (1 << w) - 1
    if b.__class__ is int and b == 1:
        return 1
    return mk('dvd', 1, a, b, w, 0, 1)


def zdvd(d, m):
    """i1: the positive integer m divides d"""
    if d.__class__ is int and m.__class__ is int:
        return int(d % m == 0)
    d, m = zof(d), zof(m)
    w = max(zw(d), zw(m))
    return dvd(zbits(d, w), zbits(m, w), w)


def sgn(x, w):
    """signed Python int of a canonical unsigned concrete value"""
    return x - (1 << w) if x >> (w - 1) else x


def sdiv(a, b, w):
    if a.__class__ is int and b.__class__ is int:
        x, y = sgn(a, w), sgn(b, w)
        q = abs(x) // abs(y)
        return (q if (x < 0) == (y < 0) else -q) & ((1 << w) - 1)
    return mk('sdiv', w, a, b, 0, 0, (1 << w) - 1)


def srem(a, b, w):
    if a.__class__ is int and b.__class__ is int:
        x, y = sgn(a, w), sgn(b, w)
        r = abs(x) % abs(y)
        return (r if x >= 0 else -r) & ((1 << w) - 1)
    return mk('srem', w, a, b, 0, 0, (1 << w) - 1)


def opaque(op, w, a, b=0, c=0, lo=0, hi=None):
    return mk(op, w, a, b, c, lo, (1 << w) - 1 if hi is None else hi)


# ---------------------------------------------------------------- concrete evaluation under a model

EPOCH = [0]


def new_epoch():
    EPOCH[0] += 1
    return EPOCH[0]


def evaluate(t, env, ep):
    """Value of t when each variable v has value env[v.a] (its lower bound when absent)."""
    if t.__class__ is int:
        return t
    if t.ep == ep:
        return t.ev
    stack = [t]
    while stack:
        x = stack[-1]
        if x.ep == ep:
            stack.pop()
            continue
        need = False
        if x.op != 'var':
            for y in (x.a, x.b, x.c):
                if y.__class__ is Term and y.ep != ep:
                    stack.append(y)
                    need = True
        if need:
            continue
        stack.pop()
        x.ev = eval1(x, env)
        x.ep = ep
    return t.ev


def eval1(x, env):
    op = x.op
    w = x.w
    if op == 'var':
        v = env.get(x.a)
        return x.lo if v is None else v
    m = (1 << w) - 1
    a = x.a if x.a.__class__ is not Term else x.a.ev
    b = x.b if x.b.__class__ is not Term else x.b.ev
    if op == 'add':
        return a + b & m
    if op == 'sub':
        return a - b & m
    if op == 'mul':
        return a * b & m
    if op == 'and':
        return a & b
    if op == 'or':
        return a | b
    if op == 'xor':
        return a ^ b
    if op == 'not':
        return a ^ 1
    if op == 'shl':
        return a << b & m if b < w else 0
    if op == 'lshr':
        return a >> b if b < w else 0
    if op == 'ashr':
        return (sgn(a, w) >> min(b, w)) & m
    if op == 'trunc':
        return a & m
    if op == 'zext':
        return a
    if op == 'sext':
        return sgn(a, x.a.w) & m
    if op == 'ite':
        return b if a else (x.c if x.c.__class__ is not Term else x.c.ev)
    if op == 'eq':
        return 1 if a == b else 0
    if op == 'ult':
        return 1 if a < b else 0
    if op == 'slt':
        ww = x.a.w if x.a.__class__ is Term else x.b.w
        return 1 if sgn(a, ww) < sgn(b, ww) else 0
    if op == 'dvd':
        return int(sgn(a, x.c) % b == 0) if b else 0
    if op == 'udiv':
        return a // b if b else m
    if op == 'urem':
        return a % b if b else a
    if op == 'sdiv':
        return sdiv(a, b, w) if b else 0
    if op == 'srem':
        return srem(a, b, w) if b else a
    if op == 'ctpop':
        return bin(a).count('1')
    f = EVAL.get(op)
    if f:
        return f(x, a, b)
    raise KeyError('evaluate ' + op)


EVAL = {}


def show(t, d=3):
    if t.__class__ is int:
        return hex(t)
    if t.__class__ is not Term:
        return str(t)
    if t.op == 'var':
        return t.a
    if d == 0:
        return '..'
    if t.op in ('trunc', 'zext', 'sext'):
        return '%s%d(%s)' % (t.op, t.w, show(t.a, d - 1))
    args = [t.a]
    if t.op not in ('not',):
        args.append(t.b)
    if t.op == 'ite':
        args.append(t.c)
    return '(%s %s)' % (t.op, ' '.join(show(x, d - 1) for x in args))


# ---------------------------------------------------------------- unbounded signed integers for oracles

class Z:
    """An unbounded integer: a Term read as a signed number, with a width wide enough for its range [lo,hi].
    Oracles are written with Python operators and run on Z (symbolically) or on int (when replaying)."""
    __slots__ = ('t', 'lo', 'hi')

    def __init__(self, t, lo, hi):
        self.t = t
        self.lo = lo
        self.hi = hi

    def ext(self, w):
        return sext(self.t, w) if self.t.__class__ is Term else self.t

    def __hash__(self):
        return id(self)

    def __add__(self, o):
        return _zop('add', self, o)

    __radd__ = __add__

    def __sub__(self, o):
        return _zop('sub', self, o)

    def __rsub__(self, o):
        return _zop('sub', zof(o), self)

    def __mul__(self, o):
        return _zop('mul', self, o)

    __rmul__ = __mul__

    def __neg__(self):
        return _zop('sub', zof(0), self)

    def _cmp(self, f, o):
        o = zof(o)
        if f is eq and self.hi <= 0 and o.hi <= 0:
            x, y = _unneg(self), _unneg(o)
            if x is not None and y is not None:
                self, o = x, y
        w = max(zw(self), zw(o))
        a = zbits(self, w)
        b = zbits(o, w)
        return f(a, b, w)

    def __eq__(self, o):
        return self._cmp(eq, o)

    def __ne__(self, o):
        return not_(self._cmp(eq, o))

    def __lt__(self, o):
        return self._cmp(slt, o)

    def __ge__(self, o):
        return not_(self._cmp(slt, o))

    def __gt__(self, o):
        return zof(o)._cmp(slt, self)

    def __le__(self, o):
        return not_(zof(o)._cmp(slt, self))

    def _bit(self, f, o):
        o = zof(o)
        w = max(zw(self), zw(o))
        t = f(zbits(self, w), zbits(o, w), w)
        return zsigned(t, w)

    def __and__(self, o):
        return self._bit(and_, o)

    def __or__(self, o):
        return self._bit(or_, o)

    def __xor__(self, o):
        return self._bit(xor, o)

    def __invert__(self):
        return _zop('sub', zof(-1), self)

    def __lshift__(self, k):
        return self * (1 << k)

    def __rshift__(self, k):
        """floor division by 2**k"""
        if k == 0:
            return self
        w = zw(self)
        if k >= w:
            k2 = w - 1
        else:
            k2 = k
        t = ashr(self.t, k2, w)
        return znew(t, w, self.lo >> k, self.hi >> k)


def _unneg(z):
    """m for a value known to be -m with m >= 0"""
    t = z.t
    if t.__class__ is not Term:
        return zof(-z.lo)
    if t.op == 'sub' and t.a.__class__ is int and t.a == 0 and t.b.__class__ is Term and t.b.w == t.w and -z.lo < 1 << (t.w - 1):
        return Z(t.b, -z.hi, -z.lo)
    return None


def zbounds_w(lo, hi):
    return max((lo if lo >= 0 else ~lo).bit_length(), (hi if hi >= 0 else ~hi).bit_length()) + 1


def zw(z):
    return z.t.w if z.t.__class__ is Term else zbounds_w(z.lo, z.hi)


def zof(x):
    if x.__class__ is Z:
        return x
    w = zbounds_w(x, x)
    return Z(x & ((1 << w) - 1), x, x)


def zbits(z, w):
    if z.t.__class__ is Term:
        return sext(z.t, w)
    return z.lo & ((1 << w) - 1)


def znew(t, w, lo, hi):
    if t.__class__ is int:
        v = sgn(t, w)
        return v
    if lo == hi:
        return lo
    return Z(t, lo, hi)


def zsigned(t, w):
    """the signed value of a w-bit word"""
    if t.__class__ is int:
        return sgn(t, w)
    if t.hi < 1 << (w - 1):
        return Z(t, t.lo, t.hi)
    if t.lo >= 1 << (w - 1):
        return Z(t, t.lo - (1 << w), t.hi - (1 << w))
    return Z(t, -(1 << (w - 1)), (1 << (w - 1)) - 1)


def zunsigned(t, w):
    """the unsigned value of a w-bit word"""
    if t.__class__ is int:
        return t
    if t.hi < 1 << (t.w - 1):
        return Z(t, t.lo, t.hi)
    return Z(zext(t, t.w + 1), t.lo, t.hi)


def _zop(op, a, b):
    b = zof(b)
    if op == 'add':
        lo, hi = a.lo + b.lo, a.hi + b.hi
    elif op == 'sub':
        lo, hi = a.lo - b.hi, a.hi - b.lo
    else:
        p = (a.lo * b.lo, a.lo * b.hi, a.hi * b.lo, a.hi * b.hi)
        lo, hi = min(p), max(p)
    w = max(zbounds_w(lo, hi), zw(a), zw(b))
    f = {'add': add, 'sub': sub, 'mul': mul}[op]
    return znew(f(zbits(a, w), zbits(b, w), w), w, lo, hi)


def zvalue(limbs, w=32):
    """unsigned value of little-endian words (ints or Terms)"""
    r = 0
    for i, x in enumerate(limbs):
        r = zunsigned(x, w) * (1 << (w * i)) + r
    return r


# boolean connectives that work on 0/1, bool and i1 Terms
def B(x):
    return int(x) if x.__class__ is bool else x


def land(*xs):
    r = 1
    for x in xs:
        x = B(x)
        r = (r & x) if (r.__class__ is int and x.__class__ is int) else and_(r, x, 1)
    return r


def _and1(a, b):
    return and_(a, b, 1)


def lor(*xs):
    r = 0
    for x in xs:
        r = or_(r, B(x), 1)
    return r


def lnot(x):
    return not_(B(x))


def implies(a, b):
    return lor(lnot(a), b)


def iff(a, b):
    return eq(B(a), B(b), 1)


def zite(c, a, b):
    """integer if-then-else"""
    c = B(c)
    if c.__class__ is int:
        return a if c else b
    if a.__class__ is not Z and b.__class__ is not Z and a == b:
        return a
    a = zof(a)
    b = zof(b)
    lo, hi = min(a.lo, b.lo), max(a.hi, b.hi)
    w = max(zbounds_w(lo, hi), zw(a), zw(b))
    return znew(ite(c, zbits(a, w), zbits(b, w), w), w, lo, hi)
