"""Two encodings of Terms for z3: integers (polynomials + linear arithmetic) and bit-vectors.

Integer encoding.  Every w-bit Term is represented by an integer polynomial p over atoms with lo <= p <= hi and
p == value (mod 2**w).  Truncations, masks and shifts introduce *floor atoms* q = floor(p/d) with the defining
constraint 0 <= p - d*q < d; q is shared by every term that needs the same quotient, so the carries and borrows of
multi-precision code telescope away.  Non-linear monomials are abstracted by fresh integers with bounds and McCormick
inequalities (mode 'lin') or kept as products (mode 'nia').  In mode 'lin' the formula is an over-approximation:
unsat is a proof, sat may be spurious and is re-checked by evaluating the model.

Bit-vector encoding: the direct translation, exact.
"""
import sys
sys.set_int_max_str_digits(0)
import re
import subprocess
import time
from math import gcd
import z3
from terms import Term, sgn
import terms as T

ONE = ()


# ---------------------------------------------------------------- polynomials: dict monomial -> coefficient

def padd(p, q, k=1):
    if len(q) > len(p) and k == 1:
        p, q = q, p
    r = dict(p)
    for m, c in q.items():
        c = r.get(m, 0) + k * c
        if c:
            r[m] = c
        else:
            r.pop(m, None)
    return r


def pconst(c):
    return {ONE: c} if c else {}


def pscale(p, k):
    if k == 1:
        return p
    return {m: c * k for m, c in p.items()} if k else {}


def pmul(p, q):
    r = {}
    for m, c in p.items():
        for n, d in q.items():
            mn = tuple(sorted(m + n)) if m and n else (m or n)
            v = r.get(mn, 0) + c * d
            if v:
                r[mn] = v
            else:
                r.pop(mn, None)
    return r


class Atom:
    __slots__ = ('id', 'kind', 'x', 'd', 'lo', 'hi', 'y', 'z')


class IntEnc:
    MAXPOLY = 600

    def __init__(self):
        self.atoms = {}
        self.index = {}
        self.z = {}

    def atom(self, kind, k, x, d, lo, hi, y=None):
        kk = (kind, k)
        a = self.index.get(kk)
        if a is None:
            a = Atom()
            a.id = len(self.atoms) + 1
            a.kind = kind
            a.x = x
            a.d = d
            a.y = y
            a.lo = lo
            a.hi = hi
            a.z = None
            self.atoms[a.id] = a
            self.index[kk] = a
        return a

    def mrange(self, m):
        lo = hi = 1
        for i in m:
            a = self.atoms[i]
            if lo >= 0 and a.lo >= 0:
                lo, hi = lo * a.lo, hi * a.hi
            else:
                v = (lo * a.lo, lo * a.hi, hi * a.lo, hi * a.hi)
                lo, hi = min(v), max(v)
        # even powers
        if len(m) == 2 and m[0] == m[1] and lo < 0:
            lo = 0
        return lo, hi

    def prange(self, p):
        lo = hi = 0
        at = self.atoms
        for m, c in p.items():
            if not m:
                lo += c
                hi += c
                continue
            if len(m) == 1:
                a = at[m[0]]
                l, h = a.lo, a.hi
            else:
                l, h = self.mrange(m)
            if c > 0:
                lo += c * l
                hi += c * h
            else:
                lo += c * h
                hi += c * l
        return lo, hi

    def floor(self, p, lo, hi, d):
        """polynomial for floor(p/d), with bounds; lo <= p <= hi is known"""
        flo, fhi = lo // d, hi // d
        if flo == fhi:
            return pconst(flo), flo, fhi
        out = {}
        rest = {}
        g = d
        for m, c in p.items():
            if m == ONE:
                q, r = divmod(c, d)
                if q:
                    out[ONE] = q
                if r:
                    rest[ONE] = r
            elif c % d == 0:
                out[m] = c // d
            else:
                # keep the coefficient in [0,d): canonical
                rest[m] = c
                g = gcd(g, c)
        c0 = rest.pop(ONE, 0)
        if not rest:
            return out, flo, fhi
        if g > 1:
            rest = {m: c // g for m, c in rest.items()}
            c0 //= g
            d //= g
            if d == 1:
                r = padd(out, rest)
                if c0:
                    r = padd(r, {ONE: c0})
                return r, flo, fhi
        if len(rest) == 1:
            (m, c), = rest.items()
            if c == 1 and len(m) == 1:
                a = self.atoms[m[0]]
                if a.kind == 'floor':
                    # floor((floor(p2/d2)+c0)/d) = floor((p2 + c0*d2)/(d2*d))
                    p2 = padd(a.x, pconst(c0 * a.d))
                    l2, h2 = a.y
                    q, ql, qh = self.floor(p2, l2 + c0 * a.d, h2 + c0 * a.d, a.d * d)
                    if d <= 16 and len(q) == 1:
                        (n, k), = q.items()
                        if k == 1 and len(n) == 1 and self.atoms[n[0]].kind == 'floor' and self.atoms[n[0]].z is None:
                            self.atoms[n[0]].z = (padd({m: 1}, pconst(c0)), d)
                    return padd(out, q), flo, fhi
        else:
            # floor((P + floor(x/e))/d) = floor((e*P + x)/(e*d)), for small e
            fa = [m for m, c in rest.items() if c == 1 and len(m) == 1 and self.atoms[m[0]].kind == 'floor'
                  and (self.atoms[m[0]].d <= 16 or self.atoms[m[0]].z)]
            if len(fa) == 1:
                a = self.atoms[fa[0][0]]
                x, e = (a.x, a.d) if a.d <= 16 else a.z
                P = {m: c * e for m, c in rest.items() if m != fa[0]}
                if c0:
                    P[ONE] = c0 * e
                P = padd(P, x)
                l2, h2 = self.prange(P)
                q, ql, qh = self.floor(P, l2, h2, e * d)
                return padd(out, q), flo, fhi
        if c0:
            rest[ONE] = c0
        rl, rh = self.prange(rest)
        if not out:
            # the caller's bounds are bounds of this very quotient
            rl = max(rl, flo * d)
            rh = min(rh, fhi * d + d - 1)
        if rl // d == rh // d:
            q = rl // d
            return (padd(out, pconst(q)) if q else out), flo, fhi
        k = (frozenset(rest.items()), d)
        a = self.index.get(('floor', k))
        if a is None:
            a = self.atom('floor', k, rest, d, rl // d, rh // d, (rl, rh))
            n = d.bit_length() - 1
            if n > 32 and d == 1 << n and 0 < n % 32 <= 4:
                # relate it to the quotient by a whole number of limbs
                q = self.floor(rest, rl, rh, d >> n % 32)[0]
                if len(q) == 1:
                    a.z = (q, 1 << n % 32)
        else:
            # both ranges are facts about the same quantity
            a.lo = max(a.lo, rl // d)
            a.hi = min(a.hi, rh // d)
        if not out:
            return {(a.id,): 1}, max(flo, a.lo), min(fhi, a.hi)
        return padd(out, {(a.id,): 1}), flo, fhi

    # ---- representation of terms

    def rep(self, t):
        if t.__class__ is int:
            return (pconst(t), t, t)
        if t.rep is not None:
            return t.rep
        r = self.rep1(t)
        if len(r[0]) > self.MAXPOLY:
            a = self.atom('name', t.id, r[0], 0, r[1], r[2])
            r = ({(a.id,): 1}, r[1], r[2])
        t.rep = r
        return r

    def rep1(self, t):
        op = t.op
        w = t.w
        if op == 'var':
            a = self.atom('var', t.a, t, 0, t.lo, t.hi)
            return ({(a.id,): 1}, t.lo, t.hi)
        if op == 'add':
            # operand bounds: the intended value of a constant near 2**w is negative
            p, l, h = self.rep(t.a)
            b = t.b
            if b.__class__ is int and b >> (w - 1) and not (t.lo >= b):
                b -= 1 << w
                return self.norm(padd(p, {ONE: b}), l + b, h + b, t)
            q, ql, qh = self.rep(b)
            return self.norm(padd(p, q), l + ql, h + qh, t)
        if op == 'sub':
            p, l, h = self.rep(t.a)
            q, ql, qh = self.rep(t.b)
            return self.norm(padd(p, q, -1), l - qh, h - ql, t)
        if op == 'mul':
            p, l, h = self.rep(t.a)
            if t.b.__class__ is int:
                b = sgn(t.b, w)
                q, ql, qh = pconst(b), b, b
                if b < 0 and t.hi < (1 << w) - 1 and l >= 0 and h * t.b < 1 << w:
                    q, ql, qh = pconst(t.b), t.b, t.b
            else:
                q, ql, qh = self.rep(t.b)
                m = 1 << w
                # prefer canonical operands when the plain product does not wrap
                if t.hi < m - 1 and (l < 0 or ql < 0):
                    p, l, h = self.uview(t.a)
                    q, ql, qh = self.uview(t.b)
            v = (l * ql, l * qh, h * ql, h * qh)
            return self.norm(pmul(p, q), min(v), max(v), t)
        if op == 'trunc':
            p, l, h = self.rep(t.a)
            if h - l < 1 << (w + 2):
                return self.norm(p, l, h, t)
            return self.canon(p, l, h, w, t)
        if op == 'zext':
            if t.a.w == 1:
                return self.b2i(t.a)
            return self.uview(t.a)
        if op == 'sext':
            if t.a.w == 1:
                p, l, h = self.b2i(t.a)
                return pscale(p, -1), -h, -l
            return self.sview(t.a)
        if op == 'shl' and t.b.__class__ is int:
            p, l, h = self.rep(t.a)
            k = 1 << t.b
            return self.norm(pscale(p, k), l * k, h * k, t)
        if op == 'lshr' and t.b.__class__ is int:
            p, l, h = self.uview(t.a)
            return self.floor(p, l, h, 1 << t.b)
        if op == 'ashr' and t.b.__class__ is int:
            p, l, h = self.sview(t.a)
            return self.floor(p, l, h, 1 << t.b)
        if op == 'and':
            b = t.b
            if b.__class__ is int:
                # mask = contiguous ones?
                lowz = (b & -b).bit_length() - 1
                top = b >> lowz
                if top & (top + 1) == 0:
                    n = lowz + top.bit_length()
                    p, l, h = self.rep(t.a)
                    if n < w:
                        p, l, h = self.canon(p, l, h, n)
                    else:
                        p, l, h = self.uview(t.a)
                    if lowz:
                        q, ql, qh = self.floor(p, l, h, 1 << lowz)
                        return pscale(q, 1 << lowz), ql << lowz, qh << lowz
                    return p, l, h
        if op == 'or':
            a, b = t.a, t.b
            if b.__class__ is Term and b.w > 1 or b.__class__ is int:
                if b.__class__ is int:
                    tb = (b & -b).bit_length() - 1
                else:
                    tb = tz(b)
                # b above a
                if a.hi >> tb == 0:
                    return self._or(a, b)
                ta = tz(a)
                bh = b if b.__class__ is int else b.hi
                if bh >> ta == 0:
                    return self._or(a, b)
                if b.__class__ is Term:
                    d = self.ordisj(a, b)
                    if d:
                        return self._or(a, b)
        if op == 'xor' and t.b.__class__ is int and t.b == (1 << w) - 1:
            p, l, h = self.rep(t.a)
            return padd(pconst(-1), p, -1), -1 - h, -1 - l
        if op == 'xor' and t.b.__class__ is int and t.b == 1 << (w - 1):
            p, l, h = self.rep(t.a)
            b = -(1 << (w - 1))
            return padd(p, pconst(b)), l + b, h + b
        if op == 'udiv':
            if t.b.__class__ is int:
                p, l, h = self.uview(t.a)
                return self.floor(p, l, h, t.b)
            a = self.divatom(t.a, t.b)
            return {(a.id,): 1}, a.lo, a.hi
        if op == 'urem':
            if t.b.__class__ is int:
                p, l, h = self.uview(t.a)
                q, ql, qh = self.floor(p, l, h, t.b)
                return padd(p, q, -t.b), t.lo, t.hi
            a = self.divatom(t.a, t.b)
            p, l, h = self.uview(t.a)
            q, ql, qh = self.uview(t.b)
            return padd(p, pmul(q, {(a.id,): 1}), -1), t.lo, t.hi
        if op == 'ite':
            p, l, h = self.rep(t.b)
            q, ql, qh = self.rep(t.c)
            lo, hi = min(l, ql), max(h, qh)
            # a*c + b form for boolean steering keeps identities polynomial
            a = self.b2i(t.a)[0]
            if len(p) + len(q) <= 6:
                r = padd(q, pmul(a, padd(p, q, -1)))
                return r, lo, hi
            at = self.atom('ite', t.id, t.a, (p, q), lo, hi)
            return {(at.id,): 1}, lo, hi
        if w == 1:
            return self.b2i(t)
        a = self.atom('opq', t.id, t, 0, t.lo, t.hi)
        return {(a.id,): 1}, t.lo, t.hi

    def _or(self, a, b):
        p, l, h = self.uview(a)
        q, ql, qh = self.uview(b) if b.__class__ is Term else self.rep(b)
        return padd(p, q), l + ql, h + qh

    def ordisj(self, a, b):
        # (x << s) | (y >> (n - s)) patterns are caught by tz; masks with disjoint constants here
        ma = maskof(a)
        mb = maskof(b)
        return ma & mb == 0

    def divatom(self, a, b):
        t = T.udiv(a, b, a.w if a.__class__ is Term else b.w)
        lo, hi = (t, t) if t.__class__ is int else (t.lo, t.hi)
        return self.atom('udiv', (T.key(a), T.key(b)), (a, b), 0, lo, hi)

    def b2i(self, c):
        if c.__class__ is int:
            return pconst(c), c, c
        if c.op == 'not':
            p, l, h = self.b2i(c.a)
            return padd(pconst(1), p, -1), 1 - h, 1 - l
        f = self.formula(c)
        if f is True:
            return pconst(1), 1, 1
        if f is False:
            return pconst(0), 0, 0
        a = self.atom('b2i', c.id, c, 0, 0, 1)
        return {(a.id,): 1}, 0, 1

    def norm(self, p, l, h, t):
        """Pull a drifting range back near the canonical one by a multiple of 2**w."""
        w = t.w
        m = 1 << w
        if l >= m or h < -m:
            k = (l // m) * m
            p = padd(p, pconst(-k))
            l -= k
            h -= k
        if h - l >= m << 64:
            return self.canon(p, l, h, w, t)
        # the unsigned interval of the term may be tighter
        if l >= 0 and h < m:
            if t.lo > l:
                l = t.lo
            if t.hi < h:
                h = t.hi
        return p, l, h

    def canon(self, p, l, h, n, t=None):
        m = 1 << n
        if l >= 0 and h < m:
            return p, l, h
        q, ql, qh = self.floor(p, l, h, m)
        r = padd(p, q, -m)
        if ql == qh:
            return r, l - ql * m, h - ql * m
        lo, hi = 0, m - 1
        if t is not None:
            lo, hi = t.lo, t.hi
        rl, rh = self.prange(r)
        return r, max(lo, rl), min(hi, rh)

    def uview(self, t):
        if t.__class__ is int:
            return self.rep(t)
        p, l, h = self.rep(t)
        m = 1 << t.w
        if l >= 0 and h < m:
            return p, max(l, t.lo), min(h, t.hi)
        return self.canon(p, l, h, t.w, t)

    def sview(self, t, w=None):
        if t.__class__ is int:
            v = sgn(t, w)
            return pconst(v), v, v
        p, l, h = self.rep(t)
        w = t.w
        H = 1 << (w - 1)
        if l >= -H and h < H:
            return p, l, h
        if t.hi < H:
            return self.uview(t)
        if t.lo >= H:
            p, l, h = self.uview(t)
            return padd(p, pconst(-2 * H)), l - 2 * H, h - 2 * H
        if l >= 0 and h < 2 * H:
            # plain unsigned value: share the comparison instead of a shifted quotient
            q, ql, qh = self.floor(p, l, h, H)
            return padd(p, q, -2 * H), -H, H - 1
        q, ql, qh = self.floor(padd(p, pconst(H)), l + H, h + H, 2 * H)
        return padd(p, q, -2 * H), -H, H - 1

    # ---- formulas: True/False, ('le',p) p<=0, ('eq',p) p==0, ('not',f), ('and',f,g), ('or',f,g), ('xor',f,g)

    def formula(self, t):
        if t.__class__ is int:
            return bool(t)
        if t.fo is not None:
            return t.fo
        f = self.formula1(t)
        t.fo = f
        return f

    def formula1(self, t):
        op = t.op
        if op == 'not':
            return fnot(self.formula(t.a))
        if op in ('and', 'or', 'xor'):
            f = self.formula(t.a)
            g = self.formula(t.b)
            if op == 'and':
                if f is False or g is False:
                    return False
                if f is True:
                    return g
                return f if g is True else ('and', f, g)
            if op == 'or':
                if f is True or g is True:
                    return True
                if f is False:
                    return g
                return f if g is False else ('or', f, g)
            if f.__class__ is bool:
                return fnot(g) if f else g
            if g.__class__ is bool:
                return fnot(f) if g else f
            return ('xor', f, g)
        if op == 'ite':
            c, f, g = self.formula(t.a), self.formula(t.b), self.formula(t.c)
            if c.__class__ is bool:
                return f if c else g
            return ('or', ('and', c, f), ('and', fnot(c), g))
        if op == 'eq':
            a, b = t.a, t.b
            w = a.w
            m = 1 << w
            p, l, h = self.rep(a)
            q, ql, qh = self.rep(b)
            d = padd(p, q, -1)
            l, h = l - qh, h - ql
            k = ((l + h) // 2 + m // 2) // m * m
            l, h = l - k, h - k
            if l <= -m or h >= m:
                d = padd(self.uview(a)[0], self.uview(b)[0], -1)
            elif k:
                d = padd(d, pconst(-k))
            return self.feq(d)
        if op == 'ult':
            p, l, h = self.uview(t.a)
            q, ql, qh = self.uview(t.b)
            if h < ql:
                return True
            if l >= qh:
                return False
            return self.fle(padd(padd(p, q, -1), pconst(1)))
        if op == 'slt':
            w = t.a.w if t.a.__class__ is Term else t.b.w
            p, l, h = self.sview(t.a, w)
            q, ql, qh = self.sview(t.b, w)
            if h < ql:
                return True
            if l >= qh:
                return False
            return self.fle(padd(padd(p, q, -1), pconst(1)))
        if op == 'dvd':
            return self.dvd(t)
        if op == 'trunc':
            p, l, h = self.uview(t.a)
            q, ql, qh = self.floor(p, l, h, 2)
            return self.feq(padd(padd(p, q, -2), pconst(-1)))
        if op == 'var':
            return self.feq(padd(self.rep(t)[0], pconst(-1)))
        a = self.atom('opq', t.id, t, 0, 0, 1)
        return self.feq({(a.id,): 1, ONE: -1})

    def dvd(self, t):
        p, l, h = self.sview(t.a, t.c)
        q, ql, qh = self.sview(t.b, t.c)
        if not q or list(q) == [ONE]:
            d = q.get(ONE, 0)
            p = {m: r for m, r in ((m, c % d) for m, c in p.items()) if r}
            l, h = self.prange(p)
            f = self.floor(p, l, h, d)[0]
            return self.feq(padd(p, f, -d))
        # reduce p by q = s*v + rest, s = 1 or -1: v becomes -s*rest
        for m, c in q.items():
            if len(m) == 1 and abs(c) == 1 and not any(m[0] in n for n in q if n != m):
                rest = pscale({n: k for n, k in q.items() if n != m}, -c)
                r = dict(p)
                for _ in range(20):
                    hit = {n: k for n, k in r.items() if m[0] in n}
                    if not hit:
                        break
                    r = {n: k for n, k in r.items() if m[0] not in n}
                    for n, k in hit.items():
                        if not rest:
                            continue
                        n = list(n)
                        n.remove(m[0])
                        r = padd(r, pmul({tuple(n): k}, rest))
                    if len(r) > 4000:
                        break
                if not r:
                    return True
                if len(r) < len(p):
                    p = r
                break
        l, h = self.prange(p)
        e = max(abs(l), abs(h))
        a = self.atom('pdiv', (frozenset(p.items()), frozenset(q.items())), (p, q), 0, -e - 1, e + 1)
        return self.feq(padd(p, pmul(q, {(a.id,): 1}), -1))

    def feq(self, d):
        if not d:
            return True
        c = d.get(ONE, 0)
        g = 0
        for m, k in d.items():
            if m:
                g = gcd(g, k)
        if g == 0 or c % g:
            return False
        lo, hi = self.prange(d)
        if lo > 0 or hi < 0:
            return False
        return ('eq', d)

    def fle(self, d):
        lo, hi = self.prange(d)
        if hi <= 0:
            return True
        if lo > 0:
            return False
        return ('le', d)


def fnot(f):
    if f.__class__ is bool:
        return not f
    if f[0] == 'not':
        return f[1]
    return ('not', f)


def tz(t):
    """known trailing zero bits"""
    if t.__class__ is int:
        return (t & -t).bit_length() - 1 if t else 10**6
    op = t.op
    if op == 'shl' and t.b.__class__ is int:
        return t.b + tz(t.a)
    if op in ('zext', 'sext'):
        return tz(t.a)
    if op in ('add', 'or', 'sub', 'xor'):
        return min(tz(t.a), tz(t.b))
    if op == 'and':
        return max(tz(t.a), tz(t.b))
    if op == 'mul':
        return tz(t.a) + tz(t.b)
    if op == 'ite':
        return min(tz(t.b), tz(t.c))
    if op == 'trunc':
        return tz(t.a)
    return 0


def maskof(t):
    """bits that may be set"""
    if t.__class__ is int:
        return t
    full = (1 << t.hi.bit_length()) - 1
    op = t.op
    if op == 'and':
        return maskof(t.a) & maskof(t.b) & full
    if op == 'or' or op == 'xor':
        return (maskof(t.a) | maskof(t.b)) & full
    if op == 'shl' and t.b.__class__ is int:
        return (maskof(t.a) << t.b) & full
    if op == 'lshr' and t.b.__class__ is int:
        return (maskof(t.a) >> t.b) & full
    if op == 'zext' or op == 'trunc':
        return maskof(t.a) & full
    if op == 'ite':
        return maskof(t.b) | maskof(t.c)
    return full


# ---------------------------------------------------------------- solver backends

class Stats:
    def __init__(self):
        self.queries = 0
        self.time = 0.0
        self.sat = self.unsat = self.unknown = self.cvc5 = 0


class IntSolver:
    """Incremental z3 solver over the integer encoding."""

    def __init__(self, enc, nia=False, timeout=2000, stats=None):
        self.enc = enc
        self.nia = nia
        self.s = z3.SimpleSolver() if not nia else z3.SolverFor('QF_NIA')
        self.timeout = timeout
        self.stats = stats or Stats()
        self.stack = []          # cond ids
        self.levels = [set()]    # defined atoms/monomials per level
        self.zc = {}
        self.env = None
        self.subst = {}          # atom -> atom or ('c', value), from equalities on the path
        self.slevels = [[]]

    def learn_eq(self, c):
        """an asserted equality between variables, or of a variable and a constant, simplifies later monomials"""
        if c.op == 'and':
            for x in (c.a, c.b):
                if x.__class__ is Term:
                    self.learn_eq(x)
            return
        if c.op != 'eq':
            return
        f = self.enc.formula(c)
        if f.__class__ is bool or f[0] != 'eq':
            return
        d = self.sub(f[1])
        ms = [m for m in d if m]
        if any(len(m) != 1 for m in ms):
            return
        if len(ms) == 1 and abs(d[ms[0]]) == 1:
            i = ms[0][0]
            self.put_subst(i, ('c', -d.get(ONE, 0) * d[ms[0]]))
        elif len(ms) == 2 and ONE not in d and sorted(d.values()) == [-1, 1]:
            i, j = ms[0][0], ms[1][0]
            ai, aj = self.enc.atoms[i], self.enc.atoms[j]
            # keep the older one
            if i < j:
                i, j = j, i
            if ai.kind == aj.kind == 'var' or self.enc.atoms[i].kind == 'var':
                self.put_subst(i, j)

    def put_subst(self, i, v):
        if i not in self.subst:
            self.subst[i] = v
            self.slevels[-1].append(i)

    def root(self, i):
        while True:
            v = self.subst.get(i)
            if v is None or v.__class__ is tuple:
                return v or i
            if v in self.subst:
                i = v
            else:
                return v

    def sub(self, p):
        if not self.subst:
            return p
        sb = self.subst
        if not any(i in sb for m in p for i in m):
            return p
        r = {}
        for m, c in p.items():
            if any(i in sb for i in m):
                n = []
                for i in m:
                    v = self.root(i)
                    if v.__class__ is tuple:
                        c *= v[1]
                    else:
                        n.append(v)
                m = tuple(sorted(n))
            c += r.get(m, 0)
            if c:
                r[m] = c
            else:
                r.pop(m, None)
        return r

    def has(self, k):
        for l in self.levels:
            if k in l:
                return True
        return False

    def zatom(self, i):
        v = self.zc.get(i)
        if v is None:
            v = z3.Int('a%d' % i)
            self.zc[i] = v
        return v

    def zmono(self, m):
        if len(m) == 1:
            return self.zatom(m[0])
        v = self.zc.get(m)
        if v is None:
            if self.nia:
                v = z3.Product([self.zatom(i) for i in m])
            else:
                v = z3.Int('m' + '_'.join(map(str, m)))
            self.zc[m] = v
        return v

    def zpoly(self, p, pend):
        ts = []
        p = self.sub(p)
        for m, c in p.items():
            if not m:
                ts.append(z3.IntVal(c))
            else:
                pend.append(m)
                v = self.zmono(m)
                ts.append(v if c == 1 else z3.IntVal(c) * v)
        if not ts:
            return z3.IntVal(0)
        return ts[0] if len(ts) == 1 else z3.Sum(ts)

    def zform(self, f, pend):
        if f is True or f is False:
            return z3.BoolVal(f)
        k = f[0]
        if k in ('le', 'eq'):
            p = self.sub(f[1])
            l = {}
            c0 = 0
            for m, c in p.items():
                if m:
                    l[m] = c
                else:
                    c0 = c
            e = self.zpoly(l, pend)
            return e <= -c0 if k == 'le' else e == -c0
        if k == 'not':
            return z3.Not(self.zform(f[1], pend))
        a = self.zform(f[1], pend)
        b = self.zform(f[2], pend)
        return z3.And(a, b) if k == 'and' else z3.Or(a, b) if k == 'or' else z3.Xor(a, b)

    def define(self, pend):
        """assert the definitions of all atoms reachable from the monomials in pend"""
        lvl = self.levels[-1]
        enc = self.enc
        out = []
        while pend:
            m = pend.pop()
            if self.has(m):
                continue
            lvl.add(m)
            if len(m) > 1:
                if not self.nia:
                    lo, hi = enc.mrange(m)
                    v = self.zmono(m)
                    out.append(v >= lo)
                    out.append(v <= hi)
                    if len(m) == 2:
                        a, b = enc.atoms[m[0]], enc.atoms[m[1]]
                        x, y = self.zatom(m[0]), self.zatom(m[1])
                        if a.lo == 0 and b.lo == 0:
                            out.append(v <= b.hi * x)
                            out.append(v <= a.hi * y)
                            out.append(v >= b.hi * x + a.hi * y - a.hi * b.hi)
                        else:
                            out.append(v >= b.lo * x + a.lo * y - a.lo * b.lo)
                            out.append(v >= b.hi * x + a.hi * y - a.hi * b.hi)
                            out.append(v <= b.hi * x + a.lo * y - a.lo * b.hi)
                            out.append(v <= b.lo * x + a.hi * y - a.hi * b.lo)
                for i in m:
                    pend.append((i,))
                continue
            a = enc.atoms[m[0]]
            v = self.zatom(m[0])
            out.append(v >= a.lo)
            out.append(v <= a.hi)
            if a.kind == 'floor':
                p = self.zpoly(padd(a.x, {m: -a.d}), pend)
                out.append(p >= 0)
                out.append(p <= a.d - 1)
            elif a.kind == 'name':
                out.append(self.zpoly(a.x, pend) == v)
            elif a.kind == 'b2i':
                f = self.zform(enc.formula(a.x), pend)
                out.append(f == (v == 1))
            elif a.kind == 'ite':
                c = self.zform(enc.formula(a.x), pend)
                out.append(z3.Implies(c, v == self.zpoly(a.d[0], pend)))
                out.append(z3.Implies(z3.Not(c), v == self.zpoly(a.d[1], pend)))
            elif a.kind == 'pdiv':
                x, y = a.x
                r = padd(x, pmul(y, {m: 1}), -1)
                out.append(self.zpoly(r, pend) >= 0)
                out.append(self.zpoly(padd(r, y, -1), pend) <= -1)
            elif a.kind == 'udiv':
                x = enc.uview(a.x[0])[0]
                y = enc.uview(a.x[1])[0]
                r = padd(x, pmul(y, {m: 1}), -1)
                out.append(self.zpoly(r, pend) >= 0)
                out.append(self.zpoly(padd(r, y, -1), pend) <= -1)
        for x in out:
            self.s.add(x)

    def add(self, c):
        pend = []
        f = self.zform(self.enc.formula(c), pend)
        if c.__class__ is Term and c.op in ('eq', 'and') and f.__class__ is not bool:
            # the equality itself is kept, in unsubstituted form
            self.s.add(f)
            self.learn_eq(c)
            self.define(pend)
            return
        self.define(pend)
        self.s.add(f)

    def push(self):
        self.s.push()
        self.levels.append(set())
        self.slevels.append([])

    def pop(self, n=1):
        self.s.pop(n)
        for _ in range(n):
            self.levels.pop()
            for i in self.slevels.pop():
                del self.subst[i]

    def sync(self, pc):
        ids = [c.id for c in pc]
        st = self.stack
        n = 0
        while n < len(st) and n < len(ids) and st[n] == ids[n]:
            n += 1
        if len(st) > n:
            self.pop(len(st) - n)
            del st[n:]
        for c in pc[n:]:
            self.push()
            st.append(c.id)
            self.add(c)

    def check(self, pc, extra, timeout=None):
        f = self.enc.formula(extra)
        self.stats.queries += 1
        if f is False:
            self.stats.unsat += 1
            return 'unsat'
        t0 = time.time()
        self.sync(pc)
        self.push()
        gave_up = False
        try:
            self.add(extra)
            to = timeout or self.timeout
            self.s.set('timeout', to if self.nia else min(to, 1000))
            r = str(self.s.check())
            self.env = None
            gave_up = r == 'unknown'
            if r == 'sat':
                self.env = self.model()
            elif r == 'unknown' and not self.nia:
                r = self.cvc5(to)
        except z3.Z3Exception as e:
            r = 'unknown'
            gave_up = True
        finally:
            self.pop()
        if gave_up:
            self.restart()      # an interrupted incremental solver is not used again
        self.stats.time += time.time() - t0
        setattr(self.stats, r, getattr(self.stats, r) + 1)
        return r

    def restart(self):
        self.s = z3.SimpleSolver() if not self.nia else z3.SolverFor('QF_NIA')
        self.stack = []
        self.levels = [set()]
        self.subst = {}
        self.slevels = [[]]

    def cvc5(self, timeout):
        """second opinion on the linear query (cvc5's cuts settle many carry chains at once)"""
        names = []
        for name in T.VARS:
            a = self.enc.index.get(('var', name))
            if a is not None and a.id in self.zc:
                names.append((name, 'a%d' % a.id))
        txt = self.s.to_smt2()
        if names:
            txt += '(get-value (%s))\n' % ' '.join(v for _, v in names)
        txt = '(set-option :produce-models true)\n(set-logic QF_LIA)\n' + txt
        try:
            p = subprocess.run(['cvc5', '--tlimit=%d' % timeout, '-'], input=txt.encode(), stdout=subprocess.PIPE,
                               stderr=subprocess.DEVNULL, timeout=timeout / 1000.0 + 5)
        except (subprocess.TimeoutExpired, OSError):
            return 'unknown'
        out = p.stdout.decode()
        r = out.split('\n', 1)[0].strip()
        self.stats.cvc5 += 1
        if r == 'unsat':
            return r
        if r == 'sat':
            vals = dict(re.findall(r'\((a\d+) (\d+|\(- \d+\))\)', out))
            self.env = {}
            for n, v in names:
                if v in vals and vals[v].isdigit():
                    self.env[n] = int(vals[v])
            return r
        return 'unknown'

    def model(self):
        m = self.s.model()
        env = {}
        for name, t in T.VARS.items():
            a = self.enc.index.get(('var', name))
            if a is None:
                continue
            v = m[self.zatom(a.id)]
            if v is not None:
                env[name] = v.as_long()
        return env


class BvSolver:
    def __init__(self, timeout=5000, stats=None):
        self.s = z3.SolverFor('QF_BV')
        self.fp = False
        self.timeout = timeout
        self.stats = stats or Stats()
        self.stack = []
        self.vars = {}
        self.env = None
        self.levels = [set()]

    def tr(self, t):
        if t.bv is not None:
            return t.bv
        # iterative post-order
        st = [t]
        while st:
            x = st[-1]
            if x.bv is not None:
                st.pop()
                continue
            todo = [y for y in (x.a, x.b, x.c) if y.__class__ is Term and y.bv is None] if x.op != 'var' else []
            if todo:
                st.extend(todo)
                continue
            st.pop()
            x.bv = self.tr1(x)
        return t.bv

    def arg(self, y, w):
        """as a bit-vector"""
        if y.__class__ is int:
            return z3.BitVecVal(y, w)
        if y.w == 1:
            return z3.If(y.bv, z3.BitVecVal(1, 1), z3.BitVecVal(0, 1)) if w == 1 else None
        return y.bv

    def barg(self, y):
        return z3.BoolVal(bool(y)) if y.__class__ is int else y.bv

    def tr1(self, x):
        op, w = x.op, x.w
        if op == 'var':
            if w == 1:
                v = z3.Bool(x.a)
            else:
                v = z3.BitVec(x.a, w)
            self.vars[x.a] = v
            return v
        if w == 1:
            if op == 'not':
                return z3.Not(x.a.bv)
            if op in ('and', 'or', 'xor'):
                a, b = self.barg(x.a), self.barg(x.b)
                return z3.And(a, b) if op == 'and' else z3.Or(a, b) if op == 'or' else z3.Xor(a, b)
            if op == 'ite':
                return z3.If(x.a.bv, self.barg(x.b), self.barg(x.c))
            if op == 'dvd':
                return self.arg(x.a, x.c) % self.arg(x.b, x.c) == 0
            if op in ('eq', 'ult', 'slt'):
                ww = x.a.w if x.a.__class__ is Term else x.b.w
                if ww == 1:
                    a, b = self.barg(x.a), self.barg(x.b)
                    return a == b if op == 'eq' else z3.And(z3.Not(a), b) if op == 'ult' else z3.And(a, z3.Not(b))
                a, b = self.arg(x.a, ww), self.arg(x.b, ww)
                return a == b if op == 'eq' else z3.ULT(a, b) if op == 'ult' else a < b
            if op == 'trunc':
                return z3.Extract(0, 0, x.a.bv) == z3.BitVecVal(1, 1)
            f = BVX.get(op)
            if f:
                self.fp = True
                return f(self, x)
            raise KeyError('bv1 ' + op)
        if op in ('zext', 'sext'):
            fw = x.a.w
            if fw == 1:
                o = 1 if op == 'zext' else (1 << w) - 1
                return z3.If(x.a.bv, z3.BitVecVal(o, w), z3.BitVecVal(0, w))
            return z3.ZeroExt(w - fw, x.a.bv) if op == 'zext' else z3.SignExt(w - fw, x.a.bv)
        if op == 'trunc':
            return z3.Extract(w - 1, 0, x.a.bv)
        if op == 'ite':
            return z3.If(x.a.bv, self.arg(x.b, w), self.arg(x.c, w))
        if op == 'ctpop':
            a = self.arg(x.a, w)
            return z3.Sum([z3.ZeroExt(w - 1, z3.Extract(i, i, a)) for i in range(w)])
        f = BVX.get(op)
        if f:
            self.fp = True
            return f(self, x)
        a = self.arg(x.a, w)
        b = self.arg(x.b, w)
        if op == 'add':
            return a + b
        if op == 'sub':
            return a - b
        if op == 'mul':
            return a * b
        if op == 'and':
            return a & b
        if op == 'or':
            return a | b
        if op == 'xor':
            return a ^ b
        if op == 'shl':
            return a << b
        if op == 'lshr':
            return z3.LShR(a, b)
        if op == 'ashr':
            return a >> b
        if op == 'udiv':
            return z3.UDiv(a, b)
        if op == 'urem':
            return z3.URem(a, b)
        if op == 'sdiv':
            return a / b
        if op == 'srem':
            return z3.SRem(a, b)
        raise KeyError('bv ' + op)

    def bounds(self, t, lvl):
        """range assumptions of the variables in t"""
        seen = set()
        st = [t]
        while st:
            x = st.pop()
            if x.__class__ is not Term or x.id in seen:
                continue
            seen.add(x.id)
            if x.op == 'var':
                if x.a not in lvl and not any(x.a in l for l in self.levels):
                    lvl.add(x.a)
                    if x.w > 1:
                        if x.lo > 0:
                            self.s.add(z3.UGE(x.bv, z3.BitVecVal(x.lo, x.w)))
                        if x.hi < (1 << x.w) - 1:
                            self.s.add(z3.ULE(x.bv, z3.BitVecVal(x.hi, x.w)))
            else:
                st += [x.a, x.b, x.c]

    def add(self, c):
        f = self.tr(c)
        if self.fp and not getattr(self, 'fpon', False):
            self.fpon = True
            raise NeedFP()
        self.bounds(c, self.levels[-1])
        self.s.add(f)

    def sync(self, pc):
        ids = [c.id for c in pc]
        st = self.stack
        n = 0
        while n < len(st) and n < len(ids) and st[n] == ids[n]:
            n += 1
        if len(st) > n:
            self.s.pop(len(st) - n)
            del st[n:]
            del self.levels[n + 1:]
        for c in pc[n:]:
            self.s.push()
            self.levels.append(set())
            st.append(c.id)
            self.add(c)

    def check(self, pc, extra, timeout=None):
        try:
            return self.check1(pc, extra, timeout)
        except NeedFP:
            self.s = z3.Solver()
            self.stack = []
            self.levels = [set()]
            return self.check1(pc, extra, timeout)

    def check1(self, pc, extra, timeout=None):
        t0 = time.time()
        self.stats.queries += 1
        if extra.__class__ is int:
            if not extra:
                self.stats.unsat += 1
                return 'unsat'
        self.sync(pc)
        self.s.push()
        self.levels.append(set())
        try:
            if extra.__class__ is not int:
                self.add(extra)
            self.s.set('timeout', timeout or self.timeout)
            r = str(self.s.check())
            self.env = None
            if r == 'sat':
                m = self.s.model()
                self.env = {}
                for name, v in self.vars.items():
                    x = m.eval(v, model_completion=False)
                    if z3.is_bv_value(x):
                        self.env[name] = x.as_long()
                    elif z3.is_true(x):
                        self.env[name] = 1
                    elif z3.is_false(x):
                        self.env[name] = 0
        finally:
            self.s.pop()
            self.levels.pop()
        self.stats.time += time.time() - t0
        setattr(self.stats, r, getattr(self.stats, r) + 1)
        if r == 'unknown':
            # an interrupted incremental solver is not used again
            self.s = z3.Solver() if self.fp else z3.SolverFor('QF_BV')
            self.stack = []
            self.levels = [set()]
        return r


class NeedFP(Exception):
    pass


BVX = {}
