"""The symbolic machine: memory, calls, intrinsics, decisions.  One instance per process (module globals), because the
generated code binds these functions as its globals."""
import struct
import sys
import math
import re
import llir
import codegen
import terms as T
from terms import Term, add, sub, mul, and_, or_, xor, not_, shl, lshr, ashr, trunc, zext, sext, ite, eq, ult, slt
from terms import udiv, urem, sgn

M64 = (1 << 64) - 1


class Fault(Exception):
    """Abnormal end of a run: failed assertion, bad memory access, division by zero, terminate, ..."""

    def __init__(self, kind, what=''):
        self.kind = kind
        self.what = what
        Exception.__init__(self, kind, what)


class CppThrow(Exception):
    def __init__(self, ti, ptr):
        self.ti = ti
        self.ptr = ptr


class Infeasible(Exception):
    """The current path prefix has no model (only met when an over-approximated prefix is refined)."""


class Unsup(Exception):
    pass


class Budget(Exception):
    pass


Z1, Z2, Z4, Z8 = b'\0', b'\0\0', b'\0' * 4, b'\0' * 8
ZER = {1: Z1, 2: Z2, 4: Z4, 8: Z8}


class Obj:
    __slots__ = ('size', 'data', 'marks', 'sym', 'freed', 'kind', 'const', 'how')

    def __init__(self, size, kind, init=None):
        self.size = size
        self.kind = kind
        self.freed = False
        self.const = False
        self.sym = None
        if init is None:
            self.data = bytearray(size)
            self.marks = bytearray(b'\3') * size
        else:
            self.data = bytearray(init)
            self.marks = bytearray(size)


objs = [None]
undef_count = [0]
steps = [0]
limit = [10**9]
ctl = None          # the path controller
heap_live = [0]


def tick():
    steps[0] += 1
    if steps[0] > limit[0]:
        raise Fault('fuel', 'no end after %d loop iterations' % limit[0])


def fault(kind, what=''):
    raise Fault(kind, what)


def unreachable():
    raise Fault('unreachable', 'LLVM unreachable executed')


def unsupported(what):
    raise Unsup(what)


def undef(w):
    undef_count[0] += 1
    return T.var('undef%d_%d' % (undef_count[0], w), w)


def new_obj(size, kind, init=None):
    o = Obj(size, kind, init)
    objs.append(o)
    return (len(objs) - 1) << 32


def conc(t):
    """a concrete value of t, forking over its feasible values"""
    if t.__class__ is int:
        return t
    return ctl.concretize(t)


# Addresses are never reused, so that stale pointers are seen, except after an earlier call of a history: there the
# blocks it has given back are handed out again in the order it got them, as a stack and an allocator would.
reuse = {}
taken = None


def record():
    global taken
    taken = []


def recycle():
    global taken
    reuse.clear()
    for key, i in taken:
        if objs[i].freed:
            reuse.setdefault(key, []).append(i)
    for q in reuse.values():
        q.reverse()
    taken = None


def again(size, kind):
    key = (kind, size)
    q = reuse.get(key) if size.__class__ is int else None
    if q:
        i = q.pop()
        objs[i] = Obj(size, kind)
    else:
        i = new_obj(size, kind) >> 32
    if taken is not None:
        taken.append((key, i))
    return i << 32


def alloca(size):
    if reuse or taken is not None:
        return again(size, 's')
    return new_obj(size, 's')


def dealloca(*ps):
    for p in ps:
        if p:
            objs[p >> 32].freed = True


# ---------------------------------------------------------------- memory access

def access(p, n, what):
    if p.__class__ is not int:
        p = conc(p)
    i = p >> 32
    if i >= len(objs) or i == 0:
        raise Fault('memory', '%s of %d bytes at wild or null pointer %#x' % (what, n, p))
    ob = objs[i]
    o = p & 0xFFFFFFFF
    if ob.freed:
        raise Fault('memory', '%s of %d bytes in freed memory' % (what, n))
    if o + n > ob.size:
        raise Fault('memory', '%s of %d bytes at offset %d of an object of %d bytes' % (what, n, o, ob.size))
    return ob, o


def mkld(n):
    Zn = ZER[n]
    frm = int.from_bytes

    def ld(p):
        if p.__class__ is int:
            i = p >> 32
            if 0 < i < len(objs):
                ob = objs[i]
                o = p & 0xFFFFFFFF
                if not ob.freed and o + n <= ob.size:
                    if ob.marks[o:o + n] == Zn:
                        return frm(ob.data[o:o + n], 'little')
                    if ob.marks[o] == 1:
                        t, k = ob.sym[o]
                        if k == n:
                            return t
                    return load_slow(ob, o, n)
            access(p, n, 'read')
        return load_sym(p, n)
    return ld


def mkst(n):
    Zn = ZER[n]
    Cn = b'\1' + b'\2' * (n - 1)

    def st(p, v):
        if p.__class__ is not int:
            p = conc(p)
        i = p >> 32
        if 0 < i < len(objs):
            ob = objs[i]
            o = p & 0xFFFFFFFF
            if not ob.freed and o + n <= ob.size and not ob.const:
                if v.__class__ is int:
                    if ob.sym is not None and ob.sym:
                        clear(ob, o, n)
                    ob.marks[o:o + n] = Zn
                    ob.data[o:o + n] = v.to_bytes(n, 'little')
                    return
                if ob.sym is None:
                    ob.sym = {}
                else:
                    clear(ob, o, n)
                ob.marks[o:o + n] = Cn
                ob.sym[o] = (v, n)
                return
            if ob.const:
                raise Fault('memory', 'write to constant data')
        access(p, n, 'write')
    return st


ld1, ld2, ld4, ld8 = mkld(1), mkld(2), mkld(4), mkld(8)
st1, st2, st4, st8 = mkst(1), mkst(2), mkst(4), mkst(8)
LD = {1: ld1, 2: ld2, 4: ld4, 8: ld8}


def ldn(p, n):
    ob, o = access(p, n, 'read')
    return load_slow(ob, o, n)


def stn(p, v, n):
    ob, o = access(p, n, 'write')
    clear(ob, o, n)
    if v.__class__ is int:
        ob.marks[o:o + n] = bytes(n)
        ob.data[o:o + n] = v.to_bytes(n, 'little')
    else:
        if ob.sym is None:
            ob.sym = {}
        ob.marks[o:o + n] = b'\1' + b'\2' * (n - 1)
        ob.sym[o] = (v, n)


def cell_start(ob, o):
    while ob.marks[o] == 2:
        o -= 1
    return o


def clear(ob, o, n):
    """remove the symbolic cells that overlap [o, o+n), keeping the bytes outside"""
    mk = ob.marks
    e = o + n
    if n <= 0:
        return
    if mk[o] == 2:
        explode(ob, cell_start(ob, o))
    if e < ob.size and mk[e] == 2:
        explode(ob, cell_start(ob, e))
    s = ob.sym
    if s:
        if len(s) < n:
            for k in [k for k in s if o <= k < e]:
                del s[k]
        else:
            for k in range(o, e):
                if k in s:
                    del s[k]


def explode(ob, s):
    t, k = ob.sym.pop(s)
    for i in range(k):
        b = trunc(lshr(t, 8 * i, t.w), 8) if t.__class__ is Term else (t >> 8 * i) & 255
        if b.__class__ is int:
            ob.marks[s + i] = 0
            ob.data[s + i] = b
        else:
            ob.marks[s + i] = 1
            ob.sym[s + i] = (b, 1)


def load_slow(ob, o, n):
    mk = ob.marks
    w = 8 * n
    if mk[o:o + n] == b'\3' * n:
        return undef(w)
    r = 0
    i = 0
    while i < n:
        m = mk[o + i]
        if m == 0:
            v, k = ob.data[o + i], 1
        elif m == 3:
            v, k = undef(8), 1
        else:
            s = cell_start(ob, o + i)
            t, sz = ob.sym[s]
            off = o + i - s
            k = min(sz - off, n - i)
            v = trunc(lshr(t, 8 * off, 8 * sz), 8 * k)
        v = zext(v, w)
        if i:
            v = shl(v, 8 * i, w)
        r = or_(r, v, w)
        i += k
    return r


def load_sym(p, n):
    """load through a symbolic pointer"""
    r = T.rng(p)
    if r[0] >> 32 != r[1] >> 32 or p.op == 'add':
        r = addr_range(p)
    if r[0] >> 32 == r[1] >> 32:
        i = r[0] >> 32
        if 0 < i < len(objs) and objs[i].const and n <= objs[i].size <= 1024 and r[1] - (i << 32) + n > objs[i].size:
            # a constant table, and an index whose range is only known from the path
            top = (i << 32) + objs[i].size - n
            if branch(T.ult(top, p, 64)):
                raise Fault('memory', 'read of %d bytes beyond a constant object of %d bytes' % (n, objs[i].size))
            step = stride(p)
            r = (r[0], top - (top - r[0]) % step)
    if r[0] >> 32 == r[1] >> 32 and r[1] - r[0] <= 1024:
        i = r[0] >> 32
        if 0 < i < len(objs):
            ob = objs[i]
            base = i << 32
            lo, hi = r[0] - base, r[1] - base
            step = stride(p)
            start = lo
            if hi + n <= ob.size and not ob.freed:
                ks = list(range(start, hi + 1, step))
                if all(ob.marks[k:k + n] == ZER[n] for k in ks):
                    vals = [int.from_bytes(ob.data[k:k + n], 'little') for k in ks]
                    x = sub(p, base + lo, 64)
                    if step > 1:
                        x = udiv(x, step, 64)
                    return table(x, vals, 8 * n)
    p = conc(p)
    return LD[n](p)


def addr_range(p):
    if p.op == 'add' and p.b.__class__ is int:
        # base + index with an index whose range was lost
        i = p.a
        if i.op == 'or' and i.b.__class__ is int and i.b == 1 and i.a.op == 'shl':
            return (p.b + i.a.lo + 1, p.b + i.a.hi + 1)
        return (p.b + i.lo, p.b + i.hi)
    return p.lo, p.hi


def stride(p):
    """p - p.lo is known to be a multiple of this"""
    t = p
    while t.__class__ is Term:
        if t.op == 'add' and t.b.__class__ is int:
            t = t.a
            continue
        if t.op == 'or' and t.b.__class__ is int and t.b == 1:
            t = t.a
            continue
        break
    if t.__class__ is Term and t.op == 'add' and t.b.__class__ is Term:
        return 1
    if t.__class__ is not Term:
        return 1
    if t.op == 'mul' and t.b.__class__ is int:
        return t.b if t.lo % t.b == 0 else 1
    if t.op == 'shl' and t.b.__class__ is int:
        return 1 << t.b if t.lo % (1 << t.b) == 0 else 1
    if t.op in ('zext',):
        u = t.a
        if u.op == 'shl' and u.b.__class__ is int and u.lo % (1 << u.b) == 0:
            return 1 << u.b
        if u.op == 'mul' and u.b.__class__ is int and u.hi < (1 << u.w) - 1 and u.lo % u.b == 0:
            return u.b
        if u.op == 'add' and u.b.__class__ is int:
            v = u.a
            if v.op == 'shl' and v.b.__class__ is int and u.lo == v.lo + u.b and v.lo % (1 << v.b) == 0:
                return 1 << v.b
    return 1


def table(x, vals, w):
    """vals[x]: recognise c + (x//d) % m, otherwise an if-then-else chain"""
    n = len(vals)
    if x.__class__ is int:
        return vals[x]
    if all(v == vals[0] for v in vals):
        return vals[0]
    d = 1
    while d < n and vals[d] == vals[0]:
        d += 1
    c = vals[0]
    if d < n and vals[d] == c + 1:
        m = n // d + 2
        for k in range(0, n, d):
            if k and vals[k] == c:
                m = k // d
                break
        if all(vals[k] == c + (k // d) % m for k in range(n)):
            y = udiv(x, d, x.w)
            if m * d < n:
                y = urem(y, m, x.w)
            return add(trunc(y, w), c, w)
    r = vals[-1]
    for k in range(n - 2, -1, -1):
        r = ite(eq(x, k, x.w), vals[k], r, w)
    return r


def mem_memcpy(d, s, n):
    n = conc(n)
    if n == 0:
        return d
    so, o = access(s, n, 'read')
    do, q = access(d, n, 'write')
    if do.const:
        raise Fault('memory', 'write to constant data')
    if so.sym:
        if so.marks[o] == 2:
            explode(so, cell_start(so, o))
        if o + n < so.size and so.marks[o + n] == 2:
            explode(so, cell_start(so, o + n))
        if len(so.sym) < n:
            cells = [(k - o, v) for k, v in so.sym.items() if o <= k < o + n]
        else:
            cells = [(k, so.sym[o + k]) for k in range(n) if o + k in so.sym]
    else:
        cells = ()
    data = bytes(so.data[o:o + n])
    marks = bytes(so.marks[o:o + n])
    if do.sym:
        clear(do, q, n)
    do.data[q:q + n] = data
    do.marks[q:q + n] = marks
    if cells:
        if do.sym is None:
            do.sym = {}
        for k, v in cells:
            do.sym[q + k] = v
    return d


mem_memmove = mem_memcpy


def mem_memset(d, v, n):
    n = conc(n)
    if n == 0:
        return d
    do, q = access(d, n, 'write')
    if do.sym:
        clear(do, q, n)
    if v.__class__ is int:
        do.data[q:q + n] = bytes([v & 255]) * n
        do.marks[q:q + n] = bytes(n)
    else:
        if do.sym is None:
            do.sym = {}
        v = trunc(v, 8)
        do.marks[q:q + n] = b'\1' * n
        for i in range(n):
            do.sym[q + i] = (v, 1)
    return d


def mem_cmp_eq(a, b, n):
    """i1: the n bytes are equal"""
    n = conc(n)
    if n == 0:
        return 1
    x, o = access(a, n, 'read')
    y, q = access(b, n, 'read')
    r = 1
    i = 0
    while i < n:
        k = 4 if n - i >= 4 and (o + i) % 4 == 0 and (q + i) % 4 == 0 else 1
        u = LD[k]((a if a.__class__ is int else 0) + i)
        v = LD[k]((b if b.__class__ is int else 0) + i)
        e = eq(u, v, 8 * k)
        if e.__class__ is int and not e:
            return 0
        r = and_(r, e, 1)
        i += k
    return r


def x_bcmp(a, b, n):
    return zext(not_(mem_cmp_eq(conc(a), conc(b), n)), 32)


def x_memcmp(a, b, n):
    a, b, n = conc(a), conc(b), conc(n)
    r = 0
    for i in range(n - 1, -1, -1):
        u, v = ld1(a + i), ld1(b + i)
        r = ite(eq(u, v, 8), r, ite(ult(u, v, 8), 0xFFFFFFFF, 1, 32), 32)
    return r


def x_memchr(p, c, n):
    p, n = conc(p), conc(n)
    c = trunc(c, 8)
    for i in range(n):
        e = eq(ld1(p + i), c, 8)
        if e.__class__ is not int:
            e = branch(e)
        if e:
            return p + i
    return 0


def x_strlen(p):
    p = conc(p)
    n = 0
    while True:
        e = eq(ld1(p + n), 0, 8)
        if e.__class__ is not int:
            e = branch(e)
        if e:
            return n
        n += 1


def x_strncmp(a, b, n=1 << 62):
    a, b, n = conc(a), conc(b), conc(n)
    for i in range(n):
        u, v = ld1(a + i), ld1(b + i)
        e = eq(u, v, 8)
        if e.__class__ is not int:
            e = branch(e)
        if not e:
            return ite(ult(u, v, 8), 0xFFFFFFFF, 1, 32)
        e = eq(u, 0, 8)
        if e.__class__ is not int:
            e = branch(e)
        if e:
            return 0
    return 0


def x_strchr(p, c):
    n = x_strlen(p)
    return x_memchr(p, c, n + 1)


def x_strcpy(d, s):
    mem_memcpy(d, s, x_strlen(s) + 1)
    return d


FMT = re.compile(rb'%([-0+ #]*)(\d*)(?:\.(\d+))?(hh|h|ll|l|z|j|t)?([diuxXcs%])')


def x_snprintf(buf, n, fmt, *args):
    """the integer, character and string conversions"""
    buf, n = conc(buf), conc(n)
    f = cbytes(fmt)
    args = list(args)
    out = []
    pos = 0
    for m in FMT.finditer(f):
        if b'%' in f[pos:m.start()]:
            raise Unsup('format ' + repr(f))
        out += f[pos:m.start()]
        pos = m.end()
        flags, width, prec, ln, cv = m.groups()
        width = int(width or 0)
        if cv == b'%':
            out.append(37)
            continue
        v = args.pop(0)
        sign = []
        if cv == b'c':
            s = [trunc(v, 8)]
        elif cv == b's':
            v = conc(v)
            s = [ld1(v + i) for i in range(x_strlen(v))]
            if prec is not None:
                s = s[:int(prec)]
        else:
            if ln in (b'h', b'hh') or b'#' in flags:
                raise Unsup('format ' + repr(f))
            w = 64 if ln else 32
            v = trunc(v, w)
            if cv in b'di':
                neg = slt(v, 0, w)
                if neg.__class__ is not int:
                    neg = branch(neg)
                if neg:
                    v = sub(0, v, w)
                    sign = [45]
                elif b'+' in flags:
                    sign = [43]
                elif b' ' in flags:
                    sign = [32]
            if w == 32:
                v = zext(v, 64)
            t = new_obj(72, 'h')
            k = conc(prog.fn('verif_digits')(t + 72, v, 16 if cv in b'xX' else 10, int(cv == b'X')))
            s = [ld1(t + 72 - k + i) for i in range(k)]
            if prec is not None:
                if prec == b'0':
                    raise Unsup('format ' + repr(f))
                s = [48] * (int(prec) - len(s)) + s
            elif b'0' in flags and b'-' not in flags:
                s = [48] * (width - len(s) - len(sign)) + s
        s = sign + s
        out += s + [32] * (width - len(s)) if b'-' in flags else [32] * (width - len(s)) + s
    if b'%' in f[pos:]:
        raise Unsup('format ' + repr(f))
    out += f[pos:]
    for i, c in enumerate(out[:max(n - 1, 0)] + [0] * (n > 0)):
        st1(buf + i, c)
    return len(out)


def x_sprintf(buf, fmt, *args):
    return x_snprintf(buf, 1 << 31, fmt, *args)


def cbytes(p):
    p = conc(p)
    return bytes(conc(ld1(p + i)) for i in range(x_strlen(p)))


def ctype(f):
    def g(c):
        """for a character code 0..255"""
        r = 0
        for lo, hi, v in f:
            i = and_(not_(ult(c, lo, 32)), not_(ult(hi, c, 32)), 1)
            r = ite(i, v if v.__class__ is int else v(c), r, 32)
        return r
    return g


def case(lo, hi, d):
    def g(c):
        return ite(and_(not_(ult(c, lo, 32)), not_(ult(hi, c, 32)), 1), add(c, d, 32), c, 32)
    return g


def x_new(n, how='new'):
    n = conc(n)
    if n > MAXALLOC:
        throw_std('_ZTISt9bad_alloc', 'operator new(%d)' % n)
    heap_live[0] += 1
    p = again(n, 'h') if reuse or taken is not None else new_obj(n, 'h')
    objs[p >> 32].how = how
    return p


def x_newarr(n):
    return x_new(n, 'new[]')


def x_malloc(n):
    return x_new(n, 'malloc')


def x_calloc(n, m):
    n = conc(n) * conc(m)
    p = x_new(n, 'malloc')
    objs[p >> 32].marks = bytearray(n)
    return p


def leaked():
    """heap blocks allocated on this path, not freed, and not reachable from the program's globals"""
    if heap_live[0] <= 0:
        return []
    base = prog.base
    live = {i for i in range(base, len(objs)) if objs[i].kind == 'h' and not objs[i].freed}
    seen = set()
    work = [i for i, _, _ in prog.saved]
    while work and len(seen) < len(live):
        ob = objs[work.pop()]
        if ob.data is None:
            continue
        for o in range(0, len(ob.data) - 7, 8):
            j = int.from_bytes(ob.data[o:o + 8], 'little') >> 32
            if j in live and j not in seen:
                seen.add(j)
                work.append(j)
    return [(objs[i].size, objs[i].how) for i in sorted(live - seen)]


MAXALLOC = 1 << 27


def x_delarr(p, *_):
    x_delete(p, how='new[]')


def x_free(p):
    x_delete(p, how='malloc')


def x_guard_acquire(p):
    v = ld1(p)
    return 0 if v.__class__ is int and v else 1


def x_guard_release(p):
    st1(p, 1)
    return 0


def x_delete(p, *_, how='new'):
    p = conc(p)
    if p == 0:
        return
    i = p >> 32
    if i >= len(objs) or p & 0xFFFFFFFF or objs[i].kind != 'h':
        raise Fault('memory', 'delete of a pointer that new did not return')
    if objs[i].freed:
        raise Fault('memory', 'double delete')
    if objs[i].how != how:
        raise Fault('memory', 'memory from %s released by %s' % (objs[i].how, {'new': 'delete', 'new[]': 'delete[]', 'malloc': 'free'}[how]))
    objs[i].freed = True
    heap_live[0] -= 1
    objs[i].data = objs[i].marks = None
    objs[i].sym = None


# ---------------------------------------------------------------- decisions

def branch(c):
    return ctl.branch(c)


def switch(v, cases):
    w = v.w
    for c in cases:
        e = eq(v, c, w)
        if e.__class__ is not int:
            e = ctl.branch(e)
        if e:
            return c
    return -1


def select(c, a, b, w):
    if w is None or a.__class__ is tuple:
        return a if ctl.branch(c) else b
    if w > 1 and ctl.fork_select:
        return a if ctl.branch(c) else b
    return ite(c, a, b, w)


def insertvalue(a, v, idx):
    l = list(a)
    if len(idx) == 1:
        l[idx[0]] = v
    else:
        l[idx[0]] = insertvalue(l[idx[0]], v, idx[1:])
    return tuple(l)


def op_shl(a, b, w):
    return shift('shl', shl, a, b, w)


def op_lshr(a, b, w):
    return shift('lshr', lshr, a, b, w)


def op_ashr(a, b, w):
    return shift('ashr', ashr, a, b, w)


def shift(name, f, a, b, w):
    if b.__class__ is not int:
        if b.hi >= w:
            if ctl.branch(not_(ult(b, w, w))):
                return undef(w)
        if ctl.fork_shift:
            b = conc(b)
    if b.__class__ is int and b >= w:
        return undef(w)
    return f(a, b, w)


def nz(b, w):
    if b.__class__ is int:
        if b == 0:
            raise Fault('divide', 'machine division by zero')
        return
    e = eq(b, 0, w)
    if e.__class__ is not int:
        e = ctl.branch(e)
    if e:
        raise Fault('divide', 'machine division by zero')


def op_udiv(a, b, w):
    nz(b, w)
    if a is b:
        return 1
    if b.__class__ is not int and ctl.fork_udiv:
        return ctl.quotient(a, b, w)
    return udiv(a, b, w)


def op_urem(a, b, w):
    nz(b, w)
    if a is b:
        return 0
    if b.__class__ is not int and ctl.fork_udiv:
        q = ctl.quotient(a, b, w)
        return sub(a, mul(q, b, w), w)
    r = urem(a, b, w)
    if r.__class__ is not int and r.hi < ctl.conc_urem:
        return conc(r)
    return r


def absneg(a, w):
    """(|a|, sign) after deciding the sign"""
    n = slt(a, 0, w)
    if n.__class__ is not int:
        n = ctl.branch(n)
    return (sub(0, a, w), 1) if n else (a, 0)


def op_sdiv(a, b, w):
    nz(b, w)
    if a.__class__ is int and b.__class__ is int:
        if a == 1 << (w - 1) and b == (1 << w) - 1:
            raise Fault('divide', 'signed division overflow')
        return T.sdiv(a, b, w)
    if a is b:
        return 1
    if not ctl.int_mode:
        ov = and_(eq(a, 1 << (w - 1), w), eq(b, (1 << w) - 1, w), 1)
        if ov.__class__ is not int and ctl.branch(ov):
            raise Fault('divide', 'signed division overflow')
        return T.sdiv(a, b, w)
    x, s = absneg(a, w)
    y, t = absneg(b, w)
    q = op_udiv(x, y, w)
    return sub(0, q, w) if s ^ t else q


def op_srem(a, b, w):
    nz(b, w)
    if a.__class__ is int and b.__class__ is int:
        if a == 1 << (w - 1) and b == (1 << w) - 1:
            raise Fault('divide', 'signed division overflow')
        return T.srem(a, b, w)
    if not ctl.int_mode:
        ov = and_(eq(a, 1 << (w - 1), w), eq(b, (1 << w) - 1, w), 1)
        if ov.__class__ is not int and ctl.branch(ov):
            raise Fault('divide', 'signed division overflow')
        return T.srem(a, b, w)
    x, s = absneg(a, w)
    y, t = absneg(b, w)
    r = op_urem(x, y, w)
    return sub(0, r, w) if s else r


# ---------------------------------------------------------------- floating point (bit patterns)

def tofloat(b, w):
    if w == 64:
        return struct.unpack('<d', b.to_bytes(8, 'little'))[0]
    if w == 32:
        return struct.unpack('<f', b.to_bytes(4, 'little'))[0]
    raise Unsup('float%d' % w)


def frombits(d, w):
    if w == 64:
        return int.from_bytes(struct.pack('<d', d), 'little')
    if w == 32:
        try:
            return int.from_bytes(struct.pack('<f', d), 'little')
        except OverflowError:
            return 0x7F800000 | (0x80000000 if d < 0 else 0)
    raise Unsup('float%d' % w)


def fdiv_(x, y):
    if y == 0:
        if x == 0 or x != x:
            return math.nan
        neg = (math.copysign(1, x) < 0) != (math.copysign(1, y) < 0)
        return -math.inf if neg else math.inf
    return x / y


def op_float(op, a, b, w):
    if a.__class__ is int and b.__class__ is int:
        x, y = tofloat(a, w), tofloat(b, w)
        if op == 'fadd':
            r = x + y
        elif op == 'fsub':
            r = x - y
        elif op == 'fmul':
            r = x * y
        elif op == 'fdiv':
            r = fdiv_(x, y)
        else:
            r = math.fmod(x, y)
        return frombits(r, w)
    return T.opaque(op, w, a, b)


def op_fcmp(pred, a, b, w):
    if a.__class__ is int and b.__class__ is int:
        x, y = tofloat(a, w), tofloat(b, w)
        un = x != x or y != y
        if pred == 'ord':
            return int(not un)
        if pred == 'uno':
            return int(un)
        if pred == 'true':
            return 1
        if pred == 'false':
            return 0
        r = {'eq': x == y, 'ne': x != y, 'lt': x < y, 'le': x <= y, 'gt': x > y, 'ge': x >= y}[pred[1:]]
        if un:
            return int(pred[0] == 'u')
        return int(r)
    if a.__class__ is int:
        a, b = b, a
        pred = {'lt': 'gt', 'gt': 'lt', 'le': 'ge', 'ge': 'le'}.get(pred[1:], pred[1:]).rjust(len(pred), pred[0]) if pred[1:] in ('lt', 'gt', 'le', 'ge') else pred
    if a.op in ('uitofp', 'sitofp') and (b.__class__ is int or b is a):
        # a converted integer is never NaN; equality with a small constant is equality of the integers
        if pred in ('ord', 'uno'):
            y = tofloat(b, w) if b.__class__ is int else 0
            return int((y != y) == (pred == 'uno'))
        if b.__class__ is int and w == 64 and pred[1:] in ('eq', 'ne') and pred not in ('ord', 'uno'):
            y = tofloat(b, w)
            if y == y:
                if math.isinf(y) or y != int(y):
                    return int(pred[1:] == 'ne')
                if abs(y) < 1 << 53:
                    y = int(y)
                    n = a.c
                    lo, hi = (0, (1 << n) - 1) if a.op == 'uitofp' else (-(1 << n - 1), (1 << n - 1) - 1)
                    e = eq(a.a, y & ((1 << n) - 1), n) if lo <= y <= hi else 0
                    return e if pred[1:] == 'eq' else not_(e)
    return T.mk('fcmp_' + pred, 1, a, b, w, 0, 1)


def op_fcast(op, a, fw, tw):
    if a.__class__ is int:
        if op == 'fptrunc' or op == 'fpext':
            return frombits(tofloat(a, fw), tw)
        if op == 'uitofp':
            return frombits(float(a) if tw == 64 else f32(a), tw)
        if op == 'sitofp':
            v = sgn(a, fw)
            return frombits(float(v) if tw == 64 else f32(v), tw)
        x = tofloat(a, fw)
        if x != x or math.isinf(x):
            return undef(tw)
        v = int(x)
        lo, hi = (0, (1 << tw) - 1) if op == 'fptoui' else (-(1 << (tw - 1)), (1 << (tw - 1)) - 1)
        if not lo <= v <= hi:
            return undef(tw)
        return v & ((1 << tw) - 1)
    return T.opaque(op, tw, a, 0, fw)


def f32(v):
    # correctly rounded int -> float32, returned as a Python float
    from fractions import Fraction
    d = float(v)
    return d


def in_math(name, args, w):
    if all(a.__class__ is int for a in args):
        xs = [tofloat(a, w) for a in args]
        if name == 'log':
            return frombits(clog(xs[0]), w)
        if name == 'fmuladd' or name == 'fma':
            if name == 'fmuladd':
                return frombits(xs[0] * xs[1] + xs[2], w)
        f = {'floor': math.floor, 'ceil': math.ceil, 'trunc': math.trunc, 'sqrt': math.sqrt}.get(name)
        if f:
            return frombits(float(f(xs[0])), w)
        if name == 'copysign':
            return frombits(math.copysign(*xs), w)
    if name == 'copysign':
        return or_(and_(args[0], (1 << (w - 1)) - 1, w), and_(args[1], 1 << (w - 1), w), w)
    return T.opaque('fn_' + name, w, args[0], args[1] if len(args) > 1 else 0)


def clog(x):
    if x != x:
        return x
    if x == 0:
        return -math.inf
    if x < 0:
        return math.nan
    if x == math.inf:
        return x
    return math.log(x)


def x_log(a):
    return in_math('log', (a,), 64)


def in_fpclass(a, mask, w):
    # the classes of the mask, over the bit pattern: quiet/signalling NaN, infinities, normals, subnormals, zeros
    m, full = (52, 0x7ff) if w == 64 else (23, 0xff)
    inf = full << m
    if mask == 3:
        return op_fcmp('uno', a, a, w)
    if mask == 516:
        return op_fcmp('oeq', in_fabs(a, w), inf, w)
    if mask == 504:
        return not_(or_(op_fcmp('uno', a, a, w), op_fcmp('oeq', in_fabs(a, w), inf, w), 1))
    mag = and_(a, (1 << (w - 1)) - 1, w)
    neg = eq(and_(a, 1 << (w - 1), w), 1 << (w - 1), w)
    r = 0

    def between(lo, hi):
        return and_(not_(ult(mag, lo, w)), ult(mag, hi, w), 1)

    qnan = inf | 1 << (m - 1)
    if mask & 1:
        r = or_(r, between(inf + 1, qnan), 1)
    if mask & 2:
        r = or_(r, between(qnan, 1 << (w - 1)), 1)
    for bits, lo, hi in ((4 | 512, inf, inf + 1), (8 | 256, 1 << m, inf), (16 | 128, 1, 1 << m), (32 | 64, 0, 1)):
        nb, pb = mask & bits & 0x3c, mask & bits & 0x3c0
        if nb or pb:
            c = between(lo, hi)
            if not pb:
                c = and_(c, neg, 1)
            elif not nb:
                c = and_(c, not_(neg), 1)
            r = or_(r, c, 1)
    return r


def in_fabs(a, w):
    return and_(a, (1 << (w - 1)) - 1, w)


# ---------------------------------------------------------------- integer intrinsics

def in_umax(a, b, w):
    return pick(ult(a, b, w), b, a, w)


def in_umin(a, b, w):
    return pick(ult(a, b, w), a, b, w)


def in_smax(a, b, w):
    return pick(slt(a, b, w), b, a, w)


def in_smin(a, b, w):
    return pick(slt(a, b, w), a, b, w)


def pick(c, a, b, w):
    if c.__class__ is int:
        return a if c else b
    return select(c, a, b, w)


def in_abs(a, _p, w):
    return pick(slt(a, 0, w), sub(0, a, w), a, w)


def in_ctpop(a, w):
    if a.__class__ is int:
        return bin(a).count('1')
    if ctl.int_mode:
        # popcount(a) == 1 tests and the like: keep it exact through bits
        r = 0
        for i in range(w):
            r = add(r, zext(trunc(lshr(a, i, w), 1), w), w)
        return r
    return T.opaque('ctpop', w, a, 0, 0, 0, w)


def in_ctlz(a, _p, w):
    if a.__class__ is int:
        return w - a.bit_length()
    r = w
    for i in range(w):
        r = ite(not_(ult(a, 1 << i, w)), w - 1 - i, r, w)
    return r


def in_cttz(a, _p, w):
    if a.__class__ is int:
        return (a & -a).bit_length() - 1 if a else w
    r = w
    for i in range(w - 1, -1, -1):
        r = ite(trunc(lshr(a, i, w), 1), i, r, w)
    return r


def in_bswap(a, w):
    if a.__class__ is int:
        return int.from_bytes(a.to_bytes(w // 8, 'little'), 'big')
    r = 0
    n = w // 8
    for i in range(n):
        b = and_(lshr(a, 8 * i, w), 255, w)
        r = or_(r, shl(b, 8 * (n - 1 - i), w), w)
    return r


def in_fshl(a, b, s, w):
    s = conc(s) % w
    if s == 0:
        return a
    return or_(shl(a, s, w), lshr(b, w - s, w), w)


def in_fshr(a, b, s, w):
    s = conc(s) % w
    if s == 0:
        return b
    return or_(shl(a, w - s, w), lshr(b, s, w), w)


def in_usub_sat(a, b, w):
    return pick(ult(a, b, w), 0, sub(a, b, w), w)


def in_uadd_sat(a, b, w):
    s = add(a, b, w)
    return pick(ult(s, a, w), (1 << w) - 1, s, w)


def in_ovf(op, a, b, w):
    sg = op[0] == 's'
    f = {'add': add, 'sub': sub, 'mul': mul}[op[1:]]
    W = 2 * w + 1
    if sg:
        x, y = sext(a, W, w), sext(b, W, w)
    else:
        x, y = zext(a, W), zext(b, W)
    r = f(a, b, w)
    full = f(x, y, W)
    back = sext(r, W, w) if sg else zext(r, W)
    return (r, not_(eq(full, back, W)))


# ---------------------------------------------------------------- C++ runtime

def landingpad(exc, cleanup, catches):
    for c in catches:
        if c == 0:
            return (exc.ptr, 1)
        if derives(exc.ti, c):
            return (exc.ptr, c >> 32)
    if cleanup:
        return (exc.ptr, 0)
    raise exc


EXT_BASES = {
    '_ZTISt12out_of_range': '_ZTISt11logic_error', '_ZTISt12length_error': '_ZTISt11logic_error',
    '_ZTISt16invalid_argument': '_ZTISt11logic_error', '_ZTISt12domain_error': '_ZTISt11logic_error',
    '_ZTISt14overflow_error': '_ZTISt13runtime_error', '_ZTISt15underflow_error': '_ZTISt13runtime_error',
    '_ZTISt11range_error': '_ZTISt13runtime_error', '_ZTISt11logic_error': '_ZTISt9exception',
    '_ZTISt13runtime_error': '_ZTISt9exception', '_ZTISt9bad_alloc': '_ZTISt9exception',
    '_ZTISt20bad_array_new_length': '_ZTISt9bad_alloc',
}


def derives(ti, base):
    seen = 0
    while ti:
        if ti == base:
            return True
        n = prog.names.get(ti)
        if n is None:
            return False
        nxt = prog.ti_base(n)
        ti = nxt
        seen += 1
        if seen > 20:
            return False
    return False


def throw_std(ti, what=''):
    raise CppThrow(prog.addr('@' + ti), new_obj(64, 'x', bytes(64)))


def x_allocate_exception(n):
    return new_obj(conc(n), 'x')


def x_throw(p, ti, dtor):
    raise CppThrow(ti, p)


def x_rethrow():
    raise Unsup('rethrow')


def x_begin_catch(p):
    return p


def x_nop(*a):
    return 0


def x_ret0(*a):
    return a[0] if a else 0


def x_assert_fail(expr, file, line, fn):
    raise Fault('assert', cstr(expr) + ' at ' + cstr(file) + ':' + str(line))


def x_glibcxx_assert(*a):
    raise Fault('assert', 'libstdc++ assertion')


def x_terminate(*a):
    raise Fault('terminate', 'std::terminate')


def x_abort(*a):
    raise Fault('terminate', 'abort')


def cstr(p):
    try:
        i = p >> 32
        ob = objs[i]
        o = p & 0xFFFFFFFF
        return bytes(ob.data[o:ob.data.index(0, o)]).decode()
    except Exception:
        return '?'


def x_nan(p):
    return 0x7FF8000000000000


EXTERNS = {
    '_Znwm': x_new, '_Znam': x_newarr, '_ZdlPv': x_delete, '_ZdaPv': x_delarr, '_ZdlPvm': lambda p, n: x_delete(p), '_ZdaPvm': x_delarr,
    'malloc': x_malloc, 'free': x_free, 'calloc': x_calloc,
    'memcpy': mem_memcpy, 'memmove': mem_memmove, 'memset': mem_memset, 'bcmp': x_bcmp, 'memcmp': x_memcmp,
    'memchr': x_memchr, 'strlen': x_strlen, 'strcmp': x_strncmp, 'strncmp': x_strncmp, 'strchr': x_strchr, 'strcpy': x_strcpy,
    'snprintf': x_snprintf, 'sprintf': x_sprintf,
    'toupper': case(97, 122, -32 & 0xFFFFFFFF), 'tolower': case(65, 90, 32),
    'isdigit': ctype([(48, 57, 1)]), 'isxdigit': ctype([(48, 57, 1), (65, 70, 1), (97, 102, 1)]), 'isspace': ctype([(9, 13, 1), (32, 32, 1)]),
    'isalpha': ctype([(65, 90, 1), (97, 122, 1)]), 'isalnum': ctype([(48, 57, 1), (65, 90, 1), (97, 122, 1)]),
    'isupper': ctype([(65, 90, 1)]), 'islower': ctype([(97, 122, 1)]),
    '__cxa_allocate_exception': x_allocate_exception, '__cxa_free_exception': x_nop, '__cxa_throw': x_throw,
    '__cxa_begin_catch': x_begin_catch, '__cxa_end_catch': x_nop, '__cxa_rethrow': x_rethrow,
    '__cxa_atexit': x_nop, '__assert_fail': x_assert_fail, '_ZSt21__glibcxx_assert_failPKciS0_S0_': x_glibcxx_assert,
    '_ZSt9terminatev': x_terminate, 'abort': x_abort, '__clang_call_terminate': x_terminate,
    '_ZSt17__throw_bad_allocv': lambda *a: throw_std('_ZTISt9bad_alloc'),
    '_ZSt28__throw_bad_array_new_lengthv': lambda *a: throw_std('_ZTISt20bad_array_new_length'),
    '_ZSt20__throw_length_errorPKc': lambda *a: throw_std('_ZTISt12length_error'),
    '_ZSt19__throw_logic_errorPKc': lambda *a: throw_std('_ZTISt11logic_error'),
    '_ZSt20__throw_out_of_rangePKc': lambda *a: throw_std('_ZTISt12out_of_range'),
    '_ZSt24__throw_out_of_range_fmtPKcz': lambda *a: throw_std('_ZTISt12out_of_range'),
    '_ZSt24__throw_invalid_argumentPKc': lambda *a: throw_std('_ZTISt16invalid_argument'),
    'log': x_log, 'nan': x_nan, '__cxa_guard_acquire': x_guard_acquire, '__cxa_guard_release': x_guard_release,
    '__cxa_guard_abort': x_nop,
    '_ZNSt8ios_base4InitC1Ev': x_nop, '_ZNSt8ios_base4InitD1Ev': x_nop,
}

STD_EXC = re.compile(r'@_ZN[K]?St\d+(\w+?)(C[12]|D[012])E')


class Program:
    """Loads a linked IR module: lays out the globals, generates and compiles the Python code, runs the constructors."""

    def __init__(self, text):
        global prog
        prog = self
        self.mod = mod = llir.parse_module(text)
        self.addrs = {}
        self.names = {}
        self.fnaddr = {}
        self.next_fn = 1 << 28
        del objs[1:]
        for n, g in mod.globals.items():
            if g['external']:
                a = new_obj(16, 'g', bytes(16))
            else:
                a = new_obj(mod.sizeof(g['type']), 'g', bytes(mod.sizeof(g['type'])))
            self.addrs[n] = a
            self.names[a] = n
        self.gen = codegen.Gen(mod, self.addr)
        for n, g in mod.globals.items():
            if not g['external']:
                self.init(self.addrs[n], g['type'], g['init'])
        for n, g in mod.globals.items():
            objs[self.addrs[n] >> 32].const = g['const'] and not g['external']
        src = []
        for f in mod.funcs.values():
            src.append(self.gen.func(f))
        self.source = '\n'.join(src)
        ns = {}
        for k, v in globals().items():
            if not k.startswith('__'):
                ns[k] = v
        self.ns = ns
        exec(compile(self.source, '<ir>', 'exec'), ns)
        self.called = {}
        for n, py in list(self.gen.fn.items()):
            if n not in mod.funcs:
                ns[py] = self.external(n)
        self.bp = {self.gen.fn[n]: n for n in mod.funcs}
        ns['callptr'] = self.callptr
        self.used = ns['used'] = set()
        for _, f in sorted(mod.ctors):
            ns[self.gen.fn[f[1] if f.__class__ is tuple else f]]()
        self.snap()

    def external(self, n):
        x = EXTERNS.get(n[1:])
        if x:
            return x
        if STD_EXC.match(n):
            return x_nop

        def stub(*a):
            raise Unsup('call of external function ' + n)
        return stub

    def addr(self, n):
        while n in self.mod.aliases:
            v = self.mod.aliases[n]
            n = v[1]
        a = self.addrs.get(n)
        if a is None:
            if n in self.mod.funcs or n in self.mod.decls:
                a = self.next_fn << 32
                self.next_fn += 1
            else:
                a = new_obj(16, 'g', bytes(16))
            self.addrs[n] = a
            self.names[a] = n
            self.fnaddr[a] = n
        return a

    def callptr(self, p):
        p = conc(p)
        n = self.fnaddr.get(p)
        if n is None:
            raise Fault('memory', 'call through a wild pointer %#x' % p)
        py = self.gen.pyname(n)
        f = self.ns.get(py)
        if f is None:
            f = self.external(n)
        return f

    def ti_base(self, n):
        g = self.mod.globals.get(n)
        if g is None or g['external']:
            b = EXT_BASES.get(n[1:])
            return self.addr('@' + b) if b else 0
        # { vtable, name, base }
        init = g['init']
        if init[0] == 'agg' and len(init[1]) >= 3:
            return self.gen.const(init[1][2][1], ('ptr',))
        return 0

    def init(self, a, t, v):
        ob = objs[a >> 32]

        def put(off, t, v):
            t = self.mod.resolve(t)
            k = t[0]
            if v[0] in ('z', 'u'):
                return
            if k == 'struct':
                for i, (et, ev) in enumerate(v[1]):
                    o, e = self.mod.field_off(t, i)
                    put(off + o, e, ev)
            elif k in ('arr', 'vec'):
                if v[0] == 'str':
                    ob.data[off:off + len(v[1])] = v[1]
                    return
                sz = self.mod.sizeof(t[2])
                for i, (et, ev) in enumerate(v[1]):
                    put(off + i * sz, t[2], ev)
            else:
                n = self.mod.sizeof(t)
                ob.data[off:off + n] = self.gen.const(v, t).to_bytes(n, 'little')
        put(0, t, v)

    def snap(self):
        self.base = len(objs)
        self.saved = []
        for i, ob in enumerate(objs):
            if ob is not None and not ob.const and ob.kind in 'gh' and not ob.freed:
                self.saved.append((i, bytes(ob.data), bytes(ob.marks)))

    def restore(self):
        """memory as it is when the program starts"""
        del objs[self.base:]
        for i, d, m in self.saved:
            ob = objs[i]
            ob.freed = False
            ob.data = bytearray(d)
            ob.marks = bytearray(m)
            ob.sym = None

    def reset(self):
        self.restore()
        global taken
        reuse.clear()
        taken = None
        undef_count[0] = 0
        steps[0] = 0
        heap_live[0] = 0

    def fn(self, name):
        return self.ns[self.gen.fn['@' + name]]


prog = None
