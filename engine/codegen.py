"""Translate the parsed LLVM IR into Python source, one Python function per IR function.

The generated code runs the function on machine words that are Python ints (concrete) or Terms (symbolic).  It is
regenerated from the IR of the current source tree on every run.
"""
from llir import Unsupported

ASSIGN_OPS = {'add': '+', 'sub': '-', 'mul': '*', 'and': '&', 'or': '|', 'xor': '^'}
IGNORED = ('@llvm.lifetime.', '@llvm.dbg.', '@llvm.experimental.noalias', '@llvm.assume', '@llvm.donothing',
           '@llvm.invariant.', '@llvm.va_', '@llvm.prefetch', '@llvm.stacksave', '@llvm.stackrestore')


class Gen:
    def __init__(self, mod, addr_of):
        self.mod = mod
        self.addr = addr_of      # name -> int
        self.fn = {}             # IR name -> python name
        self.unsupported = {}

    def pyname(self, name):
        n = self.fn.get(name)
        if n is None:
            n = 'F%d' % len(self.fn)
            self.fn[name] = n
        return n

    # ---- operands
    def bits(self, t):
        t = self.mod.resolve(t)
        if t[0] == 'int' or t[0] == 'float':
            return t[1]
        if t[0] == 'ptr':
            return 64
        return None

    def const(self, o, t):
        """value of a constant operand (int, or tuple for aggregates)"""
        k = o[0]
        if k == 'c':
            return o[1]
        if k == 'g':
            return self.addr(o[1])
        if k == 'z' or k == 'u':
            t = self.mod.resolve(t)
            if t[0] == 'struct':
                return tuple(self.const(o, e) for e in t[2])
            if t[0] in ('arr', 'vec'):
                return tuple(self.const(o, t[2]) for _ in range(t[1]))
            return 0
        if k == 'agg':
            return tuple(self.const(v, et) for et, v in o[1])
        if k == 'gep':
            base = self.const(o[2], ('ptr',))
            off = 0
            bt = o[1]
            for i, (it, iv) in enumerate(o[3]):
                c = self.const(iv, it)
                w = it[1]
                if c >> (w - 1):
                    c -= 1 << w
                if i == 0:
                    off += c * self.mod.sizeof(bt)
                else:
                    r = self.mod.resolve(bt)
                    if r[0] == 'struct':
                        f, bt = self.mod.field_off(r, c)
                        off += f
                    else:
                        bt = r[2]
                        off += c * self.mod.sizeof(bt)
            return (base + off) & 0xFFFFFFFFFFFFFFFF
        if k == 'cast':
            v = self.const(o[3], o[2])
            w = self.bits(o[4])
            return v & ((1 << w) - 1)
        if k == 'cbin':
            a = self.const(o[3], o[2])
            b = self.const(o[4], o[2])
            w = self.bits(o[2])
            f = {'add': a + b, 'sub': a - b, 'and': a & b, 'or': a | b, 'xor': a ^ b, 'mul': a * b}
            if o[1] not in f:
                raise Unsupported('const ' + o[1])
            return f[o[1]] & ((1 << w) - 1)
        if k == 'cicmp':
            a = self.const(o[3], o[2])
            b = self.const(o[4], o[2])
            w = 64 if o[2][0] == 'ptr' else self.bits(o[2])
            if o[1][0] == 's':
                a, b = (x - (1 << w) if x >> (w - 1) else x for x in (a, b))
            p = o[1].lstrip('us')
            return int({'eq': a == b, 'ne': a != b, 'lt': a < b, 'le': a <= b, 'gt': a > b, 'ge': a >= b}[p])
        raise Unsupported('const %r' % (o,))

    def op(self, o, t):
        if o[0] == 'l':
            return self.loc(o[1])
        return repr(self.const(o, t))

    def loc(self, n):
        v = self.names.get(n)
        if v is None:
            v = 'v%d' % len(self.names)
            self.names[n] = v
        return v

    @staticmethod
    def isc(o):
        return o[0] != 'l'

    # ---- functions
    def func(self, f):
        self.names = {}
        self.f = f
        self.allocas = []
        blocks = f.order
        idx = {b: i for i, b in enumerate(blocks)}
        self.idx = idx
        out = []
        py = self.pyname(f.name)
        out.append('def %s(%s):' % (py, ', '.join(self.loc(n) for _, n in f.params)))
        if 'BigInteger' in f.name or 'NumericsHelpers' in f.name or 'FastReducer' in f.name or 'BitsBuffer' in f.name:
            out.append(' used.add(%r)' % f.name)
        for b in blocks:
            for I in f.blocks[b]:
                if I['op'] == 'alloca':
                    self.allocas.append(self.loc(I['res']))
        if self.allocas:
            out.append(' ' + ' = '.join(self.allocas) + ' = 0')
        # phis
        self.phis = {b: [I for I in f.blocks[b] if I['op'] == 'phi'] for b in blocks}
        if len(blocks) == 1:
            out += self.block(blocks[0], 1, False)
        else:
            out.append(' bb = 0')
            out.append(' while True:')
            self.tree(out, blocks, 0, len(blocks), 2)
        return '\n'.join(out) + '\n'

    def tree(self, out, blocks, lo, hi, ind):
        sp = ' ' * ind
        if hi - lo == 1:
            b = blocks[lo]
            selfloop = False
            for I in self.f.blocks[b]:
                if I['op'] == 'br' and b in I['dst']:
                    selfloop = True
            if selfloop:
                out.append(sp + 'while True:')
                out += self.block(b, ind + 1, True)
            else:
                out += self.block(b, ind, False)
            return
        mid = (lo + hi) // 2
        out.append(sp + 'if bb < %d:' % mid)
        self.tree(out, blocks, lo, mid, ind + 1)
        out.append(sp + 'else:')
        self.tree(out, blocks, mid, hi, ind + 1)

    def edge(self, frm, to, sp, inloop):
        """assignments for the phis of `to`, then the jump"""
        out = []
        ls, rs = [], []
        for I in self.phis[to]:
            for v, b in I['inc']:
                if b == frm:
                    r = self.op(v, I['t'])
                    l = self.loc(I['res'])
                    if l != r:
                        ls.append(l)
                        rs.append(r)
                    break
            else:
                raise Unsupported('phi edge')
        if ls:
            out.append(sp + ', '.join(ls) + ' = ' + ', '.join(rs))
        back = self.idx[to] <= self.idx[frm]
        if back:
            out.append(sp + 'tick()')
        if inloop and to == frm:
            out.append(sp + 'continue')
            return out
        out.append(sp + 'bb = %d' % self.idx[to])
        out.append(sp + ('break' if inloop else 'continue'))
        return out

    def block(self, b, ind, inloop):
        sp = ' ' * ind
        out = []
        for I in self.f.blocks[b]:
            op = I['op']
            if op == 'phi':
                continue
            if op == 'br':
                d = I['dst']
                if len(d) == 1 or d[0] == d[1]:
                    out += self.edge(b, d[0], sp, inloop)
                else:
                    c = self.op(I['c'], ('int', 1))
                    if not self.isc(I['c']):
                        out.append(sp + 'if %s.__class__ is not int: %s = branch(%s)' % (c, c, c))
                    out.append(sp + 'if %s:' % c)
                    out += self.edge(b, d[0], sp + ' ', inloop)
                    out += self.edge(b, d[1], sp, inloop)
                continue
            if op == 'switch':
                v = self.op(I['v'], I['t'])
                w = I['t'][1]
                if not self.isc(I['v']):
                    out.append(sp + 'if %s.__class__ is not int: sw = switch(%s, (%s))' % (
                        v, v, ''.join('%d,' % c for c, _ in I['cases'])))
                    out.append(sp + 'else: sw = %s' % v)
                else:
                    out.append(sp + 'sw = %s' % v)
                for c, d in I['cases']:
                    out.append(sp + 'if sw == %d:' % c)
                    out += self.edge(b, d, sp + ' ', inloop)
                out += self.edge(b, I['default'], sp, inloop)
                continue
            if op == 'ret':
                if self.allocas:
                    out.append(sp + 'dealloca(%s)' % ', '.join(self.allocas))
                if I['v'] is None:
                    out.append(sp + 'return')
                else:
                    out.append(sp + 'return ' + self.op(I['v'], I['t']))
                continue
            if op == 'unreachable':
                out.append(sp + 'unreachable()')
                continue
            if op == 'resume':
                out.append(sp + 'raise exc')
                continue
            if op in ('call', 'invoke'):
                lines = self.call(I, sp)
                if op == 'invoke':
                    out.append(sp + 'try:')
                    out += [' ' + x for x in (lines or [sp + 'pass'])]
                    out.append(sp + 'except CppThrow as e_:')
                    out.append(sp + ' exc = e_')
                    out += self.edge(b, I['dst'][1], sp + ' ', inloop)
                    out += self.edge(b, I['dst'][0], sp, inloop)
                else:
                    out += lines
                continue
            try:
                out.append(sp + self.simple(I))
            except Unsupported as e:
                out.append(sp + 'unsupported(%r)' % str(e))
        return out

    def call(self, I, sp):
        cal = I['callee']
        rt = self.mod.resolve(I['rt'])
        args = [self.op(v, t) for t, v in I['args'] if t[0] != 'meta']
        res = self.loc(I['res']) + ' = ' if I['res'] else ''
        if cal[0] == 'g':
            n = cal[1]
            while n in self.mod.aliases and self.mod.aliases[n][0] == 'g':
                n = self.mod.aliases[n][1]
            if n.startswith(IGNORED):
                return []
            if n.startswith('@llvm.'):
                return [sp + res + self.intrinsic(n, I, args)]
            return [sp + '%s%s(%s)' % (res, self.pyname(n), ', '.join(args))]
        return [sp + '%scallptr(%s)(%s)' % (res, self.op(cal, ('ptr',)), ', '.join(args))]

    def intrinsic(self, n, I, a):
        w = self.bits(I['rt']) if I['rt'][0] != 'void' else 0
        base = n[6:].split('.i')[0].split('.p0')[0].split('.f')[0]
        if base in ('memcpy', 'memmove', 'memset'):
            return 'mem_%s(%s)' % (base, ', '.join(a[:3]))
        if base == 'memcpy.inline':
            return 'mem_memcpy(%s)' % ', '.join(a[:3])
        if base in ('umax', 'umin', 'smax', 'smin', 'abs', 'ctpop', 'ctlz', 'cttz', 'bswap', 'fshl', 'fshr', 'usub.sat',
                    'uadd.sat', 'fabs', 'bitreverse'):
            return 'in_%s(%s, %d)' % (base.replace('.', '_'), ', '.join(a), w)
        if base in ('uadd.with.overflow', 'usub.with.overflow', 'umul.with.overflow', 'sadd.with.overflow',
                    'ssub.with.overflow', 'smul.with.overflow'):
            w = self.bits(I['args'][0][0])
            return 'in_ovf(%r, %s, %d)' % (base[:4], ', '.join(a), w)
        if base == 'eh.typeid':
            return '(%s) >> 32' % a[0]
        if base == 'expect' or base == 'expect.with.probability':
            return a[0]
        if base in ('trap', 'debugtrap'):
            return 'fault("trap", "llvm.trap")'
        if base == 'ubsantrap':
            return 'fault("ub", %s)' % a[0]
        if base == 'is.constant':
            return '0'
        if base == 'objectsize':
            return '18446744073709551615'
        if n.startswith('@llvm.is.fpclass'):
            return 'in_fpclass(%s, %d)' % (', '.join(a), self.bits(I['args'][0][0]))
        if base in ('floor', 'ceil', 'trunc', 'rint', 'sqrt', 'log', 'log2', 'log10', 'pow', 'ldexp', 'copysign',
                    'fma', 'fmuladd', 'minnum', 'maxnum'):
            return 'in_math(%r, (%s,), %d)' % (base, ', '.join(a), w)
        return 'unsupported(%r)' % n

    def simple(self, I):
        op = I['op']
        r = self.loc(I['res']) + ' = ' if I['res'] else ''
        if op in ('add', 'sub', 'mul', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr', 'udiv', 'sdiv', 'urem', 'srem'):
            t = self.mod.resolve(I['t'])
            if t[0] != 'int':
                raise Unsupported(I['txt'])
            w = t[1]
            M = (1 << w) - 1
            a = self.op(I['a'], t)
            b = self.op(I['b'], t)
            if op in ('and', 'or', 'xor'):
                return '%s%s %s %s' % (r, a, ASSIGN_OPS[op], b)
            if op in ('add', 'sub', 'mul'):
                return '%s(%s %s %s) & %d' % (r, a, ASSIGN_OPS[op], b, M)
            if op in ('shl', 'lshr') and self.isc(I['b']) and int(b) < w:
                if op == 'lshr':
                    return '%s%s >> %s' % (r, a, b)
                return '%s(%s << %s) & %d' % (r, a, b, M)
            if op in ('udiv', 'urem') and self.isc(I['b']) and int(b) != 0:
                return '%s%s %s %s' % (r, a, '//' if op == 'udiv' else '%', b)
            return '%sop_%s(%s, %s, %d)' % (r, op, a, b, w)
        if op in ('fadd', 'fsub', 'fmul', 'fdiv', 'frem'):
            return '%sop_float(%r, %s, %s, %d)' % (r, op, self.op(I['a'], I['t']), self.op(I['b'], I['t']), I['t'][1])
        if op == 'fneg':
            w = I['t'][1]
            return '%s%s ^ %d' % (r, self.op(I['a'], I['t']), 1 << (w - 1))
        if op == 'icmp':
            w = self.bits(I['t'])
            if w is None:
                raise Unsupported(I['txt'])
            a = self.op(I['a'], I['t'])
            b = self.op(I['b'], I['t'])
            p = I['pred']
            if p in ('eq', 'ne'):
                return '%s+(%s %s %s)' % (r, a, '==' if p == 'eq' else '!=', b)
            if p[0] == 'u':
                return '%s+(%s %s %s)' % (r, a, {'ult': '<', 'ule': '<=', 'ugt': '>', 'uge': '>='}[p], b)
            S = 1 << (w - 1)
            if p in ('sgt', 'sle'):
                a, b = b, a
                ca, cb = self.isc(I['b']), self.isc(I['a'])
            else:
                ca, cb = self.isc(I['a']), self.isc(I['b'])
            neg = p in ('sge', 'sle')
            conds = [x + '.__class__ is int' for x, c in ((a, ca), (b, cb)) if not c]
            ea = str(int(a) ^ S) if ca else '(%s ^ %d)' % (a, S)
            eb = str(int(b) ^ S) if cb else '(%s ^ %d)' % (b, S)
            fast = '+(%s %s %s)' % (ea, '>=' if neg else '<', eb)
            slow = 'slt(%s, %s, %d)' % (a, b, w)
            if neg:
                slow = 'not_(%s)' % slow
            if not conds:
                return r + fast
            return '%s%s if %s else %s' % (r, fast, ' and '.join(conds), slow)
        if op == 'fcmp':
            return '%sop_fcmp(%r, %s, %s, %d)' % (r, I['pred'], self.op(I['a'], I['t']), self.op(I['b'], I['t']), I['t'][1])
        if op in ('zext', 'sext', 'trunc', 'ptrtoint', 'inttoptr', 'bitcast', 'freeze'):
            a = self.op(I['a'], I['t'])
            if op == 'freeze':
                return r + a
            fw = self.bits(I['t'])
            tw = self.bits(I['tt'])
            if fw is None or tw is None:
                raise Unsupported(I['txt'])
            if op == 'bitcast' or fw == tw:
                return r + a
            if op in ('ptrtoint', 'inttoptr'):
                op = 'trunc' if tw < fw else 'zext'
            if op == 'trunc':
                return '%s%s & %d if %s.__class__ is int else trunc(%s, %d)' % (r, a, (1 << tw) - 1, a, a, tw) \
                    if not self.isc(I['a']) else '%s%d' % (r, int(a) & ((1 << tw) - 1))
            if op == 'zext':
                return '%s%s if %s.__class__ is int else zext(%s, %d)' % (r, a, a, a, tw) if not self.isc(I['a']) else r + a
            return '%ssext(%s, %d, %d)' % (r, a, tw, fw)
        if op in ('fptrunc', 'fpext', 'uitofp', 'sitofp', 'fptoui', 'fptosi'):
            return '%sop_fcast(%r, %s, %d, %d)' % (r, op, self.op(I['a'], I['t']), self.bits(I['t']), self.bits(I['tt']))
        if op == 'alloca':
            n = self.op(I['n'], ('int', 64))
            return '%salloca(%d * %s)' % (r, self.mod.sizeof(I['t']), n)
        if op == 'load':
            t = self.mod.resolve(I['t'])
            p = self.op(I['p'], ('ptr',))
            if t[0] in ('int', 'ptr', 'float'):
                w = self.bits(t)
                n = (w + 7) // 8
                if w % 8:
                    return '%strunc(ld%d(%s), %d)' % (r, n, p, w)
                if n in (1, 2, 4, 8):
                    return '%sld%d(%s)' % (r, n, p)
                return '%sldn(%s, %d)' % (r, p, n)
            raise Unsupported('load of aggregate ' + I['txt'])
        if op == 'store':
            t = self.mod.resolve(I['t'])
            p = self.op(I['p'], ('ptr',))
            v = self.op(I['v'], t)
            if t[0] in ('int', 'ptr', 'float'):
                w = self.bits(t)
                n = (w + 7) // 8
                if I['v'][0] == 'u':
                    return 'pass'
                if w % 8:
                    v = 'zext(%s, %d)' % (v, 8 * n)
                if n in (1, 2, 4, 8):
                    return 'st%d(%s, %s)' % (n, p, v)
                return 'stn(%s, %s, %d)' % (p, v, n)
            raise Unsupported('store of aggregate ' + I['txt'])
        if op == 'getelementptr':
            base = self.op(I['p'], ('ptr',))
            off = 0
            terms = []
            bt = I['bt']
            for i, (it, iv) in enumerate(I['idx']):
                if i == 0:
                    sz = self.mod.sizeof(bt)
                else:
                    rr = self.mod.resolve(bt)
                    if rr[0] == 'struct':
                        f, bt = self.mod.field_off(rr, iv[1] if iv[0] == 'c' else 0)
                        off += f
                        continue
                    bt = rr[2]
                    sz = self.mod.sizeof(bt)
                if self.isc(iv):
                    c = self.const(iv, it)
                    w = it[1]
                    if c >> (w - 1):
                        c -= 1 << w
                    off += c * sz
                else:
                    x = self.op(iv, it)
                    if it[1] < 64:
                        x = 'sext(%s, 64, %d)' % (x, it[1])
                    terms.append(x if sz == 1 else '%s * %d' % (x, sz))
            e = base
            if off:
                e += ' + %d' % off if off > 0 else ' - %d' % -off
            for x in terms:
                e += ' + ' + x
            if e == base:
                return r + e
            return '%s(%s) & 18446744073709551615' % (r, e)
        if op == 'select':
            t = self.mod.resolve(I['t'])
            c = self.op(I['c'], ('int', 1))
            a = self.op(I['a'], t)
            b = self.op(I['b'], t)
            if self.isc(I['c']):
                return r + (a if int(c) else b)
            w = self.bits(t)
            return '%s(%s if %s else %s) if %s.__class__ is int else select(%s, %s, %s, %r)' % (
                r, a, c, b, c, c, a, b, w if t[0] == 'int' or t[0] == 'float' else None)
        if op == 'extractvalue':
            a = self.op(I['a'], I['t'])
            return r + a + ''.join('[%d]' % i for i in I['idx'])
        if op == 'insertvalue':
            a = self.op(I['a'], I['t'])
            et = self.mod.resolve(I['t'])
            for i in I['idx']:
                et = self.mod.resolve(et[2][i] if et[0] == 'struct' else et[2])
            b = self.op(I['b'], et)
            return '%sinsertvalue(%s, %s, %r)' % (r, a, b, tuple(I['idx']))
        if op == 'landingpad':
            cl = []
            for k, v in I['catches']:
                if k != 'catch':
                    raise Unsupported('filter')
                cl.append(repr(self.const(v, ('ptr',))))
            return '%slandingpad(exc, %r, (%s))' % (r, I['cleanup'], ''.join(x + ',' for x in cl))
        if op == 'fence':
            return 'pass'
        raise Unsupported(I['txt'])
