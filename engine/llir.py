"""Parser for the textual LLVM 18 IR that clang emits for the code under test.

Only what the checked code needs is supported; anything else raises Unsupported, so that an
unknown construct is reported and never silently skipped.
"""
import re


class Unsupported(Exception):
    pass


TOK = re.compile(r'''
   (?P<ws>\s+|;[^\n]*)
 | (?P<str>c?"(?:[^"])*")
 | (?P<lab>(?:[-a-zA-Z$._0-9]+|"[^"]*"):(?=\s|$))
 | (?P<loc>%(?:"[^"]*"|[-a-zA-Z$._0-9]+))
 | (?P<glob>@(?:"[^"]*"|[-a-zA-Z$._0-9]+))
 | (?P<meta>!(?:[-a-zA-Z$._0-9]+)?)
 | (?P<attr>\#\d+)
 | (?P<hex>0x[HKLMR]?[0-9A-Fa-f]+)
 | (?P<num>-?\d+(?:\.\d+(?:[eE][+-]?\d+)?)?)
 | (?P<comdat>\$(?:"[^"]*"|[-a-zA-Z$._0-9]+))
 | (?P<word>[a-zA-Z_][a-zA-Z_0-9.]*)
 | (?P<dots>\.\.\.)
 | (?P<punct>[\[\](){}<>,=*|:^])
''', re.X)


def tokenize(s):
    out = []
    i = 0
    n = len(s)
    while i < n:
        m = TOK.match(s, i)
        if not m:
            raise Unsupported('token at: ' + s[i:i + 60])
        k = m.lastgroup
        if k != 'ws':
            out.append((k, m.group()))
        i = m.end()
    return out


# ---------------------------------------------------------------- types
# ('int',w) ('ptr',) ('float',w) ('void',) ('arr',n,t) ('struct',packed,[t]) ('named',name) ('label',) ('meta',) ('vec',n,t)

class P:
    """Token cursor."""

    def __init__(self, toks, mod):
        self.t = toks
        self.i = 0
        self.mod = mod

    def peek(self, k=0):
        j = self.i + k
        return self.t[j] if j < len(self.t) else ('eof', '')

    def next(self):
        x = self.t[self.i] if self.i < len(self.t) else ('eof', '')
        self.i += 1
        return x

    def accept(self, v):
        if self.peek()[1] == v:
            self.i += 1
            return True
        return False

    def expect(self, v):
        x = self.next()
        if x[1] != v:
            raise Unsupported('expected %r got %r near %r' % (v, x, self.t[max(0, self.i - 8):self.i + 5]))

    def is_type(self):
        k, v = self.peek()
        if k == 'word':
            return bool(re.fullmatch(r'i\d+|ptr|void|float|double|half|x86_fp80|label|metadata|opaque', v))
        if k == 'loc':
            return v in self.mod.types
        return v in '[{<' and k == 'punct'

    def type(self):
        k, v = self.next()
        if k == 'word':
            m = re.fullmatch(r'i(\d+)', v)
            if m:
                t = ('int', int(m.group(1)))
            elif v == 'ptr':
                t = ('ptr',)
            elif v == 'void':
                t = ('void',)
            elif v == 'float':
                t = ('float', 32)
            elif v == 'double':
                t = ('float', 64)
            elif v == 'x86_fp80':
                t = ('float', 80)
            elif v == 'label':
                t = ('label',)
            elif v == 'metadata':
                t = ('meta',)
            elif v == 'opaque':
                t = ('struct', False, [])
            else:
                raise Unsupported('type ' + v)
        elif k == 'loc':
            t = ('named', v)
        elif v == '[':
            n = int(self.next()[1])
            self.expect('x')
            e = self.type()
            self.expect(']')
            t = ('arr', n, e)
        elif v == '{':
            t = ('struct', False, self._elems('}'))
        elif v == '<':
            if self.accept('{'):
                el = self._elems('}')
                self.expect('>')
                t = ('struct', True, el)
            else:
                n = int(self.next()[1])
                self.expect('x')
                e = self.type()
                self.expect('>')
                t = ('vec', n, e)
        else:
            raise Unsupported('type token %r' % ((k, v),))
        # function type: T (args)
        return t

    def _elems(self, end):
        el = []
        if self.accept(end):
            return el
        while True:
            el.append(self.type())
            if self.accept(end):
                return el
            self.expect(',')

    def skip_attrs(self):
        while True:
            k, v = self.peek()
            if k == 'word' and v not in CONSTWORDS and not self.is_type():
                self.next()
                if v == 'align' and self.peek()[0] == 'num':
                    self.next()
                elif self.peek()[1] == '(':
                    self.skip_paren()
            elif k == 'attr' or k == 'str':
                self.next()
            else:
                return

    def skip_paren(self):
        self.expect('(')
        d = 1
        while d:
            v = self.next()
            if v[0] == 'eof':
                raise Unsupported('paren')
            if v[1] == '(':
                d += 1
            elif v[1] == ')':
                d -= 1

    # operands: ('c', int) ('l', name) ('g', name) ('f', bits) ('ce', ...) ('agg', type, [ops]) ('z',) ('u',)
    def value(self, t):
        k, v = self.next()
        if k == 'loc':
            return ('l', v)
        if k == 'glob':
            return ('g', v)
        if k == 'num':
            if t[0] == 'float':
                return ('c', float_bits(float(v), t[1]))
            return ('c', int(v) & ((1 << t[1]) - 1))
        if k == 'hex':
            b = int(v, 16)
            if t[0] == 'float' and t[1] == 32:
                import struct
                d = struct.unpack('<d', struct.pack('<Q', b))[0]
                return ('c', float_bits(d, 32))
            return ('c', b)
        if k == 'str':
            return ('str', unescape(v[2:-1]))
        if k == 'word':
            if v == 'true':
                return ('c', 1)
            if v in ('false', 'null'):
                return ('c', 0)
            if v in ('undef', 'poison'):
                return ('u',)
            if v == 'zeroinitializer':
                return ('z',)
            if v == 'none':
                return ('c', 0)
            if v == 'getelementptr':
                self.accept('inbounds')
                self.accept('nuw')
                self.expect('(')
                bt = self.type()
                self.expect(',')
                pt = self.type()
                base = self.value(pt)
                idx = []
                while self.accept(','):
                    self.accept('inrange')
                    it = self.type()
                    idx.append((it, self.value(it)))
                self.expect(')')
                return ('gep', bt, base, idx)
            if v in ('ptrtoint', 'inttoptr', 'bitcast', 'trunc', 'zext', 'addrspacecast'):
                self.expect('(')
                ft = self.type()
                x = self.value(ft)
                self.expect('to')
                tt = self.type()
                self.expect(')')
                return ('cast', v, ft, x, tt)
            if v in ('sub', 'add', 'and', 'or', 'xor', 'mul', 'shl', 'lshr'):
                while self.peek()[1] in ('nuw', 'nsw', 'exact'):
                    self.next()
                self.expect('(')
                ft = self.type()
                x = self.value(ft)
                self.expect(',')
                t2 = self.type()
                y = self.value(t2)
                self.expect(')')
                return ('cbin', v, ft, x, y)
            if v == 'icmp':
                pred = self.next()[1]
                self.expect('(')
                ft = self.type()
                x = self.value(ft)
                self.expect(',')
                t2 = self.type()
                y = self.value(t2)
                self.expect(')')
                return ('cicmp', pred, ft, x, y)
            if v == 'dso_local_equivalent' or v == 'no_cfi':
                return self.value(t)
        if v == '{' or v == '[' or v == '<':
            close = {'{': '}', '[': ']', '<': '>'}[v]
            packed = v == '<' and self.accept('{')
            els = []
            if not self.accept('}' if packed else close):
                while True:
                    et = self.type()
                    els.append((et, self.value(et)))
                    if self.accept(','):
                        continue
                    self.expect('}' if packed else close)
                    break
            if packed:
                self.expect('>')
            return ('agg', els)
        raise Unsupported('operand %r %r' % (k, v))


CONSTWORDS = {'true', 'false', 'null', 'undef', 'poison', 'zeroinitializer', 'getelementptr', 'ptrtoint', 'inttoptr',
              'bitcast', 'trunc', 'zext', 'none', 'sub', 'add', 'and', 'or', 'xor', 'mul', 'shl', 'lshr', 'asm', 'icmp'}


def float_bits(d, w):
    import struct
    if w == 64:
        return struct.unpack('<Q', struct.pack('<d', d))[0]
    if w == 32:
        return struct.unpack('<I', struct.pack('<f', d))[0]
    raise Unsupported('float width %d' % w)


def unescape(s):
    out = bytearray()
    i = 0
    while i < len(s):
        if s[i] == '\\':
            out.append(int(s[i + 1:i + 3], 16))
            i += 3
        else:
            out += s[i].encode('utf-8')
            i += 1
    return bytes(out)


class Func:
    __slots__ = ('name', 'ret', 'params', 'blocks', 'vararg', 'order', 'linkage')


class Module:
    def __init__(self):
        self.types = {}
        self.globals = {}   # name -> dict(type, init, const, external)
        self.funcs = {}
        self.decls = {}
        self.aliases = {}
        self.ctors = []

    # ---- layout
    def resolve(self, t):
        while t[0] == 'named':
            t = self.types[t[1]]
        return t

    def size_align(self, t):
        t = self.resolve(t)
        k = t[0]
        if k == 'int':
            w = t[1]
            b = (w + 7) // 8
            a = 1
            while a < b:
                a *= 2
            a = min(a, 16)
            return ((b + a - 1) // a * a, a)
        if k == 'ptr':
            return (8, 8)
        if k == 'float':
            return {32: (4, 4), 64: (8, 8), 80: (16, 16)}[t[1]]
        if k in ('arr', 'vec'):
            s, a = self.size_align(t[2])
            return (s * t[1], a)
        if k == 'struct':
            o = 0
            al = 1
            for e in t[2]:
                s, a = self.size_align(e)
                if t[1]:
                    a = 1
                o = (o + a - 1) // a * a + s
                al = max(al, a)
            return ((o + al - 1) // al * al, al)
        raise Unsupported('size of %r' % (t,))

    def sizeof(self, t):
        return self.size_align(t)[0]

    def field_off(self, t, idx):
        t = self.resolve(t)
        o = 0
        for i, e in enumerate(t[2]):
            s, a = self.size_align(e)
            if t[1]:
                a = 1
            o = (o + a - 1) // a * a
            if i == idx:
                return o, e
            o += s
        raise Unsupported('field')


LINK = {'private', 'internal', 'linkonce', 'linkonce_odr', 'weak', 'weak_odr', 'external', 'extern_weak', 'common',
        'appending', 'available_externally', 'dso_local', 'dso_preemptable', 'hidden', 'protected', 'default',
        'unnamed_addr', 'local_unnamed_addr', 'thread_local', 'externally_initialized', 'fastcc', 'ccc', 'coldcc'}


def parse_module(text):
    mod = Module()
    lines = text.split('\n')
    # pass 1: types
    for ln in lines:
        if ln.startswith('%'):
            m = re.match(r'(%(?:"[^"]*"|[-a-zA-Z$._0-9]+)) = type ', ln)
            if m:
                mod.types[m.group(1)] = None
    for ln in lines:
        if ln.startswith('%'):
            m = re.match(r'(%(?:"[^"]*"|[-a-zA-Z$._0-9]+)) = type (.*)$', ln)
            if m:
                mod.types[m.group(1)] = P(tokenize(m.group(2)), mod).type()
    i = 0
    n = len(lines)
    while i < n:
        ln = lines[i]
        if ln.startswith('@'):
            _global(mod, ln)
        elif ln.startswith('declare'):
            p = P(tokenize(ln), mod)
            f = _header(p, mod)
            mod.decls[f.name] = f
        elif ln.startswith('define'):
            j = i + 1
            while lines[j] != '}':
                j += 1
            try:
                _func(mod, ln, lines[i + 1:j])
            except Unsupported as e:
                # callable, but a call ends the path as unsupported
                p = P(tokenize(ln.rstrip(' {').replace('define', 'declare', 1)), mod)
                try:
                    f = _header(p, mod)
                    mod.decls[f.name] = f
                except Unsupported:
                    pass
            i = j
        i += 1
    return mod


def _global(mod, ln):
    p = P(tokenize(ln), mod)
    name = p.next()[1]
    p.expect('=')
    ext = False
    while True:
        k, v = p.peek()
        if k == 'word' and v in LINK:
            p.next()
            if v in ('external', 'extern_weak'):
                ext = True
            if v == 'thread_local' and p.peek()[1] == '(':
                p.skip_paren()
        else:
            break
    kind = p.next()[1]
    if kind in ('alias', 'ifunc'):
        p.type()
        if p.peek()[1] == '(':
            p.skip_paren()
        p.expect(',')
        t = p.type()
        v = p.value(t)
        mod.aliases[name] = v
        return
    if kind not in ('global', 'constant'):
        raise Unsupported('global ' + ln[:80])
    t = p.type()
    init = None
    if not ext and p.peek()[1] not in (',', '') and p.peek()[0] != 'eof':
        init = p.value(t)
    if name == '@llvm.global_ctors':
        if init and init[0] == 'agg':
            for _, e in init[1]:
                mod.ctors.append((e[1][0][1][1], e[1][1][1]))
        return
    mod.globals[name] = dict(type=t, init=init, const=kind == 'constant', external=init is None)


def _header(p, mod):
    f = Func()
    p.next()  # define/declare
    f.linkage = set()
    while True:
        k, v = p.peek()
        if k == 'word' and v in LINK:
            f.linkage.add(v)
            p.next()
        elif k == 'word' and not p.is_type():
            p.next()
            if v == 'align' and p.peek()[0] == 'num':
                p.next()
            elif p.peek()[1] == '(':
                p.skip_paren()
        else:
            break
    f.ret = p.type()
    f.name = p.next()[1]
    p.expect('(')
    f.params = []
    f.vararg = False
    if not p.accept(')'):
        while True:
            if p.peek()[0] == 'dots':
                p.next()
                f.vararg = True
            else:
                t = p.type()
                p.skip_attrs()
                nm = None
                if p.peek()[0] == 'loc':
                    nm = p.next()[1]
                f.params.append((t, nm))
            if p.accept(')'):
                break
            p.expect(',')
    return f


def _func(mod, head, body):
    p = P(tokenize(head), mod)
    f = _header(p, mod)
    # implicit numbering of unnamed params
    cnt = 0
    ps = []
    for t, nm in f.params:
        if nm is None:
            nm = '%%%d' % cnt
        ps.append((t, nm))
        cnt += 1
    f.params = ps
    # join continuation lines
    stm = []
    buf = None
    for ln in body:
        s = ln.split(' ; preds')[0] if ';' in ln else ln
        st = s.strip()
        if not st:
            continue
        if re.match(r'^\S', s) and re.match(r'^(?:[-a-zA-Z$._0-9]+|"[^"]*"):', s):
            stm.append(s.strip())
            continue
        if buf is not None:
            buf += ' ' + st
            if buf_done(buf):
                stm.append(buf)
                buf = None
            continue
        if re.match(r'^    +\s', s) and stm and (st.startswith(('cleanup', 'catch', 'filter', 'to label'))):
            stm[-1] += ' ' + st
            continue
        if st.startswith('switch') and not buf_done(st):
            buf = st
            continue
        stm.append(st)
    blocks = {}
    order = []
    cur = None
    for s in stm:
        m = re.match(r'^([-a-zA-Z$._0-9]+|"[^"]*"):', s)
        if m:
            cur = '%' + m.group(1)
            blocks[cur] = []
            order.append(cur)
            continue
        if cur is None:
            cur = '%%%d' % len(f.params) if all(re.fullmatch(r'%\d+', x[1]) for x in f.params) else '%entry0'
            blocks[cur] = []
            order.append(cur)
        blocks[cur].append(_instr(mod, s))
    f.blocks = blocks
    f.order = order
    mod.funcs[f.name] = f


def buf_done(s):
    return s.count('[') == s.count(']') and '[' in s


FLAGS = {'nsw', 'nuw', 'exact', 'nnan', 'ninf', 'nsz', 'arcp', 'contract', 'afn', 'reassoc', 'fast', 'disjoint', 'nneg',
         'samesign'}
BIN = {'add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor', 'fadd', 'fsub',
       'fmul', 'fdiv', 'frem'}
CAST = {'zext', 'sext', 'trunc', 'ptrtoint', 'inttoptr', 'bitcast', 'fptrunc', 'fpext', 'uitofp', 'sitofp', 'fptoui',
        'fptosi'}


def _instr(mod, s):
    """-> dict(op=..., res=..., ...)"""
    # strip trailing metadata
    m = re.search(r', ![a-zA-Z._]+ !', s)
    if m:
        s = s[:m.start()]
    p = P(tokenize(s), mod)
    res = None
    if p.peek()[0] == 'loc' and p.peek(1)[1] == '=':
        res = p.next()[1]
        p.next()
    op = p.next()[1]
    I = {'op': op, 'res': res, 'txt': s}
    if op in ('tail', 'musttail', 'notail'):
        op = p.next()[1]
        I['op'] = op
    flags = set()
    if op in BIN:
        while p.peek()[1] in FLAGS:
            flags.add(p.next()[1])
        t = p.type()
        a = p.value(t)
        p.expect(',')
        b = p.value(t)
        I.update(t=t, a=a, b=b, flags=flags)
    elif op == 'fneg':
        while p.peek()[1] in FLAGS:
            p.next()
        t = p.type()
        I.update(t=t, a=p.value(t))
    elif op in CAST:
        while p.peek()[1] in FLAGS:
            flags.add(p.next()[1])
        t = p.type()
        a = p.value(t)
        p.expect('to')
        I.update(t=t, a=a, tt=p.type())
    elif op in ('icmp', 'fcmp'):
        while p.peek()[1] in FLAGS:
            p.next()
        pred = p.next()[1]
        t = p.type()
        a = p.value(t)
        p.expect(',')
        I.update(pred=pred, t=t, a=a, b=p.value(t))
    elif op == 'alloca':
        p.accept('inalloca')
        t = p.type()
        cnt = ('c', 1)
        if p.accept(','):
            if p.peek()[1] != 'align':
                ct = p.type()
                cnt = p.value(ct)
        I.update(t=t, n=cnt)
    elif op == 'load':
        p.accept('atomic')
        p.accept('volatile')
        t = p.type()
        p.expect(',')
        pt = p.type()
        I.update(t=t, p=p.value(pt))
    elif op == 'store':
        p.accept('atomic')
        p.accept('volatile')
        t = p.type()
        v = p.value(t)
        p.expect(',')
        pt = p.type()
        I.update(t=t, v=v, p=p.value(pt))
    elif op == 'getelementptr':
        while p.peek()[1] in ('inbounds', 'nuw', 'nusw'):
            p.next()
        bt = p.type()
        p.expect(',')
        pt = p.type()
        base = p.value(pt)
        idx = []
        while p.accept(','):
            it = p.type()
            idx.append((it, p.value(it)))
        I.update(bt=bt, p=base, idx=idx)
    elif op == 'br':
        if p.peek()[1] == 'label':
            p.next()
            I.update(dst=[p.next()[1]])
        else:
            t = p.type()
            c = p.value(t)
            p.expect(',')
            p.expect('label')
            a = p.next()[1]
            p.expect(',')
            p.expect('label')
            b = p.next()[1]
            I.update(c=c, dst=[a, b])
    elif op == 'switch':
        t = p.type()
        v = p.value(t)
        p.expect(',')
        p.expect('label')
        d = p.next()[1]
        p.expect('[')
        cases = []
        while not p.accept(']'):
            ct = p.type()
            cv = p.value(ct)
            p.expect(',')
            p.expect('label')
            cases.append((cv[1], p.next()[1]))
        I.update(t=t, v=v, default=d, cases=cases)
    elif op == 'ret':
        if p.peek()[1] == 'void':
            I.update(t=('void',), v=None)
        else:
            t = p.type()
            I.update(t=t, v=p.value(t))
    elif op in ('call', 'invoke'):
        while True:
            k, v = p.peek()
            if k == 'word' and (v in FLAGS or v in LINK):
                p.next()
            elif k == 'word' and not p.is_type():
                p.next()
                if v == 'align' and p.peek()[0] == 'num':
                    p.next()
                elif p.peek()[1] == '(':
                    p.skip_paren()
            else:
                break
        rt = p.type()
        if p.peek()[1] == '(':  # function type given
            p.skip_paren()
        callee = p.value(('ptr',))
        p.expect('(')
        args = []
        if not p.accept(')'):
            while True:
                at = p.type()
                if at[0] == 'meta':
                    p.next()
                    d = 0
                    while not (d == 0 and p.peek()[1] in (',', ')')):
                        x = p.next()[1]
                        d += (x == '(') - (x == ')')
                    args.append((at, ('u',)))
                else:
                    p.skip_attrs()
                    args.append((at, p.value(at)))
                if p.accept(')'):
                    break
                p.expect(',')
        I.update(rt=rt, callee=callee, args=args)
        if op == 'invoke':
            while p.peek()[1] != 'to':
                p.next()
            p.next()
            p.expect('label')
            a = p.next()[1]
            p.expect('unwind')
            p.expect('label')
            I.update(dst=[a, p.next()[1]])
    elif op == 'landingpad':
        t = p.type()
        cleanup = p.accept('cleanup')
        catches = []
        while p.peek()[1] in ('catch', 'filter', 'cleanup'):
            k = p.next()[1]
            if k == 'cleanup':
                cleanup = True
                continue
            ct = p.type()
            catches.append((k, p.value(ct)))
        I.update(cleanup=cleanup, catches=catches)
    elif op == 'resume':
        t = p.type()
        I.update(v=p.value(t))
    elif op == 'unreachable':
        pass
    elif op == 'phi':
        while p.peek()[1] in FLAGS:
            p.next()
        t = p.type()
        inc = []
        while True:
            p.expect('[')
            v = p.value(t)
            p.expect(',')
            b = p.next()[1]
            p.expect(']')
            inc.append((v, b))
            if not p.accept(','):
                break
        I.update(t=t, inc=inc)
    elif op == 'select':
        while p.peek()[1] in FLAGS:
            p.next()
        ct = p.type()
        c = p.value(ct)
        p.expect(',')
        t = p.type()
        a = p.value(t)
        p.expect(',')
        t2 = p.type()
        I.update(c=c, t=t, a=a, b=p.value(t2))
    elif op == 'extractvalue':
        t = p.type()
        a = p.value(t)
        idx = []
        while p.accept(','):
            idx.append(int(p.next()[1]))
        I.update(t=t, a=a, idx=idx)
    elif op == 'insertvalue':
        t = p.type()
        a = p.value(t)
        p.expect(',')
        t2 = p.type()
        b = p.value(t2)
        idx = []
        while p.accept(','):
            idx.append(int(p.next()[1]))
        I.update(t=t, a=a, b=b, idx=idx)
    elif op == 'freeze':
        t = p.type()
        I.update(t=t, a=p.value(t))
    elif op == 'fence':
        pass
    else:
        raise Unsupported('instruction ' + s)
    return I
