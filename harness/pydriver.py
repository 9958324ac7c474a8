"""The real module under the real interpreter: same requests and answers as driver.cpp.  pydriver.py MODULE_DIR SECS"""
import os
import resource
import signal
import struct
import sys
sys.path.insert(0, sys.argv[1])
sys.set_int_max_str_digits(0)
import pybiginteger
BI = pybiginteger.BigInteger
NAMES = '''__init__ __lt__ __le__ __eq__ __hash__ __gt__ __ge__ __add__ __radd__
__sub__ __rsub__ __mul__ __rmul__ __mod__ __rmod__ __divmod__ __rdivmod__ __pow__
__rpow__ __truediv__ __rtruediv__ __floordiv__ __rfloordiv__ __lshift__ __rlshift__ __rshift__ __rrshift__
__and__ __rand__ __or__ __ror__ __xor__ __rxor__ __neg__ __pos__ __abs__
__invert__ __bytes__ to_array __int__ __float__ __index__ __str__ __deepcopy__ zero
one minus_one is_power_of_two is_even log log10 get_bit_Length sign __ne__'''.split()
BIG, INT, FLOAT, BOOL, BYTES, STR, NONE, TUPLE, INTFLOAT = range(9)


def run(line):
    t = line.split()
    ins, k, buf = {}, {}, b''
    i = 1
    while i < len(t):
        if t[i] == 'in':
            n = int(t[i + 3])
            sg = int(t[i + 2])
            v = sg if n == 0 else (1 if sg > 0 else -1) * sum(int(x) << 32 * j for j, x in enumerate(t[i + 4:i + 4 + n]))
            ins[int(t[i + 1])] = v
            i += 4 + n
        elif t[i] == 'k':
            k[int(t[i + 1])] = int(t[i + 2])
            i += 3
        elif t[i] == 'buf':
            n = int(t[i + 1])
            buf = bytes(int(x) for x in t[i + 2:i + 2 + n])
            i += 2 + n
        else:
            raise ValueError(t[i])
    args = []
    for j in range(k.get(1, 0)):
        kind = k.get(2 + j, 0)
        v = ins.get(j, 0)
        if kind == BIG:
            b = v.to_bytes(v.bit_length() // 8 + 1, 'little', signed=True)
            args.append(BI(b))
        elif kind == INT:
            args.append(v)
        elif kind == FLOAT:
            args.append(struct.unpack('<d', struct.pack('<Q', k.get(6, 0)))[0])
        elif kind == BOOL:
            args.append(bool(k.get(6 + (j & 1), 0)))
        else:
            args.append(buf)
    name = NAMES[k.get(0, 0)]
    try:
        if name == '__init__':
            r = BI(*args)
        elif name in ('zero', 'one', 'minus_one', 'log', 'log10'):
            r = getattr(BI, name)(*args)
        elif name == 'sign':
            r = args[0].sign
        else:
            # as registered: NotImplemented does not come back from pybind11 methods
            r = getattr(BI, name)(*args)
            if r is NotImplemented:
                raise TypeError(name)
    except Exception as e:
        return 'throw ' + type(e).__name__
    out, res, ob = [], [0] * 16, None

    def put(i, o):
        nonlocal ob
        if isinstance(o, BI):
            res[2 * i] = BIG
            b = bytes(o)
            big(i, int.from_bytes(b, 'little', signed=True))
        elif isinstance(o, bool):
            res[2 * i], res[2 * i + 1] = BOOL, int(o)
        elif isinstance(o, int):
            res[2 * i] = INT
            big(i, o)
        elif isinstance(o, float):
            res[2 * i], res[2 * i + 1] = FLOAT, struct.unpack('<Q', struct.pack('<d', o))[0]
        elif isinstance(o, (str, bytes)):
            res[2 * i] = STR if isinstance(o, str) else BYTES
            ob = o.encode() if isinstance(o, str) else o
        elif isinstance(o, tuple):
            res[2 * i] = TUPLE
            for j, x in enumerate(o):
                put(1 + j, x)
        else:
            res[2 * i] = NONE

    def big(i, v):
        m = abs(v)
        ls = []
        if m >= 1 << 31:
            while m:
                ls.append(m & 0xFFFFFFFF)
                m >>= 32
            v = 1 if v > 0 else -1
        out.append('out %d %d %d%s' % (i, v, len(ls), ''.join(' %d' % x for x in ls)))
    put(0, r)
    if name == '__hash__':
        v = ins.get(0, 0)
        again = BI(v.to_bytes(v.bit_length() // 8 + 1, 'little', signed=True))
        put(1, again.__hash__())
    for j, x in enumerate(args[:3]):
        if isinstance(x, BI):
            put(4 + j, x)
    return ' '.join(['ok'] + out + ['r %d %d' % x for x in enumerate(res)] + (['obuf %d' % len(ob)] + [str(x) for x in ob] if ob is not None else []))


def main():
    secs = int(sys.argv[2]) if len(sys.argv) > 2 else 10
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    for line in sys.stdin:
        sys.stdout.flush()
        p = os.fork()
        if p == 0:
            resource.setrlimit(resource.RLIMIT_AS, (4 << 30, 4 << 30))
            signal.alarm(secs + 5)
            os.dup2(os.open(os.devnull, os.O_WRONLY), 2)
            *earlier, last = line.split(" ; ")
            for l in earlier:
                run(l)
            print(run(last), flush=True)
            os._exit(0)
        _, st = os.waitpid(p, 0)
        if os.WIFSIGNALED(st):
            print('signal', os.WTERMSIG(st))
        elif os.WEXITSTATUS(st):
            print('exit', os.WEXITSTATUS(st))
        print('.', flush=True)


main()
