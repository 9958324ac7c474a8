"""C24 no hidden state: what was computed before has no influence."""
import copy
import random
from lib import *
from run import concrete_big, InBig, has_undef
import p_arith, p_bits, p_text, p_float, p_num, p_class, p_log


def kval(v):
    if v.__class__ is int:
        return v
    lo, hi = T.rng(v)
    return hi if hi < 4096 else lo if lo < 4096 else 5


def earlier(fn, f, buf):
    """inputs of the same form as the job's with other values: f gives them from the number of limbs and the sign"""
    def g(I):
        P = Inputs()
        P.concrete = True
        for i, b in I.big.items():
            if fn == 'h_modpow' and i == 1 and b.sign.__class__ is int and all(x.__class__ is int for x in b.limbs):
                P.big[i] = b
                continue
            neg = b.sign >> 31 if b.sign.__class__ is int else b.sign.lo >> 31
            P.big[i] = concrete_big(f(i, len(b.limbs), neg))
        for i, v in I.k.items():
            P.k[i] = kval(v)
        if I.buf is not None:
            P.buf = buf(len(I.buf))
        return P
    return (fn, g)


def other(fn):
    """operands of the same length and sign, another value"""
    return earlier(fn, lambda i, n, neg: (-1 if neg else 1) * ((1 << 32 * n) - 1 - i * (i + 1) if n else (1 << 31) - 1 - i), lambda n: [0x37] * n)


def longer(fn):
    """longer operands of the opposite sign"""
    return earlier(fn, lambda i, n, neg: (1 if neg else -1) * ((1 << 32 * (n + 2)) - 1 - i), lambda n: [0x39] * (n + 9))


def shorter(fn):
    """shorter operands"""
    return earlier(fn, lambda i, n, neg: (-1 if neg else 1) * ((1 << 32 * (n // 2)) - 1 - i if n > 3 else 7 + i), lambda n: [0x31] * (n // 2))


def zerodiv(I):
    P = Inputs()
    P.num(0, (1 << 160) - 3)
    P.num(1, 0)
    return P


def derived(fn, big, k=lambda v: v, buf=lambda b: b):
    """inputs made from the job's own, symbolic where these are"""
    def g(I):
        P = Inputs()
        n = len(I.big)
        for j, (i, b) in enumerate(sorted(I.big.items())):
            P.big[i] = big(j, n, i, b)
        for i, v in I.k.items():
            P.k[i] = k(v) if not n or j == n - 1 else v
        if I.buf is not None:
            P.buf = buf(list(I.buf))
        return P
    return (fn, g)


def flip(b):
    return InBig(T.sub(0, b.sign, 32), b.limbs)


def middle(b):
    n = len(b.limbs)
    if not n:
        return flip(b)
    i = 0 if n < 3 else n // 2
    return InBig(b.sign, [T.xor(x, 1, 32) if j == i else x for j, x in enumerate(b.limbs)])


def unlike(i, b):
    n = len(b.limbs)
    neg = b.sign >> 31 if b.sign.__class__ is int else b.sign.lo >> 31
    return concrete_big((-1 if neg else 1) * ((1 << 32 * n) - 1 - i * (i + 1) if n else (1 << 31) - 1 - i))


def near(fn):
    """operands with the same length, sign, first and last limbs (or characters)"""
    return derived(fn, lambda j, n, i, b: middle(b), buf=lambda b: [0x37 if 0 < j == len(b) // 2 < len(b) - 1 else x for j, x in enumerate(b)])


def mirrored(fn):
    """the same magnitudes, with the opposite sign"""
    return derived(fn, lambda j, n, i, b: flip(b))


def first(fn):
    """another first operand, the rest the same"""
    return derived(fn, lambda j, n, i, b: unlike(i, b) if j == 0 else b, buf=lambda b: [0x37] + b[1:] if b else b)


def last(fn):
    """another last operand (or argument), the rest the same"""
    return derived(fn, lambda j, n, i, b: unlike(i, b) if 0 < j == n - 1 else b, k=kval, buf=lambda b: b[:-1])


def nearone(which):
    return lambda fn: derived(fn, lambda j, n, i, b: middle(b) if j == (0 if which == 0 else n - 1) else b,
                              buf=lambda b: [0x37 if j == len(b) - 1 else x for j, x in enumerate(b)])


def same_as_fresh(I, O):
    F = O.fresh
    if O.status != F.status or not O.ok():
        return [('ends as in a fresh process (%s %s, now %s %s)' % (F.status, F.exc, O.status, O.exc), int(O.status == F.status and O.exc == F.exc))]
    if O.out.keys() != F.out.keys() or any(O.out[i].n != F.out[i].n for i in F.out) or (O.obuf is None) != (F.obuf is None) or \
            O.obuf is not None and len(O.obuf) != len(F.obuf):
        return [('results of the same length as in a fresh process', 0)]
    pairs = []
    for i, b in F.out.items():
        pairs += [(O.out[i].sign, b.sign, 32)] + [(x, y, 32) for x, y in zip(O.out[i].limbs, b.limbs)]
    for i, x in F.r.items():
        if not has_undef(x) and not has_undef(O.r[i]):
            pairs.append((O.r[i], x, 64))
    pairs += [(x, y, 8) for x, y in zip(O.obuf or [], F.obuf or [])]
    return [('the same results as in a fresh process', land(*[T.eq(x, y, w) for x, y, w in pairs]))]


DERIVED = [
    ('after operands with the same ends', lambda fn: (near(fn),)),
    ('after the opposite signs', lambda fn: (mirrored(fn),)),
    ('after a similar first operand', lambda fn: (nearone(0)(fn),)),
    ('after a similar last operand', lambda fn: (nearone(1)(fn),)),
    ('after another first operand', lambda fn: (first(fn),)),
    ('after another last operand', lambda fn: (last(fn),)),
]

def chores(I):
    P = Inputs()
    P.num(0, (1 << 320) // 7)
    P.num(1, -(1 << 200) // 3)
    return P


HISTORIES = [
    ('after the same with other operands', lambda fn: (other(fn),)),
    ('after the same with longer operands and a division by zero', lambda fn: (longer(fn), ('h_divrem', zerodiv))),
    ('after the same with shorter operands', lambda fn: (shorter(fn),)),
    ('after longer, then equally long operands', lambda fn: (longer(fn), other(fn))),
    ('after other operations', lambda fn: (('h_mul', chores), ('h_divrem', chores), ('h_str', chores), ('h_gcd', chores))),
]


def c24(tier, rnd):
    q = tier == 'quick'
    by = {}
    for m in (p_arith, p_bits, p_text, p_float, p_num, p_class, p_log):
        for p in m.PROPS:
            for j in p.jobs('quick', random.Random(rnd.random())):
                by.setdefault((j.fn, p.id), []).append(j)
    jobs = []
    cap = 20 if q else 120
    names = set()
    for key in sorted(by):
        js = by[key]
        if len(js) > cap:
            light = [j for j in js if j.weight <= 3]
            pick = rnd.sample(light, min(len(light), cap * 2 // 3))
            rest = [j for j in js if j not in pick]
            js = pick + rnd.sample(rest, min(len(rest), cap - len(pick)))
        for j in js:
            if j.name in names:
                continue
            names.add(j.name)
            every = HISTORIES + DERIVED
            hs = [every[len(jobs) % len(every)]] if q else every
            for what, h in hs:
                c = copy.copy(j)
                c.prelude = h(j.fn)
                c.oracle = same_as_fresh
                c.name = j.name + ' ' + what
                jobs.append(c)
    # one operand, every history
    for fn in ('h_hash', 'h_negate', 'h_str', 'h_pred', 'h_u32'):
        for n in (2, 3, 5, 9):
            for kd in 'ZR':
                s = 1 if n == 2 and kd == 'Z' else rnd.choice((1, -1)) if kd == 'R' else -1
                for what, h in HISTORIES + DERIVED:
                    if fn == 'h_str' and n > 3 and h not in [x[1] for x in HISTORIES]:
                        continue
                    jobs.append(J(fn, (L(n, kd, s, (0,) if n < 4 or fn != 'h_str' else (), rnd),), same_as_fresh, prelude=h(fn), tag=what))
    # conversions and long products, where buffers are worth keeping
    for n, m in ((32, 32), (40, 33), (66, 64), (130, 128)):
        for kd in 'FR':
            for what, h in HISTORIES:
                jobs.append(J('h_mul', (L(n, kd, 1, (0,), rnd), L(m, 'R', -1, (m - 1,), rnd)), same_as_fresh, prelude=h('h_mul'), weight=n, tag=what))
    # bases longer than the modulus
    for n in (3, 4):
        for m in (2**64 - 59, 2**96 - 17):
            for what, h in HISTORIES + DERIVED:
                jobs.append(J('h_modpow', (L(n + 1, 'R', 1, (1,), rnd), ('c', 1), ('c', m)), same_as_fresh, prelude=h('h_modpow'), weight=5, tag='mod %d bits ' % m.bit_length() + what))
    for n in (32, 33):
        m = sum(x << 32 * i for i, x in enumerate(limbs(n, 'R', (), rnd)))
        for what, h in HISTORIES:
            jobs.append(J('h_modpow', (p_num.sublow(m, n), ('c', 2), ('c', m)), same_as_fresh, prelude=h('h_modpow'), weight=30, feas_timeout=500, vc_timeout=4000, tag=what))
    return jobs


PROPS = [
    Prop('C24', 'history', c24, {
        'quick': 'about twenty operand shapes per entry point and property of C01-C21 and C23, each after one of eleven histories (the same call with other, longer, shorter or partly '
                 'equal operands, opposite signs, a call that throws, other operations); one-operand calls up to 9 limbs, products up to 130 limbs, modular powers of bases longer than '
                 'the modulus and of 32 and 33 limbs',
        'thorough': 'six times as many shapes, each after every history'}, budget_quick=2, vc_quick=2000, wall_quick=120),
]
