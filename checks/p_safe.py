"""C19 memory safety, absence of undefined behaviour, termination."""
import random
from lib import *
from run import InBig
import p_arith, p_bits, p_text, p_float, p_num, p_class
from p_class import JB, JW


def nothing(I, O):
    """faults found on the way (memory, undefined behaviour, assertion, leak, no end) are the violations; no further claim"""
    return []


def adopt(j, **kw):
    j.oracle = nothing
    j.safety = True
    j.fault_ok = None
    for k, v in kw.items():
        setattr(j, k, v)
    return j


def c19(tier, rnd):
    q = tier == 'quick'
    by = {}
    for m in (p_arith, p_bits, p_text, p_float, p_num, p_class):
        for p in m.PROPS:
            for j in p.jobs('quick', random.Random(rnd.random())):
                by.setdefault((j.fn, p.id), []).append(j)
    jobs = []
    cap = 30 if q else 400
    names = set()
    for key in sorted(by):
        js = by[key]
        n = cap
        if key[0] in ('h_divrem', 'h_divall', 'h_gcd', 'h_modpow', 'h_str', 'h_parse', 'h_shr', 'h_shl', 'h_canon', 'h_mul', 'h_alias'):
            n = 2 * cap
        if len(js) > n:
            light = sorted(range(len(js)), key=lambda i: js[i].weight)[:len(js) * 3 // 4]
            pick = rnd.sample(light, min(len(light), n * 2 // 3))
            pick += rnd.sample([i for i in range(len(js)) if i not in set(pick)], min(len(js) - len(pick), n - len(pick)))
            js = [js[i] for i in pick]
        for j in js:
            if j.name not in names:
                names.add(j.name)
                jobs.append(adopt(j))
    # machine arguments at their limits
    for t in range(4):
        jobs.append(adopt(J('h_ctor', (), nothing, k=(t, lambda I: T.var('v', 64)), tag='any value')))
    for t in range(6):
        for a in ('0', 'p', 'n', 1, -1, 2, -2, 3, -3, ('c', -2**63), ('c', -2**31), ('c', 2**63)):
            jobs.append(adopt(J('h_cast', (a,), nothing, k=(t,), mode='bv')))
    # exact buffer sizes: decimal digits and word counts where the estimates are tight
    for e in list(range(1, 12)) + [18, 19, 20, 27, 28, 29, 36, 37, 38, 48, 57, 58, 96, 97, 154, 155, 300, 308]:
        for s in (1, -1):
            v = 10 ** e
            for d in (-1, 0):
                ls = []
                x = v + d
                while x:
                    ls.append(x & M32)
                    x >>= 32
                if len(ls) > 1:
                    if e < 40:
                        ls[0] = None
                    jobs.append(adopt(J('h_str', (('l', s, ls, 'near 10^%d' % e),), nothing, weight=2)))
    for n in range(1, 14) if q else range(1, 34):
        for s in (1, -1):
            jobs.append(adopt(J('h_str', (const([M32] * n, s) if n > 1 or s > 0 else ('c', -M32),), nothing)))
            jobs.append(adopt(J('h_str_rt', (const([M32] * n, s),), nothing)))
    return jobs


PROPS = [
    Prop('C19', 'safety', c19, {
        'quick': 'about 3000 of the operand shapes of the other properties (every entry point of the harness), run on IR with undefined-behaviour traps '
                 '(signed overflow, shifts, float casts, unreachable) and exact object bounds; leaks and branches on uninitialised memory; machine arguments of every value; '
                 'decimal conversion of values next to powers of ten',
        'thorough': 'about 15000 shapes'}, ub=True, budget_quick=2, vc_quick=1500, wall_quick=120,
        assumptions=['every allocation of at most 128 MB succeeds, larger ones throw std::bad_alloc', 'a path is taken not to end after two million loop iterations']),
]
