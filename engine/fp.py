"""Floating-point operations on symbolic values: bit-vector translation through z3's IEEE theory, and evaluation."""
import z3
import terms as T
import solve
import machine as mc

SORT = {32: z3.Float32(), 64: z3.Float64()}


def _fp(s, y, w):
    return z3.fpBVToFP(s.arg(y, w), SORT[w])


def _bits(f):
    return z3.fpToIEEEBV(f)


def _bin(name):
    def f(s, x):
        a, b = _fp(s, x.a, x.w), _fp(s, x.b, x.w)
        rm = z3.RNE()
        r = {'fadd': z3.fpAdd, 'fsub': z3.fpSub, 'fmul': z3.fpMul, 'fdiv': z3.fpDiv}[name](rm, a, b)
        return _bits(r)
    return f


for _n in ('fadd', 'fsub', 'fmul', 'fdiv'):
    solve.BVX[_n] = _bin(_n)
    T.EVAL[_n] = (lambda n: lambda x, a, b: mc.op_float(n, a, b, x.w))(_n)


def _cast(name):
    def f(s, x):
        fw = x.c
        rm = z3.RNE()
        if name in ('sitofp', 'uitofp'):
            v = s.arg(x.a, fw)
            g = z3.fpSignedToFP if name == 'sitofp' else z3.fpUnsignedToFP
            return _bits(g(rm, v, SORT[x.w]))
        if name in ('fptrunc', 'fpext'):
            return _bits(z3.fpFPToFP(rm, _fp(s, x.a, fw), SORT[x.w]))
        g = z3.fpToSBV if name == 'fptosi' else z3.fpToUBV
        return g(z3.RTZ(), _fp(s, x.a, fw), z3.BitVecSort(x.w))
    return f


for _n in ('sitofp', 'uitofp', 'fptrunc', 'fpext', 'fptosi', 'fptoui'):
    solve.BVX[_n] = _cast(_n)
    T.EVAL[_n] = (lambda n: lambda x, a, b: mc.op_fcast(n, a, x.c, x.w))(_n)


def _cmp(pred):
    def f(s, x):
        a, b = _fp(s, x.a, x.c), _fp(s, x.b, x.c)
        un = z3.Or(z3.fpIsNaN(a), z3.fpIsNaN(b))
        if pred == 'ord':
            return z3.Not(un)
        if pred == 'uno':
            return un
        g = {'eq': z3.fpEQ, 'ne': z3.fpNEQ, 'lt': z3.fpLT, 'le': z3.fpLEQ, 'gt': z3.fpGT, 'ge': z3.fpGEQ}[pred[1:]]
        r = g(a, b)
        return z3.Or(un, r) if pred[0] == 'u' else z3.And(z3.Not(un), r)
    return f


for _p in ('ord', 'uno', 'oeq', 'one', 'olt', 'ole', 'ogt', 'oge', 'ueq', 'une', 'ult', 'ule', 'ugt', 'uge'):
    solve.BVX['fcmp_' + _p] = _cmp(_p)
    T.EVAL['fcmp_' + _p] = (lambda n: lambda x, a, b: mc.op_fcmp(n, a, b, x.c))(_p)
