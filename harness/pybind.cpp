// Entry point for the Python bindings: the current bindings source, compiled against the models in harness/py.
#include BINDINGS_SOURCE
#include <cstring>
#include "ctx.h"

template class std::basic_string<char>;

static PyObject* make_arg(Ctx* c, int i) {
    const Big& b = c->in[i];
    int64_t kind = c->k[2 + i];
    PyObject* o = pymodel::make(static_cast<int>(kind));
    switch (kind) {
        case K_BIG:
            o->inst = new BigInteger(b.n == 0 ? BigInteger(b.sign) : BigInteger(b.sign, uint_array(b.limb, b.limb + b.n)));
            break;
        case K_INT:
            if (b.n == 0) {
                o->neg = b.sign < 0;
                if (b.sign != 0)
                    o->mag.push_back(b.sign < 0 ? 0u - static_cast<uint32_t>(b.sign) : static_cast<uint32_t>(b.sign));
            } else {
                o->neg = b.sign < 0;
                o->mag.assign(b.limb, b.limb + b.n);
            }
            break;
        case K_FLOAT:
            memcpy(&o->d, &c->k[6], 8);
            break;
        case K_BOOL:
            delete o;
            return c->k[6 + (i & 1)] ? Py_True : Py_False;
        case K_BYTES:
            o->s.assign(reinterpret_cast<const char*>(c->buf), static_cast<size_t>(c->len));
            break;
    }
    return o;
}

static void put_value(Ctx* c, int i, PyObject* o) {
    c->r[2 * i] = o->kind;
    Big& b = c->out[i];
    switch (o->kind) {
        case K_BIG: {
            BigInteger* v = static_cast<BigInteger*>(o->inst);
            uint_array t = v->get_bits();
            b.sign = v->sign_internal();
            b.n = static_cast<int32_t>(t.size());
            for (size_t j = 0; j < t.size(); j++)
                b.limb[j] = t[j];
            break;
        }
        case K_INT:
        case K_INTFLOAT:
            // in the form of the same BigInteger
            if (o->mag.empty() || (o->mag.size() == 1 && o->mag[0] < 0x80000000u)) {
                int32_t m = o->mag.empty() ? 0 : static_cast<int32_t>(o->mag[0]);
                b.sign = o->neg ? -m : m;
                b.n = 0;
            } else {
                b.sign = o->neg ? -1 : 1;
                b.n = static_cast<int32_t>(o->mag.size());
                for (size_t j = 0; j < o->mag.size(); j++)
                    b.limb[j] = o->mag[j];
            }
            break;
        case K_BOOL:
            c->r[2 * i + 1] = o == Py_True;
            break;
        case K_FLOAT:
            memcpy(&c->r[2 * i + 1], &o->d, 8);
            break;
        case K_STR:
        case K_BYTES:
            c->olen = static_cast<int64_t>(o->s.size());
            for (size_t j = 0; j < o->s.size(); j++)
                c->obuf[j] = static_cast<uint8_t>(o->s[j]);
            break;
        case K_TUPLE:
            for (int j = 0; j < o->n; j++)
                put_value(c, 1 + j, o->item[j]);
            break;
    }
}

static const char* const names[] = {
    "__init__", "__lt__", "__le__", "__eq__", "__hash__", "__gt__", "__ge__", "__add__", "__radd__", "__sub__", "__rsub__", "__mul__", "__rmul__",
    "__mod__", "__rmod__", "__divmod__", "__rdivmod__", "__pow__", "__rpow__", "__truediv__", "__rtruediv__", "__floordiv__", "__rfloordiv__",
    "__lshift__", "__rlshift__", "__rshift__", "__rrshift__", "__and__", "__rand__", "__or__", "__ror__", "__xor__", "__rxor__", "__neg__",
    "__pos__", "__abs__", "__invert__", "__bytes__", "to_array", "__int__", "__float__", "__index__", "__str__", "__deepcopy__", "zero", "one",
    "minus_one", "is_power_of_two", "is_even", "log", "log10", "get_bit_Length", "sign", "__ne__"};

// k0: method, k1: number of arguments, k2..k5: their kinds, k6, k7: float and bool arguments
extern "C" void h_py(Ctx* c) {
    pybind11::module_ m;
    pymodel::none_.kind = K_NONE;
    pymodel::true_.kind = pymodel::false_.kind = K_BOOL;
    pymodel::error = 0;
    pybind11::table.n = 0;
    pymodel_init(m);
    PyObject* a[4];
    for (int i = 0; i < c->k[1]; i++)
        a[i] = make_arg(c, i);
    PyObject* r = pybind11::call(names[c->k[0]], a, static_cast<int>(c->k[1]));
    put_value(c, 0, r);
    if (c->k[0] == 4) {
        // the hash of another object of the same value
        a[0] = make_arg(c, 0);
        put_value(c, 1, pybind11::call(names[4], a, 1));
    }
    // the operands afterwards
    for (int i = 0; i < c->k[1] && i < 3; i++)
        if (a[i]->kind == K_BIG)
            put_value(c, 4 + i, a[i]);
}
