// A model of the part of the CPython C API that bindings of integers use, over integers of unbounded size.
// Semantics as documented for CPython 3.12; the model is compared with the real interpreter on every run of the check.
#pragma once
#include <cstdint>
#include <cstddef>
#include <cstring>
#include <cmath>
#include <string>
#include <vector>
#include <stdexcept>

#define PY_VERSION_HEX 0x030C00F0
#define PY_MAJOR_VERSION 3
#define PY_MINOR_VERSION 12
typedef long Py_ssize_t;
typedef Py_ssize_t Py_hash_t;
#define PY_SSIZE_T_MAX ((Py_ssize_t) (((size_t) -1) >> 1))

enum PyKind { K_BIG = 0, K_INT = 1, K_FLOAT = 2, K_BOOL = 3, K_BYTES = 4, K_STR = 5, K_NONE = 6, K_TUPLE = 7, K_INTFLOAT = 8, K_NOTIMPL = 9 };

struct PyObject {
    int kind = K_NONE;
    int neg = 0;                     // int: sign and magnitude, no leading zero limbs; bool: value in sign-free magnitude
    std::vector<uint32_t> mag;
    double d = 0;
    std::string s;                   // bytes, str
    void* inst = nullptr;            // instance of the bound class
    PyObject* item[3] = {nullptr, nullptr, nullptr};
    int n = 0;
};
struct PyLongObject { PyObject ob_base; };
struct PyTypeObject { int kind; };
typedef PyObject PyBytesObject;

namespace pymodel {
inline int error = 0;
inline PyObject none_, true_, false_, notimpl_;

inline PyObject* fail() { error = 1; return nullptr; }

inline PyObject* make(int kind) { PyObject* o = new PyObject; o->kind = kind; return o; }

inline void trim(PyObject* o) {
    size_t n = o->mag.size();
    while (n > 0 && o->mag[n - 1] == 0) n--;
    o->mag.resize(n);
    if (n == 0) o->neg = 0;
}

inline PyObject* from_u64(unsigned long long v, bool neg = false) {
    PyObject* o = make(K_INT);
    o->mag.push_back((uint32_t) v);
    o->mag.push_back((uint32_t) (v >> 32));
    o->neg = neg;
    trim(o);
    return o;
}

inline PyObject* from_i64(long long v) {
    return v < 0 ? from_u64(0ULL - (unsigned long long) v, true) : from_u64((unsigned long long) v);
}

inline bool is_long(const PyObject* o) { return o && (o->kind == K_INT || o->kind == K_BOOL); }

// -1, 0, 1
inline int compare(const PyObject* a, const PyObject* b) {
    if (a->neg != b->neg)
        return a->neg ? -1 : 1;
    int g = a->neg ? -1 : 1;
    if (a->mag.size() != b->mag.size())
        return a->mag.size() < b->mag.size() ? -g : g;
    for (size_t i = a->mag.size(); i-- > 0;)
        if (a->mag[i] != b->mag[i])
            return a->mag[i] < b->mag[i] ? -g : g;
    return 0;
}

// the low 64 bits of the two's complement, and whether the value has that many (signed, unsigned)
inline unsigned long long low64(const PyObject* o) {
    unsigned long long v = 0;
    if (o->mag.size() > 0) v = o->mag[0];
    if (o->mag.size() > 1) v |= (unsigned long long) o->mag[1] << 32;
    return o->neg ? 0ULL - v : v;
}
inline bool fits_i64(const PyObject* o) {
    if (o->mag.size() > 2) return false;
    if (o->mag.size() < 2) return true;
    return o->mag[1] < 0x80000000u || (o->neg && o->mag[1] == 0x80000000u && o->mag[0] == 0);
}
inline bool fits_u64(const PyObject* o) { return !o->neg && o->mag.size() <= 2; }

inline unsigned byte(const PyObject* o, size_t i) {
    return i / 4 < o->mag.size() ? o->mag[i / 4] >> (8 * (i % 4)) & 0xff : 0;
}

inline PyObject* parse(const char* p, size_t n) {
    PyObject* o = make(K_INT);
    size_t i = 0;
    int neg = 0;
    if (i < n && (p[i] == '-' || p[i] == '+')) { neg = p[i] == '-'; i++; }
    if (i == n) { delete o; return fail(); }
    for (; i < n; i++) {
        if (p[i] < '0' || p[i] > '9') { delete o; return fail(); }
        uint64_t c = (uint64_t) (p[i] - '0');
        for (size_t j = 0; j < o->mag.size(); j++) {
            c += (uint64_t) o->mag[j] * 10;
            o->mag[j] = (uint32_t) c;
            c >>= 32;
        }
        if (c) o->mag.push_back((uint32_t) c);
    }
    o->neg = neg;
    trim(o);
    return o;
}
}

#define Py_None (&pymodel::none_)
#define Py_True (&pymodel::true_)
#define Py_False (&pymodel::false_)
#define Py_NotImplemented (&pymodel::notimpl_)
#define Py_INCREF(x) ((void) (x))
#define Py_DECREF(x) ((void) (x))
#define Py_XINCREF(x) ((void) (x))
#define Py_XDECREF(x) ((void) (x))
inline PyObject* Py_NewRef(PyObject* o) { return o; }

inline PyObject *PyExc_ValueError = nullptr, *PyExc_OverflowError = nullptr, *PyExc_TypeError = nullptr, *PyExc_ZeroDivisionError = nullptr,
    *PyExc_RuntimeError = nullptr, *PyExc_IndexError = nullptr;
inline PyObject* PyErr_Occurred() { return pymodel::error ? &pymodel::none_ : nullptr; }
inline void PyErr_Clear() { pymodel::error = 0; }
inline void PyErr_SetString(PyObject*, const char*) { pymodel::error = 1; }

inline int PyLong_Check(PyObject* o) { return pymodel::is_long(o); }
inline int PyLong_CheckExact(PyObject* o) { return o && o->kind == K_INT; }
inline int PyBool_Check(PyObject* o) { return o && o->kind == K_BOOL; }
inline int PyFloat_Check(PyObject* o) { return o && (o->kind == K_FLOAT || o->kind == K_INTFLOAT); }
inline int PyBytes_Check(PyObject* o) { return o && o->kind == K_BYTES; }
inline int PyUnicode_Check(PyObject* o) { return o && o->kind == K_STR; }

inline size_t _PyLong_NumBits(PyObject* o) {
    if (o->mag.empty())
        return 0;
    size_t b = 32 * (o->mag.size() - 1);
    uint32_t t = o->mag.back();
    int n = 0;
    while (n < 32 && t >> n != 0) n++;
    return b + (size_t) n;
}
inline int _PyLong_Sign(PyObject* o) { return o->mag.empty() ? 0 : o->neg ? -1 : 1; }

inline int _PyLong_AsByteArray(PyLongObject* v, unsigned char* bytes, size_t n, int little, int is_signed) {
    PyObject* o = &v->ob_base;
    if (o->neg && !is_signed) {
        pymodel::error = 1;
        return -1;
    }
    size_t len = 4 * o->mag.size();
    unsigned any = 0, last = 0;
    bool carry = true;
    for (size_t i = 0; i < len || i < n; i += 4) {
        uint32_t u = i / 4 < o->mag.size() ? o->mag[i / 4] : 0;
        if (o->neg) {
            bool z = u == 0;
            u = carry ? 0u - u : ~u;
            carry = carry && z;
        }
        for (size_t j = i; j < i + 4; j++) {
            unsigned b = u >> (8 * (j - i)) & 0xff;
            if (j < n) {
                bytes[little ? j : n - 1 - j] = (unsigned char) b;
                last = b;
            } else {
                // what does not fit has to be sign extension
                any |= b ^ (o->neg ? 0xffu : 0u);
            }
        }
    }
    // one bit more than the magnitude has always room for the sign
    if (8 * n > _PyLong_NumBits(o))
        return 0;
    if (any || (is_signed && n > 0 && (last & 0x80) != (o->neg ? 0x80u : 0u)) || (is_signed && n == 0 && !o->mag.empty())) {
        pymodel::error = 1;
        return -1;
    }
    return 0;
}

inline PyObject* _PyLong_FromByteArray(const unsigned char* bytes, size_t n, int little, int is_signed) {
    PyObject* o = pymodel::make(K_INT);
    o->neg = is_signed && n > 0 && (bytes[little ? n - 1 : 0] & 0x80) != 0;
    o->mag.resize((n + 3) / 4);
    bool carry = true;
    for (size_t i = 0; i < (n + 3) / 4; i++) {
        uint32_t u = 0;
        for (size_t j = 4 * i; j < 4 * i + 4; j++) {
            unsigned b = j < n ? bytes[little ? j : n - 1 - j] : o->neg ? 0xff : 0;
            u |= (uint32_t) b << (8 * (j - 4 * i));
        }
        if (o->neg) {
            bool z = u == 0;
            u = carry ? 0u - u : ~u;
            carry = carry && z;
        }
        o->mag[i] = u;
    }
    pymodel::trim(o);
    return o;
}

inline PyObject* PyLong_FromLong(long v) { return pymodel::from_i64(v); }
inline PyObject* PyLong_FromLongLong(long long v) { return pymodel::from_i64(v); }
inline PyObject* PyLong_FromSsize_t(Py_ssize_t v) { return pymodel::from_i64(v); }
inline PyObject* PyLong_FromUnsignedLong(unsigned long v) { return pymodel::from_u64(v); }
inline PyObject* PyLong_FromUnsignedLongLong(unsigned long long v) { return pymodel::from_u64(v); }
inline PyObject* PyLong_FromSize_t(size_t v) { return pymodel::from_u64(v); }
inline PyObject* PyLong_FromString(const char* s, char** end, int base) {
    if (base != 10 && base != 0) return pymodel::fail();
    PyObject* o = pymodel::parse(s, strlen(s));
    if (o && end) *end = const_cast<char*>(s) + strlen(s);
    return o;
}
inline long PyLong_AsLong(PyObject* o) {
    if (!pymodel::fits_i64(o)) { pymodel::error = 1; return -1; }
    return (long) pymodel::low64(o);
}
inline long long PyLong_AsLongLong(PyObject* o) { return PyLong_AsLong(o); }
inline Py_ssize_t PyLong_AsSsize_t(PyObject* o) { return PyLong_AsLong(o); }
inline long PyLong_AsLongAndOverflow(PyObject* o, int* ov) {
    *ov = 0;
    if (!pymodel::fits_i64(o)) { *ov = o->neg ? -1 : 1; return -1; }
    return (long) pymodel::low64(o);
}
inline long long PyLong_AsLongLongAndOverflow(PyObject* o, int* ov) { return PyLong_AsLongAndOverflow(o, ov); }
inline unsigned long PyLong_AsUnsignedLong(PyObject* o) {
    if (!pymodel::fits_u64(o)) { pymodel::error = 1; return (unsigned long) -1; }
    return (unsigned long) pymodel::low64(o);
}
inline unsigned long long PyLong_AsUnsignedLongLong(PyObject* o) { return PyLong_AsUnsignedLong(o); }
inline unsigned long PyLong_AsUnsignedLongMask(PyObject* o) { return (unsigned long) pymodel::low64(o); }
inline PyObject* PyNumber_Negative(PyObject* o) {
    PyObject* r = pymodel::make(K_INT);
    r->mag = o->mag;
    r->neg = !o->neg;
    pymodel::trim(r);
    return r;
}
inline PyObject* PyNumber_Absolute(PyObject* o) {
    PyObject* r = pymodel::make(K_INT);
    r->mag = o->mag;
    return r;
}
inline PyObject* PyBytes_FromStringAndSize(const char* p, Py_ssize_t n) {
    PyObject* r = pymodel::make(K_BYTES);
    r->s.assign(p, (size_t) n);
    return r;
}
inline char* PyBytes_AsString(PyObject* o) { return &o->s[0]; }
#define PyBytes_AS_STRING(o) PyBytes_AsString(o)
inline Py_ssize_t PyBytes_Size(PyObject* o) { return (Py_ssize_t) o->s.size(); }
#define Py_LT 0
#define Py_LE 1
#define Py_EQ 2
#define Py_NE 3
#define Py_GT 4
#define Py_GE 5
inline int PyObject_RichCompareBool(PyObject* a, PyObject* b, int op) {
    if (!pymodel::is_long(a) || !pymodel::is_long(b)) { pymodel::error = 1; return -1; }
    int c = pymodel::compare(a, b);
    switch (op) {
        case Py_LT: return c < 0;
        case Py_LE: return c <= 0;
        case Py_EQ: return c == 0;
        case Py_NE: return c != 0;
        case Py_GT: return c > 0;
        default: return c >= 0;
    }
}
