// A model of the part of pybind11 that bindings of a value class use: argument conversion by the type of the parameter,
// overload resolution in two passes in order of registration, conversion of results.
#pragma once
#include <Python.h>
#include <tuple>
#include <utility>
#include <type_traits>
#include <limits>
#include <functional>
#include <memory>
#include <algorithm>

namespace pybind11 {

using ssize_t = Py_ssize_t;

struct builtin_exception : std::runtime_error { using std::runtime_error::runtime_error; };
#define PYMODEL_EXC(n) struct n : builtin_exception { using builtin_exception::builtin_exception; n() : builtin_exception("") {} };
PYMODEL_EXC(stop_iteration) PYMODEL_EXC(index_error) PYMODEL_EXC(key_error) PYMODEL_EXC(value_error) PYMODEL_EXC(type_error)
PYMODEL_EXC(buffer_error) PYMODEL_EXC(import_error) PYMODEL_EXC(attribute_error) PYMODEL_EXC(cast_error) PYMODEL_EXC(reference_cast_error)
struct error_already_set : std::exception {
    const char* what() const noexcept override { return "error"; }
    void restore() { pymodel::error = 1; }
    template <class T> bool matches(T) const { return false; }
};
inline void pybind11_fail(const char* s) { throw std::runtime_error(s); }
inline void pybind11_fail(const std::string& s) { throw std::runtime_error(s); }

inline PyObject* check(PyObject* o) { if (!o) { pymodel::error = 0; throw error_already_set(); } return o; }

struct object;
template <class T> struct caster;
template <class T> T cast_to(PyObject* o);

struct handle {
    PyObject* m_ptr = nullptr;
    handle() = default;
    handle(PyObject* p) : m_ptr(p) {}
    PyObject* ptr() const { return m_ptr; }
    const handle& inc_ref() const { return *this; }
    const handle& dec_ref() const { return *this; }
    explicit operator bool() const { return m_ptr != nullptr; }
    bool is_none() const { return m_ptr == Py_None; }
    bool is(const handle& o) const {
        // integers from -5 to 256 exist once
        if (m_ptr == o.m_ptr) return true;
        if (!m_ptr || !o.m_ptr || m_ptr->kind != K_INT || o.m_ptr->kind != K_INT) return false;
        const PyObject* a = m_ptr;
        if (a->mag.size() > 1 || o.m_ptr->mag.size() > 1) return false;
        if (a->mag.size() == 1 && (a->neg ? a->mag[0] > 5 : a->mag[0] > 256)) return false;
        return pymodel::compare(m_ptr, o.m_ptr) == 0;
    }
    template <class T> T cast() const { return cast_to<T>(m_ptr); }
    const char* get_type_name() const { return ""; }
#define PYMODEL_CMP(op, code) bool operator op(const handle& o) const { \
        int r = PyObject_RichCompareBool(m_ptr, o.m_ptr, code); if (r < 0) { pymodel::error = 0; throw error_already_set(); } return r != 0; }
    PYMODEL_CMP(<, Py_LT) PYMODEL_CMP(<=, Py_LE) PYMODEL_CMP(>, Py_GT) PYMODEL_CMP(>=, Py_GE)
    bool equal(const handle& o) const { return PyObject_RichCompareBool(m_ptr, o.m_ptr, Py_EQ) == 1; }
    bool not_equal(const handle& o) const { return !equal(o); }
    object operator-() const;
};

struct object : handle {
    object() = default;
    object(PyObject* p) : handle(p) {}
    object(const handle& h) : handle(h) {}
    handle release() { handle h = *this; m_ptr = nullptr; return h; }
};
inline object handle::operator-() const { return object(PyNumber_Negative(m_ptr)); }

template <class T> T reinterpret_steal(handle h) { T t; t.m_ptr = h.m_ptr; return t; }
template <class T> T reinterpret_borrow(handle h) { T t; t.m_ptr = h.m_ptr; return t; }

struct none : object { none() : object(Py_None) {} };
struct bool_ : object {
    bool_() : object(Py_False) {}
    bool_(bool b) : object(b ? Py_True : Py_False) {}
    operator bool() const { return m_ptr == Py_True; }
};
struct bytes;
struct str : object {
    str() : object(pymodel::make(K_STR)) {}
    str(const char* p) : object(pymodel::make(K_STR)) { m_ptr->s = p; }
    str(const std::string& p) : object(pymodel::make(K_STR)) { m_ptr->s = p; }
    str(const char* p, size_t n) : object(pymodel::make(K_STR)) { m_ptr->s.assign(p, n); }
    operator std::string() const { return m_ptr->s; }
};
struct bytes : object {
    bytes() : object(pymodel::make(K_BYTES)) {}
    bytes(const char* p) : object(pymodel::make(K_BYTES)) { m_ptr->s = p; }
    bytes(const std::string& p) : object(pymodel::make(K_BYTES)) { m_ptr->s = p; }
    template <class N, std::enable_if_t<std::is_integral<N>::value, int> = 0>
    bytes(const char* p, const N& n) : object(pymodel::make(K_BYTES)) { m_ptr->s.assign(p, (size_t) n); }
    operator std::string() const { return m_ptr->s; }
};
struct bytearray : bytes { using bytes::bytes; };

struct int_ : object {
    int_() : object(pymodel::from_i64(0)) {}
    int_(const object& o) : object(conv(o.m_ptr)) {}
    template <class T, std::enable_if_t<std::is_integral<T>::value, int> = 0>
    int_(T v) : object(std::is_unsigned<T>::value ? pymodel::from_u64((unsigned long long) v) : pymodel::from_i64((long long) v)) {}
    template <class T, std::enable_if_t<std::is_integral<T>::value, int> = 0>
    operator T() const {
        return std::is_unsigned<T>::value ? (T) PyLong_AsUnsignedLong(m_ptr) : (T) PyLong_AsLong(m_ptr);
    }
    static PyObject* conv(PyObject* o) {
        if (pymodel::is_long(o)) return o;
        if (o && o->kind == K_STR) return check(pymodel::parse(o->s.data(), o->s.size()));
        if (o && o->kind == K_INTFLOAT) throw std::logic_error("int of a float: not modelled");
        throw error_already_set();
    }
};
struct float_ : object {
    float_() : float_(0.0) {}
    float_(double v) : object(pymodel::make(K_FLOAT)) { m_ptr->d = v; }
    float_(float v) : float_((double) v) {}
    // float(int) is correctly rounded by the interpreter: the integer is kept
    float_(const object& o) : object(pymodel::make(pymodel::is_long(o.m_ptr) ? K_INTFLOAT : K_FLOAT)) {
        if (pymodel::is_long(o.m_ptr)) { m_ptr->mag = o.m_ptr->mag; m_ptr->neg = o.m_ptr->neg; }
        else if (o.m_ptr->kind == K_FLOAT) m_ptr->d = o.m_ptr->d;
        else throw error_already_set();
    }
    operator double() const { if (m_ptr->kind == K_INTFLOAT) throw std::logic_error("double of an int: not modelled"); return m_ptr->d; }
};
struct tuple : object {
    tuple() : object(pymodel::make(K_TUPLE)) {}
    size_t size() const { return (size_t) m_ptr->n; }
    object operator[](size_t i) const { return object(m_ptr->item[i]); }
};
struct list : object {};
struct dict : object {};
struct args : tuple {};
struct kwargs : dict {};
struct slice : object {};

struct buffer_info {
    void* ptr = nullptr;
    ssize_t itemsize = 1;
    ssize_t size = 0;
    std::string format;
    ssize_t ndim = 1;
    std::vector<ssize_t> shape, strides;
    bool readonly = true;
};
struct buffer : object {
    buffer_info request(bool = false) const {
        buffer_info b;
        b.ptr = &m_ptr->s[0];
        b.size = (ssize_t) m_ptr->s.size();
        b.format = "B";
        b.shape.push_back(b.size);
        b.strides.push_back(1);
        return b;
    }
};
template <class T, class = void> struct format_descriptor { static std::string format() { return "?"; } };
template <> struct format_descriptor<unsigned char> { static std::string format() { return "B"; } static constexpr const char value[] = "B"; };
template <> struct format_descriptor<signed char> { static std::string format() { return "b"; } };
template <> struct format_descriptor<char> { static std::string format() { return "b"; } };

template <class T> bool isinstance(const handle& h);

// ---------------------------------------------------------------- conversions

template <class T> struct bound { static inline bool is = false; };

template <class T> using bare = std::remove_cv_t<std::remove_pointer_t<std::remove_cv_t<std::remove_reference_t<T>>>>;

// an instance of a bound class
template <class T, class = void> struct conv {
    static bool ok(PyObject* o, bool) { return o->kind == K_BIG; }
    static T& get(PyObject* o) { return *static_cast<T*>(o->inst); }
    static PyObject* out(const T& v) { PyObject* o = pymodel::make(K_BIG); o->inst = new T(v); return o; }
};
template <> struct conv<bool> {
    static bool ok(PyObject* o, bool) { return o->kind == K_BOOL || o->kind == K_NONE; }
    static bool get(PyObject* o) { return o == Py_True; }
    static PyObject* out(bool v) { return v ? Py_True : Py_False; }
};
template <class T> struct conv<T, std::enable_if_t<std::is_integral<T>::value && !std::is_same<T, bool>::value>> {
    static bool ok(PyObject* o, bool) {
        if (!pymodel::is_long(o)) return false;
        if (std::is_unsigned<T>::value)
            return pymodel::fits_u64(o) && pymodel::low64(o) <= (unsigned long long) std::numeric_limits<T>::max();
        if (!pymodel::fits_i64(o)) return false;
        long long v = (long long) pymodel::low64(o);
        return v >= (long long) std::numeric_limits<T>::min() && v <= (long long) std::numeric_limits<T>::max();
    }
    static T get(PyObject* o) { return (T) pymodel::low64(o); }
    static PyObject* out(T v) {
        return std::is_unsigned<T>::value ? pymodel::from_u64((unsigned long long) v) : pymodel::from_i64((long long) v);
    }
};
template <class T> struct conv<T, std::enable_if_t<std::is_floating_point<T>::value>> {
    static bool ok(PyObject* o, bool convert) { return o->kind == K_FLOAT || (convert && pymodel::is_long(o) && o->mag.size() <= 1); }
    static T get(PyObject* o) {
        if (o->kind == K_FLOAT) return (T) o->d;
        double v = o->mag.empty() ? 0 : o->mag[0];
        return (T) (o->neg ? -v : v);
    }
    static PyObject* out(T v) { PyObject* o = pymodel::make(K_FLOAT); o->d = v; return o; }
};
template <> struct conv<std::string> {
    static bool ok(PyObject* o, bool) { return o->kind == K_STR || o->kind == K_BYTES; }
    static std::string get(PyObject* o) { return o->s; }
    static PyObject* out(const std::string& v) { PyObject* o = pymodel::make(K_STR); o->s = v; return o; }
};
template <> struct conv<char> {
    static bool ok(PyObject* o, bool) { return o->kind == K_STR; }
    static const char* get(PyObject* o) { return o->s.c_str(); }
    static PyObject* out(const char* v) { PyObject* o = pymodel::make(K_STR); o->s = v; return o; }
};
template <class T> struct pykind { static bool is(PyObject*) { return true; } };
template <> struct pykind<int_> { static bool is(PyObject* o) { return pymodel::is_long(o); } };
template <> struct pykind<float_> { static bool is(PyObject* o) { return PyFloat_Check(o); } };
template <> struct pykind<bool_> { static bool is(PyObject* o) { return o->kind == K_BOOL; } };
template <> struct pykind<str> { static bool is(PyObject* o) { return o->kind == K_STR; } };
template <> struct pykind<bytes> { static bool is(PyObject* o) { return o->kind == K_BYTES; } };
template <> struct pykind<bytearray> { static bool is(PyObject*) { return false; } };
template <> struct pykind<buffer> { static bool is(PyObject* o) { return o->kind == K_BYTES; } };
template <> struct pykind<none> { static bool is(PyObject* o) { return o->kind == K_NONE; } };
template <> struct pykind<tuple> { static bool is(PyObject* o) { return o->kind == K_TUPLE; } };
template <> struct pykind<list> { static bool is(PyObject*) { return false; } };
template <> struct pykind<dict> { static bool is(PyObject*) { return false; } };
template <class T> struct conv<T, std::enable_if_t<std::is_base_of<handle, T>::value>> {
    static bool ok(PyObject* o, bool) { return pykind<T>::is(o); }
    static T get(PyObject* o) { return reinterpret_steal<T>(handle(o)); }
    static PyObject* out(const T& v) { return v.m_ptr; }
};

template <class T> bool isinstance(const handle& h) {
    if constexpr (std::is_base_of<handle, T>::value) return pykind<T>::is(h.m_ptr);
    else return conv<T>::ok(h.m_ptr, false);
}

template <class T> T cast_to(PyObject* o) {
    if (!conv<bare<T>>::ok(o, true))
        throw cast_error("Unable to cast Python instance");
    return conv<bare<T>>::get(o);
}
template <class T> T cast(const handle& h) { return cast_to<T>(h.m_ptr); }
template <class T, std::enable_if_t<!std::is_base_of<handle, std::decay_t<T>>::value, int> = 0>
object cast(T&& v) { return object(conv<bare<std::decay_t<T>>>::out(v)); }

template <class... A> tuple make_tuple(A&&... a) {
    tuple t;
    ((t.m_ptr->item[t.m_ptr->n++] = conv<bare<std::decay_t<A>>>::out(a)), ...);
    return t;
}

// what a parameter of type P is given
template <class P> struct hold {
    using T = bare<P>;
    T v;
    explicit hold(PyObject* o) : v(conv<T>::get(o)) {}
    T& get() { return v; }
};
template <class P> decltype(auto) pass(PyObject* o) {
    using T = bare<P>;
    if constexpr (std::is_base_of<handle, T>::value) {
        if constexpr (std::is_lvalue_reference<P>::value) return *new T(conv<T>::get(o));
        else return conv<T>::get(o);
    } else if constexpr (std::is_same<T, std::string>::value) {
        if constexpr (std::is_lvalue_reference<P>::value) return *new T(conv<T>::get(o));
        else return conv<T>::get(o);
    } else if constexpr (std::is_arithmetic<T>::value && std::is_lvalue_reference<P>::value) {
        return *new T(conv<T>::get(o));
    } else if constexpr (std::is_pointer<std::remove_reference_t<P>>::value && !std::is_same<T, char>::value) {
        return &conv<T>::get(o);
    } else if constexpr (std::is_rvalue_reference<P>::value) {
        return T(conv<T>::get(o));
    } else {
        return conv<T>::get(o);
    }
}

// ---------------------------------------------------------------- the method table

struct entry {
    const char* name;
    int n;
    PyObject* (*call)(void*, PyObject**);
    bool (*match)(PyObject**, bool);
    void* fn;
    PyObject* def[6];
};
struct table_t { entry e[256]; int n = 0; };
inline table_t table;

template <class F, class R, class... A> struct invoker {
    template <size_t... I> static PyObject* go(void* f, PyObject** a, std::index_sequence<I...>) {
        if constexpr (std::is_void<R>::value) {
            std::invoke(*static_cast<F*>(f), pass<A>(a[I])...);
            return Py_None;
        } else {
            using T = bare<R>;
            if constexpr (std::is_pointer<std::remove_reference_t<R>>::value && !std::is_same<T, char>::value)
                return conv<T>::out(*std::invoke(*static_cast<F*>(f), pass<A>(a[I])...));
            else
                return conv<T>::out(std::invoke(*static_cast<F*>(f), pass<A>(a[I])...));
        }
    }
    static PyObject* call(void* f, PyObject** a) { return go(f, a, std::index_sequence_for<A...>()); }
    template <size_t... I> static bool m(PyObject** a, bool c, std::index_sequence<I...>) {
        return (true && ... && conv<bare<A>>::ok(a[I], c));
    }
    static bool match(PyObject** a, bool c) { return m(a, c, std::index_sequence_for<A...>()); }
};

struct arg_v;
struct arg {
    const char* name;
    constexpr explicit arg(const char* n = nullptr) : name(n) {}
    template <class T> arg_v operator=(T&& v) const;
    arg& noconvert(bool = true) { return *this; }
    arg& none(bool = true) { return *this; }
};
struct arg_v : arg {
    PyObject* value;
    arg_v(const char* n, PyObject* v) : arg(n), value(v) {}
};
template <class T> arg_v arg::operator=(T&& v) const { return arg_v(name, conv<bare<std::decay_t<T>>>::out(v)); }
namespace literals { inline arg operator""_a(const char* n, size_t) { return arg(n); } }

struct doc { doc(const char*) {} };
struct name { name(const char*) {} };
struct sibling { sibling(handle) {} };
struct is_operator {};
struct is_method { is_method(handle) {} };
struct is_final {};
struct dynamic_attr {};
struct module_local { module_local(bool = true) {} };
struct prepend {};
struct pos_only {};
struct kw_only {};
struct scope { scope(handle) {} };
template <size_t, size_t> struct keep_alive {};
struct gil_scoped_release { gil_scoped_release() {} ~gil_scoped_release() {} };
struct gil_scoped_acquire { gil_scoped_acquire() {} ~gil_scoped_acquire() {} };
template <class...> struct call_guard {};
struct buffer_protocol {};
enum class return_value_policy : uint8_t { automatic, automatic_reference, take_ownership, copy, move, reference, reference_internal };

inline void defaults(entry& e, int& i, const arg& a) { (void) a; i++; }
inline void defaults(entry& e, int& i, const arg_v& a) { e.def[i++] = a.value; }
template <class X> void defaults(entry&, int&, const X&) {}

template <class F, class R, class... A> void add(const char* n, F f, bool first_is_self, int extra_from) {
    (void) first_is_self; (void) extra_from;
    entry& e = table.e[table.n++];
    e.name = n;
    e.n = sizeof...(A);
    e.call = invoker<F, R, A...>::call;
    e.match = invoker<F, R, A...>::match;
    e.fn = new F(f);
    for (int i = 0; i < 6; i++) e.def[i] = nullptr;
}
template <class L> struct lambda : lambda<decltype(&L::operator())> {};
#define PYMODEL_LAMBDA(q) template <class C, class R, class... A> struct lambda<R (C::*)(A...) q> { \
    template <class F> static void reg(const char* n, F f) { add<F, R, A...>(n, f, false, 0); } };
PYMODEL_LAMBDA() PYMODEL_LAMBDA(const) PYMODEL_LAMBDA(noexcept) PYMODEL_LAMBDA(const noexcept)

template <class F> void reg(const char* n, F f) { lambda<F>::reg(n, f); }
template <class R, class... A> void reg(const char* n, R (*f)(A...)) { add<R (*)(A...), R, A...>(n, f, false, 0); }
template <class R, class C, class... A> void reg(const char* n, R (C::*f)(A...)) { add<R (C::*)(A...), R, C&, A...>(n, f, true, 0); }
template <class R, class C, class... A> void reg(const char* n, R (C::*f)(A...) const) { add<R (C::*)(A...) const, R, const C&, A...>(n, f, true, 0); }

template <class... E> void extras(int from, const E&... x) {
    entry& e = table.e[table.n - 1];
    int i = from;
    (defaults(e, i, x), ...);
    (void) i;
}

template <class F> struct factory { F f; };
template <class F> factory<F> init(F f) { return factory<F>{f}; }
template <class... A> struct ctor {};
template <class... A, class = std::enable_if_t<(sizeof...(A) > 0)>> ctor<A...> init() { return {}; }
inline ctor<> init() { return {}; }

template <class... A> struct overload_cast_impl {
    template <class R> constexpr auto operator()(R (*f)(A...)) const { return f; }
    template <class R, class C> constexpr auto operator()(R (C::*f)(A...), std::false_type = {}) const { return f; }
    template <class R, class C> constexpr auto operator()(R (C::*f)(A...) const, std::true_type) const { return f; }
};
template <class... A> static constexpr overload_cast_impl<A...> overload_cast{};
static constexpr std::true_type const_{};

struct accessor { template <class T> accessor& operator=(const T&) { return *this; } };

template <class T, class... O> struct class_ : object {
    template <class... E> class_(handle, const char*, const E&...) {}
    template <class F, class... E> class_& def(const char* n, F f, const E&... x) { reg(n, f); extras(1, x...); return *this; }
    template <class F, class... E> class_& def(factory<F> f, const E&... x) { reg("__init__", f.f); extras(0, x...); return *this; }
    template <class... A, class... E> class_& def(ctor<A...>, const E&... x) {
        reg("__init__", [](A... a) { return T(a...); });
        extras(0, x...);
        return *this;
    }
    template <class F, class... E> class_& def_static(const char* n, F f, const E&... x) { reg(n, f); extras(0, x...); return *this; }
    template <class F, class... E> class_& def_property_readonly(const char* n, F f, const E&...) { reg(n, f); return *this; }
    template <class F, class... E> class_& def_property_readonly_static(const char* n, F f, const E&...) { reg(n, f); return *this; }
    template <class F, class G, class... E> class_& def_property(const char* n, F f, G, const E&...) { reg(n, f); return *this; }
    template <class F, class... E> class_& def_buffer(F) { return *this; }
    accessor attr(const char*) { return {}; }
};

struct module_ : object {
    accessor doc() { return {}; }
    accessor attr(const char*) { return {}; }
    template <class F, class... E> module_& def(const char* n, F f, const E&... x) { reg(n, f); extras(0, x...); return *this; }
    template <class T> void add_object(const char*, const T&) {}
};
using module = module_;
template <class... A> void print(A&&...) {}
template <class A, class B> void implicitly_convertible() { static_assert(sizeof(A) == 0, "implicitly_convertible is not modelled"); }
template <class F> void register_exception_translator(F&&) {}
template <class E> struct exception : object { template <class... A> exception(A&&...) {} };
template <class E, class... A> void register_exception(A&&...) {}

// the call: every overload of the name with exact conversions first, then with implicit ones
inline PyObject* call(const char* n, PyObject** a, int na) {
    for (int p = 0; p < 2; p++)
        for (int i = 0; i < table.n; i++) {
            entry& e = table.e[i];
            if (e.n < na || strcmp(e.name, n) != 0)
                continue;
            PyObject* v[6];
            bool all = true;
            for (int j = 0; j < e.n; j++) {
                v[j] = j < na ? a[j] : e.def[j];
                all = all && v[j] != nullptr;
            }
            if (!all || !e.match(v, p == 1))
                continue;
            pymodel::error = 0;
            PyObject* r = e.call(e.fn, v);
            if (pymodel::error || !r)
                throw error_already_set();
            return r;
        }
    throw type_error("incompatible arguments");
}
}

namespace py_model_module { inline void (*init)(pybind11::module_&) = nullptr; }
#define PYBIND11_MODULE(name, var) \
    static void pymodel_init_##name(pybind11::module_& var); \
    void pymodel_init(pybind11::module_& m) { pymodel_init_##name(m); } \
    static void pymodel_init_##name(pybind11::module_& var)
#define PYBIND11_LONG_AS_LONGLONG(o) PyLong_AsLongLong(o)
#define PYBIND11_VERSION_HEX 0x020D0000
