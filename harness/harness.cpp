// Entry points for the checks.  Compiled twice from the current /repo sources: to LLVM IR for the symbolic executor and
// natively for replaying counterexamples and validating the translation.  Only the public API is used.
#include <bigintegercpp/BigInteger.h>
#include <cstring>
#include "ctx.h"

template class std::basic_string<char>;

static BigInteger mk(const Big& b) {
    if (b.n == 0)
        return BigInteger(b.sign);
    return BigInteger(b.sign, uint_array(b.limb, b.limb + b.n));
}

static void put(Big& o, const BigInteger& v) {
    o.sign = v.sign_internal();
    uint_array t = v.get_bits();
    o.n = static_cast<int32_t>(t.size());
    for (size_t i = 0; i < t.size(); i++)
        o.limb[i] = t[i];
}

static void put_bytes(Ctx* c, const byte_array& v) {
    c->olen = static_cast<int64_t>(v.size());
    for (size_t i = 0; i < v.size(); i++)
        c->obuf[i] = v[i];
}

#define H extern "C" void

// a op b by value, compound assignment, static function
#define BINARY(name, op, sfn)                                                                              \
    H h_##name(Ctx* c) { BigInteger a = mk(c->in[0]), b = mk(c->in[1]); BigInteger r = a op b;              \
        put(c->out[0], r); put(c->out[1], a); put(c->out[2], b); }                                          \
    H h_##name##_eq(Ctx* c) { BigInteger a = mk(c->in[0]), b = mk(c->in[1]); BigInteger& r = (a op##= b);   \
        c->r[0] = (&r == &a); put(c->out[0], a); put(c->out[2], b); }                                       \
    H h_##name##_self(Ctx* c) { BigInteger a = mk(c->in[0]); a op##= a; put(c->out[0], a); }                \
    H h_##name##_same(Ctx* c) { BigInteger a = mk(c->in[0]); BigInteger r = a op a;                         \
        put(c->out[0], r); put(c->out[1], a); }                                                             \
    sfn

#define STATIC(name, fn)                                                                                    \
    H h_##name##_static(Ctx* c) { BigInteger a = mk(c->in[0]), b = mk(c->in[1]);                            \
        BigInteger r = BigInteger::fn(a, b); put(c->out[0], r); put(c->out[1], a); put(c->out[2], b); }

BINARY(add, +, STATIC(add, add))
BINARY(sub, -, STATIC(sub, subtract))
BINARY(mul, *, STATIC(mul, multiply))
BINARY(div, /, STATIC(div, divide))
BINARY(rem, %, STATIC(rem, remainder))
BINARY(and, &, )
BINARY(or, |, )
BINARY(xor, ^, )

// all three division entry points on the same operands
H h_divall(Ctx* c) {
    BigInteger a = mk(c->in[0]), b = mk(c->in[1]), r;
    BigInteger q = BigInteger::div_rem(a, b, r);
    put(c->out[0], q);
    put(c->out[1], r);
    put(c->out[2], a);
    put(c->out[3], b);
    BigInteger q2 = a / b;
    BigInteger r2 = a % b;
    put(c->out[4], q2);
    put(c->out[5], r2);
}

H h_divrem(Ctx* c) {
    BigInteger a = mk(c->in[0]), b = mk(c->in[1]), r(77);
    BigInteger q = BigInteger::div_rem(a, b, r);
    put(c->out[0], q);
    put(c->out[1], r);
    put(c->out[2], a);
    put(c->out[3], b);
}

// the remainder argument is the divisor / the dividend itself
H h_divrem_rb(Ctx* c) {
    BigInteger a = mk(c->in[0]), b = mk(c->in[1]);
    BigInteger q = BigInteger::div_rem(a, b, b);
    put(c->out[0], q);
    put(c->out[1], b);
    put(c->out[2], a);
}

H h_divrem_ra(Ctx* c) {
    BigInteger a = mk(c->in[0]), b = mk(c->in[1]);
    BigInteger q = BigInteger::div_rem(a, b, a);
    put(c->out[0], q);
    put(c->out[1], a);
    put(c->out[2], b);
}

// exceptions must leave the operands alone: k[0] selects the operation, r[0] reports what was thrown
H h_throw(Ctx* c) {
    BigInteger a = mk(c->in[0]), b = mk(c->in[1]), r(77);
    c->r[0] = 0;
    try {
        switch (c->k[0]) {
            case 0: a /= b; break;
            case 1: a %= b; break;
            case 2: BigInteger::div_rem(a, b, r); break;
            case 3: BigInteger::mod_pow(a, a, b); break;
            case 4: BigInteger::pow(a, static_cast<int>(c->k[1])); break;
            case 5: static_cast<void>(static_cast<int>(a)); break;
            case 6: static_cast<void>(static_cast<unsigned int>(a)); break;
            case 7: static_cast<void>(static_cast<long>(a)); break;
            case 8: static_cast<void>(static_cast<unsigned long>(a)); break;
            case 9: a.to_byte_array(true); break;
            case 10: BigInteger::mod_pow(b, a, r); break;
            case 11: a = BigInteger(*reinterpret_cast<double*>(&c->k[1])); break;
        }
    } catch (const std::exception&) {
        c->r[0] = 1;
    }
    put(c->out[0], a);
    put(c->out[1], b);
    put(c->out[2], r);
}

H h_un(Ctx* c) {
    BigInteger a = mk(c->in[0]);
    switch (c->k[0]) {
        case 0: { BigInteger r = -a; put(c->out[0], r); break; }
        case 1: { BigInteger r = +a; put(c->out[0], r); break; }
        case 2: { BigInteger r = ~a; put(c->out[0], r); break; }
        case 3: { BigInteger r = BigInteger::negate(a); put(c->out[0], r); break; }
        case 4: { BigInteger r = BigInteger::abs(a); put(c->out[0], r); break; }
        case 5: { BigInteger r = ++a; put(c->out[0], r); break; }
        case 6: { BigInteger r = --a; put(c->out[0], r); break; }
        case 7: { a++; put(c->out[0], a); break; }
        case 8: { a--; put(c->out[0], a); break; }
    }
    put(c->out[1], a);
}

H h_shl(Ctx* c) { BigInteger a = mk(c->in[0]); BigInteger r = a << static_cast<int>(c->k[0]);
    put(c->out[0], r); put(c->out[1], a); }
H h_shr(Ctx* c) { BigInteger a = mk(c->in[0]); BigInteger r = a >> static_cast<int>(c->k[0]);
    put(c->out[0], r); put(c->out[1], a); }
H h_shl_eq(Ctx* c) { BigInteger a = mk(c->in[0]); a <<= static_cast<int>(c->k[0]); put(c->out[0], a); }
H h_shr_eq(Ctx* c) { BigInteger a = mk(c->in[0]); a >>= static_cast<int>(c->k[0]); put(c->out[0], a); }

H h_cmp(Ctx* c) {
    BigInteger a = mk(c->in[0]), b = mk(c->in[1]);
    c->r[0] = a.compare_to(b);
    c->r[1] = a < b;
    c->r[2] = a > b;
    c->r[3] = a <= b;
    c->r[4] = a >= b;
    c->r[5] = a == b;
    c->r[6] = a != b;
    c->r[7] = a.equals(b);
    c->r[8] = a.get_hash_code();
    c->r[9] = b.get_hash_code();
    c->r[10] = b.compare_to(a);
    put(c->out[0], a);
    put(c->out[1], b);
}

H h_hash(Ctx* c) {
    BigInteger a = mk(c->in[0]);
    c->r[0] = a.get_hash_code();
    c->r[1] = a.get_bit_length();
}

H h_negate(Ctx* c) {
    BigInteger a = mk(c->in[0]);
    put(c->out[0], BigInteger::negate(a));
    put(c->out[1], BigInteger::abs(a));
}

H h_pred(Ctx* c) {
    BigInteger a = mk(c->in[0]);
    c->r[0] = a.is_zero();
    c->r[1] = a.is_one();
    c->r[2] = a.is_even();
    c->r[3] = a.is_power_of_two();
    c->r[4] = a.sign();
    c->r[5] = static_cast<int64_t>(a.get_bit_length());
    put(c->out[0], a);
}

H h_const(Ctx* c) {
    put(c->out[0], BigInteger::zero());
    put(c->out[1], BigInteger::one());
    put(c->out[2], BigInteger::minus_one());
    put(c->out[3], BigInteger());
}

H h_bytes(Ctx* c) {
    BigInteger a = mk(c->in[0]);
    byte_array v = a.to_byte_array(c->k[0] != 0, c->k[1] != 0);
    put_bytes(c, v);
    c->r[0] = a.get_byte_count(c->k[0] != 0);
    put(c->out[0], a);
}

H h_bytecount(Ctx* c) {
    BigInteger a = mk(c->in[0]);
    c->r[0] = a.get_byte_count(c->k[0] != 0);
}

H h_bytes_rt(Ctx* c) {
    BigInteger a = mk(c->in[0]);
    byte_array v = a.to_byte_array(c->k[0] != 0, c->k[1] != 0);
    put_bytes(c, v);
    BigInteger b(v, c->k[0] != 0, c->k[1] != 0);
    put(c->out[0], b);
}

H h_frombytes(Ctx* c) {
    byte_array v(c->buf, c->buf + c->len);
    BigInteger b(v, c->k[0] != 0, c->k[1] != 0);
    put(c->out[0], b);
}

H h_u32(Ctx* c) {
    BigInteger a = mk(c->in[0]);
    put(c->out[0], a);
    uint_array t = a.to_uint32_array();
    c->olen = static_cast<int64_t>(t.size());
    uint32_t* p = reinterpret_cast<uint32_t*>(c->obuf);
    for (size_t i = 0; i < t.size(); i++)
        p[i] = t[i];
}

static void put_str(Ctx* c, const std::string& s) {
    c->olen = static_cast<int64_t>(s.size());
    for (size_t i = 0; i < s.size(); i++)
        c->obuf[i] = static_cast<uint8_t>(s[i]);
}

H h_str(Ctx* c) {
    BigInteger a = mk(c->in[0]);
    put_str(c, a.to_string());
    put(c->out[0], a);
}

H h_parse(Ctx* c) {
    std::string s(reinterpret_cast<const char*>(c->buf), static_cast<size_t>(c->len));
    BigInteger r = BigInteger::parse(s);
    put(c->out[0], r);
}

H h_try_parse(Ctx* c) {
    std::string s(reinterpret_cast<const char*>(c->buf), static_cast<size_t>(c->len));
    BigInteger r = mk(c->in[0]);
    c->r[0] = BigInteger::try_parse(s, r);
    put(c->out[0], r);
}

H h_str_rt(Ctx* c) {
    BigInteger a = mk(c->in[0]);
    std::string s = a.to_string();
    put_str(c, s);
    put(c->out[0], BigInteger::parse(s));
}

H h_ctor(Ctx* c) {
    switch (c->k[0]) {
        case 0: put(c->out[0], BigInteger(static_cast<int32_t>(c->k[1]))); break;
        case 1: put(c->out[0], BigInteger(static_cast<uint32_t>(c->k[1]))); break;
        case 2: put(c->out[0], BigInteger(static_cast<int64_t>(c->k[1]))); break;
        case 3: put(c->out[0], BigInteger(static_cast<uint64_t>(c->k[1]))); break;
        case 4: {
            double d;
            memcpy(&d, &c->k[1], 8);
            put(c->out[0], BigInteger(d));
            break;
        }
        case 5: put(c->out[0], BigInteger(uint_array(c->in[0].limb, c->in[0].limb + c->in[0].n), c->k[1] != 0)); break;
        case 6: put(c->out[0], BigInteger(c->in[0].sign, uint_array(c->in[0].limb, c->in[0].limb + c->in[0].n))); break;
    }
}

H h_cast(Ctx* c) {
    BigInteger a = mk(c->in[0]);
    switch (c->k[0]) {
        case 0: c->r[0] = static_cast<int64_t>(static_cast<int>(a)); break;
        case 1: c->r[0] = static_cast<int64_t>(static_cast<unsigned int>(a)); break;
        case 2: c->r[0] = static_cast<int64_t>(static_cast<long>(a)); break;
        case 3: c->r[0] = static_cast<int64_t>(static_cast<unsigned long>(a)); break;
        case 4: { double d = static_cast<double>(a); memcpy(&c->r[0], &d, 8); break; }
        case 5: { float f = static_cast<float>(a); c->r[0] = 0; memcpy(&c->r[0], &f, 4); break; }
    }
    put(c->out[0], a);
}

// double -> BigInteger -> double, BigInteger -> double -> BigInteger
H h_dbl_rt(Ctx* c) {
    double d;
    memcpy(&d, &c->k[1], 8);
    BigInteger a(d);
    double e = static_cast<double>(a);
    memcpy(&c->r[0], &e, 8);
    put(c->out[0], a);
}

H h_class(Ctx* c) {
    double d;
    memcpy(&d, &c->k[1], 8);
    c->r[0] = BigInteger::double_IsFinite(d);
    c->r[1] = BigInteger::double_IsInfinity(d);
    c->r[2] = BigInteger::double_IsNaN(d);
}

H h_pow(Ctx* c) {
    BigInteger a = mk(c->in[0]);
    BigInteger r = BigInteger::pow(a, static_cast<int>(c->k[0]));
    put(c->out[0], r);
    put(c->out[1], a);
}

H h_modpow(Ctx* c) {
    BigInteger a = mk(c->in[0]), e = mk(c->in[1]), m = mk(c->in[2]);
    BigInteger r = BigInteger::mod_pow(a, e, m);
    put(c->out[0], r);
    put(c->out[1], a);
    put(c->out[2], e);
    put(c->out[3], m);
}

H h_gcd(Ctx* c) {
    BigInteger a = mk(c->in[0]), b = mk(c->in[1]);
    BigInteger r = BigInteger::greatest_common_divisor(a, b);
    put(c->out[0], r);
    put(c->out[1], a);
    put(c->out[2], b);
}

H h_log(Ctx* c) {
    BigInteger a = mk(c->in[0]);
    double base, r;
    memcpy(&base, &c->k[1], 8);
    switch (c->k[0]) {
        case 0: r = BigInteger::log(a); break;
        case 1: r = BigInteger::log(a, base); break;
        default: r = BigInteger::log10(a); break;
    }
    memcpy(&c->r[0], &r, 8);
    put(c->out[0], a);
}

// the same object in several argument positions
H h_alias(Ctx* c) {
    BigInteger a = mk(c->in[0]), m = mk(c->in[1]), r;
    switch (c->k[0]) {
        case 0: r = BigInteger::mod_pow(a, a, m); break;
        case 1: r = BigInteger::mod_pow(a, m, m); break;
        case 2: r = BigInteger::mod_pow(a, m, a); break;
        case 3: r = BigInteger::greatest_common_divisor(a, a); break;
        case 4: r = BigInteger::add(a, a); break;
        case 5: r = BigInteger::subtract(a, a); break;
        case 6: r = BigInteger::multiply(a, a); break;
        case 7: r = BigInteger::divide(a, a); break;
        case 8: r = BigInteger::remainder(a, a); break;
        case 9: { BigInteger q = BigInteger::div_rem(a, a, r); put(c->out[3], q); break; }
        case 10: { BigInteger q = BigInteger::div_rem(m, m, m); r = m; m = mk(c->in[1]); put(c->out[3], q); break; }
        case 11: r = a; r = r; break;
        case 12: r = a; r += r; r -= a; break;
        case 13: r = a; r *= r; r /= a; break;
        case 14: r = a; r = BigInteger::negate(r); r = -r; break;
        case 15: r = a; r <<= 33; r >>= 33; break;
        case 16: r = m; r = BigInteger::mod_pow(a, BigInteger(1), r); break;
        case 17: r = a; r = BigInteger::greatest_common_divisor(r, m); break;
        case 18: r = a; r = BigInteger::pow(r, 2); break;
        case 19: r = a; BigInteger::div_rem(r, m, r); break;
        case 20: r = m; BigInteger::div_rem(a, r, r); break;
        case 21: r = a; r &= m; r |= a; break;
        case 22: r = a; r ^= m; r ^= m; break;
    }
    put(c->out[0], r);
    put(c->out[1], a);
    put(c->out[2], m);
}

static BigInteger step(Ctx* c, int64_t op, int64_t arg, BigInteger& a, BigInteger& b) {
    BigInteger r;
    switch (op) {
        case 0: return a + b;
        case 1: return a - b;
        case 2: return a * b;
        case 3: return a / b;
        case 4: return a % b;
        case 5: return a & b;
        case 6: return a | b;
        case 7: return a ^ b;
        case 8: return -a;
        case 9: return ~a;
        case 10: r = a; ++r; return r;
        case 11: r = a; --r; return r;
        case 12: return a << static_cast<int>(arg);
        case 13: return a >> static_cast<int>(arg);
        case 14: return BigInteger::parse(a.to_string());
        case 15: return BigInteger(a.to_byte_array(false, false), false, false);
        case 16: return BigInteger(a.to_byte_array(false, true), false, true);
        case 17: return BigInteger::abs(a);
        case 18: return BigInteger::pow(a, static_cast<int>(arg));
        case 19: return BigInteger::mod_pow(a, BigInteger(static_cast<int>(arg)), b);
        case 20: return BigInteger::greatest_common_divisor(a, b);
        case 21: BigInteger::div_rem(a, b, r); return r;
        case 22: r = a; r += b; return r;
        case 23: r = a; r -= b; return r;
        case 24: r = a; r *= b; return r;
        case 25: r = a; r /= b; return r;
        case 26: r = a; r %= b; return r;
        case 27: r = a; r &= b; return r;
        case 28: r = a; r |= b; return r;
        case 29: r = a; r ^= b; return r;
        case 30: r = a; r <<= static_cast<int>(arg); return r;
        case 31: r = a; r >>= static_cast<int>(arg); return r;
        case 32: return +a;
        case 33: return BigInteger(static_cast<double>(a));
        case 34: return BigInteger(static_cast<int64_t>(static_cast<long>(a)));
        case 35: return BigInteger::negate(a);
        case 36: return BigInteger::divide(a, b);
    }
    return a;
}

// one or two operations (k0, k2), the result against its value constructed directly
H h_canon(Ctx* c) {
    BigInteger a = mk(c->in[0]), b = mk(c->in[1]);
    BigInteger r = step(c, c->k[0], c->k[1], a, b);
    if (c->k[2] >= 0)
        r = step(c, c->k[2], c->k[3], r, b);
    put(c->out[0], r);
    BigInteger d = mk(c->out[0]);
    c->r[0] = r == d;
    c->r[1] = r != d;
    c->r[2] = r.compare_to(d);
    c->r[3] = r.get_hash_code();
    c->r[4] = d.get_hash_code();
    c->r[5] = r.equals(d);
    c->r[6] = r.sign();
    put(c->out[1], d);
}

// copies are independent values
H h_copy(Ctx* c) {
    BigInteger a = mk(c->in[0]);
    BigInteger b = a;
    BigInteger d;
    d = a;
    a += BigInteger(1);
    put(c->out[0], b);
    put(c->out[1], d);
    put(c->out[2], a);
    d = d;
    put(c->out[3], d);
}
