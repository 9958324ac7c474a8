// C library functions with simple meanings, as code the symbolic executor can enter.  Compiled to LLVM IR only; the
// native build uses the C library's own.
#include <cstdint>
extern "C" {

struct Div { int quot, rem; };
struct LDiv { long quot, rem; };
Div div(int a, int b) { Div r; r.quot = a / b; r.rem = a % b; return r; }
LDiv ldiv(long a, long b) { LDiv r; r.quot = a / b; r.rem = a % b; return r; }
LDiv lldiv(long a, long b) { LDiv r; r.quot = a / b; r.rem = a % b; return r; }
long labs(long a) { return a < 0 ? -a : a; }
long llabs(long a) { return a < 0 ? -a : a; }

static int verif_errno;
int* __errno_location() { return &verif_errno; }

static int digit(unsigned char c) {
    if (c >= '0' && c <= '9')
        return c - '0';
    if (c >= 'a' && c <= 'z')
        return c - 'a' + 10;
    if (c >= 'A' && c <= 'Z')
        return c - 'A' + 10;
    return 99;
}

// the magnitude; over: beyond 64 bits
static uint64_t number(const char* s, char** end, int base, bool& neg, bool& over) {
    const char* p = s;
    neg = over = false;
    while (*p == ' ' || (*p >= 9 && *p <= 13))
        p++;
    if (*p == '-' || *p == '+') {
        neg = *p == '-';
        p++;
    }
    if ((base == 0 || base == 16) && p[0] == '0' && (p[1] == 'x' || p[1] == 'X') && digit(p[2]) < 16) {
        p += 2;
        base = 16;
    } else if (base == 0) {
        base = *p == '0' ? 8 : 10;
    }
    const char* first = p;
    uint64_t v = 0;
    int d;
    for (; (d = digit(*p)) < base; p++) {
        unsigned __int128 w = static_cast<unsigned __int128>(v) * base + d;
        if (w >> 64)
            over = true;
        v = static_cast<uint64_t>(w);
    }
    if (end)
        *end = const_cast<char*>(p == first ? s : p);
    return v;
}

long strtol(const char* s, char** end, int base) {
    bool neg, over;
    uint64_t v = number(s, end, base, neg, over);
    uint64_t lim = neg ? 1ull << 63 : (1ull << 63) - 1;
    if (over || v > lim) {
        verif_errno = 34;
        v = lim;
    }
    return static_cast<long>(neg ? 0 - v : v);
}
unsigned long strtoul(const char* s, char** end, int base) {
    bool neg, over;
    uint64_t v = number(s, end, base, neg, over);
    if (over) {
        verif_errno = 34;
        return ~0ul;
    }
    return neg ? 0 - v : v;
}
long strtoll(const char* s, char** end, int base) { return strtol(s, end, base); }
unsigned long strtoull(const char* s, char** end, int base) { return strtoul(s, end, base); }
long __isoc23_strtol(const char* s, char** end, int base) { return strtol(s, end, base); }
long __isoc23_strtoll(const char* s, char** end, int base) { return strtol(s, end, base); }
unsigned long __isoc23_strtoul(const char* s, char** end, int base) { return strtoul(s, end, base); }
unsigned long __isoc23_strtoull(const char* s, char** end, int base) { return strtoul(s, end, base); }
int atoi(const char* s) { return static_cast<int>(strtol(s, nullptr, 10)); }
long atol(const char* s) { return strtol(s, nullptr, 10); }
long atoll(const char* s) { return strtol(s, nullptr, 10); }

// the digits of v in front of end; their number
int64_t verif_digits(char* end, uint64_t v, uint64_t base, int64_t upper) {
    char* p = end;
    do {
        int d = static_cast<int>(v % base);
        *--p = static_cast<char>(d < 10 ? '0' + d : (upper ? 'A' : 'a') + d - 10);
        v /= base;
    } while (v != 0);
    return end - p;
}
}
