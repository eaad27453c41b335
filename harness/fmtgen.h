// Runtime support for generated formatting-fidelity programs.
#pragma once
#include <limits.h>
#include <stdarg.h>
#include <stddef.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/types.h>
#include <wchar.h>
#include <limits>
#include <string>
#include <type_traits>

struct Rng {
    uint64_t s;
    explicit Rng(uint64_t x) : s(x * 0x9E3779B97F4A7C15ULL + 99) {}
    uint64_t next() { uint64_t z = (s += 0x9E3779B97F4A7C15ULL); z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL; z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL; return z ^ (z >> 31); }
    uint64_t below(uint64_t n) { return n ? next() % n : 0; }
};
extern FILE *sideFile;
extern long sideCount;

template <typename T> T vint(Rng &r) {
    typedef typename std::make_unsigned<T>::type U;
    switch (r.below(8)) {
        case 0: { const long long k[] = {0, 1, -1, 2, 15, 16, 127, 128, 129, 255, 256, 257, 32767, 32768, 65535, 65536, -128, -129, -255, -256, -32768, -65535, -65536};
                  return (T)k[r.below(sizeof(k) / sizeof(k[0]))]; }
        case 1: return std::numeric_limits<T>::max();
        case 2: return std::numeric_limits<T>::min();
        case 3: { int b = (int)r.below(sizeof(T) * 8); return (T)(((U)1) << b); }
        case 4: { int b = (int)r.below(sizeof(T) * 8); return (T)((((U)1) << b) - 1); }
        case 5: { int b = (int)r.below(sizeof(T) * 8); return (T)(U)(0 - ((((U)1) << b) + (U)(r.below(3)) - 1)); }
        case 6: { int b = 1 + (int)r.below(sizeof(T) * 8); uint64_t v = r.next(); if (b < 64) v &= (1ULL << b) - 1; return (T)v; }
        default: return (T)r.next();
    }
}
template <typename T> T vflt(Rng &r) {
    switch (r.below(9)) {
        case 0: return (T)0; case 1: return (T)-0.0;
        case 2: return std::numeric_limits<T>::infinity() * (r.below(2) ? 1 : -1);
        case 3: return r.below(2) ? std::numeric_limits<T>::quiet_NaN() : -std::numeric_limits<T>::quiet_NaN();
        case 4: return r.below(2) ? std::numeric_limits<T>::max() : std::numeric_limits<T>::denorm_min();
        case 5: return (T)(int64_t)r.next();
        case 6: return (T)((double)(int64_t)r.next() / 1e17);
        case 7: return (T)((int)r.below(2000) - 1000);
        default: { uint64_t b = r.next(); double d; memcpy(&d, &b, 8); return (T)d; }
    }
}
inline long slen(Rng &r) {
    uint64_t q = r.below(200);
    if (q < 20) return 0;
    if (q < 120) return (long)r.below(20);
    if (q < 185) return (long)r.below(300);
    if (q < 196) return (long)r.below(5000);
    if (q < 199) return 65530 + (long)r.below(12);
    return (long)r.below(100000);
}
// Strings live in exactly sized heap blocks; with a precision >= 0 the block is
// sometimes exactly that long and has no terminator. They are scribbled over and
// freed when the statement is done.
struct Str { char *p; size_t n; explicit Str(Rng &r, long len = -1, int prec = -1) {
        if (len < 0) len = slen(r);
        bool term = true;
        if (prec >= 0 && r.below(2)) { term = false; len = prec; }
        n = (size_t)len + term;
        p = (char *)malloc(n);
        bool bin = r.below(6) == 0;
        for (long i = 0; i < len; ++i) { uint64_t v = r.next(); p[i] = bin ? (char)(1 + v % 255) : (char)(32 + v % 95); }
        if (term) p[len] = 0; }
    ~Str() { memset(p, '!', n); free(p); }
    Str(const Str &) = delete; };
struct WStr { wchar_t *p; explicit WStr(Rng &r, int prec = -1) {
        long n = (long)r.below(40); bool term = true;
        if (prec >= 0 && r.below(2)) { term = false; n = prec; }
        p = (wchar_t *)malloc(sizeof(wchar_t) * (size_t)(n + term));
        for (long i = 0; i < n; ++i) p[i] = (wchar_t)(32 + r.below(95)); if (term) p[n] = 0; }
    ~WStr() { free(p); } WStr(const WStr &) = delete; };
inline int vwidth(Rng &r) { switch (r.below(6)) { case 0: return 0; case 1: return -(int)r.below(30); case 2: return 1; case 3: return (int)r.below(300); default: return (int)r.below(30); } }
inline int vprec(Rng &r) { switch (r.below(6)) { case 0: return 0; case 1: return -(int)(1 + r.below(30)); case 2: return 1; case 3: return (int)r.below(300); default: return (int)r.below(30); } }
enum PlainEnum { ENUM_A = 0, ENUM_B = 7, ENUM_C = 100000 };
enum SmallEnum : unsigned char { SE_A = 0, SE_B = 200 };
inline PlainEnum venum(Rng &r) { PlainEnum k[] = {ENUM_A, ENUM_B, ENUM_C}; return k[r.below(3)]; }

// expected record: "<line> <level> <len>\n<text>"
inline void expectText(int line, const char *level, const char *fmt, ...) {
    va_list ap, aq; va_start(ap, fmt); va_copy(aq, ap);
    int n = vsnprintf(nullptr, 0, fmt, ap); va_end(ap);
    if (n < 0) { fprintf(stderr, "vsnprintf failed for '%s'\n", fmt); exit(7); }
    char *b = (char *)malloc((size_t)n + 1);
    vsnprintf(b, (size_t)n + 1, fmt, aq); va_end(aq);
    fprintf(sideFile, "%d %s %d\n", line, level, n);
    fwrite(b, 1, (size_t)n, sideFile); fputc('\n', sideFile);
    free(b); ++sideCount;
}
