// Direct monitor of BufferUtils::pack/unpack/Nibbler (C10).
#include <inttypes.h>
#include <math.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <wchar.h>
#include <stddef.h>
#include <atomic>
#include <string>
#include <thread>
#include <type_traits>
#include <typeinfo>
#include <vector>
#include "Packer.h"
using namespace BufferUtils;
static std::atomic<int> bads{0};
static std::atomic<uint64_t> evals{0};
static uint64_t sizesSeen[64][18];
template <typename T> static std::string hex(T v) { char b[64] = ""; unsigned char r[sizeof(T)]; memcpy(r, &v, sizeof(T)); for (size_t i = 0; i < sizeof(T); ++i) sprintf(b + strlen(b), "%02x", r[i]); return b; }
static void bad(const std::string &k, const std::string &w) { if (bads++ < 20) { printf("BAD %s: %s\n", k.c_str(), w.c_str()); fflush(stdout); } }
struct Rng {
    uint64_t s;
    explicit Rng(uint64_t x) : s(x * 0x9E3779B97F4A7C15ULL + 1) { next(); }
    uint64_t next() { uint64_t z = (s += 0x9E3779B97F4A7C15ULL); z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL; z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL; return z ^ (z >> 31); }
    uint64_t below(uint64_t n) { return n ? next() % n : 0; }
};
static inline int nb(uint64_t v) { return v ? (71 - __builtin_clzll(v)) / 8 : 1; }
// minimum bytes of a value of an integral type
template <typename T> static inline int minBytes(T v) {
    int n = nb((uint64_t)(typename std::make_unsigned<typename std::conditional<std::is_same<T, bool>::value, char, T>::type>::type)v);
    if (v < 0) { int m = nb(0 - (uint64_t)(int64_t)v); if (m < n) n = m; }
    return n;
}
// the bytes the packed value may occupy: length encoded by the code
static inline int lenOf(int code) { int c = code & 0xf; return c == 0 ? 16 : c > 8 ? c - 8 : c; }
// value bytes to compare (long double has padding)
template <typename T> struct VB { static const size_t n = sizeof(T); };
template <> struct VB<long double> { static const size_t n = 10; };
template <typename T> static inline bool same(T a, T b) { return memcmp(&a, &b, VB<T>::n) == 0; }

// typename X: decoded type; guarded by canaries on both sides
template <typename T> struct Lim { static const int n = sizeof(T) < 4 && std::is_signed<T>::value && std::is_integral<T>::value ? 4 : sizeof(T); };

template <typename T> static inline bool one(T v, const char *ty, uint64_t *sz, bool heap) {
    const int L = Lim<T>::n;   // small signed types are promoted to int
    unsigned char buf[64];
    memset(buf, 0xA5, sizeof buf);
    char *p = (char *)buf + 16, *start = p;
    if (heap) { start = p = (char *)malloc(L); memset(p, 0xA5, L); }
    int code = pack(&p, v);
    int n = (int)(p - start);
    bool ok = true;
    ++sz[n <= 16 && n >= 0 ? n : 17];
    if (n != lenOf(code) || code < 0 || (code > 15 && code != 16)) { bad(std::string("length ") + ty, "value " + hex(v) + ": code " + std::to_string(code) + " but " + std::to_string(n) + " bytes"); ok = false; }
    if (n > L || n < 1) { bad(std::string("size ") + ty, "value " + hex(v) + " packed into " + std::to_string(n) + " bytes"); ok = false; }
    if (!heap) {
        for (int i = 0; i < 16; ++i) if (buf[i] != 0xA5) { bad(std::string("overwrite ") + ty, "value " + hex(v) + " wrote before the buffer"); ok = false; break; }
        for (int i = 16 + (n > L ? n : L); i < 64; ++i) if (buf[i] != 0xA5) { bad(std::string("overwrite ") + ty, "value " + hex(v) + " wrote beyond the type's size"); ok = false; break; }
    }
    if (!ok) { if (heap) free(start); return false; }
    const char *in;
    char *ex = nullptr;
    unsigned char buf2[64];
    if (heap) { ex = (char *)malloc((size_t)n); memcpy(ex, start, (size_t)n); in = ex; }
    else { memset(buf2, 0x5A, sizeof buf2); memcpy(buf2 + 16, start, (size_t)n); in = (const char *)buf2 + 16; }
    const char *in0 = in;
    T back = unpack<T>(&in, (uint8_t)(code & 0xf));
    if (in - in0 != n) { bad(std::string("consumed ") + ty, "value " + hex(v) + ": unpack consumed " + std::to_string(in - in0) + " of " + std::to_string(n)); ok = false; }
    if (!same(back, v)) { bad(std::string("roundtrip ") + ty, "value " + hex(v) + " came back as " + hex(back)); ok = false; }
    if (heap) { free(start); free(ex); }
    return ok;
}
template <typename T> static inline bool oneInt(T v, const char *ty, uint64_t *sz, bool heap) {
    uint64_t before[18]; memcpy(before, sz, sizeof before);
    if (!one(v, ty, sz, heap)) return false;
    int n = 0; for (int i = 1; i < 17; ++i) if (sz[i] != before[i]) n = i;
    if (n != minBytes(v)) { bad(std::string("minimal ") + ty, "value " + hex(v) + " packed into " + std::to_string(n) + " bytes, " + std::to_string(minBytes(v)) + " suffice"); return false; }
    return true;
}
static uint64_t interesting(Rng &r, unsigned bits) {
    switch (r.below(6)) {
        case 0: { unsigned s = (unsigned)r.below(bits + 1); uint64_t b = s >= 64 ? 0 : 1ULL << s; return b + r.below(5) - 2; }
        case 1: { unsigned s = (unsigned)r.below(bits + 1); uint64_t b = s >= 64 ? 0 : 1ULL << s; return 0 - (b + r.below(5) - 2); }
        case 2: return r.next() >> r.below(64);
        case 3: return 0 - (r.next() >> r.below(64));
        case 4: return r.below(300) - 150;
        default: { uint64_t v = 0; for (int i = 0; i < 8; ++i) v = v << 8 | (r.below(3) ? (r.below(2) ? 0xff : 0) : r.below(256)); return v; }
    }
}
template <typename T> static void intType(const char *ty, int slot, uint64_t seed, uint64_t n, bool heap) {
    Rng r(seed + (uint64_t)slot * 77);
    uint64_t sz[18] = {};
    uint64_t cnt = 0;
    for (unsigned s = 0; s < 64; ++s) for (int d = -2; d <= 2; ++d) { oneInt((T)((1ULL << s) + (uint64_t)d), ty, sz, heap); oneInt((T)(0 - ((1ULL << s) + (uint64_t)d)), ty, sz, heap); cnt += 2; }
    if (sizeof(T) <= 2) for (uint64_t v = 0; v < (sizeof(T) == 1 ? 256u : 65536u); ++v) { oneInt((T)v, ty, sz, heap); ++cnt; }
    for (uint64_t i = 0; i < n; ++i) { if (!oneInt((T)interesting(r, sizeof(T) * 8), ty, sz, heap) && bads > 50) return; ++cnt; }
    evals += cnt;
    for (int i = 0; i < 18; ++i) sizesSeen[slot][i] += sz[i];
}
template <typename T> static void fpType(const char *ty, int slot, uint64_t seed, uint64_t n, bool heap) {
    Rng r(seed + (uint64_t)slot * 77);
    uint64_t sz[18] = {};
    for (uint64_t i = 0; i < n; ++i) {
        T v; unsigned char b[16]; uint64_t x = r.next(), y = r.next(); memcpy(b, &x, 8); memcpy(b + 8, &y, 8);
        if (sizeof(T) == 16) { // valid 80-bit patterns: explicit integer bit
            if (i % 4 == 0) v = (T)ldexpl((long double)(int64_t)x, (int)(y % 30000) - 15000);
            else if (i % 4 == 1) v = (T)(int64_t)x / (T)3; else if (i % 4 == 2) v = (T)(double)(int)x; else v = i % 8 == 3 ? (T)INFINITY : -(T)0;
        } else {
            memcpy(&v, b, sizeof(T));
            switch (i % 8) { case 0: v = (T)(int)x; break; case 1: v = (T)INFINITY; break; case 2: v = -(T)0; break; case 3: v = (T)NAN; break; default: break; }
        }
        if (!one(v, ty, sz, heap) && bads > 50) return;
        if (sz[sizeof(T)] == 0 && i == 0) bad(std::string("size ") + ty, "not packed at its own size");
    }
    evals += n;
    for (int i = 0; i < 18; ++i) sizesSeen[slot][i] += sz[i];
}
template <typename T> static void exhaust32(const char *ty, uint64_t lo, uint64_t hi) {
    uint64_t sz[18] = {};
    for (uint64_t x = lo; x < hi; ++x) {
        uint32_t w = (uint32_t)x; T v; memcpy(&v, &w, 4);
        unsigned char buf[16]; uint64_t pat = 0xA5A5A5A5A5A5A5A5ULL; memcpy(buf, &pat, 8); memcpy(buf + 8, &pat, 8);
        char *p = (char *)buf; int code = pack(&p, v); long n = p - (char *)buf;
        uint64_t tail; memcpy(&tail, buf + 4, 8);
        buf[n] = 0xEE; if (n < 15) buf[n + 1] = 0xEE;
        const char *in = (const char *)buf; T back = unpack<T>(&in, (uint8_t)(code & 0xf));
        if (tail != pat || in != p || n != lenOf(code) || memcmp(&back, &v, 4)) { bool h = one(v, ty, sz, false); if (h) bad(std::string("exhaustive ") + ty, "value " + hex(v)); if (bads > 20) return; }
        if (std::is_integral<T>::value && n != (w ? minBytes((typename std::conditional<std::is_integral<T>::value, T, int>::type)v) : 1)) { bad(std::string("minimal ") + ty, "value " + hex(v)); if (bads > 20) return; }
    }
    evals += hi - lo;
}
// ---- sequences ---------------------------------------------------------
enum Ty { U8, U16, U32, U64, I32, I64, LL, ULL, PTR, DBL, FLT, LDB, NTY };
struct Val { int ty; unsigned char b[16]; };
static void sequences(uint64_t seed, uint64_t n, bool heap) {
    Rng r(seed);
    uint64_t vals = 0;
    for (uint64_t it = 0; it < n; ++it) {
        int k = r.below(20) == 0 ? 1 + (int)r.below(255) : 1 + (int)r.below(12);
        std::vector<Val> vs((size_t)k);
        std::vector<char> tmp((size_t)k * 16 + 64, 0x33);
        char *p = tmp.data();
        size_t nn = (size_t)(k + 1) / 2;
        std::vector<unsigned char> nib(nn, 0);
        TwoNibbles *tn = (TwoNibbles *)nib.data();
        for (int i = 0; i < k; ++i) {
            Val &v = vs[(size_t)i]; memset(&v, 0, sizeof v);
            v.ty = (int)r.below(NTY);
            uint64_t x = interesting(r, 64); int code = 0;
#define PK(T) { T t = (T)x; memcpy(v.b, &t, sizeof t); code = pack(&p, t); }
            switch (v.ty) {
                case U8: PK(uint8_t) break; case U16: PK(uint16_t) break; case U32: PK(uint32_t) break; case U64: PK(uint64_t) break;
                case I32: PK(int32_t) break; case I64: PK(int64_t) break; case LL: PK(long long) break; case ULL: PK(unsigned long long) break;
                case PTR: { const void *q = (const void *)x; memcpy(v.b, &q, 8); code = pack(&p, q); break; }
                case DBL: { double t; memcpy(&t, &x, 8); memcpy(v.b, &t, 8); code = pack(&p, t); break; }
                case FLT: { float t; memcpy(&t, &x, 4); memcpy(v.b, &t, 4); code = pack(&p, t); break; }
                default: { long double t = (long double)(int64_t)x / 7; memcpy(v.b, &t, 10); code = pack(&p, t); break; }
            }
            if (i % 2 == 0) tn[i / 2].first = (uint8_t)(code & 0xf); else tn[i / 2].second = (uint8_t)(code & 0xf);
        }
        size_t bytes = (size_t)(p - tmp.data());
        char *ex = (char *)malloc(nn + bytes);
        memcpy(ex, nib.data(), nn); memcpy(ex + nn, tmp.data(), bytes);
        if (k % 2) ((TwoNibbles *)ex)[k / 2].second = (uint8_t)r.below(16);    // the unused half must not matter
        if (getSizeOfPackedValues((TwoNibbles *)ex, (uint32_t)k) != bytes) bad("sequence-size", "k=" + std::to_string(k) + " expected " + std::to_string(bytes) + " got " + std::to_string(getSizeOfPackedValues((TwoNibbles *)ex, (uint32_t)k)));
        Nibbler nb_(ex, k);
        if (nb_.getEndOfPackedArguments() != ex + nn + bytes) bad("sequence-end", "k=" + std::to_string(k));
        else for (int i = 0; i < k; ++i) {
            Val &v = vs[(size_t)i]; unsigned char g[16] = {};
#define UP(T, N) { T t = nb_.getNext<T>(); memcpy(g, &t, N); }
            switch (v.ty) {
                case U8: UP(uint8_t, 1) break; case U16: UP(uint16_t, 2) break; case U32: UP(uint32_t, 4) break; case U64: UP(uint64_t, 8) break;
                case I32: UP(int32_t, 4) break; case I64: UP(int64_t, 8) break; case LL: UP(long long, 8) break; case ULL: UP(unsigned long long, 8) break;
                case PTR: UP(const void *, 8) break; case DBL: UP(double, 8) break; case FLT: UP(float, 4) break; default: UP(long double, 10) break;
            }
            if (memcmp(g, v.b, 16)) { bad("sequence", "value " + std::to_string(i) + " of " + std::to_string(k) + " type " + std::to_string(v.ty)); break; }
            ++vals;
        }
        free(ex);
        if (bads > 20) break;
    }
    (void)heap;
    evals += vals;
    printf("STAT sequences %lu\nSTAT sequence_values %lu\n", n, vals);
}
int main(int argc, char **argv) {
    (void)argc;
    std::string mode = argv[1]; uint64_t seed = strtoull(argv[2], 0, 10), n = strtoull(argv[3], 0, 10);
    bool heap = atoi(argv[4]);
    if (mode == "types") {
        intType<bool>("bool", 0, seed, 0, heap); 
        intType<unsigned char>("uchar", 1, seed, n / 20, heap); intType<unsigned short>("ushort", 2, seed, n / 20, heap);
        intType<unsigned int>("uint", 3, seed, n, heap); intType<unsigned long>("ulong", 4, seed, n, heap);
        intType<unsigned long long>("ulonglong", 5, seed, n, heap); intType<int>("int", 6, seed, n, heap);
        intType<long>("long", 7, seed, n, heap); intType<long long>("longlong", 8, seed, n, heap);
        intType<size_t>("size_t", 9, seed, n / 10, heap); intType<ptrdiff_t>("ptrdiff_t", 10, seed, n / 10, heap);
        intType<intmax_t>("intmax_t", 11, seed, n / 10, heap); intType<uintmax_t>("uintmax_t", 12, seed, n / 10, heap);
        intType<short>("short", 13, seed, n / 20, heap); intType<signed char>("schar", 14, seed, n / 20, heap);
        intType<wint_t>("wint_t", 15, seed, n / 20, heap); 
        fpType<float>("float", 20, seed, n / 4, heap); fpType<double>("double", 21, seed, n / 4, heap); fpType<long double>("longdouble", 22, seed, n / 4, heap);
        Rng r(seed + 5); uint64_t sz[18] = {};
        for (uint64_t i = 0; i < n / 4; ++i) { void *p = (void *)interesting(r, 64); one(p, "void*", sz, heap); const void *q = (const void *)interesting(r, 64); one(q, "const void*", sz, heap);
            if (bads > 50) break; }
        evals += n / 2;
        int classes = 0; for (auto &s : sizesSeen) for (int i = 1; i < 17; ++i) if (s[i]) ++classes;
        printf("STAT type_size_classes %d\n", classes);
    } else if (mode == "seq") sequences(seed, n, heap);
    else {
        std::vector<std::thread> ts;
        unsigned T = std::thread::hardware_concurrency(); if (!T) T = 4;
        uint64_t all = 1ULL << 32, stride = all / T;
        for (unsigned k = 0; k < T; ++k) ts.emplace_back([=] {
            uint64_t lo = k * stride, hi = k + 1 == T ? all : lo + stride;
            if (n == 0) exhaust32<uint32_t>("uint32", lo, hi); else if (n == 1) exhaust32<int32_t>("int32", lo, hi); else exhaust32<float>("float", lo, hi);
        });
        for (auto &t : ts) t.join();
        printf("STAT exhaustive_32bit_types 1\n");
    }
    printf("STAT evaluations %lu\n", evals.load());
    return bads ? 1 : 0;
}
