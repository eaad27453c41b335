// Argument memory: strings whose last readable byte (terminator, or last byte within the
// precision) is followed by an inaccessible page, taken away as soon as the call returns.
//   guard SEED N     logs N messages to ./log, expected text to ./side (level line len\ntext\n)
#include <stddef.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <unistd.h>
#include <wchar.h>
#include <string>
#include <thread>
#include <vector>
#ifdef PREPROCESSOR_NANOLOG
#include "NanoLog.h"
#else
#include "NanoLogCpp17.h"
#endif
using namespace NanoLog::LogLevels;
struct Rng { uint64_t s; uint64_t next() { uint64_t z = (s += 0x9E3779B97F4A7C15ULL); z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL; z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL; return z ^ (z >> 31); } uint64_t below(uint64_t n) { return n ? next() % n : 0; } };
static Rng rnd;
static FILE *side;
static long logged, strings;
static const size_t PG = 4096;

// A window of `pages` readable pages between two inaccessible ones.
struct Guard {
    char *map; size_t pages;
    explicit Guard(size_t p) : map(nullptr), pages(p) {
        map = (char *)mmap(nullptr, (pages + 2) * PG, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
        if (map == MAP_FAILED) abort();
        mprotect(map + PG, pages * PG, PROT_READ | PROT_WRITE);
    }
    char *lo() { return map + PG; }
    char *hi() { return map + PG + pages * PG; }
    void lock() { memset(lo(), 0xEE, pages * PG); mprotect(lo(), pages * PG, PROT_NONE); }
    void unlock() { mprotect(lo(), pages * PG, PROT_READ | PROT_WRITE); }
};
// Buffers of the message being built; locked after it was logged.
static std::vector<Guard *> &pool = *new std::vector<Guard *>;
static size_t used;
static Guard &take(size_t bytes) {
    size_t need = (bytes + PG - 1) / PG; if (!need) need = 1;
    while (true) {
        if (used == pool.size()) pool.push_back(new Guard(need < 4 ? 4 : need));
        Guard *g = pool[used++];
        g->unlock();
        if (g->pages >= need) { ++strings; return *g; }
    }
}
static void release() { for (size_t i = 0; i < used; ++i) pool[i]->lock(); used = 0; }
static long len() {
    switch (rnd.below(10)) {
        case 0: return 0; case 1: return 1; case 2: return (long)rnd.below(9);
        case 8: return 4090 + (long)rnd.below(12); case 9: return (long)rnd.below(9000);
        default: return (long)rnd.below(120);
    }
}
// A string for a conversion with precision prec (< 0: none). The copy is always terminated.
template <class C> struct Str {
    C *p; std::basic_string<C> copy;
    explicit Str(long prec) {
        long n = len();
        if (prec >= 0 && rnd.below(2)) n = prec;
        bool term = prec < 0 || n < prec;           // with the precision reached no terminator need exist
        size_t bytes = (size_t)(term ? n + 1 : (prec < n ? prec : n)) * sizeof(C);
        long m = term ? n : (long)(bytes / sizeof(C));
        Guard &g = take(bytes);
        p = (C *)(rnd.below(8) || !term ? g.hi() - bytes : g.lo());
        for (long i = 0; i < m; ++i) p[i] = (C)(' ' + rnd.below(94));
        copy.assign(p, (size_t)m);
        if (term) p[m] = 0;
    }
    const C *c() const { return copy.c_str(); }
};
typedef Str<char> S;
typedef Str<wchar_t> W;
static void expect(const char *lv, int line, const char *fmt, ...) __attribute__((format(printf, 3, 4)));
#include <stdarg.h>
static void expect(const char *lv, int line, const char *fmt, ...) {
    va_list a; char *t = nullptr;
    va_start(a, fmt); int n = vasprintf(&t, fmt, a); va_end(a);
    if (n < 0) abort();
    fprintf(side, "guard.cc\t%d\t%s\t%d\n", line, lv, n); fwrite(t, 1, (size_t)n, side); fputc('\n', side); free(t);
}
static int prec() { switch (rnd.below(6)) { case 0: return 0; case 1: return 1; case 2: return (int)rnd.below(9); case 3: return 4000 + (int)rnd.below(200); default: return (int)rnd.below(200); } }
#define P(x) ((const decltype((x).copy)::value_type *)(x).p)

static void one() {
    switch (rnd.below(24)) {
        case 0: { S a(-1); expect("NOTICE", __LINE__, "%s", a.c()); NANO_LOG(NOTICE, "%s", P(a)); break; }
        case 1: { int n = prec(); S a(n); expect("NOTICE", __LINE__, "%.*s", n, a.c()); NANO_LOG(NOTICE, "%.*s", n, P(a)); break; }
        case 2: { S a(0); expect("ERROR", __LINE__, "[%.0s]", a.c()); NANO_LOG(ERROR, "[%.0s]", P(a)); break; }
        case 3: { S a(1); expect("NOTICE", __LINE__, "%.1s|", a.c()); NANO_LOG(NOTICE, "%.1s|", P(a)); break; }
        case 4: { S a(5); expect("WARNING", __LINE__, "%10.5s|", a.c()); NANO_LOG(WARNING, "%10.5s|", P(a)); break; }
        case 5: { S a(17); int w = (int)rnd.below(30); expect("DEBUG", __LINE__, "%-*.17s|", w, a.c()); NANO_LOG(DEBUG, "%-*.17s|", w, P(a)); break; }
        case 6: { int w = (int)rnd.below(60) - 30, n = prec(); S a(n); expect("NOTICE", __LINE__, "%*.*s|", w, n, a.c()); NANO_LOG(NOTICE, "%*.*s|", w, n, P(a)); break; }
        case 7: { int n = -1 - (int)rnd.below(5); S a(-1); expect("NOTICE", __LINE__, "%.*s", n, a.c()); NANO_LOG(NOTICE, "%.*s", n, P(a)); break; }
        case 8: { S a(-1), b(3); int n = prec(); S d(n); expect("NOTICE", __LINE__, "%s %.3s %.*s", a.c(), b.c(), n, d.c()); NANO_LOG(NOTICE, "%s %.3s %.*s", P(a), P(b), n, P(d)); break; }
        case 9: { W a(-1); expect("NOTICE", __LINE__, "%ls", a.c()); NANO_LOG(NOTICE, "%ls", P(a)); break; }
        case 10: { int n = prec(); W a(n); expect("NOTICE", __LINE__, "%.*ls", n, a.c()); NANO_LOG(NOTICE, "%.*ls", n, P(a)); break; }
        case 11: { W a(0); expect("NOTICE", __LINE__, "<%.0ls>", a.c()); NANO_LOG(NOTICE, "<%.0ls>", P(a)); break; }
        case 12: { W a(4); S b(2); expect("NOTICE", __LINE__, "%7.4ls %.2s %d", a.c(), b.c(), 5); NANO_LOG(NOTICE, "%7.4ls %.2s %d", P(a), P(b), 5); break; }
        case 13: { S a(-1); expect("NOTICE", __LINE__, "%s at %p", a.c(), (void *)a.p); NANO_LOG(NOTICE, "%s at %p", P(a), (void *)a.p); break; }
        case 14: { char *no = pool.empty() ? nullptr : pool[0]->map; expect("NOTICE", __LINE__, "%p", (void *)no); NANO_LOG(NOTICE, "%p", (void *)no); break; }
        case 15: { S a(-1); int x = (int)rnd.next(); double f = x / 3.0; expect("NOTICE", __LINE__, "%d %s %f %c", x, a.c(), f, 'q'); NANO_LOG(NOTICE, "%d %s %f %c", x, P(a), f, 'q'); break; }
        case 16: { S a(-1); const char *q = P(a); int x = (int)rnd.next(); expect("NOTICE", __LINE__, "%5s|%-5s|%x", a.c(), a.c(), (unsigned)x); NANO_LOG(NOTICE, "%5s|%-5s|%x", q, q, (unsigned)x); break; }
        case 17: { long double v = (long double)rnd.next() / 7; S a(9); expect("NOTICE", __LINE__, "%Lf %.9s", v, a.c()); NANO_LOG(NOTICE, "%Lf %.9s", v, P(a)); break; }
        case 18: { int n = prec(); S a(n); W b(-1); expect("WARNING", __LINE__, "%*d %.*s %ls", 9, 4, n, a.c(), b.c()); NANO_LOG(WARNING, "%*d %.*s %ls", 9, 4, n, P(a), P(b)); break; }
        case 19: { S a(100); int n = 3; expect("NOTICE", __LINE__, "%.100s %.*d", a.c(), n, 5); NANO_LOG(NOTICE, "%.100s %.*d", P(a), n, 5); break; }
        case 20: { signed char h = (signed char)rnd.next(); short sh = (short)rnd.next(); S a(-1); expect("NOTICE", __LINE__, "%hhd%hd%s%lld", h, sh, a.c(), (long long)rnd.s); NANO_LOG(NOTICE, "%hhd%hd%s%lld", h, sh, P(a), (long long)rnd.s); break; }
        case 21: { int m = (int)rnd.below(40); int n = prec(); W a(n); S b(m); expect("NOTICE", __LINE__, "%.*ls%.*s", n, a.c(), m, b.c()); NANO_LOG(NOTICE, "%.*ls%.*s", n, P(a), m, P(b)); break; }
        case 22: { S a(-1); S b(-1); S d(-1); expect("DEBUG", __LINE__, "%s%s%s", a.c(), b.c(), d.c()); NANO_LOG(DEBUG, "%s%s%s", P(a), P(b), P(d)); break; }
        default: { S a(4095); expect("NOTICE", __LINE__, "%.4095s", a.c()); NANO_LOG(NOTICE, "%.4095s", P(a)); break; }
    }
    ++logged;
    release();
}
int main(int argc, char **argv) {
    if (argc < 3) return 3;
    rnd.s = strtoull(argv[1], nullptr, 10);
    long n = atol(argv[2]);
    side = fopen("side", "w");
    NanoLog::setLogFile("log");
    NanoLog::setLogLevel(DEBUG);
    for (long i = 0; i < n; ++i) {
        one();
        if (i % 97 == 96) NanoLog::sync();
    }
    NanoLog::sync();
    fclose(side);
    printf("%ld %ld\n", logged, strings);
    return 0;
}
