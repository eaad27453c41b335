// Hand-written argument categories for the C++17 front end: literals, temporaries,
// side effects, references, nullptr, templates, constexpr members, lambdas...
#include "NanoLogCpp17.h"
#include "fmtgen.h"
#include <atomic>
using namespace NanoLog::LogLevels;
static int evals;
static int bump(int v) { ++evals; return v; }
static const char *sbump(const char *s) { ++evals; return s; }
// L(level, fmt, args...): expectation first, then the log; arguments are evaluated once each
#define L(lv, ...) do { expectText(__LINE__, #lv, __VA_ARGS__); NANO_LOG(lv, __VA_ARGS__); } while (0)
#define ONCE(n, lv, ...) do { expectText(__LINE__, #lv, __VA_ARGS__); evals = 0; NANO_LOG(lv, __VA_ARGS__); \
    if (evals != (n)) { fprintf(stderr, "line %d: arguments evaluated %d times instead of %d\n", __LINE__, evals, n); exit(9); } } while (0)
struct S { static constexpr int K = 41; int bf : 5; unsigned ub : 7; const char *name; char inl[16]; std::string str; };
template <typename T> static void tmpl(T v, const char *n) { L(NOTICE, "template %s size %zu value %lld", n, sizeof(T), (long long)v); }
template <int N> static void tmplN() { L(WARNING, "template N=%d %s", N, N & 1 ? "odd" : "even"); }
static inline void inl(int x) { L(DEBUG, "inline %d", x); }
static std::string mk(int n) { return std::string((size_t)n, 'q'); }
void runTUX(uint64_t seed) {
    Rng r(seed);
    for (int rep = 0; rep < 40; ++rep) {
        L(NOTICE, "literal only");
        L(NOTICE, "");
        L(ERROR, "%s", "a string literal");
        L(ERROR, "%s|%s", rep & 1 ? "odd" : "even number", "");
        L(DEBUG, "%.*s|", rep % 7, "precision on a literal");
        L(DEBUG, "%.3s|%10.2s|%-10.2s|%.0s|", "abcdef", "xyz", "xyz", "gone");
        std::string t = mk(rep * 3);
        L(NOTICE, "std::string %s", t.c_str());
        { int n = rep * 5; std::string e = mk(n); expectText(__LINE__ + 1, "NOTICE", "temporary %s %d", e.c_str(), n);
          NANO_LOG(NOTICE, "temporary %s %d", mk(n).c_str(), n); }
        const char ca[] = "const array"; char ma[] = "mutable array"; char big[100]; snprintf(big, sizeof big, "filled %d", rep);
        L(NOTICE, "%s %s %s", ca, ma, big);
        L(NOTICE, "%p %p %p", (void *)nullptr, (const void *)ca, (void *)&rep);
        { const void *np = nullptr; L(NOTICE, "%p", np); }
        S s{}; s.bf = rep % 16; s.ub = (unsigned)rep; s.name = "nm"; strcpy(s.inl, "inlined"); s.str = "member";
        L(WARNING, "%d %d %u %s %s %s", S::K, s.bf, s.ub, s.name, s.inl, s.str.c_str());
        const int ci = rep; const int &cr = ci; volatile int vi = rep * 7; std::atomic<int> at(rep);
        L(WARNING, "%d %d %d %d", ci, cr, vi, at.load());
        ONCE(3, NOTICE, "%d %s %d", bump(rep), sbump("once"), bump(-rep));
        ONCE(2, NOTICE, "%*d", bump(8), bump(rep));
        ONCE(2, NOTICE, "%.*s|", bump(2), sbump("twice"));
        tmpl<int>(rep, "int"); tmpl<char>((char)rep, "char"); tmpl<unsigned short>((unsigned short)rep, "ushort"); tmpl<long>(-rep, "long");
        tmplN<1>(); tmplN<2>(); tmplN<3>();
        inl(rep);
        auto lam = [&](int z) { L(NOTICE, "lambda %d %d", z, rep); };
        lam(rep); lam(-rep);
        if (rep & 1) L(NOTICE, "in if without braces %d", rep); else L(NOTICE, "in else %d", rep);
        switch (rep % 3) { case 0: L(NOTICE, "case 0"); break; case 1: L(NOTICE, "case %d", 1); break; default: L(NOTICE, "default"); }
        for (int k = 0; k < 3; ++k) L(DEBUG, "loop %d/%d", k, rep);
        L(NOTICE, "%d %ld %lld %hd %hhd %jd %zd %td", -1, -1L, -1LL, (short)-1, (signed char)-1, (intmax_t)-1, (ssize_t)-1, (ptrdiff_t)-1);
        L(NOTICE, "%u %lu %llu %hu %hhu %ju %zu", ~0u, ~0ul, ~0ull, (unsigned short)~0, (unsigned char)~0, ~(uintmax_t)0, ~(size_t)0);
        L(NOTICE, "%d%%%d%%%%%s%%", 1, 2, "x");
        L(NOTICE, "%5s|%-5s|%05d|%+d|% d|%#x|%#o|%e|%g|%a", "ab", "ab", 42, 42, 42, 255, 8, 1.5, 1e100, 0.1);
        L(NOTICE, "%f %f %Lf %f", 1.0f, 2.0, 3.0L, -0.0);
        L(NOTICE, "%ls %s %ls %d %ls", L"wide", "narrow", L"", rep, L"odd offset");
        L(NOTICE, "x%ls", L"one byte header");
        L(NOTICE, "%s%ls%s%ls", "a", L"bc", "def", L"ghij");
        L(NOTICE, "%.2ls|%.*ls|", L"wide", rep % 6, L"widest");
        L(NOTICE, "%c%c%c", 'a', 0, 255);
        { const unsigned char uc[] = "unsigned chars"; unsigned char um[] = "more"; const signed char sc[] = {'s', 'c', 0};
          L(NOTICE, "%s %s %.3s %s %p %d", uc, um, uc, sc, (const void *)uc, rep); 
          L(NOTICE, "%.*s|%p|%s", rep % 20, uc, uc, "end"); }
        L(NOTICE, "%d %d %d %d %d %d %d %d %d %d %d %d %s %d %s", 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, "thirteen", 14, "fifteen");
        L(NOTICE, "%s%s%s%s%s%s%s%s%s%s%s%s", "a", "", "b", "", "", "c", "d", "", "e", "f", "", "");
        L(NOTICE, "adjacent " "literals " "%d" " and %s", rep, "more");
        L(NOTICE, R"(raw \n string "%s" %d)", "raw", rep);
#line 70000
        L(NOTICE, "high line");
#line 2147480000
        L(NOTICE, "very high line");
#line 300
        L(NOTICE, "line again %d", rep);
    }
    static char huge[400001]; memset(huge, 'h', 400000); huge[400000] = 0;
    L(NOTICE, "%s", huge);
    L(NOTICE, "%d %.100000s %d", 1, huge, 2);
    L(NOTICE, "after %d", 3);
}
