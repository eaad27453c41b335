// Shared by the generated programs of C02. With -DREF, NANO_LOG is a macro that formats at
// once with vsnprintf: the reference behaviour of the same source text.
#pragma once
#include <stddef.h>
#include <stdint.h>
#ifdef REF
#include <stdarg.h>
namespace NanoLog { namespace LogLevels { enum LogLevel { SILENT_LOG_LEVEL = 0, ERROR, WARNING, NOTICE, DEBUG, NUM_LOG_LEVELS }; } }
void refLog(const char *file, int line, NanoLog::LogLevels::LogLevel lv, const char *fmt, ...) __attribute__((format(printf, 4, 5)));
#define NANO_LOG(lv, ...) refLog(__FILE__, __LINE__, lv, __VA_ARGS__)
#else
#include "NanoLog.h"
#endif
#include <inttypes.h>
#include <stdio.h>
#include <string.h>
#include <wchar.h>
#include <algorithm>
#include <functional>
#include <string>
#include <utility>
#include <vector>
using namespace NanoLog::LogLevels;
// argument side effects: each evaluation of ev(k) changes the next value of ev(k)
extern int evals[];
extern std::vector<int> trace;
inline int ev(int k) { int n = evals[k]++; return (int)((unsigned)(k * 2654435761u + (unsigned)n * 40503u) >> (k % 29)); }
inline bool evb(int k) { return ev(k) & 1; }
inline const char *evs(int k) { static const char *const t[] = {"", "a", "two words", "per%cent", "q\"uote", "NANO_LOG(DEBUG, \"x\");", "line\nbreak", "long long long long long long string"}; return t[(unsigned)ev(k) % 8]; }
inline const wchar_t *evw(int k) { static const wchar_t *const t[] = {L"", L"w", L"wide words", L"%d"}; return t[(unsigned)ev(k) % 4]; }
inline double evd(int k) { return ev(k) / 7.0; }
inline void tr(int k) { trace.push_back(k); }
inline int add(int a, int b) { return a + b; }
template <class A, class B> struct Two { static const int v = (int)(sizeof(A) * 10 + sizeof(B)); static int f(A a, B b) { return (int)(a + b); } };
struct Pt { int x, y; int operator()(int a, int b) const { return a * x + b * y; } int operator[](int i) const { return i ? y : x; } };
