// Typed argument records (C14): canonical text of every logged value, and the
// same text made from what the decoder's iterator reports.
#pragma once
#include <x86intrin.h>
#include <map>
#include <string>
#include "fmtgen.h"
#include "Log.h"
static inline uint64_t tick() { _mm_lfence(); uint64_t t = __rdtsc(); _mm_lfence(); return t; }
template <typename T> void canon(std::string &o, T v) {
    // bit pattern, so that NaN payloads and signs count
    unsigned char b[sizeof(T)]; memcpy(b, &v, sizeof v);
    char h[3]; o += std::to_string(sizeof(T)) + ":";
    for (size_t i = 0; i < sizeof(T); ++i) { snprintf(h, 3, "%02x", b[i]); o += h; }
    o += ";";
}
template <typename C> void canonStr(std::string &o, const C *s, int prec) {
    size_t n = 0; while ((prec < 0 || n < (size_t)prec) && s[n]) ++n;
    o += "s" + std::to_string(n) + ":"; o.append((const char *)s, n * sizeof(C)); o += ";";
}
struct Rec { uint64_t t0, t1; std::string a; };
extern std::vector<Rec> recs;
extern size_t recAt;
extern long typedBad, typedArgs;
extern std::map<std::string, uint32_t> nameToId;
static inline void argsOut(const std::string &a, uint64_t t0, uint64_t t1) { recs.push_back(Rec{t0, t1, a}); }
static inline void tb(const char *key, const std::string &w) { if (typedBad++ < 5) printf("BAD %s: %s\n", key, w.c_str()); }
static inline std::string show(const std::string &a, size_t at) { return a.substr(at > 20 ? at - 20 : 0, 100); }
static inline void argsCheck(const char *name, NanoLogInternal::Log::LogMessage &m, const std::string &a, int n, int ld) {
    Rec &e = recs[recAt++];
    std::string at = "message " + std::to_string(recAt - 1) + " (" + name + ")";
    if (!m.valid()) tb("valid", at + ": not valid");
    if (m.getNumArgs() != n) tb("count", at + ": reports " + std::to_string(m.getNumArgs()) + " arguments, logged " + std::to_string(n));
    if (a != e.a) { size_t d = 0; while (d < a.size() && d < e.a.size() && a[d] == e.a[d]) ++d; tb("value", at + ": argument values differ: logged ..." + show(e.a, d) + " reported ..." + show(a, d)); }
    if (m.getTimestamp() < e.t0 || m.getTimestamp() > e.t1) tb("timestamp", at + ": timestamp outside the log call");
    auto it = nameToId.emplace(name, m.getLogId());
    if (!it.second && it.first->second != m.getLogId()) tb("id", at + ": another log id than before");
    typedArgs += n; (void)ld;
}
