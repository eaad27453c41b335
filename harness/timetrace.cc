// Workload and monitors for PerfUtils::TimeTrace (C19). Prints "BAD key: what"
// for every violation, and "STAT name value" lines.
#include <fcntl.h>
#include <math.h>
#include <pthread.h>
#include <signal.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <time.h>
#include <unistd.h>
#include <algorithm>
#include <atomic>
#include <map>
#include <memory>
#include <sstream>
#include <string>
#include <thread>
#include <vector>
#include "Cycles.h"
#include "TimeTrace.h"
using PerfUtils::TimeTrace;
using PerfUtils::Cycles;

struct Rng {
    uint64_t s;
    explicit Rng(uint64_t x) : s(x * 0x9E3779B97F4A7C15ULL + 1) { next(); }
    uint64_t next() { uint64_t z = (s += 0x9E3779B97F4A7C15ULL); z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL; z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL; return z ^ (z >> 31); }
    uint64_t below(uint64_t n) { return n ? next() % n : 0; }
};
static int bads = 0;
static void bad(const std::string &k, const std::string &w) { if (bads++ < 20) printf("BAD %s: %s\n", k.c_str(), w.c_str()); fflush(stdout); }
static double cps;
static size_t CAP = 8191;

struct E { uint64_t ts; const char *f; uint32_t a[4]; };
static const char *FMT[] = {"plain event", "one %u", "two %d %x", "three %u,%u;%u", "four %08x %u %u %c.", "%u%% done of %u", "%5d|%-8u|%u", "tail",
  "long iekf,k.kj a.h,djacbfh.dg bidakdgec.,gc,,bciihcca.ad,dc.cefd jjdckdgeafgccebfe.iiaijkfbef.ehkfchhkcaeakf.ga ,gfgi.ahakcidb,d.hf f e,hbik,,f.eagbdf ifcfek bejfec,bjckkehckabi gadkif.ehjgcaja,hf.dckicj,gbcgfca.gechi.c hhkkfheehgcbg. cjh.fcbhe , . fb,,,fkija,ef kje.he,kkefjci.ah ,efjehe. jj,ffejfk.gf.c..khff c cd.f.hekbkjkgci,i jgei ,.jekadcihijcd,jcjkahdcacbfchd aghfgjibiddkfafge.g.bk. fa iebe  fief.cgg.ij fhccigihdcibf.jagbfii cfjigggdheh %u"
  "kgg.ciiekehegafehechabjihdea,c.gah  edh,adhe.ckeehih j.ikba,cee kfiek ahffjk.icaae hjbj dag,,giikkjjh..ghgj.kdeh.,be.ak,giej,hecchk hf cgi ,abkde.b,bjafkgbgkhab.bdij.bkcekhccicg,cbida bjgkbeaiibkgicagbfjihhfjfackecijj e  ideb de.,e c,d.fhkgcckajfbijab.b ihdghhfb, a kga.cgj,dkbbjh.dckigf.defikf,ggck.fje,jg.f aiidkcgbbaacddahhj,fagheigfhhbdcjcbf.g.hc ebe.c,ejdahaf,ffakajhh.cb,jfehjdkcadkaidjbigkfjechfebkkhc,dcjdajigkeahah,jgcaa .. ifbkbd, %u %u end", "%60u %%%-200u|"};
static std::string text(const E &e) {
    char m[1000];
#pragma GCC diagnostic ignored "-Wformat-nonliteral"
#pragma GCC diagnostic ignored "-Wformat-security"
    snprintf(m, sizeof m, e.f, e.a[0], e.a[1], e.a[2], e.a[3]);
    return m;
}
struct Line { double ns, delta; std::string text; };
static bool parse(const std::string &s, std::vector<Line> &out, std::string &err) {
    std::istringstream is(s);
    std::string l;
    while (std::getline(is, l)) {
        Line x;
        char *p, *q;
        x.ns = strtod(l.c_str(), &p);
        if (strncmp(p, " ns (+", 6)) { err = l; return false; }
        x.delta = strtod(p + 6, &q);
        if (strncmp(q, " ns): ", 6)) { err = l; return false; }
        x.text = q + 6;
        out.push_back(x);
    }
    return true;
}
static std::string readAll(const std::string &p) {
    FILE *f = fopen(p.c_str(), "r"); if (!f) return "<missing>";
    std::string s; char b[65536]; size_t n;
    while ((n = fread(b, 1, sizeof b, f)) > 0) s.append(b, n);
    fclose(f); return s;
}
static const char *NONE = "No time trace events to print";

// the reference: events of all threads -> expected lines
static uint64_t evals = 0, linesSeen = 0, wrapped = 0, distinct = 0;
static void judge(const std::string &key, const std::vector<std::vector<E>> &hist, const std::string &got) {
    ++evals;
    std::vector<std::vector<E>> ret;
    uint64_t start = 0; size_t total = 0;
    for (auto &h : hist) {
        size_t n = std::min(h.size(), CAP);
        if (h.size() > CAP) ++wrapped;
        ret.emplace_back(h.end() - (long)n, h.end());
        if (n) start = std::max(start, ret.back()[0].ts);
        total += n;
    }
    if (!total) {
        std::string g = got; while (!g.empty() && g.back() == '\n') g.pop_back();
        if (g != NONE) bad(key, "empty trace printed as \"" + got.substr(0, 100) + "\"");
        return;
    }
    struct X { uint64_t ts; std::string t; };
    std::vector<X> exp;
    for (auto &r : ret) for (auto &e : r) if (e.ts >= start) exp.push_back({e.ts, text(e)});
    std::stable_sort(exp.begin(), exp.end(), [](const X &a, const X &b) { return a.ts < b.ts; });
    std::vector<Line> ls; std::string err;
    if (!parse(got, ls, err)) { bad(key, "unparsable line: " + err.substr(0, 200)); return; }
    linesSeen += ls.size();
    // first mismatch, treating equal timestamps of different threads as unordered
    size_t i = 0;
    double prev = 0;
    if (ls.size() != exp.size()) {
        size_t k = 0; while (k < ls.size() && k < exp.size() && ls[k].text == exp[k].t) ++k;
        bad(key, "printed " + std::to_string(ls.size()) + " events, expected " + std::to_string(exp.size()) + "; first difference at line " + std::to_string(k) +
            ": expected \"" + (k < exp.size() ? exp[k].t : "end") + "\" got \"" + (k < ls.size() ? ls[k].text : "end") + "\"");
        return;
    }
    while (i < exp.size()) {
        size_t j = i; while (j < exp.size() && exp[j].ts == exp[i].ts) ++j;
        std::vector<std::string> a, b;
        for (size_t k = i; k < j; ++k) { a.push_back(exp[k].t); b.push_back(ls[k].text); }
        std::sort(a.begin(), a.end()); std::sort(b.begin(), b.end());
        if (a != b) { bad(key, "line " + std::to_string(i) + ": expected \"" + exp[i].t + "\" got \"" + ls[i].text + "\""); return; }
        for (size_t k = i; k < j; ++k) {
            double ns = 1e9 * (double)(exp[k].ts - start) / cps;
            double tol = 0.11 + ns * 1e-9;
            if (fabs(ls[k].ns - ns) > tol || ls[k].delta < 0 || fabs(ls[k].delta - (ns - prev)) > tol) {
                char m[300]; snprintf(m, sizeof m, "line %zu: time %.1f (+%.1f), expected %.1f (+%.1f)", k, ls[k].ns, ls[k].delta, ns, ns - prev);
                bad(key, m); return;
            }
            prev = ns;
        }
        i = j;
    }
}

static std::string dir;
static void model(uint64_t seed, int rounds) {
    Rng r(seed);
    // establish the capacity with one private buffer
    {
        auto b = std::unique_ptr<TimeTrace::Buffer>(new TimeTrace::Buffer);
        for (uint32_t i = 0; i < 20000; ++i) b->record(1000 + i, "n %u", i);
        std::vector<Line> ls; std::string err;
        if (!parse(b->getTrace(), ls, err)) bad("capacity", err);
        CAP = ls.size();
        if (CAP != 8191 && CAP != 8192) { bad("capacity", "a full trace prints " + std::to_string(CAP) + " events (documented capacity 8192)"); CAP = 8191; }
    }
    // private buffers: every length around the wrap points, step by step
    static const long NS[] = {0, 1, 2, 3, 100, 8189, 8190, 8191, 8192, 8193, 8194, 10000, 16382, 16383, 16384, 16385, 24576, 30000};
    for (long n : NS) {
        auto b = std::unique_ptr<TimeTrace::Buffer>(new TimeTrace::Buffer);
        std::vector<std::vector<E>> h(1);
        uint64_t t = 5 + r.below(1000000);
        for (long i = 0; i < n; ++i) {
            E e; e.ts = t; t += 1 + r.below(50); e.f = FMT[r.below(10)];
            for (auto &a : e.a) a = 33 + (uint32_t)r.below(90);
            e.a[0] = (uint32_t)i;
            b->record(e.ts, e.f, e.a[0], e.a[1], e.a[2], e.a[3]); h[0].push_back(e);
        }
        judge("buffer n=" + std::to_string(n), h, b->getTrace());
        std::string f = dir + "/buf.txt"; unlink(f.c_str());
        TimeTrace::setOutputFileName(f.c_str());
        b->print();
        judge("buffer-file n=" + std::to_string(n), h, readAll(f));
        b->reset();
        judge("buffer-reset n=" + std::to_string(n), {{}}, b->getTrace());
        std::vector<std::vector<E>> h2(1);
        for (int i = 0; i < 5; ++i) { E e{t += 10, "after reset %u", {(uint32_t)i, 0, 0, 0}}; b->record(e.ts, e.f, e.a[0]); h2[0].push_back(e); }
        judge("buffer-after-reset n=" + std::to_string(n), h2, b->getTrace());
    }
    // many threads through the static interface
    std::vector<std::vector<E>> hist;
    uint64_t now = 1000;
    for (int round = 0; round < rounds; ++round) {
        int nt = 1 + (int)r.below(6);
        bool live = r.below(2);
        bool ties = r.below(3) == 0;
        uint64_t maxN = r.below(4) == 0 ? 20000 : r.below(2) ? 9000 : 50;
        std::vector<std::vector<E>> h((size_t)nt);
        if (live) {
            // real clock, threads really concurrent
            std::vector<std::thread> ts;
            uint64_t base = Cycles::rdtsc(); (void)base;
            for (int k = 0; k < nt; ++k) {
                uint64_t s = r.next(), n = r.below(maxN);
                ts.emplace_back([&h, k, s, n] {
                    Rng q(s);
                    for (uint64_t i = 0; i < n; ++i) {
                        E e; e.f = FMT[q.below(10)]; for (auto &a : e.a) a = 33 + (uint32_t)q.below(90); e.a[0] = (uint32_t)i;
                        e.ts = Cycles::rdtsc();
                        TimeTrace::record(e.ts, e.f, e.a[0], e.a[1], e.a[2], e.a[3]);
                        h[(size_t)k].push_back(e);
                    }
                });
            }
            for (auto &t : ts) t.join();
        } else {
            // virtual clock, operations interleaved by a random script
            std::vector<std::vector<E>> script((size_t)nt);
            std::vector<uint64_t> left((size_t)nt);
            uint64_t sum = 0;
            for (auto &l : left) { l = r.below(5) == 0 ? 0 : r.below(maxN); sum += l; }
            while (sum) {
                size_t k = r.below((uint64_t)nt);
                if (!left[k]) { for (k = 0; !left[k];) ++k; }
                uint64_t burst = std::min(left[k], 1 + r.below(r.below(20) ? 5 : 3000));
                for (uint64_t b = 0; b < burst; ++b) {
                    E e; e.ts = now; now += ties ? r.below(2) : 1 + r.below(100);
                    e.f = FMT[r.below(10)]; for (auto &a : e.a) a = 33 + (uint32_t)r.below(90);
                    script[k].push_back(e);
                }
                left[k] -= burst; sum -= burst;
            }
            std::vector<std::thread> ts;
            for (int k = 0; k < nt; ++k) ts.emplace_back([&script, &h, k] {
                for (auto &e : script[(size_t)k]) TimeTrace::record(e.ts, e.f, e.a[0], e.a[1], e.a[2], e.a[3]);
                h[(size_t)k] = script[(size_t)k];
            });
            for (auto &t : ts) t.join();
        }
        std::string key = "static round=" + std::to_string(round) + " live=" + std::to_string(live);
        std::string s1 = TimeTrace::getTrace();
        judge(key, h, s1);
        std::string f = dir + "/all.txt"; unlink(f.c_str());
        TimeTrace::setOutputFileName(f.c_str());
        TimeTrace::print();
        std::string s2 = readAll(f);
        while (!s2.empty() && s2.back() == '\n') s2.pop_back();
        if (s1 != s2) bad(key, "file and string output differ");
        TimeTrace::print();    // printing is read-only and appends
        std::string s3 = readAll(f);
        if (s3.compare(0, s2.size(), s2) || s3.size() < 2 * s2.size()) bad(key, "a second print to the same file is not appended");
        if (s1 != TimeTrace::getTrace()) bad(key, "printing a trace changed it");
        ++distinct;
        TimeTrace::reset();
        judge(key + " after reset", {{}}, TimeTrace::getTrace());
    }
}

// concurrent recording and printing
static const char *CF[] = {"r %u %u %08x %u", "R %u %u %08x %u!", "q%u.%u.%08x.%u"};
static uint32_t mix(uint32_t t, uint32_t i, uint32_t f) { uint64_t z = ((uint64_t)t << 40) ^ ((uint64_t)i << 3) ^ f; z *= 0x9E3779B97F4A7C15ULL; return (uint32_t)(z >> 32); }
static bool checkLine(const std::string &l, uint32_t &t, uint32_t &i) {
    uint32_t h, k;
    int n = 0;
    if (sscanf(l.c_str(), "r %u %u %x %u%n", &t, &i, &h, &k, &n) == 4 && (size_t)n == l.size()) return h == mix(t, i, 0) && k == (i ^ 0x5555);
    if (sscanf(l.c_str(), "R %u %u %x %u!%n", &t, &i, &h, &k, &n) == 4 && n && (size_t)n == l.size()) return h == mix(t, i, 1) && k == (i ^ 0x5555);
    if (sscanf(l.c_str(), "q%u.%u.%x.%u%n", &t, &i, &h, &k, &n) == 4 && (size_t)n == l.size()) return h == mix(t, i, 2) && k == (i ^ 0x5555);
    return false;
}
static void concurrent(uint64_t seed, double secs, int nrec, int nprint, bool pauses) {
    std::atomic<bool> stop{false}, finalPhase{false}, quit{false};
    std::atomic<int> ready{0}, done{0};
    std::vector<std::thread> rec, pr;
    std::atomic<uint64_t> prints{0}, lines{0};
    std::vector<std::atomic<uint32_t>> last((size_t)nrec);
    for (int k = 0; k < nrec; ++k) rec.emplace_back([&, k] {
        Rng q(seed + (uint64_t)k);
        uint32_t i = 0;
        auto put = [&] {
            uint32_t f = (uint32_t)q.below(3);
            TimeTrace::record(CF[f], (uint32_t)k, i, mix((uint32_t)k, i, f), i ^ 0x5555);
            ++i; last[(size_t)k].store(i, std::memory_order_release);
        };
        while (!stop) { put(); if (pauses && q.below(64) == 0) sched_yield(); }
        ++ready;
        while (!finalPhase) sched_yield();
        for (int z = 0; z < 200; ++z) put();
        ++done;
        while (!quit) usleep(100);
    });
    std::atomic<int> fileNo{0};
    TimeTrace::setOutputFileName((new std::string(dir + "/conc.txt"))->c_str());
    auto check = [&](const std::string &s, bool fin) {
        if (s == NONE) return;
        std::vector<Line> ls; std::string err;
        if (!parse(s, ls, err)) { bad("concurrent", "line that is not an event: \"" + err.substr(0, 150) + "\""); return; }
        std::map<uint32_t, uint32_t> lastOf; std::map<uint32_t, uint32_t> run;
        for (auto &l : ls) {
            uint32_t t = 0, i = 0;
            if (!checkLine(l.text, t, i) || t >= (uint32_t)nrec) { bad("concurrent", "printed an event that was never recorded: \"" + l.text + "\""); return; }
            auto it = lastOf.find(t);
            if (it != lastOf.end() && i <= it->second) { bad("concurrent", "event " + std::to_string(i) + " of thread " + std::to_string(t) + " printed after its event " + std::to_string(it->second)); return; }
            if (fin) run[t] = (it != lastOf.end() && i == it->second + 1) ? run[t] + 1 : 1;
            if (fin && l.delta < 0) { bad("quiescent", "negative delta"); return; }
            lastOf[t] = i;
            ++lines;
        }
        if (fin) for (int k = 0; k < nrec; ++k) {
            uint32_t n = last[(size_t)k].load();
            if (lastOf[(uint32_t)k] + 1 != n || run[(uint32_t)k] < 200)
                bad("quiescent", "thread " + std::to_string(k) + " recorded events up to " + std::to_string(n - 1) + " after printing ended; the trace ends at " + std::to_string(lastOf[(uint32_t)k]) + " after " + std::to_string(run[(uint32_t)k]) + " consecutive events");
        }
    };
    for (int p = 0; p < nprint; ++p) pr.emplace_back([&, p] {
        while (!stop) {
            check(TimeTrace::getTrace(), false); ++prints;
            if (p == 0 && prints % 7 == 0) TimeTrace::print();
            if (seed % 2) usleep(200);
        }
    });
    usleep((useconds_t)(secs * 1e6));
    stop = true;
    for (auto &t : pr) t.join();
    while (ready < nrec) usleep(50);
    finalPhase = true;
    while (done < nrec) usleep(50);
    check(TimeTrace::getTrace(), true);
    quit = true;
    for (auto &t : rec) t.join();
    printf("STAT concurrent_prints %lu\nSTAT concurrent_lines %lu\n", prints.load(), lines.load());
}
// Traces printed while the recording thread is frozen by a signal at an
// arbitrary instruction (often in the middle of record()): every printed event
// must be one that was completely recorded, none may be missing before it.
static std::atomic<int> parked{0}, released{0};
static void freezeHandler(int) { parked.store(1); while (!released.load()) {} released.store(0); parked.store(0); }
static void tear(uint64_t seed, double secs) {
    signal(SIGUSR1, freezeHandler);
    std::atomic<TimeTrace::Buffer *> cur{nullptr};
    std::atomic<uint64_t> gen{0}, ack{0};
    std::atomic<uint32_t> prog{0}, prefill{0};
    std::atomic<bool> quit{false};
    const size_t NB = 4;
    std::vector<std::unique_ptr<TimeTrace::Buffer>> bufs;
    for (size_t i = 0; i < NB; ++i) bufs.emplace_back(new TimeTrace::Buffer);
    std::thread rec([&] {
        Rng q(seed);
        uint64_t g = 0; uint32_t i = 0;
        while (!quit) {
            uint64_t ng = gen.load(std::memory_order_acquire);
            if (ng != g) { g = ng; i = 0; ack.store(g); }
            TimeTrace::Buffer *b = cur.load(std::memory_order_acquire);
            if (!b || ng & 1) { continue; }
            uint32_t f = (uint32_t)(q.next() % 3);
            b->record(CF[f], 0, i, mix(0, i, f), i ^ 0x5555);
            ++i; prog.store(i, std::memory_order_release);
        }
    });
    Rng r(seed + 9);
    uint64_t prints = 0, lines = 0, full = 0; size_t nb = 0;
    timespec t0, t; clock_gettime(CLOCK_MONOTONIC, &t0);
    do {
        // park the recorder (odd generation), recycle a buffer, then go
        TimeTrace::Buffer *b = bufs[nb++ % NB].get();
        gen.fetch_add(1); while (ack.load() != gen.load()) {}
        b->reset(); prog = 0; cur = b;
        gen.fetch_add(1); while (ack.load() != gen.load()) {}
        uint32_t target = r.below(40) ? 1 + (uint32_t)r.below(30) : 8180 + (uint32_t)r.below(40);
        while (prog.load(std::memory_order_acquire) < target) {}
        for (volatile int z = (int)r.below(60); z > 0; --z) {}
        pthread_kill(rec.native_handle(), SIGUSR1);
        while (!parked.load()) {}
        uint32_t n = prog.load();
        std::string s = b->getTrace(); ++prints;
        released.store(1); while (parked.load()) {}
        std::vector<Line> ls; std::string err;
        if (s == NONE) { if (n) bad("tear", "nothing printed after " + std::to_string(n) + " events"); }
        else if (!parse(s, ls, err)) bad("tear", "line that is not an event: \"" + err.substr(0, 150) + "\"");
        else {
            size_t k = 0; long prevI = -1; bool okay = true;
            for (auto &l : ls) {
                uint32_t w = 0, i = 0; ++lines;
                if (!checkLine(l.text, w, i)) { bad("tear", "printed an event that was never recorded: \"" + l.text + "\" (line " + std::to_string(k) + " of " + std::to_string(ls.size()) + ")"); okay = false; break; }
                if (prevI >= 0 && (long)i != prevI + 1) { bad("tear", "event " + std::to_string(i) + " printed after event " + std::to_string(prevI)); okay = false; break; }
                if (l.delta < 0) { bad("tear", "negative delta at event " + std::to_string(i)); okay = false; break; }
                prevI = i; ++k;
            }
            if (okay && (prevI + 1 < (long)n || prevI > (long)n || (ls.size() < CAP - 2 && ls.size() != (size_t)prevI + 1)))
                bad("tear", "after " + std::to_string(n) + " events the trace holds " + std::to_string(ls.size()) + " ending with event " + std::to_string(prevI));
            if (ls.size() >= CAP - 2) ++full;
        }
        clock_gettime(CLOCK_MONOTONIC, &t);
    } while ((double)(t.tv_sec - t0.tv_sec) + 1e-9 * (double)(t.tv_nsec - t0.tv_nsec) < secs && bads < 5);
    quit = true; rec.join();
    printf("STAT tear_prints %lu\nSTAT tear_lines %lu\nSTAT tear_full %lu\n", prints, lines, full);
}
static long descriptors() { long n = 0; for (int i = 0; i < 4096; ++i) n += fcntl(i, F_GETFD) != -1; return n; }
int main(int argc, char **argv) {
    dir = argv[2]; uint64_t seed = strtoull(argv[3], 0, 10);
    (void)argc;
    Cycles::init();
    cps = Cycles::getCyclesPerSec();
    long fds = descriptors();
    if (!strcmp(argv[1], "model")) {
        model(seed, atoi(argv[4]));
        if (descriptors() > fds + 4) bad("descriptors", "printing leaves files open: " + std::to_string(descriptors() - fds) + " more than before");
    }
    else if (!strcmp(argv[1], "tear")) tear(seed, atof(argv[4]));
    else concurrent(seed, atof(argv[4]), atoi(argv[5]), atoi(argv[6]), atoi(argv[7]));
    printf("STAT evaluations %lu\nSTAT lines %lu\nSTAT wrapped_histories %lu\nSTAT rounds %lu\n", evals, linesSeen, wrapped, distinct);
    return bads ? 1 : 0;
}
