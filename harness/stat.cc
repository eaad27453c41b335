// Threads log while others read the statistics and histograms; the readers
// check that no counter ever decreases or exceeds what can have been logged.
//   stat DIR SEED LOGGERS MSGS READERS SWITCH
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <atomic>
#include <chrono>
#include <string>
#include <thread>
#include <vector>
#include "NanoLogCpp17.h"
using namespace NanoLog::LogLevels;
struct V { unsigned long ev, in, out, pad, fl; };
static bool parse(const std::string &t, V &v) {
    size_t p = t.find("Wrote "), q = t.find("x ("), f = t.find("There were ");
    return p != std::string::npos && q != std::string::npos && f != std::string::npos && sscanf(t.c_str() + p, "Wrote %lu events", &v.ev) == 1 &&
           sscanf(t.c_str() + q, "x (%lu bytes in, %lu bytes out, %lu pad bytes)", &v.in, &v.out, &v.pad) == 3 && sscanf(t.c_str() + f, "There were %lu", &v.fl) == 1;
}
struct Hist { std::vector<unsigned long> peek; struct T { unsigned long id, alloc, blocked, dist; }; std::vector<T> threads; };
// Parses getHistograms(); false if it is malformed.
static bool parseHist(const std::string &t, Hist &h) {
    size_t p = 0; bool block = false; unsigned long a, b, n;
    if (t.compare(0, 12, "Distribution")) return false;
    while (p < t.size()) {
        size_t e = t.find('\n', p); if (e == std::string::npos) e = t.size();
        std::string l = t.substr(p, e - p); p = e + 1;
        const char *s = l.c_str();
        if (sscanf(s, "Thread %lu:", &n) == 1) { h.threads.push_back({n, 0, 0, 0}); block = false; }
        else if (strstr(s, "Block Dist")) block = true;
        else if (sscanf(s, " %lu - %lu ns: %lu", &a, &b, &n) == 3) { if (!block || h.threads.empty()) return false; h.threads.back().dist += n; }
        else if (sscanf(s, " %lu - %lu%%: %lu", &a, &b, &n) == 3) { if (!h.threads.empty() || a >= b) return false; h.peek.push_back(n); }
        else if (sscanf(s, " Allocations : %lu", &n) == 1) { if (h.threads.empty()) return false; h.threads.back().alloc = n; }
        else if (sscanf(s, " Times Blocked : %lu", &n) == 1) { if (h.threads.empty()) return false; h.threads.back().blocked = n; }
    }
    return h.peek.size() > 0;
}
int main(int argc, char **argv) {
    if (argc < 7) return 3;
    std::string dir = argv[1];
    unsigned seed = (unsigned)atoi(argv[2]); int loggers = atoi(argv[3]); long msgs = atol(argv[4]); int readers = atoi(argv[5]); long sw = atol(argv[6]);
    NanoLog::setLogFile((dir + "/log0").c_str());
    std::atomic<bool> stop{false};
    std::atomic<unsigned long> begun{0}, reads{0}, histReads{0}, distinct{0}, finished{0};
    std::atomic<bool> leave{false};
    std::vector<std::thread> t, r;
    for (int k = 0; k < readers; ++k) r.emplace_back([&, k] {
        V last{0, 0, 0, 0, 0}; Hist lh;
        while (!stop) {
            V v;
            std::string s = NanoLog::getStats();
            if (k % 2 || (unsigned)readers < 2) {
                Hist h;
                std::string x = NanoLogInternal::RuntimeLogger::getHistograms();
                ++histReads;
                if (!parseHist(x, h) || (lh.peek.size() && lh.peek.size() != h.peek.size())) { printf("BAD format: %s\n", x.c_str()); return; }
                for (size_t i = 0; i < lh.peek.size(); ++i) if (h.peek[i] < lh.peek[i]) { printf("BAD decrease: peek bucket %zu %lu->%lu\n", i, lh.peek[i], h.peek[i]); return; }
                for (auto &y : h.threads) {
                    if (y.alloc > (unsigned long)msgs) { printf("BAD excess: thread %lu has %lu allocations, no thread logs more than %ld messages\n", y.id, y.alloc, msgs); return; }
                    for (auto &z : h.threads) if (&y != &z && y.id == z.id) { printf("BAD thread: %lu listed twice\n", y.id); return; }
                    for (auto &z : lh.threads) if (y.id == z.id && (y.alloc < z.alloc || y.blocked < z.blocked)) { printf("BAD decrease: thread %lu allocations %lu->%lu blocked %lu->%lu\n", y.id, z.alloc, y.alloc, z.blocked, y.blocked); return; }
                }
                lh = h;
            }
            ++reads;
            if (!parse(s, v)) { printf("BAD format: %s\n", s.c_str()); return; }
            unsigned long most = begun;
            if (v.ev < last.ev || v.in < last.in || v.out < last.out || v.pad < last.pad || v.fl < last.fl) {
                printf("BAD decrease: events %lu->%lu in %lu->%lu out %lu->%lu pad %lu->%lu flushes %lu->%lu\n", last.ev, v.ev, last.in, v.in, last.out, v.out, last.pad, v.pad, last.fl, v.fl); return; }
            if (v.ev > most) { printf("BAD excess: %lu events reported, %lu log calls begun\n", v.ev, most); return; }
            if (v.ev != last.ev) ++distinct;
            last = v;
        }
    });
    for (int w = 0; w < loggers; ++w) t.emplace_back([&, w] {
        uint64_t x = seed * 31u + (unsigned)w + 1;
        for (long i = 0; i < msgs; ++i) {
            x ^= x << 13; x ^= x >> 7; x ^= x << 17;
            ++begun;
            NANO_LOG(NOTICE, "w%d i%ld %lu", w, i, x);
            if (x % 50 == 0) std::this_thread::yield();
        }
        ++finished;
        while (!leave) std::this_thread::sleep_for(std::chrono::microseconds(200));
    });
    for (long k = 1; k <= sw; ++k) { NanoLog::sync(); NanoLog::setLogFile((dir + "/log" + std::to_string(k)).c_str()); }
    while (finished != (unsigned long)loggers) std::this_thread::sleep_for(std::chrono::microseconds(200));
    NanoLog::sync();
    // all loggers are still alive and have logged msgs messages each
    {
        Hist h; std::string x = NanoLogInternal::RuntimeLogger::getHistograms();
        unsigned long peeks = 0, good = 0;
        if (!parseHist(x, h)) printf("BAD format: %s\n", x.c_str());
        for (auto p : h.peek) peeks += p;
        for (auto &y : h.threads) good += y.alloc == (unsigned long)msgs;
        if (good != h.threads.size() || h.threads.size() != (size_t)loggers) printf("BAD threads: %d threads have logged %ld messages each, the histograms say\n%s\n", loggers, msgs, x.c_str());
        if (peeks < 1 || peeks > (unsigned long)loggers * (unsigned long)msgs) printf("BAD peeks: %lu reads of staging buffers for %lu messages\n", peeks, loggers * msgs);
#ifdef RECORD_PRODUCER_STATS
        for (auto &y : h.threads) if (y.dist != y.blocked) printf("BAD blocks: thread %lu blocked %lu times, the distribution holds %lu\n", y.id, y.blocked, y.dist);
#endif
    }
    leave = true;
    for (auto &x : t) x.join();
    NanoLog::sync();
    { Hist h; std::string x = NanoLogInternal::RuntimeLogger::getHistograms(); if (!parseHist(x, h) || h.threads.size()) printf("BAD threads: listed after all have exited\n%s\n", x.c_str()); }
    NanoLog::sync();
    V v; parse(NanoLog::getStats(), v);
    stop = true; for (auto &x : r) x.join();
    printf("STAT reads %lu\nSTAT distinct %lu\nSTAT histograms %lu\nFINAL %lu %lu %lu %lu\n", reads.load(), distinct.load(), histReads.load(), v.ev, v.in, v.out, v.pad);
    return 0;
}
