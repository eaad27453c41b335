// Threads log while other threads change the level. Every change is bracketed
// by an epoch counter, so a logger that sees the same even epoch before and
// after its call knows exactly which level was in force.
//   lvl DIR SEED LOGGERS MSGS   writes DIR/expect: "worker index must(1)/mustnot(0)/either(2) level"
#include <stdio.h>
#include <stdlib.h>
#include <sched.h>
#include <stdint.h>
#include <time.h>
#include <atomic>
#include <string>
#include <thread>
#include <vector>
#ifdef PREPROCESSOR_NANOLOG
#include "NanoLog.h"
#else
#include "NanoLogCpp17.h"
#endif
using namespace NanoLog::LogLevels;
struct Rng { uint64_t s; uint64_t next() { s ^= s << 13; s ^= s >> 7; s ^= s << 17; return s; } uint64_t below(uint64_t n) { return next() % n; } };
static std::atomic<uint64_t> epoch{0};
static std::atomic<int> cur{3};
static std::atomic<bool> stop{false};
static std::atomic<long> badLevel{0};
static int clampLevel(long v) { return v < 0 ? 0 : v > 4 ? 4 : (int)v; }
static const long VALS[] = {0, 1, 2, 3, 4, -1, -77, 5, 6, 1000, -2147483647L, 2147483647L};
int main(int argc, char **argv) {
    if (argc < 5) return 3;
    std::string dir = argv[1];
    uint64_t seed = strtoull(argv[2], 0, 10);
    int loggers = atoi(argv[3]); long msgs = atol(argv[4]);
    NanoLog::setLogFile((dir + "/log").c_str());
    cur = (int)NanoLog::getLogLevel();
    struct Rec { uint8_t sev, exp; };
    std::vector<std::vector<Rec>> recs((size_t)loggers);
    std::vector<std::thread> t;
    std::thread flipper([&] {
        Rng r{seed * 77 + 12345}; long flips = 0;
        while (!stop) {
            long v = VALS[r.below(12)];
            ++epoch;
            NanoLog::setLogLevel((NanoLog::LogLevel)v);
            if ((int)NanoLog::getLogLevel() != clampLevel(v)) ++badLevel;
            cur = clampLevel(v);
            ++epoch;
            for (uint64_t k = r.below(400); k; --k) __asm__ volatile("pause");
            if (r.below(4) == 0) sched_yield();
            if (++flips % 64 == 0 && r.below(2)) NanoLog::sync();
        }
        printf("STAT flips %ld\n", flips);
    });
    std::thread observer([&] {
        while (!stop) { int l = (int)NanoLog::getLogLevel(); if (l < 0 || l > 4) ++badLevel; }
    });
    for (int w = 0; w < loggers; ++w) t.emplace_back([&, w] {
        Rng r{seed * 1000 + (uint64_t)w + 99};
        recs[(size_t)w].reserve((size_t)msgs);
        for (long i = 0; i < msgs; ++i) {
            uint8_t sev = (uint8_t)(1 + r.below(4));
            uint64_t a = epoch.load(); int l = cur.load();
            switch (sev) {
                case 1: NANO_LOG(ERROR, "w%d i%ld", w, i); break;
                case 2: NANO_LOG(WARNING, "w%d i%ld", w, i); break;
                case 3: NANO_LOG(NOTICE, "w%d i%ld", w, i); break;
                default: NANO_LOG(DEBUG, "w%d i%ld", w, i); break;
            }
            uint64_t b = epoch.load();
            recs[(size_t)w].push_back(Rec{sev, (uint8_t)(a == b && a % 2 == 0 ? (sev <= l ? 1 : 0) : 2)});
        }
    });
    for (auto &x : t) x.join();
    stop = true; flipper.join(); observer.join();
    NanoLog::sync();
    FILE *f = fopen((dir + "/expect").c_str(), "w");
    for (int w = 0; w < loggers; ++w) for (size_t i = 0; i < recs[(size_t)w].size(); ++i) fprintf(f, "%d %zu %d %d\n", w, i, recs[(size_t)w][i].exp, recs[(size_t)w][i].sev);
    fclose(f);
    printf("STAT badLevel %ld\n", badLevel.load());
    return 0;
}
