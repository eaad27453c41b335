// Threads keep logging while the main thread switches log files.
//   switch DIR SEED LOGGERS SWITCHES   writes DIR/switches: "j w completedBefore startedAfter" per switch and worker
#include <stdio.h>
#include <stdlib.h>
#include <stdint.h>
#include <sched.h>
#include <unistd.h>
#include <atomic>
#include <ios>
#include <string>
#include <thread>
#include <vector>
#ifdef PREPROCESSOR_NANOLOG
#include "NanoLog.h"
#else
#include "NanoLogCpp17.h"
#endif
using namespace NanoLog::LogLevels;
struct Rng { uint64_t s; uint64_t next() { s ^= s << 13; s ^= s >> 7; s ^= s << 17; return s; } uint64_t below(uint64_t n) { return n ? next() % n : 0; } };
static std::atomic<long> startedN[64], doneN[64];
static std::atomic<bool> stop{false};
static uint64_t q_delay(uint64_t x) { return x % 3 == 0 ? x % 50 : x % 3000; }
int main(int argc, char **argv) {
    if (argc < 5) return 3;
    std::string dir = argv[1];
    uint64_t seed = strtoull(argv[2], 0, 10);
    int loggers = atoi(argv[3]), switches = atoi(argv[4]);
    Rng r{seed * 3 + 1000003};
    NanoLog::setLogFile((dir + "/f0").c_str());
    std::vector<std::thread> t;
    for (int w = 0; w < loggers; ++w) t.emplace_back([w, seed] {
        Rng q{seed * 64 + (uint64_t)w + 17};
        std::string p(300, 'x');
        uint64_t gap = q.below(4) ? q.below(3000) : 0;
        for (long i = 0; !stop && i < 15000; ++i) {
            ++startedN[w];
            switch (q.below(4)) {
                case 0: NANO_LOG(NOTICE, "w%d i%ld", w, i); break;
                case 1: NANO_LOG(ERROR, "w%d i%ld %s", w, i, p.c_str() + q.below(300)); break;
                case 2: NANO_LOG(WARNING, "w%d i%ld %.1f", w, i, 0.5); break;
                default: NANO_LOG(NOTICE, "w%d i%ld %d %d", w, i, -1, 2); break;
            }
            ++doneN[w];
            for (uint64_t k = q.below(gap + 1); k; --k) __asm__ volatile("pause");
            if (q.below(60) == 0) usleep((useconds_t)q.below(300));
        }
    });
    FILE *f = fopen((dir + "/switches").c_str(), "w");
    int bad = 0;
    for (int j = 1; j <= switches; ++j) {
        usleep((useconds_t)q_delay(r.next()));
        if (r.below(4) == 0) {   // a target that cannot be opened
            try { NanoLog::setLogFile((dir + "/none/x").c_str()); ++bad; } catch (const std::ios_base::failure &) {}
        }
        std::vector<long> before((size_t)loggers), after((size_t)loggers);
        for (int w = 0; w < loggers; ++w) before[(size_t)w] = doneN[w];
        NanoLog::setLogFile((dir + "/f" + std::to_string(j)).c_str());
        for (int w = 0; w < loggers; ++w) after[(size_t)w] = startedN[w];
        for (int w = 0; w < loggers; ++w) fprintf(f, "%d %d %ld %ld\n", j, w, before[(size_t)w], after[(size_t)w]);
    }
    usleep(500);
    stop = true;
    for (auto &x : t) x.join();
    for (int w = 0; w < loggers; ++w) fprintf(f, "0 %d %ld %ld\n", w, doneN[w].load(), startedN[w].load());
    fclose(f);
    return bad ? 7 : 0;
}
