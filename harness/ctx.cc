// Main program of the generated multi-file programs of C09: threads call random log sites of
// random compilation units, all first uses racing, and record what they called.
//   app DIR SEED THREADS CALLS WAVES       sites
//   app DIR many N BATCH                   N short threads, one message each
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <atomic>
#include <string>
#include <thread>
#include <vector>
#ifdef PREPROCESSOR_NANOLOG
#include "NanoLog.h"
#else
#include "NanoLogCpp17.h"
#endif
using namespace NanoLog::LogLevels;
typedef void (*TuFn)(int j, int t, int n);
struct Tu { TuFn f; int nsites; };
extern Tu ctxTus[];
extern int ctxNTus;
struct Rng {
    uint64_t s;
    explicit Rng(uint64_t x) : s(x * 0x9E3779B97F4A7C15ULL + 1) { next(); }
    uint64_t next() { uint64_t z = (s += 0x9E3779B97F4A7C15ULL); z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL; z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL; return z ^ (z >> 31); }
    int below(int n) { return (int)(next() % (uint64_t)n); }
};
int main(int argc, char **argv) {
    std::string dir = argv[1];
    NanoLog::setLogFile((dir + "/log").c_str());
    NanoLog::setLogLevel(DEBUG);
    if (!strcmp(argv[2], "many")) {
        int n = atoi(argv[3]), batch = atoi(argv[4]);
        for (int b = 0; b < n; b += batch) {
            std::vector<std::thread> th;
            for (int i = b; i < b + batch && i < n; ++i)
                th.emplace_back([i] { ctxTus[0].f(0, i, 0); if (i % 3 == 0) ctxTus[0].f(0, i, 1); });
            for (auto &t : th) t.join();
        }
        NanoLog::sync();
        return 0;
    }
    uint64_t seed = strtoull(argv[2], 0, 10);
    int nt = atoi(argv[3]), calls = atoi(argv[4]), waves = atoi(argv[5]);
    for (int w = 0; w < waves; ++w) {
        std::atomic<int> ready{0};
        std::atomic<bool> go{false};
        std::vector<std::thread> th;
        for (int k = 0; k < nt; ++k)
            th.emplace_back([&, k] {
                int t = w * nt + k;
                Rng r(seed * 1000 + (uint64_t)t);
                // a shared random order of first uses makes threads collide on the same sites
                Rng sh(seed * 77 + (uint64_t)w);
                std::vector<int32_t> rec;
                ++ready;
                while (!go.load()) {}
                for (int n = 0; n < calls; ++n) {
                    Rng &x = (n % 3 != 2) ? sh : r;
                    int u = x.below(ctxNTus), j = x.below(ctxTus[u].nsites);
                    rec.push_back(u); rec.push_back(j);
                    ctxTus[u].f(j, t, n);
                }
                FILE *f = fopen((dir + "/calls." + std::to_string(t)).c_str(), "wb");
                fwrite(rec.data(), 4, rec.size(), f);
                fclose(f);
            });
        while (ready.load() < nt) std::this_thread::yield();
        go = true;
        for (auto &t : th) t.join();
    }
    NanoLog::sync();
    return 0;
}
