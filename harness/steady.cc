// Threads that never stop logging while others sync, switch files or the
// process exits: requests must be honoured although there is always more work.
#include <fcntl.h>
#include <signal.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <time.h>
#include <unistd.h>
#include <atomic>
#include <string>
#include <thread>
#include <vector>
#include "NanoLogCpp17.h"
using namespace NanoLog::LogLevels;
static const int MAXW = 32, MAXS = 400;
struct Snap { uint64_t fsize; uint32_t kind, file, before[MAXW], after[MAXW]; };   // kind 0 sync, 1 switch, 2 exit
struct Shared { std::atomic<uint32_t> started[MAXW], completed[MAXW], nsnap, starved, finished; uint64_t maxWaitUs, maxGrowth; Snap snap[MAXS]; };
static Shared *sh;
static long opt(const char *k, long d) { const char *v = getenv((std::string("S_") + k).c_str()); return v ? atol(v) : d; }
static double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
static std::string dir;
static std::atomic<uint32_t> file{0};
static std::string fname(uint32_t f) { return dir + "/log." + std::to_string(f); }
static uint64_t fsize(uint32_t f) { struct stat st; return stat(fname(f).c_str(), &st) ? 0 : (uint64_t)st.st_size; }
static std::atomic<uint64_t> deadlineFile{0};
static std::atomic<double> since{0};
static std::atomic<uint64_t> sizeAt{0};
static long growLimit, timeLimit, threads, pad;
static std::atomic<bool> stop{false};
static std::string fill;

// The oracle of progress: a request may wait for what was buffered when it was
// made (some MB), not for the log to grow without bound.
static void arm() { since = 0; sizeAt = fsize(file); since = now(); }
static void disarm() {
    uint64_t us = (uint64_t)((now() - since) * 1e6), g = fsize(file) - std::min<uint64_t>(fsize(file), sizeAt);
    if (us > sh->maxWaitUs) sh->maxWaitUs = us;
    if (g > sh->maxGrowth) sh->maxGrowth = g;
    since = 0;
}
static void watchdog() {
    while (!sh->finished) {
        usleep(20000);
        double s = since;
        if (s == 0) continue;
        uint64_t g = fsize(file), b = sizeAt;
        if (since == s && ((g > b && g - b > (uint64_t)growLimit && now() - s > 3) || now() - s > timeLimit)) {
            sh->starved = 1;
            printf("STARVED: no completion after %.1f s while the log grew by %lu bytes\n", now() - s, (unsigned long)(g - b)); fflush(stdout);
            kill(getpid(), SIGKILL);
        }
    }
}
static void logger(uint32_t w, long gap) {
    for (uint32_t i = 0; !stop; ++i) {
        sh->started[w].store(i + 1, std::memory_order_seq_cst);
        if (pad) NANO_LOG(NOTICE, "S %u %u %s", w, i, fill.c_str() + fill.size() - (i * 7 + w) % (uint32_t)pad);
        else NANO_LOG(NOTICE, "S %u %u", w, i);
        sh->completed[w].store(i + 1, std::memory_order_seq_cst);
        if (gap) { double e = now() + gap * 1e-9; while (now() < e) {} }
    }
}
int main(int argc, char **argv) {
    dir = argv[1];
    threads = opt("THREADS", 4); pad = opt("PAD", 0);
    growLimit = opt("GROW", 200000000); timeLimit = opt("TIME", 25);
    long gap = opt("GAP", 0), ops = opt("OPS", 10), sw = opt("SWITCHPM", 0), ex = opt("EXIT", 0), syncers = opt("SYNCERS", 0), rest = opt("REST_US", 100), multi = opt("MULTI", 0);
    uint64_t r = (uint64_t)opt("SEED", 1) * 2654435761u + 1;
    for (int i = 0; i < 4000; ++i) fill += (char)('a' + i % 26);
    int fd = open((dir + "/shared").c_str(), O_RDWR | O_CREAT, 0600);
    if (fd < 0 || ftruncate(fd, sizeof(Shared))) return 4;
    sh = (Shared *)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
    if (sh == MAP_FAILED) return 4;
    NanoLog::setLogFile(fname(0).c_str());
    std::thread(watchdog).detach();
    std::vector<std::thread> t;
    for (long k = 0; k < threads; ++k) t.emplace_back(logger, (uint32_t)k, gap);
    auto rec = [&](Snap &s) { uint32_t n = sh->nsnap.fetch_add(1); if (n < MAXS) sh->snap[n] = s; };
    std::atomic<bool> stopSync{false};
    std::vector<std::thread> sy;
    for (long k = 0; k < syncers; ++k) sy.emplace_back([&] { while (!stopSync) { NanoLog::sync(); usleep(50); } });
    usleep(3000);
    for (long k = 0; k < ops; ++k) {
        Snap s; memset(&s, 0, sizeof s);
        r ^= r << 13; r ^= r >> 7; r ^= r << 17;
        s.kind = (long)(r % 1000) < sw ? 1 : 0;
        for (long w = 0; w < threads; ++w) s.before[w] = sh->completed[w];
        s.file = file;
        arm();
        if (s.kind) NanoLog::setLogFile(fname(file + 1).c_str());
        else {
            // several callers whose requests overlap and who ask only once
            std::vector<std::thread> m;
            for (long q = 0; q < multi; ++q) m.emplace_back([q] { usleep((useconds_t)(q * 37)); NanoLog::sync(); });
            NanoLog::sync();
            for (auto &x : m) x.join();
        }
        s.fsize = fsize(file);
        disarm();
        for (long w = 0; w < threads; ++w) s.after[w] = sh->started[w];
        if (s.kind) ++file;
        rec(s);
        if (rest) usleep((useconds_t)(r % (uint64_t)rest));
    }
    if (ex) {
        // leave main() while the loggers go on
        stopSync = true;
        for (auto &x : sy) x.join();
        for (auto &x : t) x.detach();
        Snap s; memset(&s, 0, sizeof s); s.kind = 2; s.file = file;
        for (long w = 0; w < threads; ++w) s.before[w] = sh->completed[w];
        s.fsize = ~0ull; rec(s);
        arm();
        return 0;
    }
    stop = true;
    for (auto &x : t) x.join();
    stopSync = true;
    for (auto &x : sy) x.join();
    Snap s; memset(&s, 0, sizeof s); s.kind = 2; s.file = file; s.fsize = ~0ull;
    for (long w = 0; w < threads; ++w) s.before[w] = sh->completed[w];
    rec(s);
    sh->finished = 1;
    return 0;
}
