// Multi-threaded workload over the public API. Every message is a pure
// function of (seed, worker, index), so the expected text can be printed
// afterwards (dump=1) and compared with the decompressor's output.
#include <dirent.h>
#include <errno.h>
#include <fcntl.h>
#include <pthread.h>
#include <sched.h>
#include <signal.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <time.h>
#include <unistd.h>
#include <x86intrin.h>
#include <atomic>
#include <string>
#include <thread>
#include <vector>
#ifdef PREPROCESSOR_NANOLOG
#include "NanoLog.h"
#else
#include "NanoLogCpp17.h"
#endif
using namespace NanoLog::LogLevels;

static const int MAXW = 512;
static const int MAXSNAP = 400;
struct Snap { uint64_t fsize; uint32_t ordinal; uint32_t caller; uint32_t count[MAXW]; };
struct Shared {
    std::atomic<uint32_t> completed[MAXW];
    std::atomic<uint32_t> nsnap;
    std::atomic<uint32_t> finished;
    std::atomic<uint32_t> durableBad;
    std::atomic<uint32_t> syncs;
    Snap snap[MAXSNAP];
};
static Shared *sh;

static long opt(const char *k, long d) {
    const char *v = getenv((std::string("S_") + k).c_str());
    return v ? atol(v) : d;
}
struct Rng {
    uint64_t s;
    explicit Rng(uint64_t x) : s(x * 0x9E3779B97F4A7C15ULL + 0x7F4A7C15ULL) { next(); next(); }
    uint64_t next() { uint64_t z = (s += 0x9E3779B97F4A7C15ULL); z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL; z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL; return z ^ (z >> 31); }
    uint64_t below(uint64_t n) { return n ? next() % n : 0; }
};
static uint64_t seed;
static long maxLen, big, sizeProfile;
static std::string alphabet;
static FILE *sink = nullptr;      // dump mode: expected text goes here
static std::string logPath;

struct Ev { uint32_t idx; uint64_t b, e, tb, te; };
static std::vector<Ev> evs[MAXW];
static std::atomic<uint64_t> clk{1};
static bool order;

#define EMIT(level, ...) do { \
    if (sink) { fprintf(sink, #level " "); fprintf(sink, __VA_ARGS__); fputc('\n', sink); } \
    else { NANO_LOG(level, __VA_ARGS__); } } while (0)

static const char *payload(uint64_t h) { return alphabet.data() + (h % 997); }

// One message; the format set mixes all argument classes
static void message(uint32_t w, uint32_t i, bool isSink) {
    (void)isSink;
    Rng r(seed * 1000003ULL + w * 7919ULL + i * 104729ULL);
    uint64_t h = r.next();
    size_t len;
    switch (sizeProfile) {
        case 1: len = r.below(8); break;
        case 2: len = (size_t)maxLen - r.below(24 < maxLen ? 24 : maxLen); break;
        case 3: len = r.below((uint64_t)maxLen + 1); break;
        default: {
            uint64_t q = r.below(100);
            len = q < 50 ? r.below(24) : q < 85 ? r.below(200 < maxLen ? 200 : maxLen) : q < 96 ? r.below((uint64_t)maxLen + 1) : (size_t)maxLen - r.below(4 < maxLen ? 4 : maxLen);
        }
    }
    thread_local std::string buf;
    buf.assign(payload(h), len);           // exact-size, dies/changes right after the call
    switch (r.below(9)) {
        case 0: EMIT(NOTICE, "K0 %u %u", w, i); break;
        case 1: EMIT(NOTICE, "K1 %u %u %s", w, i, buf.c_str()); break;
        case 2: EMIT(WARNING, "K2 %u %u %lu %d %hhd", w, i, (unsigned long)h, (int)h, (signed char)h); break;
        case 3: { std::string b2(payload(h >> 7), len / 2); buf.resize(len - len / 2); EMIT(ERROR, "K3 %u %s %u %s.", w, buf.c_str(), i, b2.c_str()); break; }
        case 4: EMIT(NOTICE, "K4 %.*s %u %u", (int)(len / 2), buf.c_str(), w, i); break;
        case 5: EMIT(ERROR, "K5 %u %u %.1f %p", w, i, (double)(int32_t)h, (void *)(h & 0xffffff)); break;
        case 6: EMIT(WARNING, "K6 no arguments here"); break;
        case 7: EMIT(NOTICE, "K7 %ld %s %*d|%d", (long)-(int64_t)(h >> (h & 63)), buf.c_str(), 12, (int)w, (int)i); break;
        default: EMIT(NOTICE, "K8 %u %u %s", w, i, ""); break;
    }
    for (size_t k = 0; k < buf.size(); ++k) buf[k] = '#';   // the caller may reuse its buffers at once
}

static void spinNs(long ns) {
    timespec a, b; clock_gettime(CLOCK_MONOTONIC, &a);
    do { clock_gettime(CLOCK_MONOTONIC, &b); } while ((b.tv_sec - a.tv_sec) * 1000000000L + (b.tv_nsec - a.tv_nsec) < ns);
}
static std::atomic<uint32_t> started{0};
static long killAfter, snapEvery, durable;
static uint32_t totalWorkers;

// Is everything in the log file stable? Either the descriptor writes
// synchronously or a flush was seen; interposition below tracks flushes.
static std::atomic<uint64_t> flushedSize{0};
extern "C" int fdatasync(int fd) { struct stat st; if (!fstat(fd, &st)) { uint64_t v = (uint64_t)st.st_size; if (v > flushedSize) flushedSize = v; } return 0; }
extern "C" int fsync(int fd) { return fdatasync(fd); }
static bool logIsSyncMode() {
    struct stat a; if (stat(logPath.c_str(), &a)) return true;
    for (int fd = 3; fd < 64; ++fd) {
        struct stat b; if (fstat(fd, &b) || b.st_ino != a.st_ino || b.st_dev != a.st_dev) continue;
        int fl = fcntl(fd, F_GETFL);
        if ((fl & O_ACCMODE) == O_RDONLY) continue;
        if (fl & O_DSYNC) return true;     // O_SYNC includes O_DSYNC
        return flushedSize.load() >= (uint64_t)a.st_size;
    }
    return true;
}

// Another thread may kill the process at any point: a snapshot counts once its highest caller bit is set.
static void publish(uint32_t k, const Snap &s) {
    memcpy(&sh->snap[k], &s, sizeof(s));
    __atomic_store_n(&sh->snap[k].caller, s.caller | 0x80000000u, __ATOMIC_RELEASE);
}

static void doSync(uint32_t caller) {
    Snap s;
    for (uint32_t k = 0; k < totalWorkers; ++k) s.count[k] = sh->completed[k].load(std::memory_order_acquire);
    std::atomic_thread_fence(std::memory_order_seq_cst);
    NanoLog::sync();
    struct stat st;
    s.fsize = stat(logPath.c_str(), &st) ? 0 : (uint64_t)st.st_size;
    s.caller = caller;
    uint32_t n = sh->syncs.fetch_add(1);
    s.ordinal = n;
    if (durable && !logIsSyncMode()) sh->durableBad = 1;
    if (killAfter && (long)n + 1 >= killAfter) {
        uint32_t k = sh->nsnap.fetch_add(1);
        if (k < MAXSNAP) publish(k, s);
        kill(getpid(), SIGKILL);
    }
    if (snapEvery && n % snapEvery == 0) {
        uint32_t k = sh->nsnap.load();
        while (k < MAXSNAP && !sh->nsnap.compare_exchange_weak(k, k + 1)) {}
        if (k < MAXSNAP) publish(k, s);
    }
}

static void worker(uint32_t w, uint32_t n, long syncPm, long pausePm, long pauseNs, bool prealloc, long lateNs) {
    Rng r(seed ^ (w * 0xABCDEF123ULL));
    if (prealloc) NanoLog::preallocate();
    if (lateNs) spinNs((long)r.below((uint64_t)lateNs));
    if (order) evs[w].reserve(n);
    for (uint32_t i = 0; i < n; ++i) {
        if (pausePm && (long)r.below(1000) < pausePm) {
            long p = (long)r.below((uint64_t)pauseNs + 1);
            if (p > 100000) usleep((useconds_t)(p / 1000)); else if (p < 200) sched_yield(); else spinNs(p);
        }
        if (order) {
            Ev e; e.idx = i;
            e.b = clk.fetch_add(1); _mm_lfence(); e.tb = __rdtsc(); _mm_lfence();
            message(w, i, false);
            _mm_lfence(); e.te = __rdtsc(); _mm_lfence(); e.e = clk.fetch_add(1);
            evs[w].push_back(e);
        } else message(w, i, false);
        sh->completed[w].store(i + 1, std::memory_order_release);
        if (syncPm && (long)r.below(10000) < syncPm) doSync(w);
    }
}

int main(int argc, char **argv) {
    const char *dir = argc > 1 ? argv[1] : ".";
    bool dump = argc > 2 && !strcmp(argv[2], "dump");
    seed = (uint64_t)opt("SEED", 1);
    long threads = opt("THREADS", 4), waves = opt("WAVES", 1), msgs = opt("MSGS", 1000);
    maxLen = opt("MAXLEN", 300); sizeProfile = opt("SIZES", 0);
    long syncPm = opt("SYNC", 0), pausePm = opt("PAUSE_PM", 0), pauseNs = opt("PAUSE_NS", 0);
    long overlap = opt("OVERLAP", 0), mainMsgs = opt("MAIN", 0), lateNs = opt("LATE_NS", 0);
    long doExit = opt("EXITMODE", 0), finalSync = opt("FINALSYNC", 1), extraSyncers = opt("SYNCERS", 0);
    long waveSync = opt("WAVESYNC", 0), mainEarly = opt("MAINEARLY", 1);
    long mainTotal = mainMsgs * (waves * ((mainEarly ? 1 : 0) + (waveSync == 2 ? 1 : 0)) + 1);
    killAfter = opt("KILLAFTER", 0); snapEvery = opt("SNAPEVERY", 0); durable = opt("DURABLE", 1);
    order = opt("ORDER", 0) != 0;
    for (int i = 0; i < 997 + 997; ++i) alphabet += "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789"[(i * i + 7 * i + i / 61) % 62];
    while (alphabet.size() < (size_t)maxLen + 2000) alphabet += alphabet;
    totalWorkers = (uint32_t)(threads * waves + 1);
    if (totalWorkers > MAXW) return 3;
    uint32_t mainW = totalWorkers - 1;
    long mainPer = mainMsgs;
    if (dump) {
        for (uint32_t w = 0; w < totalWorkers; ++w) {
            char p[512]; snprintf(p, sizeof p, "%s/expect.%u", dir, w);
            FILE *f = fopen(p, "w"); sink = f;
            long n = w == mainW ? mainTotal : msgs;
            for (long i = 0; i < n; ++i) message(w, (uint32_t)i, true);
            fclose(f);
        }
        return 0;
    }
    logPath = std::string(dir) + "/log";
    std::string shp = std::string(dir) + "/shared";
    int fd = open(shp.c_str(), O_RDWR | O_CREAT, 0600);
    if (fd < 0 || ftruncate(fd, sizeof(Shared))) return 4;
    sh = (Shared *)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
    if (sh == MAP_FAILED) return 4;
    close(fd);
    NanoLog::setLogFile(logPath.c_str());
    // signals: interrupt every thread but this one, over and over
    std::atomic<bool> stopSig{false};
    std::thread storm;
    long sigUs = opt("SIGNALS", 0), nsig = 0;
    if (sigUs) {
        struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = [](int) {}; sigaction(SIGUSR1, &sa, nullptr);
        storm = std::thread([&] {
            sigset_t m; sigfillset(&m); pthread_sigmask(SIG_BLOCK, &m, nullptr);
            pid_t self = (pid_t)syscall(SYS_gettid);
            while (!stopSig) {
                if (DIR *q = opendir("/proc/self/task")) {
                    while (dirent *e = readdir(q)) { pid_t t = (pid_t)atoi(e->d_name); if (t > 0 && t != getpid() && t != self) { syscall(SYS_tgkill, getpid(), t, SIGUSR1); ++nsig; } }
                    closedir(q);
                }
                usleep((useconds_t)sigUs);
            }
        });
    }
    std::vector<std::thread> syncers;
    std::atomic<bool> stopSync{false};
    for (long k = 0; k < extraSyncers; ++k) syncers.emplace_back([&stopSync, mainW] { while (!stopSync) { doSync(mainW); sched_yield(); } });
    Rng mr(seed + 77);
    uint32_t mi = 0;
    auto mainBatch = [&] {
        if (order && mainPer) evs[mainW].reserve((size_t)mainTotal);
        for (long k = 0; k < mainPer; ++k) {
            if (order) {
                Ev e; e.idx = mi; e.b = clk.fetch_add(1); _mm_lfence(); e.tb = __rdtsc(); _mm_lfence();
                message(mainW, mi, false);
                _mm_lfence(); e.te = __rdtsc(); _mm_lfence(); e.e = clk.fetch_add(1); evs[mainW].push_back(e);
            } else message(mainW, mi, false);
            ++mi; sh->completed[mainW].store(mi, std::memory_order_release);
        }
    };
    std::vector<std::thread> prev;
    for (long v = 0; v < waves; ++v) {
        std::vector<std::thread> cur;
        for (long t = 0; t < threads; ++t)
            cur.emplace_back(worker, (uint32_t)(v * threads + t), (uint32_t)msgs, syncPm, pausePm, pauseNs, mr.below(3) == 0, lateNs);
        if (mainEarly) mainBatch();
        if (overlap) { for (auto &t : prev) t.join(); prev.swap(cur); }
        else for (auto &t : cur) t.join();
        if (waveSync == 2) mainBatch();
        if (waveSync) doSync(mainW);
    }
    for (auto &t : prev) t.join();
    mainBatch();
    stopSync = true;
    for (auto &t : syncers) t.join();
    if (finalSync) doSync(mainW);
    stopSig = true;
    if (storm.joinable()) { storm.join(); printf("STAT signals %ld\n", nsig); fflush(stdout); }
    if (order) {
        FILE *f = fopen((std::string(dir) + "/events").c_str(), "w");
        for (uint32_t w = 0; w < totalWorkers; ++w) for (auto &e : evs[w]) fprintf(f, "%u %u %lu %lu %lu %lu\n", w, e.idx, e.b, e.e, e.tb, e.te);
        fclose(f);
    }
    if (opt("STATS", 0)) {
        FILE *f = fopen((std::string(dir) + "/stats").c_str(), "w");
        fputs(NanoLog::getStats().c_str(), f); fclose(f);
    }
    sh->finished = 1;
    if (doExit == 1) _exit(0);
    return 0;
}
