// Delay injection at the NANOLOG_VERIF points. VP_PROFILE selects which points
// are slowed down and how much; deterministic choice per thread from VP_SEED.
#include <sched.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <time.h>
#include <unistd.h>
#include <atomic>
static long prob[32];     // per mille
static long maxUs[32];
static std::atomic<int> ready{0};
static std::atomic<uint64_t> tseed{0};
std::atomic<uint64_t> vpHits[32];
std::atomic<uint64_t> vpDelays[32];
static void setup() {
    int z = 0;
    static std::atomic<int> once{0};
    if (!once.compare_exchange_strong(z, 1)) { while (!ready.load()) sched_yield(); return; }
    uint64_t s = getenv("VP_SEED") ? strtoull(getenv("VP_SEED"), 0, 10) : 1;
    tseed = s * 0x9E3779B97F4A7C15ULL + 12345;
    // "id:permille:maxus,id:permille:maxus"
    const char *p = getenv("VP_PROFILE");
    while (p && *p) {
        int id; long a, b; int n = 0;
        if (sscanf(p, "%d:%ld:%ld%n", &id, &a, &b, &n) != 3) break;
        if (id >= 0 && id < 32) { prob[id] = a; maxUs[id] = b; }
        p += n; if (*p == ',') ++p;
    }
    ready = 1;
}
extern "C" void nanologVerifPoint(int id) {
    if (!ready.load(std::memory_order_acquire)) setup();
    static thread_local uint64_t r = 0;
    if (!r) r = tseed.fetch_add(0xD1B54A32D192ED03ULL) | 1;
    vpHits[id].fetch_add(1, std::memory_order_relaxed);
    if (!prob[id]) return;
    r ^= r << 13; r ^= r >> 7; r ^= r << 17;
    if ((long)(r % 1000) >= prob[id]) return;
    vpDelays[id].fetch_add(1, std::memory_order_relaxed);
    r ^= r << 13; r ^= r >> 7; r ^= r << 17;
    long us = (long)(r % (uint64_t)(maxUs[id] + 1));
    if (us == 0) { sched_yield(); return; }
    if (us > 60) { usleep((useconds_t)us); return; }
    timespec a, b; clock_gettime(CLOCK_MONOTONIC, &a);
    do { clock_gettime(CLOCK_MONOTONIC, &b); }
    while ((b.tv_sec - a.tv_sec) * 1000000L + (b.tv_nsec - a.tv_nsec) / 1000 < us);
}
