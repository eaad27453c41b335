// Threads that log while they die: from the destructors of thread_local objects
// constructed before or after the thread's first message, and from the
// destructors of pthread keys (which may run again and again).
//   tlslog N KIND   KIND: bits 1 early thread_local, 2 late thread_local, 4 pthread keys, 8 only there (nothing logged before), 16 preallocate
#include <pthread.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <string>
#include <thread>
#include <vector>
#include "NanoLogCpp17.h"
using namespace NanoLog::LogLevels;
struct Bye { int n = 0; const char *w = ""; ~Bye() { if (n) for (int i = 0; i < 3; ++i) NANO_LOG(NOTICE, "t%d %s%d", n, w, i); } };
static thread_local Bye late;
static thread_local Bye early;
static pthread_key_t keys[3];
static void keyGone(void *p) {
    long v = (long)p;                 // thread * 8 + key * 2 + (again)
    NANO_LOG(NOTICE, "t%d key%d", (int)(v / 8), (int)(v % 8));
    if (v % 2 == 0) pthread_setspecific(keys[v % 8 / 2], (void *)(v + 1));
}
static long buffers() {
    std::string t = NanoLogInternal::RuntimeLogger::getHistograms();
    long n = 0; size_t p = 0; while ((p = t.find("Thread ", p)) != std::string::npos) { ++n; ++p; }
    return n;
}
static void work(int i, int kind) {
    if (kind & 2) { late.n = i; late.w = "late"; }
    if (kind & 4) for (long k = 0; k < 3; ++k) pthread_setspecific(keys[k], (void *)(i * 8L + k * 2));
    if (kind & 16) NanoLog::preallocate();
    if (!(kind & 8)) NANO_LOG(NOTICE, "t%d hi", i);
    if (kind & 1) { early.n = i; early.w = "early"; }
}
int main(int, char **argv) {
    int n = atoi(argv[1]), kind = atoi(argv[2]);
    for (auto &k : keys) pthread_key_create(&k, keyGone);
    NANO_LOG(NOTICE, "t0 hi");
    NanoLog::sync();
    printf("STAT buffers_before %ld\n", buffers());
    for (int i = 1; i <= n; ++i) std::thread(work, i, kind).join();
    NanoLog::sync();
    printf("STAT buffers_one %ld\n", buffers());
    std::vector<std::thread> v;
    for (int i = n + 1; i <= 2 * n; ++i) v.emplace_back(work, i, kind);
    for (auto &t : v) t.join();
    NanoLog::sync();
    printf("STAT buffers_many %ld\n", buffers());
    return 0;
}
