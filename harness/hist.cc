// Executes a history of API calls, read from a script, on a main thread and
// named worker threads, one call at a time (each call returns before the next
// begins), and reports what each call did.
//   L k site serial len   log on thread k (0 = main)      V k level   setLogLevel
//   T k / X k             start / end worker k            S k         sync
//   F k path              setLogFile                      P k         preallocate
//   G k                   statistics                      H           live buffers
//   M                     memory and descriptors          Y us        sleep
//   B k site serial len n n messages in a row             J n site len   n short-lived threads, one message each
//   C path                contents of path after a sync (size)   A k    level as seen by thread k
//   Q                     _exit(0) now           Z n   limit files to n more bytes (0 = no limit)
//   E n errno mode        the next n writes fail (with aioshim.cc)   W   how many are still to fail
#include <dirent.h>
#include <malloc.h>
#include <signal.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <time.h>
#include <unistd.h>
#include <condition_variable>
#include <exception>
#include <ios>
#include <map>
#include <memory>
#include <mutex>
#include <string>
#include <thread>
#include <vector>
#ifdef PREPROCESSOR_NANOLOG
#include "NanoLog.h"
#else
#include "NanoLogCpp17.h"
#endif
using namespace NanoLog::LogLevels;

extern "C" __attribute__((weak)) void aioshimFail(long, long, long);
extern "C" __attribute__((weak)) long aioshimPending();
static unsigned long evals = 0;
static int once(int v) { ++evals; return v; }

#define ONE(level) do { switch (kind) { \
    case 0: NANO_LOG(level, "h%d %s", once(serial), p.c_str()); break; \
    case 1: NANO_LOG(level, "i%d %lu %c", once(serial), (unsigned long)serial * 2654435761UL, 'a' + serial % 26); break; \
    case 2: NANO_LOG(level, "j%d %.3f %x", once(serial), serial / 8.0, (unsigned)serial); break; \
    case 3: NANO_LOG(level, "k%d fixed text %% of a statement", once(serial)); break; \
    case 4: NANO_LOG(level, "l%d %.*s|%5d", once(serial), (int)p.size() / 2, p.c_str(), -serial); break; \
    default: NANO_LOG(level, "m%hd %lld %s %p", (short)once(serial), -1LL * serial * serial, p.c_str(), (void *)(intptr_t)serial); break; } } while (0)

static void logOne(int site, int serial, int len) {
    int kind = site / 5;
    std::string p((size_t)len, (char)('A' + serial % 26));
    switch (site % 5) {
        case 0: ONE(SILENT_LOG_LEVEL); break;
        case 1: ONE(ERROR); break;
        case 2: ONE(WARNING); break;
        case 3: ONE(NOTICE); break;
        default: ONE(DEBUG); break;
    }
    memset(&p[0], '#', p.size());
}

struct Worker {
    std::thread t; std::mutex m; std::condition_variable cv;
    std::string cmd; bool has = false, done = false, quit = false;
};
static std::map<int, std::unique_ptr<Worker>> workers;
static long fds() { long n = 0; if (DIR *d = opendir("/proc/self/fd")) { while (readdir(d)) ++n; closedir(d); } return n - 3; }
static long rssKb() { long a = 0, b = 0; if (FILE *f = fopen("/proc/self/statm", "r")) { if (fscanf(f, "%ld %ld", &a, &b) != 2) b = 0; fclose(f); } return b * 4; }
static uint64_t now(clockid_t c) { timespec t; clock_gettime(c, &t); return (uint64_t)t.tv_sec * 1000000000ULL + (uint64_t)t.tv_nsec; }

static void execute(const std::string &line, int op) {
    char c = line[0];
    int k = 0, a = 0, b = 0, l = 0, n = 0;
    const char *s = line.c_str() + 1;
    switch (c) {
        case 'L': {
            sscanf(s, "%d %d %d %d", &k, &a, &b, &l);
            unsigned long e0 = evals;
            uint64_t r0 = now(CLOCK_REALTIME), m0 = now(CLOCK_MONOTONIC);
            logOne(a, b, l);
            uint64_t m1 = now(CLOCK_MONOTONIC), r1 = now(CLOCK_REALTIME);
            printf("R %d L %lu %lu %lu %lu %lu\n", op, r0, r1, m0, m1, evals - e0);
            break;
        }
        case 'B': {
            sscanf(s, "%d %d %d %d %d", &k, &a, &b, &l, &n);
            unsigned long e0 = evals;
            for (int i = 0; i < n; ++i) logOne(a, b + i, l);
            printf("R %d B %lu\n", op, evals - e0);
            break;
        }
        case 'V': sscanf(s, "%d %d", &k, &a); NanoLog::setLogLevel((NanoLog::LogLevel)a); printf("R %d V %d\n", op, (int)NanoLog::getLogLevel()); break;
        case 'A': printf("R %d A %d\n", op, (int)NanoLog::getLogLevel()); break;
        case 'S': NanoLog::sync(); printf("R %d S\n", op); break;
        case 'P': NanoLog::preallocate(); printf("R %d P\n", op); break;
        case 'F': {
            char path[9000]; path[0] = 0;
            sscanf(s, "%d %8999s", &k, path);
            if (!strcmp(path, "<empty>")) path[0] = 0;
            const char *res = "ok";
            try { NanoLog::setLogFile(path); } catch (const std::ios_base::failure &e) { res = "failure"; } catch (...) { res = "other-exception"; }
            printf("R %d F %s %ld\n", op, res, fds());
            break;
        }
        case 'G': {
            std::string t = NanoLog::getStats();
            unsigned long ev = ~0UL, bi = ~0UL, bo = ~0UL, pad = ~0UL;
            size_t p = t.find("Wrote "); if (p != std::string::npos) sscanf(t.c_str() + p, "Wrote %lu events", &ev);
            p = t.find("x ("); if (p != std::string::npos) sscanf(t.c_str() + p, "x (%lu bytes in, %lu bytes out, %lu pad bytes)", &bi, &bo, &pad);
            printf("R %d G %lu %lu %lu %lu\n", op, ev, bi, bo, pad);
            break;
        }
        default: printf("R %d ?\n", op);
    }
    fflush(stdout);
}
static int opNo;
static void workerMain(Worker *w) {
    std::unique_lock<std::mutex> g(w->m);
    while (true) {
        w->cv.wait(g, [w] { return w->has || w->quit; });
        if (w->quit) return;
        execute(w->cmd, opNo);
        w->has = false; w->done = true;
        w->cv.notify_all();
    }
}
int main(int argc, char **argv) {
    FILE *f = fopen(argv[1], "r");
    if (!f) return 3;
    (void)argc;
    setvbuf(stdout, nullptr, _IOFBF, 1 << 16);
    static char buf[10000];
    while (fgets(buf, sizeof buf, f)) {
        ++opNo;
        std::string line(buf);
        while (!line.empty() && line.back() == '\n') line.pop_back();
        if (line.empty()) continue;
        int k = atoi(line.c_str() + 1);
        switch (line[0]) {
            case 'T': { auto w = std::unique_ptr<Worker>(new Worker); Worker *p = w.get(); p->t = std::thread(workerMain, p); workers[k] = std::move(w); break; }
            case 'X': { auto &w = workers[k]; { std::lock_guard<std::mutex> g(w->m); w->quit = true; w->cv.notify_all(); } w->t.join(); workers.erase(k); break; }
            case 'Y': usleep((useconds_t)k); break;
            case 'J': {
                int n, site, len; sscanf(line.c_str() + 1, "%d %d %d", &n, &site, &len);
                for (int i = 0; i < n; ++i) std::thread([=] { logOne(site, i, len); }).join();
                printf("R %d J\n", opNo);
                break;
            }
            case 'H': {
                std::string t = NanoLogInternal::RuntimeLogger::getHistograms();
                printf("R %d H", opNo);
                size_t p = 0; while ((p = t.find("Thread ", p)) != std::string::npos) { printf(" %d", atoi(t.c_str() + p + 7)); ++p; }
                printf("\n"); break;
            }
            case 'M': { struct mallinfo2 mi = mallinfo2(); printf("R %d M %zu %ld %ld\n", opNo, mi.uordblks + mi.hblkhd, fds(), rssKb()); break; }
            case 'C': { struct stat st; char path[1000]; sscanf(line.c_str() + 1, "%999s", path); printf("R %d C %ld\n", opNo, stat(path, &st) ? -1L : (long)st.st_size); break; }
            case 'E': { long n = 0, e = 0, m = 0; sscanf(line.c_str() + 1, "%ld %ld %ld", &n, &e, &m); if (aioshimFail) aioshimFail(n, e, m); break; }
            case 'W': printf("R %d W %ld\n", opNo, aioshimPending ? aioshimPending() : 0L); break;
            case 'Z': {
                long n = atol(line.c_str() + 1);
                struct rlimit r; getrlimit(RLIMIT_FSIZE, &r);
                r.rlim_cur = n ? (rlim_t)n : r.rlim_max;
                signal(SIGXFSZ, SIG_IGN); setrlimit(RLIMIT_FSIZE, &r); break;
            }
            case 'Q': fflush(stdout); _exit(0);
            default:
                if (k == 0) { execute(line, opNo); break; }
                Worker *w = workers[k].get();
                std::unique_lock<std::mutex> g(w->m);
                w->cmd = line; w->done = false; w->has = true; w->cv.notify_all();
                w->cv.wait(g, [w] { return w->done; });
        }
    }
    fclose(f);
    for (auto &w : workers) { { std::lock_guard<std::mutex> g(w.second->m); w.second->quit = true; w.second->cv.notify_all(); } w.second->t.join(); }
    workers.clear();
    fflush(stdout);
    return 0;
}
