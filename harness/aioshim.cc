// Replacement for POSIX AIO used by the workloads: performs the write at
// *completion* time from the caller's buffer (so that reuse of a buffer that is
// still in flight becomes visible in the file), after a random delay, and can
// shorten, interrupt or fail operations. Also watches open/fsync for the
// durability monitor. Controlled through the environment:
//   AIO_SEED, AIO_DELAY_US (max delay), AIO_DELAY_PCT,
//   AIO_SHORT_PCT, AIO_EINTR_PCT, AIO_FAIL=first:count:errno[:mode]
//   AIO_STATS=file (written at exit)
// A program may also call aioshimFail(count, errno, mode): the next count
// writes fail; modes 0 nothing written, 1 half written, 2 rejected when
// submitted (error and result as glibc sets them), 3 rejected when submitted,
// leaving the previous error and result in place.
#include <aio.h>
#include <errno.h>
#include <fcntl.h>
#include <pthread.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <time.h>
#include <unistd.h>
#include <atomic>

namespace {
struct Op { struct aiocb *cb; uint64_t due; int state; int err; ssize_t ret; uint32_t sum; size_t n; int fd; };
pthread_mutex_t mu = PTHREAD_MUTEX_INITIALIZER;
pthread_cond_t cv = PTHREAD_COND_INITIALIZER;     // to worker
pthread_cond_t done = PTHREAD_COND_INITIALIZER;   // to suspenders
Op ops[64];
bool started = false;
uint64_t rng = 88172645463325252ULL;
long delayUs = 0, delayPct = 100, shortPct = 0, eintrPct = 0;
long failFirst = -1, failCount = 0, failErr = 0, failMode = 0;
long pending = 0; ssize_t lastRet = 0;
long nWrites = 0, nShort = 0, nEintr = 0, nFail = 0, nInflightAtSuspend = 0, nChanged = 0, nOverlap = 0;
FILE *trace = nullptr;

uint64_t now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec * 1000000ULL + t.tv_nsec / 1000; }
uint64_t rnd() { rng ^= rng << 13; rng ^= rng >> 7; rng ^= rng << 17; return rng; }
long envl(const char *n, long d) { const char *v = getenv(n); return v ? atol(v) : d; }
uint32_t sum32(const volatile void *p, size_t n) {
    const unsigned char *c = (const unsigned char *)p; uint32_t h = 2166136261u;
    for (size_t i = 0; i < n; ++i) h = (h ^ c[i]) * 16777619u;
    return h;
}
void report() {
    const char *f = getenv("AIO_STATS");
    if (!f) return;
    FILE *o = fopen(f, "w");
    if (!o) return;
    fprintf(o, "{\"writes\":%ld,\"short\":%ld,\"eintr\":%ld,\"failed\":%ld,\"suspends_waiting\":%ld,\"changed_in_flight\":%ld,\"overlap\":%ld}\n",
            nWrites, nShort, nEintr, nFail, nInflightAtSuspend, nChanged, nOverlap);
    fclose(o);
}
void *worker(void *) {
    pthread_mutex_lock(&mu);
    for (;;) {
        Op *best = nullptr;
        for (auto &o : ops) if (o.state == 1 && (!best || o.due < best->due)) best = &o;
        if (!best) { pthread_cond_wait(&cv, &mu); continue; }
        uint64_t t = now();
        if (t < best->due) {
            pthread_mutex_unlock(&mu);
            usleep(best->due - t > 2000 ? 2000 : (useconds_t)(best->due - t));
            pthread_mutex_lock(&mu);
            continue;
        }
        struct aiocb *cb = best->cb;
        size_t n = cb->aio_nbytes;
        int fd = cb->aio_fildes;
        off_t off = cb->aio_offset;
        const char *buf = (const char *)cb->aio_buf;
        ++nWrites;
        long idx = nWrites - 1;
        bool fail = failFirst >= 0 && idx >= failFirst && idx < failFirst + failCount;
        if (pending > 0 && failMode < 2) { --pending; fail = true; }
        size_t m = n;
        if (!fail && n > 1 && (long)(rnd() % 100) < shortPct) { m = 1 + rnd() % (n - 1); ++nShort; }
        uint32_t want = best->sum;
        pthread_mutex_unlock(&mu);
        ssize_t r = -1; int e = 0;
        bool changed = false;
        if (fail) { e = failErr; if (failMode == 1 && n > 1) { ssize_t q = write(fd, buf, n / 2); (void)q; } }
        else {
            changed = sum32(buf, n) != want;
            int fl = fcntl(fd, F_GETFL);
            r = (fl & O_APPEND) ? write(fd, buf, m) : pwrite(fd, buf, m, off);
            if (r < 0) e = errno;
        }
        pthread_mutex_lock(&mu);
        if (changed) ++nChanged;
        if (fail) ++nFail;
        best->ret = r; best->err = e; best->state = 2;
        pthread_cond_broadcast(&done);
        report();
    }
    return nullptr;
}
Op *find(const struct aiocb *cb) { for (auto &o : ops) if (o.state && o.cb == cb) return &o; return nullptr; }
void init() {
    if (started) return;
    started = true;
    rng ^= (uint64_t)envl("AIO_SEED", 1) * 0x9E3779B97F4A7C15ULL; if (!rng) rng = 1;
    delayUs = envl("AIO_DELAY_US", 0); delayPct = envl("AIO_DELAY_PCT", 100);
    shortPct = envl("AIO_SHORT_PCT", 0); eintrPct = envl("AIO_EINTR_PCT", 0);
    if (const char *f = getenv("AIO_FAIL")) sscanf(f, "%ld:%ld:%ld:%ld", &failFirst, &failCount, &failErr, &failMode);
    pthread_t t; pthread_create(&t, nullptr, worker, nullptr); pthread_detach(t);
}
}  // namespace

extern "C" {
void aioshimFail(long n, long e, long mode) { pthread_mutex_lock(&mu); pending = n; failErr = e; failMode = mode; pthread_mutex_unlock(&mu); }
long aioshimPending() { pthread_mutex_lock(&mu); long p = pending; pthread_mutex_unlock(&mu); return p; }
int aio_write(struct aiocb *cb) {
    pthread_mutex_lock(&mu);
    init();
    Op *o = find(cb);
    if (o && o->state == 1) { ++nOverlap; }
    if (failMode >= 2 && (pending > 0 || (failFirst >= 0 && nWrites >= failFirst && nWrites < failFirst + failCount))) {
        if (pending > 0) --pending;
        ++nWrites; ++nFail; report();
        if (failMode == 3) { pthread_mutex_unlock(&mu); errno = (int)failErr; return -1; }
        // submission failure, as glibc does it
        if (!o) for (auto &x : ops) if (!x.state) { o = &x; break; }
        o->cb = cb; o->state = 2; o->err = (int)failErr; o->ret = -1;
        pthread_mutex_unlock(&mu);
        errno = (int)failErr;
        return -1;
    }
    Op *n = nullptr;
    if (o && o->state == 2) n = o;
    if (!n) for (auto &x : ops) if (!x.state) { n = &x; break; }
    if (!n) { pthread_mutex_unlock(&mu); errno = EAGAIN; return -1; }
    n->cb = cb; n->state = 1; n->err = 0; n->ret = 0; n->n = cb->aio_nbytes; n->fd = cb->aio_fildes;
    n->sum = sum32(cb->aio_buf, cb->aio_nbytes);
    n->due = now();
    if (delayUs > 0 && (long)(rnd() % 100) < delayPct) n->due += rnd() % (uint64_t)delayUs;
    pthread_cond_signal(&cv);
    pthread_mutex_unlock(&mu);
    return 0;
}
int aio_error(const struct aiocb *cb) {
    pthread_mutex_lock(&mu);
    Op *o = find(cb);
    int r = !o ? 0 : o->state == 1 ? EINPROGRESS : o->err;
    pthread_mutex_unlock(&mu);
    return r;
}
ssize_t aio_return(struct aiocb *cb) {
    pthread_mutex_lock(&mu);
    Op *o = find(cb);
    ssize_t r = 0;
    if (!o) r = lastRet;
    else if (o->state == 1) { r = -1; errno = EINPROGRESS; }
    else { r = lastRet = o->ret; o->state = 0; }
    pthread_mutex_unlock(&mu);
    return r;
}
int aio_suspend(const struct aiocb *const list[], int n, const struct timespec *ts) {
    pthread_mutex_lock(&mu);
    int rc = 0;
    timespec until;
    if (ts) { clock_gettime(CLOCK_REALTIME, &until); until.tv_sec += ts->tv_sec; until.tv_nsec += ts->tv_nsec; if (until.tv_nsec >= 1000000000) { until.tv_nsec -= 1000000000; until.tv_sec++; } }
    for (;;) {
        bool ready = false, any = false;
        for (int i = 0; i < n; ++i) if (list[i]) { any = true; Op *o = find(list[i]); if (!o || o->state == 2) ready = true; }
        if (ready || !any) break;
        ++nInflightAtSuspend;
        if ((long)(rnd() % 100) < eintrPct) { ++nEintr; rc = -1; errno = EINTR; break; }
        if (ts) { if (pthread_cond_timedwait(&done, &mu, &until)) { rc = -1; errno = EAGAIN; break; } }
        else pthread_cond_wait(&done, &mu);
    }
    pthread_mutex_unlock(&mu);
    return rc;
}
int aio_fsync(int, struct aiocb *cb) { return aio_write(cb); }
int aio_write64(struct aiocb64 *cb) { return aio_write((struct aiocb *)cb); }
int aio_error64(const struct aiocb64 *cb) { return aio_error((const struct aiocb *)cb); }
ssize_t aio_return64(struct aiocb64 *cb) { return aio_return((struct aiocb *)cb); }
int aio_suspend64(const struct aiocb64 *const list[], int n, const struct timespec *ts) { return aio_suspend((const struct aiocb *const *)list, n, ts); }
}
