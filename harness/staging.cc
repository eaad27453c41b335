// Reference-FIFO monitor for RuntimeLogger::StagingBuffer (C11).
#include "TestUtil.h"
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <time.h>
#include <unistd.h>
#include <algorithm>
#include <deque>
#include <memory>
#include <set>
#include <string>
#include <thread>
#include <vector>
#include "RuntimeLogger.h"
using namespace NanoLogInternal;
typedef RuntimeLogger::StagingBuffer SB;
static const size_t SIZE = NanoLogConfig::STAGING_BUFFER_SIZE;
static int bads = 0;
static void bad(const std::string &k, const std::string &w) { if (bads++ < 10) { printf("BAD %s: %s\n", k.c_str(), w.c_str()); fflush(stdout); } }
struct Rng {
    uint64_t s;
    explicit Rng(uint64_t x) : s(x * 0x9E3779B97F4A7C15ULL + 1) { next(); }
    uint64_t next() { uint64_t z = (s += 0x9E3779B97F4A7C15ULL); z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL; z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL; return z ^ (z >> 31); }
    uint64_t below(uint64_t n) { return n ? next() % n : 0; }
};
static inline char byteAt(uint64_t pos) { uint64_t z = pos * 0x9E3779B97F4A7C15ULL; z ^= z >> 29; z *= 0xBF58476D1CE4E5B9ULL; return (char)(z >> 56); }
static uint64_t evals = 0, wraps = 0, refused = 0, partial = 0, fullBlocks = 0;
static size_t pickSize(Rng &r, int prof) {
    switch (prof) {
        case 0: return 1 + r.below(SIZE / 8 + 1);
        case 1: return 1 + r.below(SIZE / 2);
        case 2: return SIZE - 1 - r.below(SIZE / 4);
        case 3: return r.below(2) ? 1 + r.below(8) : SIZE / 2 - 2 + r.below(5);
        default: return 1 + r.below(SIZE - 1);
    }
}
// Single-threaded: operations in a random order, judged one by one.
static void model(uint64_t seed, uint64_t ops) {
    Rng r(seed);
    std::unique_ptr<SB> sb(new SB(7));
    char *base = sb->storage;             // only to know where the buffer is
    uint64_t committed = 0, released = 0; // stream positions
    struct Piece { char *p; size_t n; };
    std::deque<Piece> pieces;             // committed, unreleased address ranges
    long P = 0, C = 0; bool maybeWrapped = false;   // producer/consumer offsets
    bool open = false; char *rp = nullptr; size_t rn = 0;
    int prof = (int)r.below(5);
    std::string hist;
    auto note = [&](const std::string &s) { hist += s + " "; if (hist.size() > 3000) hist.erase(0, 1500); };
    auto fits = [&](size_t n, long p, bool wrapped) -> bool {
        // room for n bytes, leaving at least one byte free
        if (pieces.empty() && !wrapped) return (size_t)(SIZE - (size_t)p) > n || (size_t)C > n;
        if (C <= p && !wrapped) return SIZE - (size_t)p > n || (size_t)C > n;
        return (long)n < C - p;
    };
    auto released_all = [&] {
        // with everything released the queue must accept n within a few consumer rounds
    };
    (void)released_all;
    for (uint64_t k = 0; k < ops && !bads; ++k) {
        if (r.below(500) == 0) prof = (int)r.below(5);
        uint64_t op = r.below(10);
        ++evals;
        if (op < 5 && !open) {
            size_t n = std::min(pickSize(r, prof), SIZE - 1);
            bool room = fits(n, P, false) && !maybeWrapped;
            char *p = room && r.below(2) ? sb->reserveProducerSpace(n) : sb->reserveSpaceInternal(n, false);
            note("r" + std::to_string(n) + (p ? "@" + std::to_string(p - base) : "-"));
            if (!p) {
                ++refused;
                if (room) bad("refused", "reservation of " + std::to_string(n) + " bytes refused although there is room; P=" + std::to_string(P) + " C=" + std::to_string(C) + " history " + hist);
                if (C != 0 && SIZE - (size_t)P <= n && C <= P) maybeWrapped = true;
                continue;
            }
            long off = p - base;
            if (off < 0 || (size_t)off + n > SIZE) { bad("outside", "reservation of " + std::to_string(n) + " at offset " + std::to_string(off) + " history " + hist); break; }
            for (auto &q : pieces) if (p < q.p + q.n && q.p < p + n) { bad("overlap", "reservation of " + std::to_string(n) + " at offset " + std::to_string(off) + " overlaps unreleased data at " + std::to_string(q.p - base) + "+" + std::to_string(q.n) + " history " + hist); break; }
            if (bads) break;
            if (off < P) ++wraps;
            P = off; maybeWrapped = false;
            memset(p, 0xCC, n);            // not committed yet: must not become visible
            open = true; rp = p; rn = n;
        } else if (op < 7 && open) {
            size_t m = r.below(8) ? rn : 1 + r.below(rn);
            for (size_t i = 0; i < m; ++i) rp[i] = byteAt(committed + i);
            sb->finishReservation(m);
            note("f" + std::to_string(m));
            committed += m;
            pieces.push_back({rp, m});
            P = rp - base + (long)m; open = false;
        } else if (op >= 7) {
            uint64_t avail = 12345;
            char *p = sb->peek(&avail);
            uint64_t left = committed - released;
            note("p" + std::to_string(avail));
            if (avail > left) { bad("invented", "peek offers " + std::to_string(avail) + " bytes, " + std::to_string(left) + " are committed and unreleased; history " + hist); break; }
            if (!avail && left) { bad("hidden", std::to_string(left) + " committed bytes but peek offers none; history " + hist); break; }
            for (uint64_t i = 0; i < avail; ++i) if (p[i] != byteAt(released + i)) { bad("content", "byte " + std::to_string(released + i) + " of the stream is wrong at peek+" + std::to_string(i) + "; history " + hist); break; }
            if (bads) break;
            if (!left && !open) { C = std::min<long>(C, C); if (maybeWrapped || true) C = sb->consumerPos - base; }
            uint64_t take = r.below(3) ? avail : r.below(avail + 1);
            if (r.below(6) == 0) take = 0;
            if (take < avail) ++partial;
            if (take) {
                char *e = p + take;
                sb->consume(take);
                released += take;
                uint64_t t = take;
                while (t) { Piece &q = pieces.front(); size_t z = std::min<size_t>(q.n, t); q.p += z; q.n -= z; t -= z; if (!q.n) pieces.pop_front(); }
                C = e - base;
                if (C < 0 || (size_t)C > SIZE) { bad("outside", "consumer at " + std::to_string(C)); break; }
            } else C = p - base;
            note("c" + std::to_string(take));
            // liveness: with the consumer draining, any legal reservation succeeds soon
            if (!open && r.below(12) == 0) {
                size_t n = std::min(pickSize(r, 4), SIZE - 1);
                char *q = nullptr; int rounds = 0;
                for (; rounds < 8 && !(q = sb->reserveSpaceInternal(n, false)); ++rounds) {
                    uint64_t a; char *d = sb->peek(&a);
                    for (uint64_t i = 0; i < a; ++i) if (d[i] != byteAt(released + i)) { bad("content", "byte wrong while draining; history " + hist); break; }
                    sb->consume(a); released += a;
                    uint64_t t = a; while (t) { if (pieces.empty()) { bad("invented", "drain beyond the committed data " + hist); return; } Piece &pc = pieces.front(); size_t z = std::min<size_t>(pc.n, t); pc.p += z; pc.n -= z; t -= z; if (!pc.n) pieces.pop_front(); }
                }
                C = sb->consumerPos - base;
                note("L" + std::to_string(n));
                if (!q) { bad("starved", "a reservation of " + std::to_string(n) + " bytes never succeeds although the consumer drained the queue; history " + hist); break; }
                for (auto &pc : pieces) if (q < pc.p + pc.n && pc.p < q + n) bad("overlap", "reservation overlaps unreleased data; history " + hist);
                if (q < base || q + n > base + SIZE) { bad("outside", hist); break; }
                if (q - base < P) ++wraps;
                P = q - base; maybeWrapped = false; memset(q, 0xCC, n); open = true; rp = q; rn = n;
                ++fullBlocks;
            }
            if (sb->checkCanDelete()) bad("candelete", "a buffer of a live thread is offered for deletion");
            if (committed != released) { sb->shouldDeallocate = true; if (sb->checkCanDelete()) bad("candelete", "a buffer with unreleased data is offered for deletion; history " + hist); sb->shouldDeallocate = false; }
            else if (!open) { sb->shouldDeallocate = true; uint64_t a; sb->peek(&a); if (!sb->checkCanDelete()) bad("candelete", "a drained buffer of an exited thread is not deletable; history " + hist); sb->shouldDeallocate = false; C = sb->consumerPos - base; }
        }
    }
    printf("STAT bytes %lu\n", committed);
}
// Two threads, blocking producer.
static void duo(uint64_t seed, uint64_t bytes, int prof) {
    std::unique_ptr<SB> sb(new SB(7));
    char *base = sb->storage;
    std::thread prod([&] {
        Rng r(seed);
        uint64_t pos = 0;
        while (pos < bytes && !bads) {
            size_t n = std::min(pickSize(r, prof), SIZE - 1);
            char *p = sb->reserveProducerSpace(n);
            if (p < base || p + n > base + SIZE) { bad("outside", "reservation of " + std::to_string(n) + " at " + std::to_string(p - base)); exit(1); }
            size_t m = r.below(8) ? n : 1 + r.below(n);
            memset(p, 0xCC, n);
            if (r.below(200) == 0) sched_yield();
            for (size_t i = 0; i < m; ++i) p[i] = byteAt(pos + i);
            sb->finishReservation(m);
            pos += m;
            if (r.below(300) == 0) usleep(1 + (useconds_t)r.below(50));
        }
        bytes = pos;
    });
    Rng r(seed + 1);
    uint64_t rel = 0, peeks = 0, empty = 0, split = 0;
    time_t last = time(nullptr);
    while (rel < bytes && !bads) {
        uint64_t a; char *p = sb->peek(&a); ++peeks;
        if (!a) { ++empty; if ((empty & 0xfff) == 0 && time(nullptr) - last > 60) { bad("stuck", "no data for 60 s at stream position " + std::to_string(rel)); exit(1); } continue; }
        last = time(nullptr);
        if (p < base || p + a > base + SIZE) { bad("outside", "peek offers " + std::to_string(a) + " bytes at " + std::to_string(p - base)); exit(1); }
        for (uint64_t i = 0; i < a; ++i) if (p[i] != byteAt(rel + i)) { bad("content", "byte " + std::to_string(rel + i) + " of the stream is wrong (offset " + std::to_string(p + i - base) + ")"); exit(1); }
        uint64_t t = r.below(3) ? a : 1 + r.below(a);
        if (t < a) ++split;
        sb->consume(t); rel += t;
        if (r.below(400) == 0) usleep(1 + (useconds_t)r.below(100));
    }
    prod.join();
    uint64_t a; sb->peek(&a);
    if (!bads && a) bad("invented", "data left after the whole stream was consumed");
    evals += peeks - empty;
    partial += split;
    printf("STAT duo_bytes %lu\nSTAT duo_peeks %lu\n", rel, peeks - empty);
}
int main(int argc, char **argv) {
    (void)argc;
    std::string m = argv[1]; uint64_t seed = strtoull(argv[2], 0, 10), n = strtoull(argv[3], 0, 10);
    if (m == "model") { Rng r(seed); for (uint64_t k = 0; k < n / 20000 + 1 && !bads; ++k) model(r.next(), std::min<uint64_t>(n, 20000)); }
    else duo(seed, n, atoi(argv[4]));
    printf("STAT evaluations %lu\nSTAT wraps %lu\nSTAT refused %lu\nSTAT partial_releases %lu\nSTAT drained_reservations %lu\n", evals, wraps, refused, partial, fullBlocks);
    fflush(stdout);
    _exit(bads ? 1 : 0);
}
