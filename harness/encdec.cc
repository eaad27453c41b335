// Drives Log::Encoder and Log::Decoder directly.
//   order SEED ROUNDS      simulated background passes -> ordered decoding must be sorted   (C06)
//   mk FILE SEED           a log with known block ends, written to FILE and FILE.ends       (C05)
//   cut FILE ENDS LO HI STEP  decode FILE cut at LO, LO+STEP, .. < HI                       (C05)
#include "TestUtil.h"
#include <fcntl.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <algorithm>
#include <deque>
#include <map>
#include <memory>
#include <string>
#include <vector>
#include "Cycles.h"
#include "Log.h"
#include "NanoLog.h"
#include "Packer.h"
using namespace NanoLogInternal;
using namespace NanoLogInternal::Log;
static int bads = 0;
static std::string tmpName;
static void bad(const std::string &k, const std::string &w) { if (bads++ < 10) { printf("BAD %s: %s\n", k.c_str(), w.c_str()); fflush(stdout); } }
struct Rng {
    uint64_t s;
    explicit Rng(uint64_t x) : s(x * 0x9E3779B97F4A7C15ULL + 1) { next(); }
    uint64_t next() { uint64_t z = (s += 0x9E3779B97F4A7C15ULL); z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL; z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL; return z ^ (z >> 31); }
    uint64_t below(uint64_t n) { return n ? next() % n : 0; }
};
// compression function for statements whose arguments are N unsigned ints
template <int N> static void compN(int nibbles, const ParamType *, char **in, char **out) {
    BufferUtils::TwoNibbles *tn = (BufferUtils::TwoNibbles *)*out;
    memset(tn, 0, (size_t)(nibbles + 1) / 2);
    *out += (nibbles + 1) / 2;
    for (int i = 0; i < N; ++i) {
        uint32_t v; memcpy(&v, *in, 4); *in += 4;
        uint8_t c = (uint8_t)BufferUtils::pack(out, v);
        if (i % 2 == 0) tn[i / 2].first = c & 0xf; else tn[i / 2].second = c & 0xf;
    }
}
static const ParamType PT[8] = {NON_STRING, NON_STRING, NON_STRING, NON_STRING, NON_STRING, NON_STRING, NON_STRING, NON_STRING};
static std::vector<StaticLogInfo> dict(size_t n) {
    static std::deque<std::string> keep;
    std::vector<StaticLogInfo> d;
    for (size_t i = 0; i < n; ++i) {
        if (keep.size() <= i) keep.push_back("m %u " + std::string(i % 3 == 2 ? "long text that takes some room in the dictionary " : "") + "%u" + (i % 2 ? " %u %u %u" : ""));
        d.emplace_back(i % 2 ? &compN<5> : &compN<2>, "sim.cc", (uint32_t)(10 + i), NOTICE, keep[i].c_str(), i % 2 ? 5 : 2, i % 2 ? 5 : 2, PT);
    }
    return d;
}
struct Msg { uint64_t ts; uint32_t w, idx, fmt; };
static size_t entry(const Msg &m, std::vector<char> &o) {
    int n = m.fmt % 2 ? 5 : 2;
    size_t at = o.size(), sz = sizeof(UncompressedEntry) + 4u * (size_t)n;
    o.resize(at + sz);
    UncompressedEntry ue; memset(&ue, 0, sizeof ue);
    ue.fmtId = m.fmt; ue.entrySize = (uint32_t)sz; ue.timestamp = m.ts;
    memcpy(&o[at], &ue, sizeof ue);
    uint32_t a[5] = {m.w, m.idx, m.idx * 7u, m.w * 1000003u, 0u};
    memcpy(&o[at + sizeof ue], a, 4u * (size_t)n);
    return sz;
}
static std::string textOf(const Msg &m) {
    char b[300];
    snprintf(b, sizeof b, "m %u %s%u", m.w, m.fmt % 3 == 2 ? "long text that takes some room in the dictionary " : "", m.idx);
    std::string s = b;
    if (m.fmt % 2) { snprintf(b, sizeof b, " %u %u %u", m.idx * 7u, m.w * 1000003u, 0u); s += b; }
    return s;
}
// ---- decoding into memory --------------------------------------------------
static bool decodeAll(const char *file, int how, std::string &out, int64_t &n) {
    char *p = nullptr; size_t sz = 0;
    FILE *f = open_memstream(&p, &sz);
    bool opened;
    {
        Decoder d;
        opened = d.open(file);
        n = 0;
        if (opened) {
            if (how == 0) n = d.decompressUnordered(f);
            else if (how == 1) n = d.decompressTo(f);
            else { LogMessage a; while (d.getNextLogStatement(a, f)) ++n; }
        }
    }
    fclose(f); out.assign(p, sz); free(p);
    // the summary line is not part of the messages
    size_t z = out.rfind("\r\n\r\n# Decompression Complete");
    if (z != std::string::npos) out.resize(z);
    return opened;
}
static std::vector<std::string> lines(const std::string &s) {
    std::vector<std::string> v; size_t i = 0;
    while (i < s.size()) { size_t j = s.find("\r\n", i); if (j == std::string::npos) { v.push_back(s.substr(i) + "<no line end>"); break; } if (j > i) v.push_back(s.substr(i, j - i)); i = j + 2; }
    return v;
}
static std::string textPart(const std::string &l) { size_t i = l.find("]: "); return i == std::string::npos ? l : l.substr(i + 3); }

// ---- simulated background thread -------------------------------------------
struct Sim {
    Rng r;
    std::vector<StaticLogInfo> d;
    uint32_t persisted = 0;
    std::vector<char> ob; std::unique_ptr<Encoder> enc;
    FILE *f; size_t cap;
    std::vector<std::pair<size_t, size_t>> ends;   // (file offset, messages so far)
    size_t fileBytes = 0, msgs = 0;
    uint64_t now = 1000, tick0;
    struct Buf { uint32_t id, w; std::deque<Msg> q; uint32_t next = 0; bool exited = false, splitPending = false; size_t visSplit = 0; };
    std::deque<Buf> bufs; uint32_t nextId = 1;
    size_t i = 0; bool wrap = false, full = false;
    std::vector<Msg> all;
    uint64_t splits = 0, fulls = 0, deaths = 0, births = 0, passes = 0, late = 0;
    std::vector<char> spare;
    Sim(uint64_t seed, FILE *f_, size_t cap_) : r(seed), f(f_), cap(cap_) {
        d = dict(1 + r.below(12));
        ob.resize(cap); spare.resize(cap);
        enc.reset(new Encoder(ob.data(), cap));
        now = PerfUtils::Cycles::rdtsc(); tick0 = now;
        registered = 1;
    }
    size_t registered;
    void flush() {
        size_t n = enc->getEncodedBytes();
        if (n) {
            char *o; size_t len, osz;
            enc->swapBuffer(spare.data(), cap, &o, &len, &osz);
            fwrite(o, 1, len, f); fileBytes += len;
            ob.swap(spare);
            lastId = ~0u;
        }
        full = false;
    }
    uint32_t lastId = ~0u;
    void dictionary() {
        if (persisted < registered) {
            lastId = ~0u;
            std::vector<StaticLogInfo> part(d.begin(), d.begin() + (long)registered);
            enc->encodeNewDictionaryEntries(persisted, part);
        }
    }
    void logOne(Buf &b) {
        if (registered < d.size() && r.below(10) == 0) ++registered;
        now += 1 + r.below(20);
        Msg m{now, b.w, b.next++, (uint32_t)r.below(registered)};
        b.q.push_back(m); all.push_back(m);
    }
    void birth() { Buf b; b.id = nextId++; b.w = b.id; bufs.push_back(b); ++births; }
    // one visit of the scan
    void visit() {
        if (bufs.empty()) return;
        dictionary();
        Buf &b = bufs[i];
        // what peek shows: everything committed now, or only up to the end of the ring
        size_t avail = b.q.size();
        if (avail && b.splitPending) { b.splitPending = false; }
        else if (avail > 1 && r.below(4) == 0) { avail = 1 + r.below(avail - 1); b.splitPending = true; ++splits; }
        // messages may arrive between peek and the end of the encoding
        size_t encodable = 0;
        while (encodable < avail && b.q[encodable].fmt < persisted) ++encodable;
        if (avail) {
            size_t at = 0;
            while (at < avail) {
                size_t chunk = std::min<size_t>(avail - at, 1 + r.below(40));
                std::vector<char> in; std::vector<size_t> sizes;
                for (size_t k = 0; k < chunk; ++k) sizes.push_back(entry(b.q[k], in));
                uint64_t cnt = 0;
                std::vector<StaticLogInfo> part(d.begin(), d.begin() + (long)persisted);
                bool fresh = wrap || lastId != b.id;
                long got = enc->encodeLogMsgs(in.data(), in.size(), b.id, wrap, part, &cnt);
                if (got <= 0) { full = true; ++fulls; b.splitPending = false; break; }
                wrap = false;
                size_t done = 0; while (got > 0) { got -= (long)sizes[done]; ++done; }
                if (got != 0 || done != cnt) { bad("encode", "consumed a partial entry"); return; }
                for (size_t k = 0; k < done; ++k) b.q.pop_front();
                msgs += done; at += done;
                // a block is complete once another one follows or the buffer is handed out
                if (!fresh && !ends.empty()) ends.pop_back();
                lastId = b.id;
                ends.emplace_back(fileBytes + enc->getEncodedBytes(), msgs);
                if (r.below(3) == 0) arrivals(2);
            }
            if (full) return;     // resumes at the same buffer
        } else if (b.exited) {
            bufs.erase(bufs.begin() + (long)i); ++deaths;
            if (bufs.empty()) { i = 0; wrap = true; ++passes; return; }
            if (i == bufs.size()) { i = 0; wrap = true; ++passes; }
            return;
        }
        i = (i + 1) % bufs.size();
        if (i == 0) { wrap = true; ++passes; }
    }
    void arrivals(size_t n) {
        for (size_t k = 0; k < n; ++k) {
            if (bufs.empty()) return;
            Buf &b = bufs[r.below(bufs.size())];
            if (!b.exited && b.q.size() < 200) logOne(b);
        }
    }
    void run(size_t steps, size_t maxThreads) {
        for (size_t k = 0; k < 1 + r.below(maxThreads); ++k) birth();
        uint64_t rate = 1 + r.below(6), fullPct = r.below(3) ? 0 : 5;
        for (size_t s = 0; s < steps && !bads; ++s) {
            if (r.below(50) == 0) { rate = r.below(8); }
            if (r.below(60) == 0 && bufs.size() < maxThreads) birth();
            if (r.below(80) == 0 && !bufs.empty()) bufs[r.below(bufs.size())].exited = true;
            arrivals(r.below(rate + 1));
            visit();
            if (full || r.below(100) < fullPct + 3) flush();
        }
        for (auto &b : bufs) b.exited = true;
        for (size_t s = 0; s < 100000 && !bufs.empty() && !bads; ++s) { visit(); if (full) flush(); }
        flush();
    }
};
static void order(uint64_t seed, int rounds) {
    uint64_t total = 0, splits = 0, fulls = 0, deaths = 0, passes = 0, moved = 0;
    Rng r(seed);
    for (int k = 0; k < rounds && !bads; ++k) {
        uint64_t s = r.next() >> 8;
        FILE *f = fopen(tmpName.c_str(), "w+");
        size_t caps[] = {1500, 2500, 6000, 60000};
        Sim sim(s, f, caps[r.below(4)]);
        sim.run(100 + r.below(1500), 2 + r.below(r.below(4) ? 5 : 20));
        fclose(f);
        std::string key = "round " + std::to_string(k) + " sim-seed " + std::to_string(s);
        std::string o, u; int64_t n, nu;
        decodeAll(tmpName.c_str(), 1, o, n);
        decodeAll(tmpName.c_str(), 0, u, nu);
        std::vector<std::string> lo = lines(o), lu = lines(u);
        for (auto *v : {&lo, &lu}) v->erase(std::remove_if(v->begin(), v->end(), [](const std::string &l) { return l[0] == '#'; }), v->end());
        std::stable_sort(sim.all.begin(), sim.all.end(), [](const Msg &a, const Msg &b) { return a.ts < b.ts; });
        if (lo.size() != sim.all.size()) bad("ordered-count", key + ": " + std::to_string(lo.size()) + " of " + std::to_string(sim.all.size()) + " messages printed");
        for (size_t z = 0; z < lo.size() && z < sim.all.size(); ++z) {
            if (textPart(lo[z]) != textOf(sim.all[z])) { bad("ordered", key + ": position " + std::to_string(z) + ": expected \"" + textOf(sim.all[z]) + "\" (next in time), printed \"" + textPart(lo[z]) + "\""); break; }
            if (z < lu.size() && lu[z] != lo[z]) ++moved;
        }
        std::sort(lo.begin(), lo.end()); std::sort(lu.begin(), lu.end());
        if (lo != lu) bad("permutation", key + ": ordered and unordered decoding print different messages");
        if (n != (int64_t)sim.all.size() || nu != n) bad("count", key);
        total += sim.all.size(); splits += sim.splits; fulls += sim.fulls; deaths += sim.deaths; passes += sim.passes;
        unlink(tmpName.c_str());
    }
    printf("STAT sim_messages %lu\nSTAT sim_split_peeks %lu\nSTAT sim_output_full %lu\nSTAT sim_buffer_deaths %lu\nSTAT sim_passes %lu\nSTAT sim_messages_moved_by_ordering %lu\nSTAT evaluations %d\n", total, splits, fulls, deaths, passes, moved, rounds);
}
static void mk(const char *file, uint64_t seed) {
    Rng r(seed);
    FILE *f = fopen(file, "w"), *e = fopen((std::string(file) + ".ends").c_str(), "w");
    size_t off = 0, n = 0;
    for (int k = 0, execs = 1 + (int)r.below(3); k < execs; ++k) {
        Sim s(r.next(), f, 1500);
        s.run(10 + r.below(60), 3);
        for (auto &x : s.ends) fprintf(e, "%zu %zu\n", off + x.first, n + x.second);
        off += s.fileBytes; n += s.msgs;
    }
    fclose(f); fclose(e);
}
static void cut(const char *file, const char *endsFile, long lo, long hi, long step) {
    std::vector<std::pair<long, long>> ends;
    if (FILE *e = fopen(endsFile, "r")) { long a, b; while (fscanf(e, "%ld %ld", &a, &b) == 2) ends.emplace_back(a, b); fclose(e); }
    std::sort(ends.begin(), ends.end());
    std::string full[3]; int64_t n[3];
    for (int h = 0; h < 3; ++h) decodeAll(file, h, full[h], n[h]);
    std::map<std::string, int> inFull; for (auto &l : lines(full[0])) ++inFull[l];
    // copy
    { std::string c = "cp '" + std::string(file) + "' '" + tmpName + "'"; if (system(c.c_str())) exit(3); }
    FILE *z = fopen(file, "r"); fseek(z, 0, SEEK_END); long size = ftell(z); fclose(z);
    hi = std::min(hi, size + 1);
    long evals = 0, distinct = 0, last = -1;
    int64_t prevN = INT64_MAX;
    for (long c = hi - 1 - ((hi - 1 - lo) % step); c >= lo && bads < 5; c -= step) {
        if (truncate(tmpName.c_str(), c)) exit(3);
        fprintf(stderr, "CUT %ld\n", c);
        ++evals;
        std::string o[3]; int64_t m[3];
        for (int h = 0; h < 3; ++h) decodeAll(tmpName.c_str(), h, o[h], m[h]);
        for (int h : {0, 2}) {
            if (full[h].compare(0, o[h].size(), o[h])) { size_t d = 0; while (d < o[h].size() && d < full[h].size() && o[h][d] == full[h][d]) ++d;
                bad("prefix", "cut at byte " + std::to_string(c) + " interface " + std::to_string(h) + ": output differs from the full one at output byte " + std::to_string(d) + ": \"" + o[h].substr(d > 60 ? d - 60 : 0, 160) + "\""); break; }
            if (!o[h].empty() && (o[h].size() < 2 || o[h].compare(o[h].size() - 2, 2, "\r\n"))) { bad("whole", "cut at byte " + std::to_string(c) + " interface " + std::to_string(h) + ": output ends in the middle of a line: \"" + o[h].substr(o[h].size() > 80 ? o[h].size() - 80 : 0) + "\""); break; }
        }
        std::map<std::string, int> seen;
        for (auto &l : lines(o[1])) { auto it = inFull.find(l); if (it == inFull.end() || ++seen[l] > it->second) { bad("ordered-subset", "cut at byte " + std::to_string(c) + ": ordered decoding prints \"" + l + "\" which is " + (it == inFull.end() ? "not in the complete log" : "a duplicate")); break; } }
        for (int h = 0; h < 3; ++h) {
            int64_t k = 0; for (auto &l : lines(o[h])) if (l[0] != '#') ++k;
            if (m[h] < 0) m[h] = k;           // an error was reported instead of a count
            if (k != m[h]) { bad("count", "cut at byte " + std::to_string(c) + " interface " + std::to_string(h) + ": reports " + std::to_string(m[h]) + " messages, printed " + std::to_string(k)); break; }
            long must = 0; for (auto &e : ends) if (e.first <= c) must = std::max(must, e.second);
            if (h != 1 && m[h] > prevN) bad("monotone", "cut at byte " + std::to_string(c) + ": more messages than with more bytes");
            if (m[h] < must) { bad("lost", "cut at byte " + std::to_string(c) + " interface " + std::to_string(h) + ": " + std::to_string(m[h]) + " messages printed, but " + std::to_string(must) + " lie wholly in complete blocks before the cut"); break; }
        }
        if (m[0] != last) { ++distinct; last = m[0]; }
        prevN = m[0];
    }
    unlink(tmpName.c_str());
    printf("STAT evaluations %ld\nSTAT distinct_prefixes %ld\nSTAT file_bytes %ld\nSTAT messages %ld\n", evals, distinct, size, (long)n[0]);
}
// ---- thread numbers of every magnitude ---------------------------------------
static void ids(const char *file, uint64_t seed) {
    Rng r(seed);
    size_t cap = 1 << 20;
    std::vector<char> ob(cap), spare(cap);
    auto d = dict(4);
    FILE *f = fopen(file, "wb");
    std::vector<std::pair<uint32_t, std::string>> want;
    {
        Encoder enc(ob.data(), cap);
        uint32_t cur = 0, last = ~0u;
        enc.encodeNewDictionaryEntries(cur, d);
        for (int i = 0; i < 4000; ++i) {
            uint32_t id;
            switch (r.below(6)) {
                case 0: id = (uint32_t)r.below(20); break;
                case 1: id = (uint32_t)((1ull << r.below(33)) - r.below(3)); break;
                case 2: id = (uint32_t)((1ull << (8 * r.below(5))) + r.below(3)); break;
                case 3: id = (uint32_t)(r.below(256) << (8 * r.below(4))); break;
                case 4: id = last + 1; break;
                default: id = (uint32_t)(r.next() >> r.below(60)); break;
            }
            last = id;
            std::vector<char> in;
            int k = 1 + (int)r.below(3);
            for (int j = 0; j < k; ++j) {
                Msg m{1000u + (uint64_t)i, (uint32_t)i, (uint32_t)j, (uint32_t)r.below(4)};
                entry(m, in);
                want.push_back({id, textOf(m)});
            }
            uint64_t n = 0;
            if (enc.encodeLogMsgs(in.data(), in.size(), id, r.below(4) == 0, d, &n) != (long)in.size() || n != (uint64_t)k) bad("encode", "message not encoded");
            if (r.below(200) == 0 || i == 3999) {
                char *o; size_t len, osz;
                enc.swapBuffer(spare.data(), cap, &o, &len, &osz);
                fwrite(o, 1, len, f);
                ob.swap(spare);
            }
        }
    }
    fclose(f);
    std::string out; int64_t n;
    if (!decodeAll(file, 0, out, n)) bad("decode", "log not opened");
    auto l = lines(out);
    if (l.size() != want.size()) bad("decode", std::to_string(l.size()) + " of " + std::to_string(want.size()) + " messages decoded");
    for (size_t i = 0; i < l.size() && i < want.size(); ++i) {
        size_t a = l[i].find('['), b = l[i].find("]: ");
        std::string id = a != std::string::npos && b != std::string::npos ? l[i].substr(a + 1, b - a - 1) : "?";
        if (id != std::to_string(want[i].first) || textPart(l[i]) != want[i].second)
            bad("thread number", "message " + std::to_string(i) + " of thread " + std::to_string(want[i].first) + " printed as " + l[i]);
    }
    unlink(file);
    printf("IDS %zu\n", want.size());
}
// ---- full output buffers (for AddressSanitizer: every buffer has exactly its stated size) ----
static void compBytes(int nibbles, const ParamType *, char **in, char **out) {
    uint32_t n; memcpy(&n, *in, 4);
    compN<1>(1, nullptr, in, out);
    memcpy(*out, *in, n); *in += n; *out += n;
}
// compression function for statements with one-byte arguments, which grow by a nibble each
static void compChars(int nibbles, const ParamType *, char **in, char **out) {
    BufferUtils::TwoNibbles *tn = (BufferUtils::TwoNibbles *)*out;
    memset(tn, 0, (size_t)(nibbles + 1) / 2);
    *out += (nibbles + 1) / 2;
    for (int i = 0; i < nibbles; ++i) {
        char v = *(*in)++;
        uint8_t c = (uint8_t)BufferUtils::pack(out, v);
        if (i % 2 == 0) tn[i / 2].first = c & 0xf; else tn[i / 2].second = c & 0xf;
    }
}
static void bound(uint64_t seed, int rounds) {
    Rng r(seed);
    uint64_t fulls = 0, near = 0, n = 0, dicts = 0;
    for (int k = 0; k < rounds; ++k) {
        size_t cap = 200 + r.below(r.below(3) ? 1500 : 20000), maxMsg = 1 + r.below(r.below(2) ? 60 : 1000);
        std::unique_ptr<char[]> a(new char[cap]), b(new char[cap]);
        Encoder enc(a.get(), cap);
        bool inA = true;
        std::deque<std::string> keep;
        std::vector<StaticLogInfo> d;
        uint32_t persisted = 0; uint64_t now = 1ull << r.below(60);
        int stuck = 0;
        for (int s = 0; s < 60 && stuck < 3; ++s) {
            if (d.empty() || r.below(6) == 0)
                for (size_t z = 1 + r.below(4); z--; ) {
                    keep.push_back(std::string(r.below(std::min<size_t>(cap / 3, 400)), 'f')); const char *fn = keep.back().c_str();
                    keep.push_back(std::string(r.below(std::min<size_t>(cap / 3, 400)), 'x'));
                    if (r.below(2)) d.emplace_back(&compBytes, fn, 1u, NOTICE, keep.back().c_str(), 1, 1, PT);
                    else d.emplace_back(&compChars, fn, 1u, NOTICE, keep.back().c_str(), 1, 1 + (int)r.below(std::min<size_t>(cap / 4, 250)), PT);
                }
            bool full = false;
            if (persisted < d.size()) { enc.encodeNewDictionaryEntries(persisted, d); ++dicts; full = persisted < d.size(); }
            if (persisted) {
                std::vector<char> in;
                size_t cnt = 1 + r.below(30);
                std::vector<size_t> sizes;
                for (size_t i = 0; i < cnt; ++i) {
                    uint32_t len = (uint32_t)(r.below(4) ? r.below(maxMsg) : r.below(8)); size_t at = in.size();
                    UncompressedEntry ue; memset(&ue, 0, sizeof ue);
                    now += r.below(1ull << r.below(40));
                    ue.fmtId = (uint32_t)r.below(persisted);
                    bool chars = d[ue.fmtId].compressionFunction == &compChars;
                    in.resize(at + sizeof(UncompressedEntry) + (chars ? (size_t)d[ue.fmtId].numNibbles : 4 + len), 's');
                    ue.entrySize = (uint32_t)(in.size() - at); ue.timestamp = r.below(20) ? now : r.next();
                    memcpy(&in[at], &ue, sizeof ue); if (!chars) memcpy(&in[at + sizeof ue], &len, 4);
                    sizes.push_back(ue.entrySize);
                }
                // exactly sized input as well
                std::unique_ptr<char[]> x(new char[in.size()]); memcpy(x.get(), in.data(), in.size());
                uint64_t c = 0;
                long got = enc.encodeLogMsgs(x.get(), in.size(), (uint32_t)(r.next() >> r.below(64)), r.below(3) == 0, d, &c);
                n += c;
                if (got < (long)in.size()) full = true;
            }
            size_t e = enc.getEncodedBytes();
            if (e > cap) { bad("overflow", std::to_string(e) + " bytes encoded into a buffer of " + std::to_string(cap)); return; }
            if (cap - e < 64) ++near;
            if (full) {
                ++fulls;
                char *o; size_t len, osz;
                enc.swapBuffer(inA ? b.get() : a.get(), cap, &o, &len, &osz);
                inA = !inA;
                if (osz != cap || len != e) bad("swap", "buffer handed out with other sizes");
                stuck = e ? 0 : stuck + 1;
            }
        }
    }
    printf("STAT evaluations %d\nSTAT output_buffers_filled %lu\nSTAT within_64_bytes_of_the_end %lu\nSTAT encoded_messages %lu\nSTAT dictionary_writes %lu\n", rounds, fulls, near, n, dicts);
}
int main(int argc, char **argv) {
    PerfUtils::Cycles::init();
    std::string m = argv[1];
    tmpName = std::string(getenv("ED_TMP") ? getenv("ED_TMP") : ".") + "/ed." + std::to_string(getpid());
    if (m == "order") order(strtoull(argv[2], 0, 10), atoi(argv[3]));
    else if (m == "bound") bound(strtoull(argv[2], 0, 10), atoi(argv[3]));
    else if (m == "ids") ids(argv[2], strtoull(argv[3], 0, 10));
    else if (m == "mk") mk(argv[2], strtoull(argv[3], 0, 10));
    else if (m == "cut" && argc > 6) cut(argv[2], argv[3], atol(argv[4]), atol(argv[5]), atol(argv[6]));
    else return 3;
    return bads ? 1 : 0;
}
