// Compares the decoder's interfaces with each other on given logs.
//   declog out FILE H              output of interface H (0 bulk, 1 ordered, 2 iterator), then "COUNT n"
//   declog ts FILE 0              raw timestamps
//   declog agree SEED N FILE...    all interfaces on every file, then N steps with one reused decoder
#include "TestUtil.h"
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <algorithm>
#include <memory>
#include <string>
#include <vector>
#include "Cycles.h"
#include "Log.h"
using namespace NanoLogInternal::Log;
static int bads = 0;
static void bad(const std::string &k, const std::string &w) { if (bads++ < 10) { printf("BAD %s: %s\n", k.c_str(), w.c_str()); fflush(stdout); } }
struct Rng { uint64_t s; uint64_t next() { uint64_t z = (s += 0x9E3779B97F4A7C15ULL); z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL; z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL; return z ^ (z >> 31); } uint64_t below(uint64_t n) { return n ? next() % n : 0; } };
struct Out { std::string text; int64_t n = 0; std::vector<std::string> each; };
static std::string strip(std::string s) {
    size_t z = s.rfind("\r\n\r\n# Decompression Complete");
    if (z != std::string::npos) s.resize(z);
    return s;
}
static std::string meta(LogMessage &m) { return std::to_string(m.getLogId()) + "/" + std::to_string(m.getTimestamp()) + "/" + std::to_string(m.getNumArgs()); }
// how: 0 bulk, 1 ordered, 2 iterator, 3 iterator without output
static Out drain(Decoder &d, int how, long limit = -1) {
    Out o; char *p = nullptr; size_t sz = 0; FILE *f = open_memstream(&p, &sz);
    if (how == 0) o.n = d.decompressUnordered(f);
    else if (how == 1) o.n = d.decompressTo(f);
    else { LogMessage m; while ((limit < 0 || o.n < limit) && d.getNextLogStatement(m, how == 2 ? f : nullptr)) { ++o.n; o.each.push_back(meta(m)); } }
    fclose(f); o.text.assign(p, sz); free(p); o.text = strip(o.text);
    return o;
}
static std::vector<std::string> lines(const std::string &s) {
    std::vector<std::string> v; size_t i = 0;
    while (i < s.size()) { size_t j = s.find("\r\n", i); if (j == std::string::npos) j = s.size(); if (j > i) v.push_back(s.substr(i, j - i)); i = j + 2; }
    return v;
}
static std::string diff(const std::string &a, const std::string &b) {
    size_t d = 0; while (d < a.size() && d < b.size() && a[d] == b[d]) ++d;
    size_t s = d > 60 ? d - 60 : 0;
    return "at byte " + std::to_string(d) + ": \"" + a.substr(s, 140) + "\" vs \"" + b.substr(s, 140) + "\"";
}
int main(int argc, char **argv) {
    if (argc < 4) return 3;
    PerfUtils::Cycles::init();
    if (!strcmp(argv[1], "out")) {
        Decoder d; if (!d.open(argv[2])) { printf("NOT OPENED\n"); return 0; }
        Out o = drain(d, atoi(argv[3])); fwrite(o.text.data(), 1, o.text.size(), stdout); printf("\r\nCOUNT %ld\r\n", (long)o.n); return 0;
    }
    if (!strcmp(argv[1], "ts")) {
        Decoder d; if (!d.open(argv[2])) return 1;
        LogMessage m; while (d.getNextLogStatement(m, nullptr)) printf("%lu\n", m.getTimestamp());
        return 0;
    }
    Rng r{strtoull(argv[2], 0, 10)};
    long steps = atol(argv[3]);
    std::vector<std::string> files(argv + 4, argv + argc);
    std::vector<Out> ref[4];
    long msgs = 0;
    for (auto &f : files) {
        Out o[4];
        for (int h = 0; h < 4; ++h) { Decoder d; if (!d.open(f.c_str())) { bad("open", f); return 1; } o[h] = drain(d, h); ref[h].push_back(o[h]); }
        msgs += o[0].n;
        if (o[0].n != o[1].n || o[0].n != o[2].n || o[0].n != o[3].n) bad("count", f + ": bulk " + std::to_string(o[0].n) + " ordered " + std::to_string(o[1].n) + " iterator " + std::to_string(o[2].n) + " silent iterator " + std::to_string(o[3].n));
        if (o[0].text != o[2].text) bad("sequence", f + ": bulk and iterator differ " + diff(o[0].text, o[2].text));
        if (o[2].each != o[3].each) bad("silent", f + ": iterating with and without output reports different messages");
        std::vector<std::string> a = lines(o[0].text), b = lines(o[1].text);
        // same marks, and the same messages between them
        size_t i = 0, j = 0; bool ok = true;
        while (ok && (i < a.size() || j < b.size())) {
            std::vector<std::string> x, y;
            while (i < a.size() && a[i][0] != '#') x.push_back(a[i++]);
            while (j < b.size() && b[j][0] != '#') y.push_back(b[j++]);
            std::sort(x.begin(), x.end()); std::sort(y.begin(), y.end());
            if (x != y) { ok = false; break; }
            if ((i < a.size()) != (j < b.size()) || (i < a.size() && a[i] != b[j])) ok = false;
            ++i; ++j;
        }
        if (!ok) bad("multiset", f + ": ordered decoding prints other messages than unordered decoding (" + std::to_string(a.size()) + " and " + std::to_string(b.size()) + " lines)");
        // nothing comes after the end
        { Decoder d; d.open(f.c_str()); drain(d, 2); LogMessage m; if (d.getNextLogStatement(m, nullptr) || d.getNextLogStatement(m, nullptr)) bad("after-end", f); }
    }
    // one decoder reused
    Decoder d; long opens = 0, failed = 0;
    std::string hist;
    for (long s = 0; s < steps && !bads; ++s) {
        if (r.below(8) == 0) {
            if (r.below(2)) {
                if (d.open("/nonexistent/file")) bad("open-missing", "opening a missing file succeeds");
                hist += "open(missing);";
            } else {   // a file that does not start with a checkpoint
                std::string name = files[0] + ".other" + std::to_string(getpid()), b;
                FILE *i = fopen(files[r.below(files.size())].c_str(), "rb"), *o = fopen(name.c_str(), "wb");
                char buf[4096]; size_t n = i ? fread(buf, 1, r.below(3) ? sizeof(buf) : r.below(200), i) : 0;
                if (n) buf[0] = (char)((buf[0] & ~3) | (int)r.below(3));
                if (!o || fwrite(buf, 1, n, o) != n) return 3;
                fclose(o); if (i) fclose(i);
                if (d.open(name.c_str())) bad("open-other", "opening a file that does not start with a checkpoint succeeds");
                unlink(name.c_str()); hist += "open(no log);";
            }
            ++failed;
            LogMessage m;
            if (r.below(2) && d.getNextLogStatement(m, nullptr)) bad("failed-open", "a message is returned after a failed open; history " + hist);
            if (r.below(2)) { Out o = drain(d, (int)r.below(2)); if (o.n > 0 || !o.text.empty()) bad("failed-open", "messages are printed after a failed open; history " + hist); }
        }
        size_t k = r.below(files.size());
        if (!d.open(files[k].c_str())) { bad("reopen", files[k] + " cannot be opened any more; history " + hist); break; }
        ++opens;
        hist += "open(" + std::to_string(k) + ");";
        if (r.below(3) == 0) {   // partial consumption, then go elsewhere
            long n = (long)r.below((uint64_t)ref[2][k].n + 2);
            Out o = drain(d, 2, n); hist += "iterate " + std::to_string(n) + ";";
            if (o.n != std::min<long>(n, ref[2][k].n) || ref[2][k].text.compare(0, o.text.size(), o.text)) bad("reuse-partial", "history " + hist + " " + diff(ref[2][k].text, o.text));
            for (size_t z = 0; z < o.each.size(); ++z) if (o.each[z] != ref[2][k].each[z]) { bad("reuse-partial", "message " + std::to_string(z) + " reported as " + o.each[z] + " instead of " + ref[2][k].each[z] + "; history " + hist); break; }
        } else {
            int h = (int)r.below(4); Out o = drain(d, h); hist += "interface " + std::to_string(h) + ";";
            if (o.n != ref[h][k].n || o.text != ref[h][k].text || o.each != ref[h][k].each)
                bad("reuse", "interface " + std::to_string(h) + " gives " + std::to_string(o.n) + " messages, a fresh decoder " + std::to_string(ref[h][k].n) + "; " + diff(ref[h][k].text, o.text) + "; history " + hist);
        }
    }
    // several decoders alive and stepped alternately: each goes on as if it were alone
    long inter = 0;
    for (long s = 0; s < std::max<long>(2, steps / 8) && !bads; ++s) {
        struct S { std::unique_ptr<Decoder> d; size_t k; long n = 0; bool done = false; std::string text; LogMessage m; };
        std::vector<std::unique_ptr<S>> v;
        long cnt = 2 + (long)r.below(3);
        for (long i = 0; i < cnt; ++i) {
            v.emplace_back(new S); S &x = *v.back(); x.d.reset(new Decoder); x.k = r.below(files.size());
            if (!x.d->open(files[x.k].c_str())) bad("interleaved", "cannot open " + files[x.k]);
        }
        for (size_t open = v.size(); open && !bads;) {
            S &x = *v[r.below(v.size())];
            if (x.done) continue;
            for (long burst = 1 + (long)r.below(4); burst && !x.done && !bads; --burst) {
                char *p = nullptr; size_t sz = 0; FILE *f = open_memstream(&p, &sz);
                bool more = x.d->getNextLogStatement(x.m, f);
                fclose(f); x.text.append(p, sz); free(p);
                if (!more) { x.done = true; --open; break; }
                const Out &w = ref[2][x.k];
                if (x.n >= w.n || meta(x.m) != w.each[x.n]) bad("interleaved", "of " + std::to_string(cnt) + " decoders in use, the one of " + files[x.k] + " reports message " + std::to_string(x.n) + " as " + meta(x.m) + " instead of " + (x.n < w.n ? w.each[x.n] : "the end"));
                ++x.n; ++inter;
            }
            if (x.done && !bads) {
                std::string t = strip(x.text);
                if (t != ref[2][x.k].text || x.n != ref[2][x.k].n) bad("interleaved", "of " + std::to_string(cnt) + " decoders in use, the one of " + files[x.k] + " gives " + std::to_string(x.n) + " messages instead of " + std::to_string(ref[2][x.k].n) + "; " + diff(ref[2][x.k].text, t));
            }
        }
    }
    printf("STAT interleaved_messages %ld\n", inter);
    printf("STAT messages_compared %ld\nSTAT decoder_reopens %ld\nSTAT failed_opens %ld\nSTAT evaluations %ld\n", msgs, opens, failed, (long)files.size() + opens);
    return bads ? 1 : 0;
}
