// The preprocessor flavour of the encoder on exactly sized output buffers (C12).
//   encpre bound SEED ROUNDS     with -DFAKE: generated functions defined here
//   encpre dict                  the program's own generated dictionary into buffers of every size up to enough
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <memory>
#include <vector>
#include "Cycles.h"
#include "GeneratedCode.h"
#include "Log.h"
#include "Packer.h"
using namespace NanoLogInternal;
using namespace NanoLogInternal::Log;
struct Rng {
    uint64_t s;
    explicit Rng(uint64_t x) : s(x * 0x9E3779B97F4A7C15ULL + 1) { next(); }
    uint64_t next() { uint64_t z = (s += 0x9E3779B97F4A7C15ULL); z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL; z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL; return z ^ (z >> 31); }
    uint64_t below(uint64_t n) { return n ? next() % n : 0; }
};
#ifdef FAKE
static ssize_t compBytes(UncompressedEntry *re, char *out) {
    char *o = out, *in = re->argData;
    uint32_t n; memcpy(&n, in, 4);
    BufferUtils::TwoNibbles *tn = (BufferUtils::TwoNibbles *)o;
    o += 1;
    uint8_t v = BufferUtils::pack(&o, n) & 0xf;
    tn[0].first = v; tn[0].second = 0;
    memcpy(o, in + 4, n);
    return o + n - out;
}
static ssize_t compChars(UncompressedEntry *re, char *out) {
    size_t n = re->entrySize - sizeof(UncompressedEntry);
    char *o = out + (n + 1) / 2, *in = re->argData;
    memset(out, 0x11, (n + 1) / 2);
    for (size_t i = 0; i < n; ++i) BufferUtils::pack(&o, in[i]);
    return o - out;
}
namespace GeneratedFunctions {
LogMetadata logId2Metadata[] = {{"a", "f", 1, NanoLog::NOTICE}, {"b", "f", 2, NanoLog::NOTICE}};
ssize_t (*compressFnArray[])(UncompressedEntry *, char *) = {compBytes, compChars};
void (*decompressAndPrintFnArray[])(const char **, FILE *, void (*)(const char *, ...)) = {nullptr, nullptr};
size_t numLogIds = 2;
long int writeDictionary(char *, char *) { return 0; }
}
static int bound(uint64_t seed, int rounds) {
    Rng r(seed);
    unsigned long fulls = 0, near = 0, n = 0;
    for (int k = 0; k < rounds; ++k) {
        size_t cap = 100 + r.below(r.below(3) ? 1500 : 20000), maxMsg = 1 + r.below(r.below(2) ? 60 : 1000);
        std::unique_ptr<char[]> a(new char[cap]), b(new char[cap]);
        Encoder enc(a.get(), cap);
        bool inA = true;
        uint64_t now = 1ull << r.below(60);
        for (int s = 0; s < 60; ++s) {
            std::vector<char> in;
            for (size_t i = 1 + r.below(30); i--; ) {
                uint32_t len = (uint32_t)(r.below(4) ? r.below(maxMsg) : r.below(8)); size_t at = in.size();
                bool chars = r.below(2);
                if (chars) len = 1 + (uint32_t)r.below(cap / 4);
                in.resize(at + sizeof(UncompressedEntry) + (chars ? 0 : 4) + len, 's');
                UncompressedEntry ue; memset(&ue, 0, sizeof ue);
                now += r.below(1ull << r.below(40));
                ue.fmtId = chars; ue.entrySize = (uint32_t)(in.size() - at); ue.timestamp = r.below(20) ? now : r.next();
                memcpy(&in[at], &ue, sizeof ue); if (!chars) memcpy(&in[at + sizeof ue], &len, 4);
            }
            std::unique_ptr<char[]> x(new char[in.size()]); memcpy(x.get(), in.data(), in.size());
            uint64_t c = 0;
            long got = enc.encodeLogMsgs(x.get(), in.size(), (uint32_t)(r.next() >> r.below(64)), r.below(3) == 0, &c);
            n += c;
            size_t e = enc.getEncodedBytes();
            if (e > cap) { printf("BAD overflow: %zu bytes encoded into a buffer of %zu\n", e, cap); return 1; }
            if (cap - e < 64) ++near;
            if (got < (long)in.size()) {
                ++fulls;
                char *o; size_t len, osz;
                enc.swapBuffer(inA ? b.get() : a.get(), cap, &o, &len, &osz);
                inA = !inA;
            }
        }
    }
    printf("STAT preprocessor_output_buffers_filled %lu\nSTAT preprocessor_within_64_bytes_of_the_end %lu\nSTAT preprocessor_encoded_messages %lu\n", fulls, near, n);
    return 0;
}
#else
static int dict() {
    // a generous buffer first, for the size
    std::vector<char> big(4 << 20);
    char *p = big.data();
    if (!insertCheckpoint(&p, big.data() + big.size(), true)) { printf("BAD dictionary: does not fit 4 MB\n"); return 1; }
    size_t need = (size_t)(p - big.data());
    unsigned long fits = 0, refused = 0;
    size_t step = need / 3000 + 1;
    for (size_t cap = 0; cap < need + 600; cap += (cap + 200 > need ? 1 : step)) {
        std::unique_ptr<char[]> b(new char[cap ? cap : 1]);
        char *q = b.get();
        bool ok = insertCheckpoint(&q, b.get() + cap, true);
        if (ok && (size_t)(q - b.get()) > cap) { printf("BAD dictionary: %zu bytes in %zu\n", (size_t)(q - b.get()), cap); return 1; }
        if (!ok && cap >= need + 512) { printf("BAD dictionary: refused although %zu of %zu bytes suffice\n", need, cap); return 1; }
        ++(ok ? fits : refused);
    }
    printf("STAT dictionary_buffers_too_small %lu\nSTAT dictionary_buffers_sufficient %lu\n", refused, fits);
    return 0;
}
#endif
int main(int argc, char **argv) {
    PerfUtils::Cycles::init();
    (void)argc;
#ifdef FAKE
    return bound(strtoull(argv[2], 0, 10), atoi(argv[3]));
#else
    (void)argv;
    return dict();
#endif
}
