// Memory of the decoding interfaces: bytes in use while a log is decoded, and after
// decoding it again and again with one decoder.   decmem FILE ROUNDS
#include "TestUtil.h"
#include <malloc.h>
#include <stdio.h>
#include <stdlib.h>
#include <unistd.h>
#include <dirent.h>
#include "Cycles.h"
#include "Log.h"
using namespace NanoLogInternal::Log;
static size_t used() { struct mallinfo2 m = mallinfo2(); return m.uordblks + m.hblkhd; }
static int fds() { int n = 0; if (DIR *d = opendir("/proc/self/fd")) { while (readdir(d)) ++n; closedir(d); } return n; }
int main(int argc, char **argv) {
    if (argc < 3) return 3;
    PerfUtils::Cycles::init();
    FILE *null = fopen("/dev/null", "w");
    static char buf[4096]; setvbuf(null, buf, _IOFBF, sizeof buf);
    int rounds = atoi(argv[2]);
    // while iterating: one line per eighth of the log
    long n = 0;
    { Decoder d; if (!d.open(argv[1])) return 1; LogMessage m; while (d.getNextLogStatement(m, null)) ++n; }
    {
        Decoder d; d.open(argv[1]); LogMessage m; printf("ITER");
        for (long i = 0; i < n; ++i) { d.getNextLogStatement(m, null); if (n >= 16 && i % (n / 16) == 0) printf(" %zu", used()); }
        printf("\n");
    }
    for (int h = 0; h < 3; ++h) {
        Decoder d; LogMessage m; printf("REUSE%d", h);
        for (int i = 0; i < rounds; ++i) {
            d.open(argv[1]);
            if (h == 0) d.decompressUnordered(null); else if (h == 1) d.decompressTo(null); else while (d.getNextLogStatement(m, null)) { }
            printf(" %zu/%d", used(), fds());
        }
        printf("\n");
    }
    printf("MESSAGES");   // a new message object for every message
    for (int i = 0; i < rounds; ++i) { { Decoder d; d.open(argv[1]); bool more = true; while (more) { LogMessage m; more = d.getNextLogStatement(m, null); } } printf(" %zu/%d", used(), fds()); }
    printf("\nFRESH");
    for (int i = 0; i < rounds; ++i) { { Decoder d; d.open(argv[1]); if (i % 2) d.decompressTo(null); else d.decompressUnordered(null); } printf(" %zu/%d", used(), fds()); }
    printf("\nCOUNT %ld\n", n);
    return 0;
}
