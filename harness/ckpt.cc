// Prints where a checkpoint keeps its fields, and the raw time stamps of a log.
#include <stddef.h>
#include <stdio.h>
#include <string.h>
#include "Log.h"
using namespace NanoLogInternal::Log;
int main(int argc, char **argv) {
    if (argc < 2) { printf("%zu %zu %zu %zu\n", sizeof(Checkpoint), offsetof(Checkpoint, rdtsc), offsetof(Checkpoint, unixTime), offsetof(Checkpoint, cyclesPerSecond)); return 0; }
    Decoder d; if (!d.open(argv[1])) return 1;
    LogMessage m; while (d.getNextLogStatement(m, nullptr)) printf("%lu\n", m.getTimestamp());
    return 0;
}
