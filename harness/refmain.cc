#include "ref.h"
#include <stdlib.h>
#include <algorithm>
int evals[20000];
std::vector<int> trace;
#ifdef REF
static FILE *side;
static const char *const names[] = {"", "ERROR", "WARNING", "NOTICE", "DEBUG"};
void refLog(const char *file, int line, NanoLog::LogLevels::LogLevel lv, const char *fmt, ...) {
    va_list ap; va_start(ap, fmt);
    char *p = nullptr; int n = vasprintf(&p, fmt, ap); va_end(ap);
    fprintf(side, "%s\t%d\t%s\t%d\n", file, line, names[lv], n);
    fwrite(p, 1, (size_t)n, side); fputc('\n', side); free(p);
}
#endif
extern void (*const allFns[])();
extern const int nAllFns;
// app SEED ROUNDS
int main(int argc, char **argv) {
    uint64_t s = strtoull(argv[1], 0, 10); int rounds = atoi(argv[2]);
#ifdef REF
    side = fopen("side", "wb");
#else
    NanoLog::setLogFile("log"); NanoLog::setLogLevel(DEBUG);
#endif
    for (int r = 0; r < rounds; ++r) {
        std::vector<int> o; for (int i = 0; i < nAllFns; ++i) o.push_back(i);
        for (int i = nAllFns - 1; i > 0; --i) { s = s * 6364136223846793005ULL + 1442695040888963407ULL; std::swap(o[(size_t)i], o[(size_t)((s >> 33) % (uint64_t)(i + 1))]); }
        for (int i : o) { tr(-i - 1); allFns[i](); }
    }
#ifdef REF
    fclose(side);
#else
    NanoLog::sync();
#endif
    for (int v : trace) printf("%d\n", v);
    for (int i = 0; i < 20000; ++i) if (evals[i]) printf("ev %d %d\n", i, evals[i]);
    return 0;
}
