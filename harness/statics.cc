// Logging from the constructors and destructors of static objects (and from
// atexit handlers and threads that live across them). Compiled twice, once
// linked in front of the library and once behind it (UNIT = A, B; A has main).
//   statics FILE(or -) K BLOB SYNC
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <string>
#include <thread>
#include "NanoLogCpp17.h"
using namespace NanoLog::LogLevels;
#define STR2(x) #x
#define STR(x) STR2(x)
static long param(const char *n) { const char *e = getenv(n); return e ? atol(e) : 1; }
static char blob[20001];
static void burst(const char *who, const char *when) {
    long k = param("ST_K"), len = param("ST_BLOB");
    if (!blob[0]) memset(blob, 'z', sizeof(blob) - 1);
    for (long i = 0; i < k; ++i) NANO_LOG(NOTICE, "%s %s %ld %.*s", who, when, i, (int)(len ? (i * 7919) % len : 0), blob);
    NANO_LOG(DEBUG, "%s %s quiet %d", who, when, 0);
}
static void file(const char *when) {
    const char *e = getenv("ST_FILE_AT"); char name[200];
    if (!e || strcmp(e, when)) return;
    snprintf(name, sizeof(name), "%s/switched", getenv("ST_DIR"));
    NanoLog::setLogFile(name);
}
namespace {
struct Obj {
    const char *name; std::thread across;
    explicit Obj(const char *n) : name(n) {
        file((std::string(n) + "-ctor").c_str());
        if (param("ST_LEVEL") && name[0] == 'A') NanoLog::setLogLevel(DEBUG);
        burst(name, "ctor");
        long t = param("ST_THREADS");
        if (t & 1) { std::thread x([this] { burst(name, "ctor-thread"); }); x.join(); }
        if (t & 2) across = std::thread([this] { burst(name, "across"); });
        if (param("ST_SYNC") & 1) NanoLog::sync();
        if (t & 4) { static const char *me; me = n; atexit([] { burst(me, "atexit"); }); }
    }
    ~Obj() {
        file((std::string(name) + "-dtor").c_str());
        burst(name, "dtor");
        if (across.joinable()) across.join();
        if (param("ST_THREADS") & 1) { std::thread x([this] { burst(name, "dtor-thread"); }); x.join(); }
        if (param("ST_SYNC") & 2) NanoLog::sync();
    }
};
Obj obj(STR(UNIT));
}
#ifdef WITH_MAIN
int main() {
    file("main");
    burst("M", "main");
    if (param("ST_SYNC") & 4) NanoLog::sync();
    return 0;
}
#endif
