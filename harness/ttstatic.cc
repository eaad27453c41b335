// Time traces recorded and printed by constructors and destructors of static objects (C19).
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <string>
#include <thread>
#include "TimeTrace.h"
using PerfUtils::TimeTrace;
static unsigned recorded, from;     // a trace begins where its youngest thread does
static void events(unsigned n) { for (unsigned i = 0; i < n; ++i) { TimeTrace::record("event %u of %u", recorded, n); ++recorded; } }
static void judge(const char *when) {
    std::string t = TimeTrace::getTrace();
    size_t p = 0;
    for (unsigned i = from; i < recorded; ++i) {
        char w[40]; snprintf(w, sizeof(w), ": event %u of ", i);
        size_t q = t.find(w, p);
        if (q == std::string::npos || (i > from && t.substr(p, q - p).find("event") != t.substr(p, q - p).rfind("event"))) { printf("BAD static: %s: event %u of %u is not where it belongs in the trace\n", when, i, recorded); return; }
        p = q + 1;
    }
    if (t.find("event", p + 3 + 5) != std::string::npos) printf("BAD static: %s: more events than the %u recorded\n", when, recorded);
    printf("STAT static_events %u\n", recorded); fflush(stdout);
}
struct O {
    O() { events(5); std::thread([] { from = recorded; events(7); }).join(); judge("constructor"); events(3); }
    ~O() { events(4); judge("destructor"); std::thread([] { from = recorded; events(6); }).join(); judge("destructor after a thread"); }
} o;
int main() { judge("main"); events(9); judge("main"); return 0; }
