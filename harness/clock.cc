// Monitor of PerfUtils::Cycles: conversions against exact arithmetic, the
// calibrated frequency and sleep() against the operating system's clock.
//   clock SEED VALUES SLEEPS [ONE MORE SLEEP, in us]
#include <math.h>
#include <sched.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <time.h>
#include <string>
#include "Cycles.h"
using PerfUtils::Cycles;
typedef long double LD;
typedef unsigned __int128 U128;
static uint64_t s;
static uint64_t rnd() { uint64_t z = (s += 0x9E3779B97F4A7C15ULL); z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL; z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL; return z ^ (z >> 31); }
static int bads;
static unsigned long evals;
static void judge(const char *what, LD got, LD exact, LD slack, LD in, LD f) {
    ++evals;
    if (!(fabsl(got - exact) <= slack + 16 * ldexpl(1, -53) * fabsl(exact)) && bads++ < 10)
        printf("BAD %s: of %.3Lf at %.3Lf cycles per second is %.9Lf, exactly %.9Lf\n", what, in, f, got, exact);
}
static double before;      // what a static object saw
struct Static { Static() { before = Cycles::perSecond(); } } object;
static double now() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return (double)t.tv_sec + (double)t.tv_nsec * 1e-9; }
static void both(uint64_t *c, double *t) {   // a reading of both clocks close together
    double best = 1;
    for (int i = 0; i < 200; ++i) {
        double a = now(); uint64_t x = Cycles::rdtsc(); double b = now();
        if (b - a < best) { best = b - a; *c = x; *t = (a + b) / 2; }
    }
}
static uint64_t pick(int bits) {
    int b = 1 + (int)(rnd() % (unsigned)bits);
    uint64_t v = rnd() >> (64 - b);
    switch (rnd() % 6) { case 0: return 1ULL << (b - 1); case 1: return (1ULL << (b - 1)) - 1; case 2: return v / 1000 * 1000; default: return v; }
}
int main(int argc, char **argv) {
    s = strtoull(argv[1], 0, 10); long n = atol(argv[2]); int sleeps = atoi(argv[3]);
    double per = Cycles::perSecond();
    uint64_t c0, c1; double t0, t1;
    both(&c0, &t0);
    Cycles::init();
    if (Cycles::perSecond() != per) printf("BAD recalibrated: %.1f then %.1f\n", per, Cycles::perSecond()), ++bads;
    if (before != per) printf("BAD static: a static object saw %.1f cycles per second, main() %.1f\n", before, per), ++bads;
    for (long i = 0; i < n; ++i) {
        double f = i % 3 == 0 ? 0 : i % 3 == 1 ? 1e6 + (double)(rnd() % 10000000000ULL) : (double)(1000000ULL << rnd() % 14);
        LD e = f == 0 ? per : f;
        uint64_t c = pick(62);
        judge("toSeconds", Cycles::toSeconds((int64_t)c, f), (LD)c / e, 0, (LD)c, e);
        judge("toSeconds", Cycles::toSeconds(-(int64_t)c, f), -(LD)c / e, 0, -(LD)c, e);
        LD ns = (LD)c * 1e9L / e;
        if (ns < 9e18L) {
            uint64_t g = Cycles::toNanoseconds(c, f);
            judge("toNanoseconds", (LD)g, ns, 0.5L + 1e-6L, (LD)c, e);
            judge("toMicroseconds", (LD)Cycles::toMicroseconds(c, f), ns / 1000, 1 + 1e-6L, (LD)c, e);
            judge("fromNanoseconds(toNanoseconds)", (LD)Cycles::fromNanoseconds(g, f), (LD)c, 0.5L + 0.5L * e / 1e9L + 1e-3L, (LD)c, e);
            uint64_t c2 = c + pick(20);
            if (Cycles::toNanoseconds(c2, f) < g || Cycles::toMicroseconds(c2, f) < Cycles::toMicroseconds(c, f) || Cycles::toSeconds((int64_t)c2, f) < Cycles::toSeconds((int64_t)c, f)) {
                if (bads++ < 10) printf("BAD monotone: %lu and %lu cycles at %.3Lf per second\n", c, c2, e); }
            ++evals;
        }
        uint64_t m = pick(62);
        if ((LD)m * e / 1e9L < 9e18L) judge("fromNanoseconds", (LD)Cycles::fromNanoseconds(m, f), (LD)m * e / 1e9L, 0.5L + 1e-6L, (LD)m, e);
        double sec = (double)pick(40) / (double)(1ULL << rnd() % 40);
        if ((LD)sec * e < 9e18L) judge("fromSeconds", (LD)Cycles::fromSeconds(sec, f), (LD)sec * e, 0.5L + 1e-6L, sec, e);
    }
    double worst = 1e9, least = 1e9; long slept = 0;
    for (int i = argc > 4 ? -1 : 0; i < sleeps; ++i) {
        uint64_t us = i < 0 ? strtoull(argv[4], 0, 10) : i % 4 == 0 ? rnd() % 5 : rnd() % 4000;
        double a = now(); Cycles::sleep(us); double b = now(); ++slept; ++evals;
        double over = (b - a) - (double)us * 1e-6;
        if (over < worst) worst = over;           // how long the shortest extra wait was
        if (over + (double)us * 1e-6 * 0.005 + 1e-6 < least) least = over + (double)us * 1e-6 * 0.005 + 1e-6;
    }
    cpu_set_t set; CPU_ZERO(&set); CPU_SET(sched_getcpu(), &set);
    if (!sched_setaffinity(0, sizeof(set), &set)) {
        uint64_t last = 0;
        for (int i = 0; i < 200000; ++i) { uint64_t x = Cycles::rdtsc(); if (x < last && bads++ < 10) printf("BAD rdtsc: %lu then %lu on one core\n", last, x); last = x; }
        evals += 200000;
    }
    while (now() - t0 < 0.4);
    both(&c1, &t1);
    double real = (double)(c1 - c0) / (t1 - t0);
    printf("EVALS %lu\nPER %.1f\nREAL %.1f\nOVER %.9f\nLEAST %.9f\nSLEPT %ld\n", evals, per, real, worst, least, slept);
    return bads != 0;
}
