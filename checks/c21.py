#!/usr/bin/env python3
import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *


def body(c):
    c.cov["rule"] = ("one evaluation = one conversion compared with the exact (80-bit) value, one pair compared for monotonicity, one sleep compared with the "
                     "operating system's clock or one counter reading; distinct = runs (processes) with different values and a fresh calibration")
    B = c.build_many([dict(name="o2", user_srcs=[HARNESS + "/clock.cc"], flags=["-O2"], dec=False),
                      dict(name="o0", user_srcs=[HARNESS + "/clock.cc"], flags=["-O0", "-fsanitize=undefined,float-cast-overflow", "-fno-sanitize-recover=all", "-fno-sanitize=alignment"], dec=False)])

    def one(k):
        app = B[k % 2][0]
        d = f"{c.dir}/r{k}"
        os.makedirs(d)
        q = run([app, str(c.seed * 1000 + k), str(c.n(150000, 4000000) // (4 if k % 2 else 1)), str(c.n(150, 1000))] + ([str(4_400_000 + k * 350_000)] if k < c.n(4, 12) else []), cwd=d, timeout=c.n(120, 600), env=SAN_ENV)
        o = q.out.decode("latin1")
        v = dict((l.split()[0], float(l.split()[1])) for l in o.split("\n") if re.match(r"(EVALS|PER|REAL|OVER|LEAST|SLEPT) ", l))
        shutil.rmtree(d, ignore_errors=True)
        return k, q, o, v
    off, short, long_, runs = [], [], [], []
    for k, q, o, v in pmap(one, range(c.n(10, 60)), workers=4):
        if q.timed_out:
            c.violation("hang", "converting or sleeping did not end")
            continue
        m = re.search(r"BAD (.*)", o)
        if m:
            c.violation(m.group(1).split(":")[0], m.group(1))
        elif q.crashed or q.rc:
            c.violation("crash", f"rc={q.rc} {q.sanitizer} {q.err[-600:]}")
        if len(v) < 6:
            continue
        c.ev(int(v["EVALS"]))
        c.count("sleeps", int(v["SLEPT"]))
        c.nontrivial(("run", k, v["PER"]))
        runs.append(v); c.sample(v, 3)
        if abs(v["PER"] / v["REAL"] - 1) > 0.002:
            off.append(v)
        if v["LEAST"] < -1:
            c.violation("sleep returns early", f"sleep() returned more than a second before the time was over: {v}")
        if v["LEAST"] < 0:
            short.append(v)
        if v["OVER"] > 0.03:
            long_.append(v)
    c.cov["calibration_errors"] = [abs(v["PER"] / v["REAL"] - 1) for v in runs[:20]]
    # a calibration can be disturbed (the processor taken away at the wrong moment, twice); most must be right
    if runs and len(off) * 2 > len(runs):
        c.violation("calibration", f"{len(off)} of {len(runs)} processes found a frequency more than 0.2 % off, such as {off[0]}")
    if len(short) * 2 > len(runs):
        c.violation("sleep returns early", f"in {len(short)} of {len(runs)} processes sleep() returned before the time was over, such as {short[0]}")
    if len(long_) * 2 > len(runs):
        c.violation("sleep too long", f"in {len(long_)} of {len(runs)} processes no sleep() returned within 30 ms of its time, such as {long_[0]}")
    c.assumptions += ["the time stamp counter ticks at a constant rate (as the code requires)",
                      "results of less than 9e18; 16 ulp of a double on top of the rounding to integers"]
    if not runs and not c.violations:
        raise Inconclusive("nothing observed")


main("C21", body)
