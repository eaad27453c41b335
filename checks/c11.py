#!/usr/bin/env python3
import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *
import random, stress


def body(c):
    c.cov["rule"] = ("one evaluation = one queue operation judged against the reference FIFO (region inside the buffer, no overlap with "
                     "unreleased data, contents, order, refusals, liveness), or one non-empty peek of the two-thread runs whose bytes were "
                     "all compared with the stream; distinct = (buffer size, mode, seed) runs that wrapped at least once")
    rnd = random.Random(c.seed * 31 + 1)
    sizes = [64, 256, 1000, 4096, 1 << 20]
    specs = []
    for s in sizes:
        for nm, fl in (("o", ["-O2", "-g"]), ("a", ASAN)):
            if nm == "a" and s not in (64, 1000):
                continue
            pts = s < 10000
            specs.append(dict(name=f"{nm}{s}", user_srcs=[HARNESS + "/staging.cc"] + ([HARNESS + "/points.cc"] if pts else []), flags=fl,
                              defs=stress.size_defs(s, max(4096, 8 * s), pts), dec=False, lib_srcs=["Cycles", "Util", "Log", "RuntimeLogger"]))
    # the last one also without any hooks, as shipped
    specs.append(dict(name="d", user_srcs=[HARNESS + "/staging.cc"], flags=["-O3"], dec=False, lib_srcs=["Cycles", "Util", "Log", "RuntimeLogger"]))
    apps = {s["name"]: b[0] for s, b in zip(specs, c.build_many(specs))}
    runs = []
    for nm in apps:
        big = nm in ("d", "o1048576")
        for k in range(c.n(2, 12)):
            runs.append((nm, ["model", rnd.randrange(1 << 40), c.n(4000 if big else 300000, 30000 if big else 5000000)], {}))
    for k in range(c.n(24, 240)):
        nm = rnd.choice([x for x in apps if x != "o1048576"])
        S = 1 << 20 if nm == "d" else int(nm[1:])
        env = dict(VP_SEED=rnd.randrange(1 << 30), VP_PROFILE=rnd.choice(["", "5:500:30,7:20:10", "6:200:20,8:100:20", "5:1000:3,6:300:2,7:300:1,8:300:2", "6:20:500,5:100:200"]))
        runs.append((nm, ["duo", rnd.randrange(1 << 40), min(c.n(40, 400) * 1000000, S * 60000) // (8 if env["VP_PROFILE"] or nm[0] == "a" else 1), rnd.randrange(5)], env))

    def one(t):
        nm, a, env = t
        if c.stop:
            return t, None
        cmd = [apps[nm], *map(str, a)]
        e = {**SAN_ENV, **env}
        r = run(cmd, timeout=150, env=e)
        if r.timed_out:
            r = run(cmd, timeout=400, env=e)
        return t, r
    for (nm, a, env), r in pmap(one, runs, workers=5):
        if r is None:
            continue
        out = r.out.decode("latin1")
        st = {}
        for ln in out.split("\n"):
            if ln.startswith("STAT "):
                _, k, v = ln.split()
                st[k] = int(v)
                c.count(k, int(v)) if k != "evaluations" else c.ev(int(v))
        key = f"{nm} {' '.join(map(str, a))} {json.dumps(env)}"
        b = [ln for ln in out.split("\n") if ln.startswith("BAD ")]
        if b:
            c.violation(b[0][4:].split(":")[0] + " " + key, b[0], out)
        elif r.timed_out:
            c.violation("hang " + key, "queue operations did not finish within 400 s (blocked producer or lost data)")
        elif r.crashed:
            c.violation("crash " + key, f"rc={r.rc} {r.sanitizer} {r.err[-1500:]}")
        elif r.rc:
            raise Inconclusive(f"{key}: rc={r.rc} {r.err[-300:]}")
        else:
            if st.get("wraps") or a[0] == "duo":
                c.nontrivial((nm, a[0], a[1]))
            c.sample(dict(run=key, stats=st), 6)
    c.assumptions += ["one producer, one consumer", "x86-64 memory ordering"]


main("C11", body)
