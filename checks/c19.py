#!/usr/bin/env python3
import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *
import random


def body(c):
    c.cov["rule"] = ("one evaluation = one printed trace compared with the reference trace computed from the recorded events "
                     "(model runs), or one trace printed while threads record, every line of which is checked to be an event "
                     "that was completely recorded (concurrent, frozen-recorder runs); distinct = run configurations")
    rnd = random.Random(c.seed)
    specs = [("o3", ["-O3", "-g"]), ("asan", ASAN)]
    jobs = []
    for nm, fl in specs:
        os.makedirs(f"{c.dir}/{nm}")
        jobs.append(["g++", "-include", "array", "-std=c++17", *fl, "-I", RT, HARNESS + "/timetrace.cc", RT + "/TimeTrace.cc",
                     RT + "/Cycles.cc", "-pthread", "-o", f"{c.dir}/{nm}/tt"])
    stat = [("o0", ["-O0", "-g"]), ("o2", ["-O2", "-g"]), ("a", ASAN)]      # the user's object in front of the library
    for nm, fl in stat:
        jobs.append(["g++", "-include", "array", "-std=c++17", *fl, "-I", RT, HARNESS + "/ttstatic.cc", RT + "/TimeTrace.cc",
                     RT + "/Cycles.cc", "-pthread", "-o", f"{c.dir}/tts_{nm}"])
    c.cc(jobs)
    for nm, fl in stat:
        r = run([f"{c.dir}/tts_{nm}"], timeout=60, env=SAN_ENV)
        o = r.out.decode("latin1")
        c.ev(o.count("STAT")); c.nontrivial(("static", nm))
        b = [ln for ln in o.split("\n") if ln.startswith("BAD ")]
        if r.timed_out or r.crashed or r.rc or b or o.count("STAT") < 5:
            c.violation(f"static objects ({nm})", b[0] if b else f"rc={r.rc} timeout={r.timed_out} {r.sanitizer} {r.err[-500:]}")
    runs = []
    for k in range(c.n(6, 60)):
        b = "asan" if k % 3 == 1 else "o3"
        runs.append((b, ["model", rnd.randrange(1 << 30), c.n(25, 80)]))
    for k in range(c.n(4, 30)):
        runs.append(("o3", ["conc", rnd.randrange(1 << 30), c.n(2, 8), rnd.choice([1, 2, 3]), rnd.choice([1, 2, 3]), rnd.randrange(2)]))
    for k in range(c.n(4, 30)):
        runs.append(("asan" if k % 4 == 3 else "o3", ["tear", rnd.randrange(1 << 30), c.n(4, 15)]))

    def one(t):
        i, (b, a) = t
        d = f"{c.dir}/r{i}"
        os.makedirs(d)
        args = [str(x) for x in a]
        cmd = [f"{c.dir}/{b}/tt", args[0], d, *args[1:]]
        r = run(cmd, timeout=c.n(60, 180), env=SAN_ENV)
        if r.timed_out:
            r = run(cmd, timeout=c.n(120, 400), env=SAN_ENV)
        shutil.rmtree(d, ignore_errors=True)
        return (b, args), r

    for (b, a), r in pmap(one, list(enumerate(runs)), workers=4):
        out = r.out.decode("latin1")
        st = {}
        for ln in out.split("\n"):
            if ln.startswith("STAT "):
                _, k, v = ln.split()
                st[k] = int(v)
                c.count(k, int(v))
        c.ev(st.get("evaluations", 0) + st.get("concurrent_prints", 0) + st.get("tear_prints", 0))
        badl = [ln for ln in out.split("\n") if ln.startswith("BAD ")]
        key = f"{b} {' '.join(a)}"
        if r.timed_out:
            c.violation("hang " + key, "time trace workload hung twice")
        elif badl:
            c.violation(badl[0][4:].split(":")[0] + " " + key, badl[0], out)
        elif r.crashed:
            c.violation("crash " + key, f"rc={r.rc} {r.sanitizer} {r.err[-1500:]}")
        elif r.rc:
            raise Inconclusive(f"{key}: rc={r.rc} {r.err[-300:]}")
        else:
            c.nontrivial((b, a[0], a[1]))
            c.sample(dict(run=key, stats=st), 6)
    c.assumptions += ["threads do not reset the trace while others record", "events are shorter than 1000 characters"]


main("C19", body)
