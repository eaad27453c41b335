#!/usr/bin/env python3
import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *


def body(c):
    c.cov["rule"] = ("one evaluation = one value packed and unpacked, all of its observable effects judged (bytes written, length code, "
                     "size, minimality, bytes consumed, value); all 2^32 values of the 32-bit types, all 8/16-bit values, boundary and "
                     "random values of the others, and random mixed sequences read back through Nibbler; distinct = (type, packed size) "
                     "classes seen plus runs")
    specs = [("o2", ["-O2"]), ("asan", ASAN), ("o3", ["-O3"])]
    c.cc([["g++", "-include", "array", "-std=c++17", *fl, "-I", RT, HARNESS + "/pack.cc", "-pthread", "-o", f"{c.dir}/{nm}"] for nm, fl in specs])
    runs = [("o2", "types", c.seed, c.n(3000000, 60000000), 0), ("o3", "types", c.seed + 1, c.n(1000000, 60000000), 0),
            ("asan", "types", c.seed + 2, c.n(400000, 6000000), 1),
            ("o2", "seq", c.seed, c.n(1000000, 30000000), 0), ("asan", "seq", c.seed + 1, c.n(150000, 3000000), 1)]
    ex = [("o2", "ex", 0, k, 0) for k in (0, 1, 2)]

    def one(a):
        return a, run([f"{c.dir}/{a[0]}", *[str(x) for x in a[1:]]], timeout=800, env=SAN_ENV)
    for a, r in list(pmap(one, runs)) + [one(e) for e in ex]:
        out = r.out.decode("latin1")
        for ln in out.split("\n"):
            if ln.startswith("STAT "):
                _, k, v = ln.split()
                if k == "evaluations":
                    c.ev(int(v))
                else:
                    c.count(k, int(v))
                if k == "type_size_classes":
                    for z in range(int(v)):
                        c.nontrivial(("cls", z))
        key = " ".join(map(str, a))
        b = [ln for ln in out.split("\n") if ln.startswith("BAD ")]
        if b:
            c.violation(b[0][4:].split(":")[0], b[0] + " in run " + key, out)
        elif r.crashed:
            c.violation("crash " + key, f"rc={r.rc} {r.sanitizer} {r.err[-1500:]}")
        elif r.timed_out or r.rc:
            raise Inconclusive(f"{key}: rc={r.rc} {r.err[-300:]}")
        else:
            c.nontrivial(a)
            c.sample(dict(run=key, output=out.strip().split("\n")), 6)
    c.cov["exhaustive_32bit"] = "every bit pattern of uint32_t, int32_t and float"
    c.assumptions += ["little-endian x86-64", "long double compared on its 10 value bytes"]


main("C10", body)
