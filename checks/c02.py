#!/usr/bin/env python3
import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *
import fmtgen, ppgen, random
from ppbuild import *

ALL = ("chars", "joins", "nest", "markers", "wide", "sameline", "crlf")
def body(c):
    c.cov["rule"] = ("one evaluation = one executed log statement of a generated program that went through the preprocessor, whose decoded line (file, line, severity, text) was "
                     "compared with what the same source printed through vsnprintf when compiled with NANO_LOG as a formatting macro; distinct = different statements")
    rnd = random.Random(c.seed * 127 + 2)
    progs = []
    for i in range(c.n(8, 60)):
        d = f"{c.dir}/pp{i}"
        os.makedirs(d)
        for f in ("ref.h", "refmain.cc"):
            shutil.copy(f"{HARNESS}/{f}", d)
        g = ppgen.PP(random.Random(rnd.randrange(1 << 40)), d, c.n(3, 4), c.n(34, 60), ALL)
        open(d + "/table.cc", "w").write(g.table())
        progs.append(g)
    # the library of the preprocessor flavour, once; the harness itself has no log statements
    app, dec = c.build("lib", [], flags=["-O1"], pre=True)
    lib = [f"{c.dir}/lib/{s}.o" for s in LIB_SRCS]

    jobs = []
    for g in progs:
        for f in g.files + ["table.cc", "refmain.cc"]:
            jobs.append(("ref", g, f))
            jobs.append(("pp", g, f))

    def comp(j):
        kind, g, f = j
        if kind == "ref":
            r = run(["g++", "-std=gnu++17", "-O0", "-DREF", "-w", "-c", f, "-o", f + ".ref.o"], cwd=g.d, timeout=300)
            if r.rc:
                raise Inconclusive("the reference program does not compile: " + "\n".join(x for x in r.err.split("\n") if "error" in x)[:800])
            return j, None
        if f == "table.cc":
            r = run(["g++", "-std=gnu++17", "-O0", "-w", "-c", f, "-o", f + ".o"], cwd=g.d, timeout=300)
            if r.rc:
                raise Inconclusive("table: " + r.err[-500:])
            return j, None
        return j, preprocess(g.d, f)
    broken = {}
    for (kind, g, f), err in pmap(comp, jobs):
        if err:
            broken[id(g)] = True
            c.violation(f"program {progs.index(g)} seed {c.seed} {f}", err, open(f"{g.d}/{f}", errors="replace").read()[:20000])

    def execute(g):
        i = progs.index(g)
        if id(g) in broken:
            return g, None, 0, []
        d = g.d
        maps = [f + ".map" for f in g.files + ["refmain.cc"]]
        random.Random(i).shuffle(maps)
        r = run(["python3", REPO + "/preprocessor/parser.py", "--combinedOutput=GeneratedCode.cc", *maps], cwd=d, timeout=120, env=PENV)
        if r.rc:
            return g, f"combining the maps failed: {r.out.decode('latin1')[-500:]} {r.err[-800:]}", 0, []
        r = run(["g++", "-std=c++11", "-O0", "-w", "-DPREPROCESSOR_NANOLOG", "-I", RT, "-c", "GeneratedCode.cc", "-o", "gen.o"], cwd=d, timeout=300)
        if r.rc:
            return g, "GeneratedCode.cc does not compile: " + "\n".join(x for x in r.err.split("\n") if "error" in x)[:1500], 0, []
        objs = [f + ".o" for f in g.files + ["table.cc", "refmain.cc"]]
        refs = [f + ".ref.o" for f in g.files + ["table.cc", "refmain.cc"]]
        r = run(["g++", *refs, "-o", "ref"], cwd=d, timeout=120)
        if r.rc:
            raise Inconclusive("linking the reference: " + r.err[-500:])
        r = run(["g++", *objs, *lib, "gen.o", "-o", "app", "-lrt", "-pthread"], cwd=d, timeout=120)
        if r.rc:
            return g, "the rewritten program does not link: " + r.err[-1500:], 0, []
        tot, sample = 0, []
        for k in range(c.n(3, 10)):
            a = [str(c.seed * 1000 + i * 50 + k), str(1 + k)]
            for f in ("log", "side"):
                if os.path.exists(f"{d}/{f}"):
                    os.unlink(f"{d}/{f}")
            x = run([d + "/ref", *a], cwd=d, timeout=60)
            if x.rc or x.timed_out:
                raise Inconclusive(f"reference run: rc={x.rc} {x.err[-300:]}")
            y = run([d + "/app", *a], cwd=d, timeout=60)
            if y.rc or y.timed_out:
                return g, f"run {a}: the rewritten program ended with rc={y.rc} timeout={y.timed_out} {y.err[-500:]}", tot, sample
            side = read_side(d + "/side")
            z = run([dec, "decompress" if k % 2 == 0 else "decompressUnordered", d + "/log"], timeout=60)
            n, err = judge(z.out, side, g.sameline)
            tot += n
            if err:
                return g, f"run {a}: {err}", tot, sample
            if x.out != y.out:
                la, lb = x.out.split(b"\n"), y.out.split(b"\n")
                df = next((q for q in range(min(len(la), len(lb))) if la[q] != lb[q]), min(len(la), len(lb)))
                return g, f"run {a}: the rewritten program behaves differently (trace and argument evaluations, entry {df}: reference {la[df:df + 4]}, rewritten {lb[df:df + 4]})", tot, sample
            c.count("trace_entries", len(x.out.split(b"\n")))
            sample = [(s[0].decode(), s[1], s[3][:60].decode("latin1")) for s in side[:4]]
            for s in side:
                c.nontrivial((i, s[0], s[1], s[2]))
        return g, None, tot, sample
    for g, err, n, sample in pmap(execute, progs):
        c.ev(n)
        c.count("functions", sum(g.fns)); c.count("programs", 1)
        if sample:
            c.sample(sample, 3)
        if err:
            i = progs.index(g)
            m = re.search(r"(p\d+\.cc|ph\d\.h):(\d+)", err)
            src = open(f"{g.d}/{m.group(1)}").read() if m else ""
            c.violation(f"program {i} seed {c.seed}", err, src[:60000])

    # formats x values: the grammar generator of C01 through the preprocessor
    d = c.dir + "/fmt"
    os.makedirs(d)
    shutil.copy(HARNESS + "/fmtgen.h", d)
    ntu, per, reps = c.n(6, 24), c.n(60, 110), c.n(20, 60)
    srcs, sts = [], []
    hdr = '#include "NanoLog.h"'
    for i in range(ntu):
        s, st = fmtgen.tu(rnd, i, per, reps, header=hdr)
        open(f"{d}/tu{i}.cc", "w", encoding="utf8").write(s)
        srcs.append(f"tu{i}.cc"); sts.append(st)
    open(d + "/main.cc", "w").write(fmtgen.main_src(ntu, header=hdr))
    files = srcs + ["main.cc"]
    for f, err in pmap(lambda f: (f, preprocess(d, f)), files):
        if err:
            c.violation(f"formats {f} seed {c.seed}", err)
    if c.violations:
        return
    r = run(["python3", REPO + "/preprocessor/parser.py", "--combinedOutput=GeneratedCode.cc", *[f + ".map" for f in files]], cwd=d, timeout=120, env=PENV)
    q = run(["g++", "-std=c++11", "-O0", "-w", "-DPREPROCESSOR_NANOLOG", "-I", RT, "-c", "GeneratedCode.cc", "-o", "gen.o"], cwd=d, timeout=300) if not r.rc else r
    q = run(["g++", *[f + ".o" for f in files], *lib, "gen.o", "-o", "app", "-lrt", "-pthread"], cwd=d, timeout=120) if not q.rc else q
    if q.rc:
        c.violation(f"formats seed {c.seed}", "generated code does not build: " + q.err[-1500:])
        return

    def one(seed):
        w = f"{d}/r{seed}"
        os.makedirs(w)
        r = run([d + "/app", str(seed)], cwd=w, timeout=120)
        if r.rc or r.timed_out:
            return seed, 0, f"rc={r.rc} timeout={r.timed_out} {r.err[-500:]}"
        side = [(srcs[t].encode(), l, lv, tx) for t, l, lv, tx in fmtgen.read_side(w + "/side")]
        z = run([dec, "decompress" if seed % 2 else "decompressUnordered", w + "/log"], timeout=120)
        n, err = judge(z.out, side, lambda f, a, b: a == b)
        shutil.rmtree(w)
        return seed, n, err
    for seed, n, err in pmap(one, [c.seed * 1000 + k for k in range(c.n(3, 12))]):
        c.ev(n)
        if err:
            m = re.search(r"(tu\d+\.cc):(\d+)", err)
            st = open(f"{d}/{m.group(1)}", encoding="utf8").read().split("\n")[int(m.group(2)) - 1] if m else ""
            c.violation(f"formats run {seed}", err + "\nstatement: " + st[:1500], st)
    for st in sts:
        for s in st:
            for k in s.kinds:
                c.nontrivial(k)
    c.assumptions += ["raw string literals and non-UTF-8 sources are outside the generated programs", "severity is written as one of the LogLevels enumerators (possibly qualified or through a macro)"]


main("C02", body)
