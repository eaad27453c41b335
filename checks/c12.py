#!/usr/bin/env python3
import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *
import fmtgen, stress, decode, hist, plateau, random, statics
from ppbuild import *

SMALL, BIG = stress.size_defs(4096, 16384, True), []     # BIG: as shipped
AF = [f for f in ASAN if f != "-g"] + ["-g1", "-w"]
VG = ["valgrind", "-q", "--error-exitcode=98", "--leak-check=full", "--errors-for-leak-kinds=definite", "--show-leak-kinds=definite", "--fair-sched=yes",
      "--num-callers=14", f"--suppressions={HARNESS}/valgrind.supp"]
LINK = ["-lrt", "-pthread"]


def report(r):
    """The memory error a run shows, or None."""
    if r.sanitizer:
        i = r.err.find(r.sanitizer)
        st = [m for m in re.findall(r"#\d+ 0x[0-9a-f]+ in ([^\n]*)", r.err) if "/runtime/" in m or "enerated" in m]
        return r.sanitizer + (" in " + "; ".join(st[:3]) if st else "") + "\n" + r.err[i:i + 1600]
    if r.rc == 98:
        return "valgrind: " + r.err[-1800:]
    if r.timed_out:
        return None
    if r.rc < 0:
        return f"killed by signal {-r.rc} {r.err[-600:]}"
    return None


def body(c):
    c.cov["rule"] = ("one evaluation = one process (workload or decoder command) run to its end under AddressSanitizer+UBSan, valgrind or with inaccessible pages "
                     "after every string argument, or one comparison of memory in use between equal rounds; distinct = different workloads")
    rnd = random.Random(c.seed * 211 + 12)
    d0 = c.dir + "/src"
    os.makedirs(d0)
    # ---- programs
    ntu = c.n(3, 12)
    tus = []
    for i in range(ntu):
        # one with a file name beyond the size of the decoder's first buffer
        hd = '#include "NanoLogCpp17.h"\n#include "fmtgen.h"\n#line 2 "' + "long/name" * rnd.choice([1200, 3000]) + '"\n' if i == 1 else '#include "NanoLogCpp17.h"'
        s, st = fmtgen.tu(rnd, i, c.n(70, 120), c.n(12, 40), header=hd)
        open(f"{d0}/tu{i}.cc", "w", encoding="utf8").write(s)
        tus.append(f"{d0}/tu{i}.cc")
    shutil.copy(HARNESS + "/exotic.cc", d0)
    tus.append(d0 + "/exotic.cc")
    open(d0 + "/main.cc", "w").write(fmtgen.main_src(ntu).replace("int main", "void runTUX(uint64_t);\nint main").replace(
        "    fclose(sideFile)", f'    fprintf(sideFile, "TU {ntu}\\n"); runTUX(seed + 77);\n    fclose(sideFile)'))
    # preprocessor flavour of everything, one map set
    pd = c.dir + "/pre"
    os.makedirs(pd)
    for f in ("fmtgen.h", "guard.cc", "hist.cc", "stress.cc"):
        shutil.copy(f"{HARNESS}/{f}", pd)
    ptus = []
    for i in range(c.n(2, 8)):
        s, st = fmtgen.tu(rnd, i, c.n(60, 100), c.n(12, 40), header='#include "NanoLog.h"')
        open(f"{pd}/tu{i}.cc", "w", encoding="utf8").write(s)
        ptus.append(f"tu{i}.cc")
    open(pd + "/main.cc", "w").write(fmtgen.main_src(len(ptus), header='#include "NanoLog.h"'))
    pfiles = ptus + ["main.cc", "guard.cc", "hist.cc", "stress.cc"]
    psz = stress.size_defs(1 << 18, 1 << 20, False)

    U = [dict(name="u17", user_srcs=tus + [d0 + "/main.cc"], flags=AF, defs=BIG), dict(name="u17s", user_srcs=stress.SRCS, flags=AF, defs=SMALL, dec=False)]
    plans = [c._plan(**u) for u in U]
    plain = c._plan(name="plain", user_srcs=[HARNESS + "/hist.cc"], flags=["-O1", "-g", "-w"], defs=stress.size_defs(4096, 32768, False))
    pplan = c._plan(name="libp", user_srcs=[], flags=AF, defs=psz, pre=True, dec=False)
    pplain = c._plan(name="libpp", user_srcs=[], flags=["-O1", "-g", "-w"], defs=psz, pre=True, dec=False)
    extra = []
    for n, src, fl, df in (("guard", "guard.cc", AF, BIG), ("hist", "hist.cc", AF, SMALL), ("decmem", "decmem.cc", ["-O1", "-g"], []),
                           ("declog", "declog.cc", AF, []), ("encdec", "encdec.cc", AF, []), ("aio", "aioshim.cc", AF, [])):
        extra.append(["g++", "-include", "array", "-std=c++17", *fl, *["-D" + x for x in df], "-I", RT, "-I", HARNESS, "-c", f"{HARNESS}/{src}", "-o", f"{c.dir}/{n}.o"])
    for n, fl in (("encpreb", ["-DFAKE"]), ("encpred", [])):
        extra.append(["g++", "-include", "array", "-std=c++17", *AF, *fl, "-DPREPROCESSOR_NANOLOG", *["-D" + x for x in psz], "-I", RT, "-c", f"{HARNESS}/encpre.cc", "-o", f"{c.dir}/{n}.o"])
    for n in DEC_SRCS:
        extra.append(["g++", "-include", "array", "-std=c++17", "-O1", "-g", "-w", "-I", RT, "-c", f"{RT}/{n}.cc", "-o", f"{c.dir}/big{n}.o"])
    todo = [("cc", j) for p in plans + [plain, pplan, pplain] for j in p[0]] + [("cc", j) for j in extra] + [("pp", (f, k)) for f in pfiles for k in ("asan", "plain") if not (k == "plain" and f in ("stress.cc", "main.cc") + tuple(ptus))]
    # longest first
    todo.sort(key=lambda t: 0 if t[0] == "cc" and any("Log.cc" in x or "/tu" in x or "stress" in x for x in t[1]) else 1)
    for k in ("asan", "plain"):
        os.makedirs(f"{pd}/{k}")
        for f in pfiles + ["fmtgen.h"]:
            shutil.copy(f"{pd}/{f}", f"{pd}/{k}/{f}")

    def comp(t):
        if t[0] == "cc":
            r = run(t[1], timeout=600)
            if r.rc:
                raise BuildError(" ".join(t[1]) + "\n" + r.err[-4000:])
            return t, None
        f, k = t[1]
        e = preprocess(f"{pd}/{k}", f, extra=["-I", HARNESS, *["-D" + x for x in psz]], flags=AF if k == "asan" else ["-O1", "-g"])
        return t, e
    for t, e in pmap(comp, todo):
        if e:
            raise BuildError(f"{t}: {e}")
    for k, fs, fl in (("asan", pfiles, AF), ("plain", ["guard.cc", "hist.cc"], ["-O1", "-g"])):
        e = combine(f"{pd}/{k}", fs, flags=fl, defs=psz)
        if e:
            raise BuildError(e)
    D = c.dir
    obj = lambda n, srcs=LIB_SRCS: [f"{D}/{n}/{s}.o" for s in srcs]
    g17, gs, gpl = f"{D}/u17/GeneratedCode.o", f"{D}/u17s/GeneratedCode.o", f"{D}/plain/GeneratedCode.o"
    pa, pl = pd + "/asan", pd + "/plain"
    A = {}
    links = [j for p in plans + [plain] for j in p[1]]

    def link(n, fl, objs):
        A[n] = f"{D}/{n}"
        links.append(["g++", *fl, *objs, "-o", A[n], *LINK])
    # the fmtgen objects were built for the large library, stress for the small one
    link("guard17", AF, [f"{D}/guard.o", *obj("u17"), g17])
    link("hist17", AF, [f"{D}/hist.o", f"{D}/aio.o", *obj("u17s"), gs, f"{D}/u17s/u2.o"])
    link("fmtpre", AF, [*[f"{pa}/{f}.o" for f in ptus + ["main.cc"]], *obj("libp"), pa + "/gen.o"])
    link("guardpre", AF, [pa + "/guard.cc.o", *obj("libp"), pa + "/gen.o"])
    link("histpre", AF, [pa + "/hist.cc.o", *obj("libp"), pa + "/gen.o"])
    link("stresspre", AF, [pa + "/stress.cc.o", f"{D}/aio.o", *obj("libp"), pa + "/gen.o"])
    link("guardprep", ["-g"], [pl + "/guard.cc.o", *obj("libpp"), pl + "/gen.o"])
    link("histprep", ["-g"], [pl + "/hist.cc.o", *obj("libpp"), pl + "/gen.o"])
    link("decmem", ["-g"], [f"{D}/decmem.o", *[f"{D}/big{n}.o" for n in DEC_SRCS], gpl])
    link("declog", AF, [f"{D}/declog.o", *obj("u17", DEC_SRCS), g17])
    link("encdec", AF, [f"{D}/encdec.o", *obj("u17", ["Cycles", "Util", "Log"]), g17])
    link("encpreb", AF, [f"{D}/encpreb.o", *obj("libp", ["Cycles", "Util", "Log"])])
    link("encpred", AF, [f"{D}/encpred.o", *obj("libp"), pa + "/gen.o"])
    # decoders that know the preprocessor's statements
    link("decpre", AF, [f"{D}/u17/dec.o", *obj("libp", DEC_SRCS), pa + "/gen.o"])
    c.cc(links)
    A["fmt17"], A["stress17"], A["histplain"] = f"{D}/u17/app", f"{D}/u17s/app", f"{D}/plain/app"
    DEC, DECV = f"{D}/u17/dec", f"{D}/plain/dec"
    files17 = [f for f in tus]

    # ---- workloads: (name, kind, argument)
    jobs = []
    for k in range(c.n(3, 20)):
        jobs += [("fmt17", "fmt", k), ("fmtpre", "fmt", k), ("guard17", "guard", k), ("guardpre", "guard", k), ("guardprep", "guard", k)]
    for k in range(c.n(16, 250)):
        jobs += [("stress17", "stress", k)] + ([("stresspre", "stress", k)] if k % 2 else [])
    for k in range(c.n(14, 200)):
        jobs += [("hist17", "hist", k), ("histpre", "hist", k)]
    for k in range(c.n(6, 60)):
        jobs += [("encdec", ("bound", "order")[k % 3 == 2], k), ("encpreb", "bound", k)]
    jobs.append(("encpred", "dict", 0))
    for k in range(c.n(2, 20)):
        jobs += [("histplain", "vghist", k), ("histprep", "vghist", k), ("guardprep", "vgguard", k)]
    jobs.sort(key=lambda j: not j[1].startswith("vg"))

    def script(r, vg, pre):
        ops, live, nxt, serial, file = ["V 0 4"], [0], 1, 0, "compressedLog"
        for _ in range(r.choice([30, 120]) if vg else r.choice([60, 250])):
            x = r.random()
            if x < .08 and len(live) < 6:
                ops.append(f"T {nxt}"); live.append(nxt); nxt += 1
            elif x < .15 and len(live) > 1:
                t = r.choice(live[1:]); live.remove(t); ops.append(f"X {t}")
            elif x < .2:
                ops.append(f"S {r.choice(live)}")
            elif x < .25:
                ops.append(f"F {r.choice(live)} {r.choice(['fa', 'fb', 'compressedLog', 'nodir/x', '.', 'n' * 400])}")
            elif x < .29:
                ops.append(r.choice([f"G {r.choice(live)}", "H", f"P {r.choice(live)}", f"A {r.choice(live)}", f"Y {r.choice([1, 500])}"]))
            elif x < .31:
                ops.append(f"V {r.choice(live)} {r.randrange(5)}")
            elif x < .34 and not pre and not vg:
                ops.append(f"E {r.randrange(1, 3)} {r.choice([5, 28])} {r.randrange(2)}")
            elif x < .36:
                ops.append(f"J {r.choice([1, 4])} {r.randrange(30)} {r.randrange(40)}")
            elif x < .40:
                ops.append(f"B {r.choice(live)} {r.randrange(30)} {serial} {r.randrange(300)} {r.choice([5, 60])}"); serial += 60
            else:
                serial += 1
                ops.append(f"L {r.choice(live)} {r.randrange(30)} {serial} {r.choice([0, 1, r.randrange(60), r.randrange(1900)])}")
        if r.random() < .5:
            ops.append("S 0")
        return ops

    def work(j):
        name, kind, k = j
        r = random.Random(f"{c.seed} {name} {kind} {k}")
        d = f"{D}/w/{name}.{kind}.{k}"
        os.makedirs(d)
        seed, out, n, inp = c.seed * 1000 + k, [], 0, f"{name} {kind} seed {c.seed * 1000 + k}"
        pre = name.endswith("pre") or name.endswith("prep")
        dec = A["decpre"] if pre else DEC
        logs_ = []
        if kind == "fmt":
            q = run([A[name], str(seed)], cwd=d, timeout=240, env={**SAN_ENV, "ASAN_OPTIONS": SAN_ENV["ASAN_OPTIONS"] + ":check_printf=0"})   # its vsnprintf check wants a terminator after the precision
        elif kind in ("guard", "vgguard"):
            q = run((VG if kind == "vgguard" else []) + [A[name], str(seed), str(150 if kind == "vgguard" else c.n(1500, 8000))], cwd=d, timeout=240, env=SAN_ENV)
        elif kind in ("bound", "order", "dict"):
            q = run([A[name], kind, str(seed), str(c.n(150, 1500) if kind == "bound" else c.n(6, 60))], cwd=d, timeout=240, env=SAN_ENV)
            for v in (x.split() for x in q.out.decode().split("\n")):
                if v and v[0] == "STAT" and v[1] != "evaluations":
                    c.count(v[1], int(v[2]))
            if q.rc == 1 and b"BAD" in q.out:
                return j, 1, (f"encoder {kind}", q.out.decode()[:400]), inp
        elif kind == "stress":
            p = dict(SEED=r.randrange(1 << 30), THREADS=r.choice([1, 3, 6, 10]), WAVES=r.choice([1, 3, 8]), MSGS=r.choice([20, 150, 500]), MAXLEN=r.choice([30, 300, 900]), SIZES=r.choice([0, 1]),
                     SYNC=r.choice([0, 0, 300]), OVERLAP=k // 2 % 2, MAIN=r.choice([0, 5]), FINALSYNC=r.randrange(2), STATS=r.randrange(2))
            inp = f"{name} {json.dumps(p)}"
            q = stress.run_stress(c, A[name], d, p, dict(VP_SEED=p["SEED"], VP_PROFILE=r.choice(stress.PROFILES), AIO_SEED=seed, AIO_DELAY_US=1500 if k % 2 and not p["SYNC"] else 0, AIO_DELAY_PCT=100))
        else:
            ops = script(r, kind == "vghist", pre)
            inp += "\n" + "\n".join(ops)
            open(d + "/script", "w").write("\n".join(ops) + "\n")
            q = run((VG if kind == "vghist" else []) + [A[name], d + "/script"], cwd=d, timeout=240, env=SAN_ENV)
        n += 1
        e = report(q)
        if e:
            return j, n, (f"{name} {kind}", e), inp
        if q.timed_out or q.rc:
            return j, n, (None, f"{name} {kind}: rc={q.rc} timeout={q.timed_out} {q.err[-300:]}"), inp
        found = [] if kind == "hist" and any(o[0] == "E" for o in ops) else [f"{d}/{f}" for f in ("log", "compressedLog", "fa", "fb") if os.path.exists(f"{d}/{f}")]
        for f in found:
            cmds = ["decompress", "decompressUnordered"] if k % 2 else ["decompressUnordered", "decompress"]
            for cmd in cmds[:2 if kind in ("fmt", "guard") else 1]:
                vg = kind.startswith("vg") and not pre
                q = run(VG + [DECV, cmd, f] if vg else [dec, cmd, f], timeout=240, env=SAN_ENV)
                n += 1
                e = report(q)
                if e:
                    return j, n, (f"decoder {cmd} of {name} {kind}", e), inp
                if q.timed_out or (q.rc and not os.path.getsize(f) == 0):
                    return j, n, (None, f"{cmd} of {name} {kind}: rc={q.rc} timeout={q.timed_out} {q.err[-300:]}"), inp
            if kind in ("guard", "vgguard") and f.endswith("/log"):
                x, err = judge(q.out, read_side(d + "/side"), lambda a, x, y: x == y, base=True)
                if err:
                    return j, n, (f"argument contents {name}", "message does not show the contents its arguments had during the call: " + err), inp
            if kind in ("hist", "stress") and not pre:
                q = run([A["declog"], "agree", str(seed), "6", *found[:2]], timeout=240, env=SAN_ENV)
                n += 1
                e = report(q)
                if e:
                    return j, n, (f"decoder interfaces on {name} {kind}", e), inp
                break
        if kind == "stress" and k % 3 == 0:
            for cmd in (["minMaxMean", f"{d}/log", "1"], ["rcdf", f"{d}/log", "0"], ["find", f"{d}/log", "0"])[k // 3 % 3:]:
                q = run([dec, *cmd], timeout=60, env=SAN_ENV, cwd=d)
                n += 1
                e = report(q)
                if e:
                    return j, n, (f"decompressor {cmd[0]}", e), inp
        if (name, k) != ("fmt17", 0):
            shutil.rmtree(d)
        return j, n, None, inp
    os.makedirs(D + "/w")
    bad = []
    for (name, kind, k), n, e, inp in pmap(work, jobs):
        c.ev(n)
        c.count("processes_" + ("valgrind" if kind.startswith("vg") else "guard_pages_only" if name == "guardprep" else "sanitizers"), n)
        c.nontrivial((name, kind, k))
        if e and e[0] is None:
            bad.append(e[1])
        elif e:
            c.violation(f"{e[0]} seed {c.seed}", e[1], inp)
    if bad and not c.violations:
        raise Inconclusive(bad[0])
    c.sample([f"{a} {b} {k}" for a, b, k in jobs[::9]])
    if c.stop:
        return

    # ---- decoding does not accumulate memory
    d = D + "/mem"
    q, rep = hist.execute(A["histplain"], d, ["V 0 4"] + [x for i in range(c.n(40, 300)) for x in (f"B 0 {i % 30} {i * 100} {20 + i * 3 % 200} 100", f"J 2 {i % 30} 9")] + ["S 0", "F 0 fa", "S 0", "F 0 compressedLog"] + [f"B 0 {i % 30} {i * 100} 50 100" for i in range(c.n(40, 300))] + ["S 0"], timeout=120)
    if q.rc:
        raise Inconclusive("memory workload: " + q.err[-200:])
    rounds = c.n(12, 60)
    for what, f in (("history", d + "/compressedLog"), ("formats", f"{D}/w/fmt17.fmt.0/log")):
        r = run([A["decmem"], f, str(rounds)], timeout=300)
        if r.rc:
            raise Inconclusive(f"decmem: rc={r.rc} {r.err[-300:]}")
        for ln in r.out.decode().split("\n"):
            v = ln.split()
            if not v or v[0] == "COUNT":
                continue
            m = [int(x.split("/")[0]) for x in v[1:]]
            f = [x.split("/")[1] for x in v[1:] if "/" in x]
            c.ev(len(m))
            c.sample({what + " " + v[0]: m[:16]}, 12)
            if v[0] == "ITER" and len(m) < 12:
                continue
            if v[0] == "ITER":
                h = m[len(m) // 2 - 4:len(m) // 2 - 1], m[-3:]
                if min(h[1]) > max(h[0]) + 100000:
                    c.violation("decoder memory while iterating", f"memory in use while decoding one log: {m}")
                continue
            t = m[3:]
            if len(t) > 4 and t[-1] - t[0] > 2000 and t[-1] > t[len(t) // 2] > t[0]:
                c.violation(f"decoder memory {v[0]}", f"memory in use after decoding the same log again and again ({v[0]}): {m} bytes")
            if len(set(f[1:])) > 1:
                c.violation(f"decoder descriptors {v[0]}", f"open files after decoding again and again ({v[0]}): {f}")
    statics.check(c, {"asan": (statics.build(c, "sta", flags=AF), False), "asan small": (statics.build(c, "stas", flags=AF, defs=stress.size_defs(4096, 32768, False)), True)}, c.n(16, 200))
    plateau.plateau(c, [("17", (A["histplain"], None)), ("pre", (A["histprep"], None))], kinds=["threads", "messages", "switch", "pingpong"], rounds=c.n(6, 20), per=c.n(120, 800))
    c.assumptions += ["memory errors the tools see: heap, stack and global bounds, use after free/return, uninitialised values in branches, addresses and system calls, undefined arithmetic; "
                      "alignment is not judged (the record format packs values unaligned by design, on x86)",
                      "data races are judged by their effect (C03, C06, C11): the buffers synchronise with fences, which ThreadSanitizer does not model"]


main("C12", body)
