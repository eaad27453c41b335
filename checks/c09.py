#!/usr/bin/env python3
import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *
import stress, random, struct

LV = ["ERROR", "WARNING", "NOTICE", "DEBUG"]
LINES = [1, 2, 9, 10, 99, 127, 128, 255, 256, 4096, 32767, 32768, 65535, 65536, 65537, 99999, 100000, 1 << 20, 16777215, 16777216, 100000000, 2147483647]


class Gen:
    """Writes a program of several files; self.calls[u][j] = [(file, (line lo, line hi), level, text prefix)] per call."""

    def __init__(g, d, rnd, pre, nfiles, nsites, longs):
        g.d, g.r, g.pre, g.longs = d, rnd, pre, longs
        os.makedirs(d)
        g.calls, g.srcs = [], []
        g.serial = 0
        g.pool = [""] * 6 + ["a ", "same text ", "%% ", "x" * 40 + " "]
        g.hdr = [[], []]
        g.nh = [rnd.randrange(4, 9), rnd.randrange(4, 9)]
        for h in range(2):
            g.header(h)
        for u in range(nfiles):
            g.tu(u, rnd.randrange(max(2, nsites // 2), nsites * 3 // 2))
        with open(d + "/tus.cc", "w") as f:
            f.write('typedef void (*TuFn)(int, int, int);\nstruct Tu { TuFn f; int nsites; };\n' + "".join(f"void tu{u}(int, int, int);\n" for u in range(nfiles)) +
                    f"extern Tu ctxTus[];\nextern int ctxNTus;\nTu ctxTus[] = {{{', '.join('{tu%d, %d}' % (u, len(g.calls[u])) for u in range(nfiles))}}};\nint ctxNTus = {nfiles};\n")

    def fname(g, base):
        return base if g.pre else f"{g.d}/{base}"

    def prefix(g):
        r = g.r
        if r.random() < 0.5:
            return r.choice(g.pool)
        g.serial += 1
        x = r.random()
        if g.longs and x < 0.06:
            return f"S{g.serial} " + "long format " * r.choice([90, 900, 1100, 2500]) + ": "
        return f"S{g.serial} "

    def stmt(g, lines):
        """Appends one log statement (possibly over several lines); returns its context."""
        r = g.r
        lv, p = r.choice(LV), g.prefix()
        ln = len(lines) + 1
        x = r.random()
        if x < 0.1:
            lines += [f"    NANO_LOG({lv},", f'             "{p}T%d N%d",', "             t,", "             n);"]
        else:
            lines.append(f'    NANO_LOG({lv}, "{p}T%d N%d", t, n);')
        return ((ln, len(lines)), lv, p)

    def header(g, h):
        r, lines = g.r, ["#pragma once", '#include "NanoLog.h"' if g.pre else '#include "NanoLogCpp17.h"', "using namespace NanoLog::LogLevels;"]
        name = f"h{h}.h"
        lines += [""] * r.choice([0, 10, 250])
        for k in range(g.nh[h]):
            kind = k % 3
            if kind == 0:
                lines.append(f"inline void hf{h}_{k}(int t, int n) {{")
            elif kind == 1:
                lines.append(f"template<class X> void hf{h}_{k}(int t, int n) {{ X unused = X(); (void)unused;")
            else:
                lines.append(f"struct H{h}_{k} {{ int b; void m(int t, int n) const {{")
            ctx = [g.stmt(lines) for _ in range(r.choice([1, 1, 2]))]
            lines.append("}" if kind != 2 else "} };")
            g.hdr[h].append((kind, [(name, *c) for c in ctx]))
        open(f"{g.d}/{name}", "w").write("\n".join(lines) + "\n")

    def tu(g, u, n):
        r = g.r
        lines = ['#include "h0.h"', '#include "h1.h"', "#define LOGD(p, x, y) NANO_LOG(DEBUG, p \"T%d N%d\", x, y)", "#define BOTH(x, y) do { NANO_LOG(ERROR, \"both T%d N%d\", x, y); NANO_LOG(NOTICE, \"both T%d N%d\", x, y); } while (0)"]
        calls = []
        cur, off = f"u{u}.cc", 0        # current presumed name; line = len(lines) + 1 + off
        for j in range(n):
            if r.random() < 0.12:
                nl = r.choice(LINES)
                names = [f"dir {u}/odd name.cc", "a", f"x{'/very/long/path' * 20}.h", "per%cent%s.cc", "co:lon.cc:7", f"u{u}.cc", "same.cc", "q(uo)te'[].cc", "\u00fcml\u00e4ut.cc", "back\\\\slash.cc", "quo\\\"te.cc"]
                if g.longs:
                    names += ["n" * 4000 + ".cc", "m" * 11000, "k" * 30000 + ".cc"]
                if r.random() < 0.7 or nl > 2000000000:
                    nl = min(nl, 2147483647 - 5000)
                nm = r.choice(names)
                if r.random() < 0.8:
                    lines.append(f'#line {nl} "{nm}"'); cur = nm.replace("\\\\", "\\").replace('\\"', '"')
                else:
                    lines.append(f"#line {nl}")
                off = nl - (len(lines) + 1)
            lines.append(f"static void f{j}(int t, int n) {{")
            ctx, x = [], r.random()
            if x < 0.45:
                ctx = [g.stmt(lines) for _ in range(r.choice([1, 1, 1, 2, 3]))]
            elif x < 0.55:      # several on one line
                k, ln, s = r.choice([2, 3, 4]), len(lines) + 1, ""
                for _ in range(k):
                    lv, p = r.choice(LV), g.prefix()
                    s += f' NANO_LOG({lv}, "{p}T%d N%d", t, n);'
                    ctx.append(((ln, ln), lv, p))
                lines.append(s)
            elif x < 0.62:
                ln = len(lines) + 1
                p = g.r.choice(["", "mac ", "m2 "])
                lines.append(f'    LOGD("{p}", t, n); LOGD("{p}", t, n);')
                ctx += [((ln, ln), "DEBUG", p)] * 2
            elif x < 0.68:
                ln = len(lines) + 1
                lines.append("    BOTH(t, n);")
                ctx += [((ln, ln), "ERROR", "both "), ((ln, ln), "NOTICE", "both ")]
            elif x < 0.74:
                lines.append("    auto l = [&](int n) {")
                ctx.append(g.stmt(lines))
                lines.append("    }; l(n);")
            elif x < 0.8:
                lines.append("    if (n >= 0) {"); ctx.append(g.stmt(lines)); lines.append("    } else {"); g.stmt(lines); lines.append("    }")
            else:
                h = r.randrange(2); k = r.randrange(g.nh[h])
                kind, hc = g.hdr[h][k]
                lines.append("    " + (f"hf{h}_{k}(t, n);" if kind == 0 else f"hf{h}_{k}<{r.choice(['int', 'double', 'char*', 'long'])}>(t, n);" if kind == 1 else f"H{h}_{k} o = {{0}}; o.m(t, n);"))
                calls.append([(g.fname(nm), ln, lv, p) for nm, ln, lv, p in hc])
                lines.append("}")
                continue
            f = cur if cur != f"u{u}.cc" or off else g.fname(cur)
            if cur == f"u{u}.cc" and not any(l.startswith("#line") and '"' in l for l in lines):
                f = g.fname(cur)
            calls.append([(f, (a + off, b + off), lv, p) for (a, b), lv, p in ctx])
            lines.append("}")
        lines += ['#line 1 "table"', f"void tu{u}(int j, int t, int n) {{ static void (*const fs[])(int, int) = {{{', '.join(f'f{j}' for j in range(n))}}}; fs[j](t, n); }}"]
        g.calls.append(calls)
        open(f"{g.d}/u{u}.cc", "w").write("\n".join(lines) + "\n")
        g.srcs.append(f"{g.d}/u{u}.cc")


HDR = re.compile(rb"^\d{4}-\d\d-\d\d \d\d:\d\d:\d\d\.\d{9} (.*):(\d+) (ERROR|WARNING|NOTICE|DEBUG|\(none\))\[(\d+)\]: (.*?)T(\d+) N(\d+)$", re.S)


def judge(out, calls, recs):
    """recs: per execution {thread: [(u, j)]}.  Returns (error, number of messages, number of sites seen)."""
    execs = [[]]
    for ln in out.split(b"\r\n"):
        if ln.startswith(b"# New execution"):
            execs.append([])
        elif not ln or ln.startswith(b"# Decompression"):
            continue
        else:
            m = HDR.match(ln)
            if not m:
                return ("format", f"line {ln[:200]!r}"), 0, 0
            execs[-1].append(m.groups())
    execs = [e for e in execs if e]
    if len(execs) != len(recs):
        return ("executions", f"{len(recs)} executions logged, {len(execs)} decoded"), 0, 0
    sites, total = set(), 0
    for ms, rec, table in zip(execs, recs, calls):
        t2id, id2t, per = {}, {}, {}
        for f, ln, lv, tid, p, t, n in ms:
            t, tid = int(t), int(tid)
            if t2id.setdefault(t, tid) != tid:
                return ("thread number", f"thread {t} appears as {t2id[t]} and {tid}"), 0, 0
            if id2t.setdefault(tid, t) != t:
                return ("thread number", f"threads {t} and {id2t[tid]} both appear as {tid}"), 0, 0
            per.setdefault(t, []).append((f.decode("utf8", "replace"), int(ln), lv.decode(), p.decode(), int(n)))
        for t, cs in rec.items():
            want = [(f, l, lv, p.replace("%%", "%"), n) for n, (u, j) in enumerate(cs) for f, l, lv, p in table[u][j]]
            got = per.get(t, [])
            if len(want) != len(got):
                return ("count", f"thread {t}: {len(got)} of {len(want)} messages"), 0, 0
            for i, (w, g) in enumerate(zip(want, got)):
                if w[0] != g[0] or not w[1][0] <= g[1] <= w[1][1] or w[2:] != g[2:]:
                    return ("context", f"thread {t} message {i}: logged at {w[0][:120]}:{w[1]} {w[2]} {w[3][:60]!r} N{w[4]}, printed as {g[0][:120]}:{g[1]} {g[2]} {g[3][:60]!r} N{g[4]}"), 0, 0
                sites.add(w[:3])
            total += len(want)
        if set(per) - set(rec):
            return ("thread number", "messages of a thread that does not exist"), 0, 0
    return None, total, len(sites)


def body(c):
    c.cov["rule"] = ("one evaluation = one log (one or several executions) of a generated multi-file program whose every decoded line was compared with the "
                     "file, line, severity and thread of the statement that logged it; distinct = logs with different site sets, thread counts or first-use orders")
    rnd = random.Random(c.seed * 131 + 9)
    progs, specs = [], []
    plan = [("17", False, 4096, 16384), ("17", True, 4096, 262144), ("pre", False, 4096, 16384), ("pre", True, 4096, 262144)]
    for i in range(c.n(4, 24)):
        fl, longs, st, ou = plan[i % 4]
        pts = i % 2 == 0
        d = f"{c.dir}/p{i}"
        g = Gen(d, random.Random(rnd.randrange(1 << 40)), fl == "pre", c.n(5, 12), c.n(14, 40), longs)
        defs = stress.size_defs(st, ou, pts)
        if fl == "17":
            specs.append(dict(name=f"b{i}", user_srcs=g.srcs + [d + "/tus.cc", HARNESS + "/ctx.cc", HARNESS + "/points.cc"], flags=["-O1"], defs=defs))
        else:
            objs = []
            shutil.copy(HARNESS + "/ctx.cc", d + "/ctx.cc")
            names = [os.path.basename(s) for s in g.srcs] + ["ctx.cc"]
            list(pmap(lambda s: c.pp(d, s, flags=["-D" + x for x in defs], std="c++17"), names))
            c.pp_combine(d, names)
            c.cc([["g++", "-std=c++17", "-O1", "-I", RT, "-c", f"{d}/{s}.ii", "-o", f"{d}/{s}.o"] for s in names])
            specs.append(dict(name=f"b{i}", user_srcs=[f"{d}/{s}.o" for s in names] + [d + "/tus.cc", HARNESS + "/points.cc"], flags=["-O1"], pre=True, defs=defs, gen=d + "/GeneratedCode.cc"))
        progs.append((fl, longs, g))
    ed = dict(name="ed", user_srcs=[HARNESS + "/encdec.cc"], flags=["-O2"], dec=False)
    built = c.build_many(specs + [ed])
    edapp = built.pop()[0]

    def one(k):
        r = random.Random(c.seed * 100151 + k)
        i = k % len(progs)
        d = f"{c.dir}/run{k}"
        os.makedirs(d)
        recs, cmds, tables = [], [], []
        mix = r.random() < 0.3
        for e in range(r.choice([1, 1, 2, 3])):
            if mix:             # executions of different programs in one file
                i = r.randrange(len(progs))
            fl, longs, g = progs[i]
            app, dec = built[i]
            nt, waves = r.choice([1, 2, 4, 8, 16, 32]), r.choice([1, 1, 3])
            a = [str(r.randrange(1 << 30)), str(nt), str(r.choice([1, 5, 40, 300] if not longs else [1, 5, 30])), str(waves)]
            env = dict(VP_SEED=str(r.randrange(1 << 30)), VP_PROFILE=r.choice(stress.PROFILES + ["10:600:300", "10:900:50,0:100:100"]))
            cmds.append((i, a, env)); tables.append(g.calls)
            q = run([app, d, *a], cwd=d, env={**SAN_ENV, **env}, timeout=120)
            if q.timed_out or q.rc:
                shutil.rmtree(d, ignore_errors=True)
                return k, ("hang" if q.timed_out else "crash", f"program {i} {a}: rc={q.rc} {q.err[-500:]}"), 0, 0, cmds
            rec = {}
            for t in range(nt * waves):
                b = open(f"{d}/calls.{t}", "rb").read()
                v = struct.unpack(f"<{len(b) // 4}i", b)
                rec[t] = list(zip(v[::2], v[1::2]))
                os.unlink(f"{d}/calls.{t}")
            recs.append(rec)
        z = stress.decode_file(c, dec, d + "/log", r.choice(["decompress", "decompressUnordered"]))
        if z.rc or z.timed_out:
            err, n, s = ("decode", f"rc={z.rc} timeout={z.timed_out} {z.err[-300:]}"), 0, 0
        else:
            err, n, s = judge(z.out, tables, recs)
        shutil.rmtree(d, ignore_errors=True)
        return k, err, n, s, cmds
    for k, err, n, s, cmds in pmap(one, range(c.n(160, 3000))):
        c.ev()
        c.count("messages", n)
        c.cov["max_sites_in_a_log"] = max(c.cov.get("max_sites_in_a_log", 0), s)
        c.nontrivial((k, n, s))
        i = k % len(progs)
        if err:
            c.violation(f"{err[0]} program {i} ({progs[i][0]}, long={progs[i][1]}) run {k} seed {c.seed}", err[1], json.dumps(cmds))
        c.sample(dict(flavour=progs[i][0], runs=cmds, messages=n, sites=s), 4)
    c.cov["sites"] = [sum(len(x) for x in g.calls) for _, _, g in progs]

    # many threads: numbers beyond every encoding boundary reached by real threads
    def many(j):
        i, n, b = j
        app, dec = built[i]
        d = f"{c.dir}/many{i}"
        os.makedirs(d)
        q = run([app, d, "many", str(n), str(b)], cwd=d, env={**SAN_ENV}, timeout=300)
        if q.rc or q.timed_out:
            return j, f"rc={q.rc} timeout={q.timed_out} {q.err[-300:]}"
        z = stress.decode_file(c, dec, d + "/log", "decompressUnordered", timeout=120)
        shutil.rmtree(d)
        rec = {t: [(0, 0)] * (2 if t % 3 == 0 else 1) for t in range(n)}
        err, tot, s = judge(z.out, [progs[i][2].calls], [rec])
        c.count("threads_created", n)
        return j, f"{err[0]}: {err[1]}" if err else None
    for j, err in pmap(many, [(1, c.n(67000, 67000), 24), (3, c.n(3000, 70000), 8)]):
        c.ev()
        c.nontrivial(("many", j))
        if err:
            c.violation(f"many threads {j}", err)
    # thread numbers of every magnitude through the encoder and the decoder
    def ids(s):
        return s, run([edapp, "ids", f"{c.dir}/ids{s}", str(s)], timeout=60)
    for s, q in pmap(ids, range(c.seed * 1000, c.seed * 1000 + c.n(24, 400))):
        c.ev()
        m = re.search(rb"IDS (\d+)", q.out)
        c.count("encoded_thread_numbers", int(m.group(1)) if m else 0)
        c.nontrivial(("ids", s))
        bad = [l for l in q.out.decode("latin1").split("\n") if l.startswith("BAD")]
        if q.rc or not m or bad:
            c.violation(f"thread numbers encdec ids {s}", f"rc={q.rc} {bad[:3]} {q.err[-300:]}")


main("C09", body)
