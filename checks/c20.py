#!/usr/bin/env python3
import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *
import stress, decode, random, bisect, struct

WORDS = ["alpha", "beta", "Gamma", "alp", "read", "write", "x", "id=", "[q]", "a.b", "50%%", "end", "ha al", "tail "]


def program(rnd, n):
    """n statements on their own lines; statement k logs vals[k] as its first argument."""
    lines = ['#include "NanoLog.h"', '#include <stdio.h>', '#include <stdlib.h>', '#include <limits.h>', 'using namespace NanoLog::LogLevels;', 'void emit(int k, int v) {', '  switch (k) {']
    sts = []
    for k in range(n):
        w = " ".join(rnd.choice(WORDS) for _ in range(rnd.randrange(4)))
        form, args = rnd.choice([("%d", "v"), ("%i", "v"), ("%5d", "v"), ("%d %s", 'v, "str"'), ("%d %f %ld", "v, 0.5, 7L"), ("%*d", "5, v"), ("%d %d", "v, v / 2")])
        fmt = rnd.choice([f"{w} {form}", f"s{k} {form} {w}", f"{w}{form}{w}"])
        lvl = rnd.choice(["ERROR", "WARNING", "NOTICE"])
        lines.append(f'    case {k}: NANO_LOG({lvl}, "{fmt}", {args}); break;')
        sts.append((len(lines), fmt, lvl))
    lines += ['    default: NANO_LOG(NOTICE, "plain statement"); break;']
    sts.append((len(lines), "plain statement", "NOTICE"))
    lines += ['  }', '}', 'int main(int argc, char **argv) {', '  (void)argc;', '  FILE *f = fopen(argv[1], "r"); int k, v, s;', '  while (fscanf(f, "%d %d %d", &k, &v, &s) == 3) { emit(k, v); for (volatile int i = 0; i < s; ++i) {} }',
              '  NanoLog::sync(); return 0; }']
    return "\n".join(lines) + "\n", sts


def body(c):
    c.cov["rule"] = ("one evaluation = one decompressor command whose complete output was compared with values computed from the statements issued, "
                     "or one invalid invocation; distinct = different (command, log, argument)")
    rnd = random.Random(c.seed * 43 + 17)
    progs = []
    specs = []
    for p in range(c.n(4, 16)):
        src, sts = program(rnd, rnd.choice([1, 3, 12, 40]))
        d = f"{c.dir}/p{p}"
        os.makedirs(d)
        open(d + "/agg.cc", "w").write(src)
        c.pp(d, "agg.cc", std="c++17")
        c.pp_combine(d, ["agg.cc"])
        progs.append((d, sts))
        c.cc([["g++", "-std=c++17", "-O1", "-I", RT, "-c", d + "/agg.cc.ii", "-o", d + "/agg.o"]])
        specs.append(dict(name=f"b{p}", user_srcs=[d + "/agg.o"], flags=["-O1"], dec_flags=["-O1"], pre=True, gen=d + "/GeneratedCode.cc"))
    # one set with sanitizers in the decompressor, the others plain
    specs[0]["flags"] = specs[0]["dec_flags"] = ASAN
    declog = c.build("declog", [HARNESS + "/declog.cc"], flags=["-O1"], lib_srcs=["Cycles", "Util", "Log"], dec=False)[0]
    ck = c.build("ckpt", [HARNESS + "/ckpt.cc"], flags=["-O1"], lib_srcs=["Cycles", "Util", "Log"], dec=False)[0]
    coff = int(run([ck], timeout=20).out.split()[3])
    B = c.build_many(specs)

    def vio(k, what, r=None):
        c.violation(k, what + (f" rc={r.rc} timeout={r.timed_out} {r.sanitizer or ''} {r.err[-600:]}" if r else ""), r.out.decode("latin1")[:4000] if r else None)

    def one(t):
        p, k, seed = t
        r = random.Random(seed)
        d, sts = progs[p]
        app, dec = B[p]
        w = f"{d}/run{k}"
        os.makedirs(w)
        evs = []
        used = r.sample(range(len(sts)), max(1, len(sts) * r.choice([1, 2, 3]) // 3))
        rng = r.choice([(0, 10), (-10, -1), (-5, 5), (-2**31, 2**31 - 1), (2**31 - 100, 2**31 - 1), (-2**31, -2**31 + 3), (7, 7)])
        n = r.choice([0, 1, 2, 3, 50, 700])
        for _ in range(n):
            s = r.choice(used)
            evs.append((s, r.randint(*rng), r.choice([0, 0, 10, 300, 3000])))
        execs = r.choice([1, 1, 2])
        for _ in range(execs):
            open(w + "/in", "w").write("".join("%d %d %d\n" % e for e in evs))
            q = run([app, w + "/in"], cwd=w, env=SAN_ENV, timeout=60)
            if q.rc:
                raise Inconclusive(f"agg run: {q.rc} {q.err[-300:]}")
        log = w + "/compressedLog"
        evs = evs * execs
        with open(log, "r+b") as fh:          # as if a machine with another clock had written it
            fh.seek(coff)
            freq = struct.unpack("<d", fh.read(8))[0]
            if execs == 1 and r.random() < 0.7:
                freq = r.choice([1e8, 1e9, freq / 2, freq * 1.7, 24e6, 7.3e9])
                fh.seek(coff)
                fh.write(struct.pack("<d", freq))
        fails, cov = [], []
        # find: every statement containing the substring, with its id
        def find(sub):
            q = run([dec, "find", log, sub], env=SAN_ENV, timeout=60)
            if q.rc or q.timed_out or q.crashed:
                fails.append((f"find {sub!r}", "failed", q))
                return {}
            got = {}
            rows = q.out.decode("latin1").split("\r\n")
            for row in rows[1:]:
                if not row:
                    continue
                m = re.fullmatch(r" *(\d+) \| (.*?) *\| (\d+) *\| (.*)", row, re.S)
                if not m or m.group(2) != "agg.cc" or int(m.group(3)) in [g[0] for g in got.values()]:
                    fails.append((f"find {sub!r}", f"bad row {row!r}", q))
                    continue
                got[int(m.group(1))] = (int(m.group(3)), m.group(4))
            want = sorted((ln, f) for ln, f, lv in sts if sub in f)
            if sorted(got.values()) != want:
                fails.append((f"find {sub!r}", f"lists {sorted(got.values())[:6]}, should list {want[:6]}", q))
            cov.append(("find", p, sub))
            return got
        allids = find("")
        for sub in r.sample(["alpha", "al", "%d", "%", "s1", "zzz", " ", "A", "GAMMA", "amma", "plain statement", "%5d", ".", "[q]", "*", "a.b", "50%%"], 6):
            for i, v in find(sub).items():
                if allids.get(i) != v:
                    fails.append((f"find {sub!r}", f"id {i} names another statement than in the full list", None))
        byline = {v[0]: i for i, v in allids.items()}
        # aggregation
        for s, (ln, fmt, lv) in (r.sample(list(enumerate(sts)), min(len(sts), 8))):
            if ln not in byline or "%" not in fmt:
                continue
            q = run([dec, "minMaxMean", log, str(byline[ln])], env=SAN_ENV, timeout=60)
            vals = [v for k2, v, _ in evs if k2 == s]
            o = q.out.decode("latin1")
            exp = [f'Aggregating log message "{fmt}" (logId={byline[ln]})', f"Logs Encountered: {len(evs)}"]
            if vals:
                tot = sum(vals)
                mean = abs(tot) // len(vals) * (1 if tot >= 0 else -1)
                exp += [f"Matching Logs: {len(vals)} ({100.0 * len(vals) / len(evs):.2f}%)", f"Min: {min(vals)}", f"Max: {max(vals)}", f"Mean: {mean}", f"Total: {tot}"]
            else:
                exp += ["Matching Logs: 0"]
            got = [x for x in o.split("\r\n") if x and not x.startswith("The aggregation took")]
            if q.rc or q.timed_out or q.crashed or got != exp:
                fails.append((f"minMaxMean {fmt!r}", f"printed {got}, should print {exp}", q))
            cov.append(("mmm", p, k, s))
        # count
        texts = None
        for cmd in ("decompress", "decompressUnordered"):
            q = run([dec, cmd, log], env=SAN_ENV, timeout=60)
            ex, bad, cnt = decode.parse(q.out)
            if q.rc or bad or cnt != len(evs) or sum(map(len, ex)) != len(evs):
                fails.append((cmd, f"announces {cnt}, prints {sum(map(len, ex))} of {len(evs)} messages, stray {bad[:2]}", q))
            lines = sorted((m.line, m.level) for e in ex for m in e)
            if lines != sorted((sts[e[0]][0], sts[e[0]][2].encode()) for e in evs):
                fails.append((cmd, "the messages' statements differ from those executed", q))
            cov.append((cmd, p, k))
        # inter-arrival distribution (a single thread logged)
        q = run([dec, "rcdfTime", log], env=SAN_ENV, timeout=100)
        o = q.out.decode("latin1")
        if q.rc or q.timed_out or q.crashed:
            fails.append(("rcdfTime", "failed", q))
        elif len(evs) < 2:
            if re.search(r"^ *\d+\.\d+ ", o, re.M):
                fails.append(("rcdfTime", f"prints a distribution of {len(evs)} messages", q))
        else:
            ts = [int(x) for x in run([declog, "ts", log, "0"], timeout=60).out.split()]
            if len(ts) != len(evs):
                raise Inconclusive(f"timestamps: {len(ts)} of {len(evs)}")
            dl = [b - a for a, b in zip(ts, ts[1:])]
            if min(dl) >= 0:
                fails += [("rcdfTime", e, q) for e in rcdf(o, sorted(dl), 1e9 / freq, execs == 1)][:1]
                cov.append(("rcdf", p, k, len(dl)))
        shutil.rmtree(w, ignore_errors=True)
        return t, fails, cov, len(evs)

    def rcdf(o, dl, s, exact):
        n = len(dl)
        rows = [(float(a), float(b)) for a, b in re.findall(r"^ *(\d+\.\d+) +(\d+\.\d+)\r$", o, re.M)]
        mean = re.search(r"The mean was (\d+\.\d+) ns", o)
        cnt = re.search(r"aggregate (\d+) time entries", o)
        if not rows or not mean or not cnt:
            yield "incomplete output"
            return
        if int(cnt.group(1)) != n:
            yield f"{cnt.group(1)} time differences instead of {n}"
        if abs(rows[0][0] - dl[0] * s) > 0.02 + dl[0] * s * 0.01 or abs(rows[0][1] - 1) > 1e-9:
            yield f"first row {rows[0]}, smallest difference {dl[0] * s:.2f} ns of all"
        if abs(rows[-1][0] - dl[-1] * s) > 0.02 + dl[-1] * s * 1e-3:
            yield f"last row {rows[-1]}, largest difference {dl[-1] * s:.2f} ns"
        if abs(rows[-1][1] - 1 / n) > 1e-9:
            yield f"last row {rows[-1]}, should be at 1/{n}"
        m = sum(dl) // n * s
        if abs(float(mean.group(1)) - m) > 0.05 + m * 0.005:
            yield f"mean {mean.group(1)} ns, should be {m:.2f}"
        for (l, f) in rows[1:-1]:
            k = round(f * n)
            if abs(k / n - f) > 1e-8:
                yield f"row ({l}, {f}): not a multiple of 1/{n}"
                return
            # the count is that of the differences above the row's; rows less than 0.1 ns apart are joined
            slop, rel = (0.006, 1e-9) if exact else (0.02, 2e-3)
            at = bisect.bisect_left(dl, (l - slop - l * rel) / s)
            if at == n or dl[at] * s > l + slop + l * rel:
                yield f"row ({l}, {f}): no two messages are this far apart"
                return
            hi = n - bisect.bisect_right(dl, dl[at])
            lo = n - bisect.bisect_right(dl, (l + 0.35 + l * rel) / s)
            if not (lo <= k <= hi):
                yield f"row ({l}, {f}): {k} differences are above, should be between {lo} and {hi} of {n}"
                return
        if [r[0] for r in rows] != sorted(r[0] for r in rows) or [r[1] for r in rows] != sorted((r[1] for r in rows), reverse=True):
            yield "rows out of order"

    jobs = [(p, k, rnd.randrange(1 << 40)) for p in range(len(progs)) for k in range(c.n(9, 60))]
    for t, fails, cov, n in pmap(one, jobs):
        c.ev(len(cov))
        c.count("messages_aggregated", n)
        for x in cov:
            c.nontrivial(x)
        for k, what, r in fails[:3]:
            vio(f"{k} program {t[0]} run {t[1]} seed {c.seed}", what, r)
        c.sample(dict(commands=[list(x) for x in cov[:5]], messages=n), 3)

    # invalid invocations, under sanitizers
    d, sts = progs[0]
    app, dec = B[0]
    nids = len(sts)
    w = f"{c.dir}/inv"
    os.makedirs(w + "/dir")
    open(w + "/in", "w").write("0 5 0\n0 7 0\n")
    run([app, w + "/in"], cwd=w, env=SAN_ENV)
    good = w + "/compressedLog"
    open(w + "/in", "w").write("")
    os.makedirs(w + "/e"); run([app, w + "/in"], cwd=w + "/e", env=SAN_ENV)
    open(w + "/in", "w").write("0 5 0\n")
    os.makedirs(w + "/o"); run([app, w + "/in"], cwd=w + "/o", env=SAN_ENV)
    open(w + "/empty", "w").close()
    open(w + "/zeros", "wb").write(b"\0" * 4096)
    open(w + "/text", "w").write("this is not a log\n" * 40)
    data = open(good, "rb").read()
    open(w + "/half", "wb").write(data[:len(data) // 2])
    files = ["/nonexistent/f", w + "/dir", w + "/empty", w + "/zeros", w + "/text", w + "/half", w + "/e/compressedLog", w + "/o/compressedLog", good, ""]
    inv = [[], ["decompress"], ["find"], ["minMaxMean"], ["--help"]]
    for f in files:
        for cmd in ("decompress", "decompressUnordered", "rcdfTime"):
            inv.append([cmd, f])
            inv.append([cmd, f, "extra"])
        for bad in ("bogus", "", "Decompress", "-h"):
            inv.append([bad, f])
        inv.append(["find", f]); inv.append(["minMaxMean", f])
        for a in ("", "%d", "nothing has this", "x" * 5000):
            inv.append(["find", f, a])
        for a in ("0", "1", str(nids - 1), str(nids), str(nids + 1), "-1", "-2147483648", "2147483647", "4294967296", "99999999999999999999", "abc", "", " ", "1x", "0x1", "1.5", "1000000"):
            inv.append(["minMaxMean", f, a])

    def invalid(a):
        return a, run([dec, *a], cwd=w, env=SAN_ENV, timeout=100)
    for a, r in pmap(invalid, inv):
        c.ev()
        c.count("invalid_or_odd_invocations")
        c.nontrivial(("inv", tuple(x.replace(c.dir, "") for x in a)))
        if r.timed_out or r.crashed:
            vio(f"invocation {[x.replace(c.dir, '') for x in a]}"[:300], "crash or hang", r)
        elif not r.out.strip() and not r.err.strip():
            vio(f"invocation {[x.replace(c.dir, '') for x in a]}"[:300], "ends without any message", r)
    c.assumptions += ["rcdfTime judged on logs of a single thread (documented restriction)"]


main("C20", body)
