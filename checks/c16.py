#!/usr/bin/env python3
import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *
import stress, decode, hist, random, calendar, time, struct, math
from fractions import Fraction

FIXED = [("UTC0", 0), ("XXX-05:30", 19800), ("YYY+11:59", -43140), ("ZZZ-14", 50400), ("AAA+3:30", -12600)]
DST = ["EST5EDT,M3.2.0,M11.1.0", "CET-1CEST,M3.5.0,M10.5.0/3", "AEST-10AEDT,M10.1.0,M4.1.0/3", "UTC0", "XXX-05:30", "LHST-10:30LHDT-11,M10.1.0,M4.1.0"]
FORM = re.compile(rb"\d{4}-(0[1-9]|1[0-2])-(0[1-9]|[12]\d|3[01]) ([01]\d|2[0-3]):[0-5]\d:([0-5]\d|60)\Z")


def epoch(m, off):
    return (calendar.timegm(time.strptime(m.date.decode(), "%Y-%m-%d %H:%M:%S")) - off) * 10**9 + int(m.nanos)


def body(c):
    c.cov["rule"] = ("one evaluation = one printed timestamp compared with the clock readings around its log call, or with exact arithmetic over a log "
                     "whose clock base was set; distinct = timestamps with different (run, message)")
    rnd = random.Random(c.seed * 71 + 9)
    H = hist.builds(c, ("17", "pre"))
    H["default"] = c.build("big", [HARNESS + "/hist.cc"], flags=["-O2"])
    S = stress.builds(c, "a")
    ck = c.build("ckpt", [HARNESS + "/ckpt.cc"], flags=["-O1"], lib_srcs=["Cycles", "Util", "Log"], dec=False)[0]
    size, o_tsc, o_unix, o_cps = map(int, run([ck]).out.split())

    def form(m):
        if not FORM.match(m.date) or not re.fullmatch(rb"\d{9}", m.nanos):
            return f"timestamp {m.date + b'.' + m.nanos!r} is not of the form YYYY-MM-DD HH:MM:SS.nnnnnnnnn"

    def history(k):
        r = random.Random(c.seed * 100069 + k)
        fl = ["17", "pre", "default"][k % 3]
        m, ops, want = hist.Model(), [], {}
        m.set_level(4)
        live, nxt, serial, nfile = [0], 1, 0, 0
        per_file = {"compressedLog": [[]]}
        if r.random() < 0.5:
            ops.append("V 0 4"); ops.append("Y 100")
        else:
            ops.append("V 0 4")
        steps = r.choice([10, 60, 150])
        for step in range(steps):
            x = r.random()
            if k % 10 == 0 and step in (steps // 4, steps // 2):
                # long enough for a wrong clock base to show
                nfile += 1
                f = r.choice([f"f{nfile}", m.file])
                ops.append(f"Y {r.choice([1300000, 2300000])}")
                if step == steps // 2 or r.random() < 0.5:
                    m.switch(f); per_file.setdefault(f, []).append([])
                    ops.append(f"F {r.choice(live)} {f}")
            if x < 0.08 and len(live) < 6:
                ops.append(f"T {nxt}"); live.append(nxt); nxt += 1
            elif x < 0.11 and len(live) > 1:
                q = r.choice(live[1:]); live.remove(q); ops.append(f"X {q}")
            elif x < 0.15:
                ops.append(f"S {r.choice(live)}")
            elif x < 0.17:
                nfile += 1
                f = r.choice([f"f{nfile}", m.file, "f1"])
                m.switch(f); per_file.setdefault(f, []).append([])
                ops.append(f"F {r.choice(live)} {f}")
            elif x < 0.22:
                ops.append(f"Y {r.choice([1, 100, 5000, 40000, 300000] if x < 0.18 else [1, 100, 5000])}")
            else:
                t, serial = r.choice(live), serial + 1
                ops.append(f"L {t} {r.choice([3, 8, 13, 18, 23])} {serial} {r.randrange(20)}")
                per_file[m.file][-1].append((len(ops), t, serial))
        ops.append("S 0")
        if r.random() < 0.5:
            ops.append(f"Y {r.choice([100, 200000])}")
        d = f"{c.dir}/hist{k}"
        app, dec = H[fl]
        q, rep = hist.execute(app, d, ops)
        if q.rc or q.timed_out:
            return k, fl, ("run", f"rc={q.rc} timeout={q.timed_out} {q.err[-300:]}"), 0, 0, ops
        tz, off = FIXED[k % len(FIXED)]
        n, err, pairs = 0, None, 0
        for f, execs in per_file.items():
            z = stress.decode_file(c, dec, f"{d}/{f}", r.choice(["decompress", "decompressUnordered"]), env={"TZ": tz})
            ex, bad, cnt = decode.parse(z.out)
            if z.rc or bad:
                err = ("decode", f"{f}: rc={z.rc} {bad[:2]}")
                break
            got = [e for e in ex if e]
            want = [e for e in execs if e]
            if len(got) != len(want):
                err = ("decode", f"{f}: {len(got)} executions decoded instead of {len(want)}")
                break
            for g, w in zip(got, want):
                by = {}
                for mm in g:
                    a = re.match(rb"[a-m](-?\d+)", mm.text)
                    by[int(a.group(1))] = mm
                    e = form(mm)
                    err = err or (e and ("form", e))
                if err or set(by) != {s for _, _, s in w}:
                    err = err or ("decode", f"{f}: messages {sorted({s for _, _, s in w} ^ set(by))[:5]} missing or extra")
                    break
                last, prev = {}, None
                for op, t, s in w:
                    v = [int(x) for x in rep[op][1:5]]
                    p = epoch(by[s], off)
                    n += 1
                    if not v[0] - 1_100_000_000 <= p <= v[1] + 1_100_000_000:
                        err = err or ("wall clock", f"op {op}: logged between {v[0]} and {v[1]} (ns since 1970), printed as {by[s].date.decode()}.{by[s].nanos.decode()} TZ={tz} = {p}: {(p - v[0]) / 1e9:+.3f} s")
                    if t in last and p < last[t]:
                        err = err or ("backwards", f"op {op}: timestamp of thread {t} goes back from {last[t]} to {p}")
                    last[t] = p
                    if prev:
                        lo, hi = v[2] - prev[1][3], v[3] - prev[1][2]
                        tol = 3000 + 2e-3 * hi
                        dl = p - prev[0]
                        pairs += 1
                        if not lo - tol <= dl <= hi + tol:
                            err = err or ("difference", f"ops {prev[2]} and {op}: between {lo} and {hi} ns elapsed, timestamps differ by {dl} ns")
                    if prev is None or r.random() < 0.7:
                        prev = (p, v, op)
        shutil.rmtree(d, ignore_errors=True)
        return k, fl, err, n, pairs, ops

    for k, fl, err, n, pairs, ops in pmap(history, range(c.n(90, 2500)), workers=12):
        c.ev(n)
        c.count("timestamps_vs_wall_clock", n); c.count("differences_vs_monotonic_clock", pairs)
        if err and err[0] == "run":
            raise Inconclusive(f"history {k}: {err[1]}")
        if err:
            c.violation(f"{err[0]} flavour {fl} history {k} seed {c.seed}", err[1], "\n".join(ops))
        c.nontrivial((fl, k, n))
        c.sample(dict(flavour=fl, history=ops[:10], timestamps=n), 2)

    # concurrent runs: no thread's timestamps go backwards, and they stay inside the run's wall-clock span, also across file switches under load
    def conc(k):
        r = random.Random(c.seed * 517 + k)
        (app, dec), st, out = S["a"]
        d = f"{c.dir}/conc{k}"
        p = dict(SEED=r.randrange(1 << 30), THREADS=r.choice([2, 5]), WAVES=r.choice([1, 3]), MSGS=r.choice([100, 700]), MAXLEN=60, SIZES=0, OVERLAP=1, MAIN=3, PAUSE_PM=100, PAUSE_NS=30000)
        t0 = time.time_ns()
        q = stress.run_stress(c, app, d, p, dict(VP_SEED=p["SEED"], VP_PROFILE=r.choice(stress.PROFILES)))
        t1 = time.time_ns()
        if q.rc:
            raise Inconclusive(f"workload: {q.rc} {q.err[-300:]}")
        tz, off = FIXED[k % len(FIXED)]
        z = stress.decode_file(c, dec, d + "/log", "decompressUnordered", env={"TZ": tz})
        ex, bad, cnt = decode.parse(z.out)
        err, last, n = None, {}, 0
        if z.rc or bad or len(ex) != 1:
            return k, p, ("decode", f"rc={z.rc} {bad[:2]}"), 0
        for m in ex[0]:
            e = form(m)
            if e:
                err = err or ("form", e)
                break
            v = epoch(m, off)
            n += 1
            if v < last.get(m.tid, 0):
                err = err or ("backwards", f"thread {m.tid}: {last[m.tid]} then {v} for {m.text[:60]!r}")
            if not t0 - 1_100_000_000 <= v <= t1 + 1_100_000_000:
                err = err or ("wall clock", f"{m.text[:60]!r} printed at {v}, the run lasted from {t0} to {t1}")
            last[m.tid] = v
        shutil.rmtree(d, ignore_errors=True)
        return k, p, err, n
    for k, p, err, n in pmap(conc, range(c.n(16, 200)), workers=4):
        c.ev(n)
        c.count("timestamps_concurrent", n)
        c.nontrivial(("conc", k, n))
        if err:
            c.violation(f"{err[0]} workload {json.dumps(p)}", err[1])

    # logs whose clock base is set: exact arithmetic, calendar, zones, messages older than the file, rounding at the end of a second
    def base(k):
        d = f"{c.dir}/base{k}"
        ops = ["V 0 4"] + [o for i in range(25) for o in (f"L 0 3 {i + 1} 4", f"Y {[1, 50, 900][i % 3]}")] + ["S 0"]
        q, rep = hist.execute(H["17"][0], d, ops)
        if q.rc:
            raise Inconclusive(f"base run {q.rc}")
        ts = [int(x) for x in run([ck, d + "/compressedLog"]).out.split()]
        return open(d + "/compressedLog", "rb").read(), ts
    bases = list(pmap(base, range(3)))
    cases = []
    for k in range(c.n(700, 20000)):
        b = k % 3
        ts = bases[b][1]
        t = rnd.choice(ts)
        cps = rnd.choice([1e9, 2.4e9, 3e9, 2399987654.321, 1e6, 1.0, 1e8 / 3, 4.2e9, 999999999.5])
        style = rnd.randrange(6)
        unix = rnd.choice([86400, 951782399, 1078012800, 1700000000, 2147483647, 4102444799, 1710054000, 1730602800, 1711846800, 1729990800, 1720000000, rnd.randrange(86400 * 2, 2 * 10**9)])
        if style == 0:
            tsc = t - rnd.randrange(0, int(cps * 3) + 2)
        elif style == 1:                       # message before the checkpoint
            tsc = t + rnd.randrange(0, int(cps * 3) + 2)
        elif style == 2:                       # just below or at a whole second
            tsc = t - int(cps * rnd.choice([1, 2, 59, 3600])) + rnd.choice([0, 1, 1, 2, -1, -2, 3])
        elif style == 3:                       # just before the checkpoint
            tsc = t + rnd.choice([0, 1, 2, 3, int(cps), int(cps) - 1, int(cps) + 1])
        elif style == 4:                       # days apart
            tsc = t - int(cps * rnd.choice([86400, 86400 * 365, 3600 * 5.5]))
        else:                                  # around a daylight saving change or the end of a year
            unix = rnd.choice([1710054000, 1730613600, 1711846800, 1729990800, 1704067200, 1709164800, 1696089600, 1712419200, 1735689600]) + rnd.randrange(-3, 3)
            tsc = t - rnd.randrange(0, int(cps * 2) + 2)
        tsc %= 1 << 64
        cases.append((k, b, tsc, unix, cps, rnd.choice(DST)))
    expect = {}
    for k, b, tsc, unix, cps, tz in cases:
        exp = []
        ok = True
        for t in bases[b][1]:
            dlt = t - tsc if t - tsc < 1 << 63 and t - tsc >= -(1 << 63) else ((t - tsc + (1 << 63)) % (1 << 64)) - (1 << 63)
            x = Fraction(dlt) / Fraction(cps)
            s = abs(float(x))
            tol = 1.0 + 3e9 * math.ulp(s) if s < 4e9 else None
            if tol is None or tol > 1000 or not 3 * 86400 < unix + x < 250000000000:
                ok = False
                break
            exp.append((unix * 10**9 + x * 10**9, tol))
        if ok:
            expect[k] = exp

    # local time strings the C library prints for each second of interest
    zone = {}
    for tz in DST:
        os.environ["TZ"] = tz
        time.tzset()
        for k, b, tsc, unix, cps, z in cases:
            if z == tz and k in expect:
                for v, tol in expect[k]:
                    for s in {math.floor((v - Fraction(tol)) / 10**9), math.floor((v + Fraction(tol)) / 10**9)}:
                        zone[(tz, s)] = time.strftime("%Y-%m-%d %H:%M:%S", time.localtime(s))
    del os.environ["TZ"]
    time.tzset()

    def synth(case):
        k, b, tsc, unix, cps, tz = case
        data = bytearray(bases[b][0])
        struct.pack_into("<Q", data, o_tsc, tsc)
        struct.pack_into("<q", data, o_unix, unix)
        struct.pack_into("<d", data, o_cps, cps)
        f = f"{c.dir}/synth{k}"
        open(f, "wb").write(data)
        z = stress.decode_file(c, H["17"][1], f, "decompressUnordered", env={"TZ": tz})
        os.unlink(f)
        ex, bad, cnt = decode.parse(z.out)
        ms = [m for e in ex for m in e]
        if z.rc or bad or len(ms) != len(expect[k]):
            return case, ("decode", f"rc={z.rc} {bad[:2]} {len(ms)} messages of {len(expect[k])}")
        for m, (v, tol) in zip(ms, expect[k]):
            e = form(m)
            if e:
                return case, ("form", e)
            n = int(m.nanos)
            good = False
            for s in {math.floor((v - Fraction(tol)) / 10**9), math.floor((v + Fraction(tol)) / 10**9)}:
                if zone[(tz, s)].encode() == m.date and abs(Fraction(s) * 10**9 + n - v) <= tol:
                    good = True
            if not good:
                s = math.floor(v / 10**9)
                return case, ("arithmetic", f"printed {m.date.decode()}.{m.nanos.decode()}, should be {zone.get((tz, s))}.{int(v - s * 10**9):09d}")
        return case, None
    for case, err in pmap(synth, [x for x in cases if x[0] in expect]):
        c.ev(len(expect[case[0]]))
        c.count("timestamps_vs_exact_arithmetic", len(expect[case[0]]))
        c.nontrivial(("synth", case[1:]))
        if err:
            c.violation(f"{err[0]} checkpoint tsc={case[2]} unix={case[3]} cyclesPerSecond={case[4]} TZ={case[5]}", err[1])
        c.sample(dict(checkpoint=list(case[2:5]), zone=case[5]), 5)
    c.assumptions += ["the time stamp counters of the cores are synchronized and run at a constant rate (as the system documents)",
                      "clock-calibration error: 0.2 % of the elapsed time + 3 us; wall clock: whole-second base, judged to 1.1 s"]
    if not c.violations and not c.cov.get("timestamps_vs_wall_clock"):
        raise Inconclusive("nothing observed")


main("C16", body)
