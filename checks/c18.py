#!/usr/bin/env python3
import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *
import stress, decode, hist, random

DIRECT = "NANOLOG_VERIF_FILE_PARAMS=(O_APPEND|O_RDWR|O_CREAT|O_DSYNC|O_DIRECT)"


def subseq(got, want):
    it = iter(want)
    return all(any(x == y for y in it) for x in got)


def stats(d):
    """The I/O stand-in's counters; {} if a write to a closed descriptor's number hit their file (the log is judged anyway)."""
    try:
        return json.load(open(d + "/aiostats"))
    except (OSError, ValueError):
        return {}


def body(c):
    c.cov["rule"] = ("one evaluation = one run whose asynchronous writes were delayed, shortened, interrupted or failed on purpose and whose decoded log, "
                     "standard error and termination were judged; distinct = runs with a different set of injected faults that took effect")
    rnd = random.Random(c.seed * 83 + 21)
    B = stress.builds(c, "abcp")
    specs = [dict(name="dir", user_srcs=stress.SRCS, flags=["-O2", "-g"], defs=stress.size_defs(4096, 32768, True) + [DIRECT]),
             dict(name="real", user_srcs=[HARNESS + "/stress.cc"], flags=["-O2", "-g"], defs=stress.size_defs(4096, 16384, False)),
             dict(name="realdir", user_srcs=[HARNESS + "/stress.cc"], flags=["-O2", "-g"], defs=stress.size_defs(4096, 32768, False) + [DIRECT]),
             dict(name="hf", user_srcs=[HARNESS + "/hist.cc", HARNESS + "/aioshim.cc"], flags=["-O2", "-g"], defs=stress.size_defs(4096, 32768, False)),
             dict(name="hfa", user_srcs=[HARNESS + "/hist.cc", HARNESS + "/aioshim.cc"], flags=ASAN, dec_flags=["-O2"], defs=stress.size_defs(4096, 32768, False)),
             dict(name="hr", user_srcs=[HARNESS + "/hist.cc"], flags=["-O2", "-g"], defs=stress.size_defs(4096, 32768, False))]
    b = c.build_many(specs)
    B["dir"], B["real"], B["realdir"] = [(x, 4096, y) for x, y in zip(b[:3], (32768, 16384, 32768))]
    HF, HFA, HR = b[3:]
    odirect = True
    try:
        os.close(os.open(c.dir + "/odirect", os.O_CREAT | os.O_RDWR | os.O_DIRECT))
    except OSError:
        odirect = False
        c.assumptions.append("the file system of the check does not support O_DIRECT: padded output not exercised")

    # A. slow, short, interrupted output: still exactly once
    jobs = []
    for i in range(c.n(80, 2000)):
        kind = i % 10
        nm = "real" if kind == 8 else "realdir" if kind == 9 and odirect else "dir" if kind in (6, 7) and odirect else rnd.choice("aabbcp")
        th, waves = rnd.choice([1, 2, 4, 8]), rnd.choice([1, 1, 3])
        total = rnd.choice([300, 2500, 6000])
        p = dict(SEED=rnd.randrange(1 << 30), THREADS=th, WAVES=waves, MSGS=max(1, total // (th * waves)), MAXLEN=rnd.choice([10, 100, 400]), SIZES=rnd.choice([0, 1, 3]),
                 SYNC=rnd.choice([0, 0, 10, 100]), OVERLAP=rnd.randrange(2), MAIN=rnd.choice([0, 3]), PAUSE_PM=rnd.choice([0, 20]), PAUSE_NS=rnd.choice([1000, 100000]),
                 SYNCERS=rnd.choice([0, 0, 1, 2]), FINALSYNC=rnd.randrange(2), DURABLE=0)
        env = dict(VP_SEED=p["SEED"], VP_PROFILE=rnd.choice(stress.PROFILES), AIO_SEED=p["SEED"], AIO_DELAY_US=rnd.choice([0, 100, 1000, 8000]), AIO_DELAY_PCT=rnd.choice([20, 100]))
        if nm not in ("dir", "real", "realdir"):
            env["AIO_SHORT_PCT"] = rnd.choice([0, 20, 60, 95])
        env["AIO_EINTR_PCT"] = rnd.choice([0, 30, 95])
        if nm in ("real", "realdir") or rnd.random() < 0.2:
            p["SIGNALS"] = rnd.choice([20, 200, 1000])
        if env["AIO_DELAY_US"] >= 1000:
            p["SYNC"] = min(p["SYNC"], 10)
            if env["AIO_DELAY_US"] == 8000:
                p["MSGS"] = max(1, p["MSGS"] // 4)
                p["SYNCERS"] = 0
        jobs.append((i, nm, p, env))

    def slow(j):
        i, nm, p, env = j
        (app, dec), st, out = B[nm]
        d = f"{c.dir}/r{i}"
        r = stress.run_stress(c, app, d, p, env, timeout=60)
        if r.timed_out:
            return j, ("hang", "no progress within 120 s although output keeps being completed"), {}
        if r.rc:
            return j, ("crash", f"rc={r.rc} {r.err[-600:]}"), {}
        exp = stress.dump(app, d, p)
        q = stress.decode_file(c, dec, d + "/log", "decompressUnordered")
        ex, bad, cnt = decode.parse(q.out)
        st = stats(d)
        m = re.search(rb"STAT signals (\d+)", r.out)
        if m:
            st["signals"] = int(m.group(1))
        err = None
        if q.rc or q.timed_out or bad or len(ex) != 1:
            err = ("decode", f"log undecodable: rc={q.rc} {bad[:2]} {q.err[-300:]}")
        else:
            e = stress.check_complete(ex[0], exp)
            if e:
                err = ("delivery", e)
        if not err and st.get("changed_in_flight"):
            err = ("overwritten in flight", f"{st['changed_in_flight']} writes found their data changed between submission and completion")
        if not err and st.get("overlap"):
            err = ("resubmitted", f"{st['overlap']} control blocks submitted while still in progress")
        if not err and re.search(r"failed|Error", r.err) and not st.get("failed") and nm != "p" and not re.search(r"Interrupted", r.err):
            c.count("stderr_reports_without_failure")
        shutil.rmtree(d, ignore_errors=True)
        return j, err, st

    for (i, nm, p, env), err, st in pmap(slow, jobs, workers=6):
        c.ev()
        for a, v in st.items():
            c.count("faults_" + a, v)
        c.nontrivial((nm, i, tuple(sorted(st.items()))))
        k = f"build={nm} params={json.dumps(p)} env={json.dumps(env)}"
        if err:
            c.violation(f"{err[0]} {k}", err[1])
        c.sample(dict(build=nm, params=p, faults=st), 3)

    # B. writes that fail outright and recover
    def failing(k):
        r = random.Random(c.seed * 100129 + k)
        app, dec = HFA if k % 5 == 0 else HF
        d = f"{c.dir}/f{k}"
        ops, logged, serial, live, nxt = ["V 0 4"], [], 0, [0], 1
        # every statement's dictionary entry reaches the file first
        for s in range(30):
            serial += 1
            ops.append(f"L 0 {s} {serial} 3"); logged.append((len(ops), 0, s, serial, 3))
        ops.append("S 0")
        eras = []              # (first op, last op) of faulty periods, ends known from W
        for _ in range(r.choice([1, 2, 4])):
            for _ in range(r.randrange(20)):
                serial += 1
                t, s, ln = r.choice(live), r.randrange(30), r.randrange(60)
                ops.append(f"L {t} {s} {serial} {ln}"); logged.append((len(ops), t, s, serial, ln))
            ops += ["S 0", "W"]
            nf = r.choice([1, 1, 2, 5])
            ops.append(f"E {nf} {r.choice([28, 5, 122, 11, 27])} {r.choice([0, 0, 2, 3])}")
            for _ in range(nf + r.choice([0, 2, 6])):
                if r.random() < 0.4 and len(live) < 5:
                    ops.append(f"T {nxt}"); live.append(nxt); nxt += 1
                if r.random() < 0.2 and len(live) > 1:
                    q = r.choice(live[1:]); live.remove(q); ops.append(f"X {q}")
                if r.random() < 0.3:
                    n = r.choice([100, 1500])
                    t, s, ln = r.choice(live), r.randrange(30), r.randrange(40)
                    ops.append(f"B {t} {s} {serial + 1} {ln} {n}")
                    for i in range(n):
                        serial += 1
                        logged.append((len(ops), t, s, serial, ln))
                for _ in range(r.choice([1, 3, 10])):
                    serial += 1
                    t, s, ln = r.choice(live), r.randrange(30), r.randrange(60)
                    ops.append(f"L {t} {s} {serial} {ln}"); logged.append((len(ops), t, s, serial, ln))
                ops += [f"S {r.choice(live)}", "W"]
            if r.random() < 0.3:
                ops.append("G 0")
            # any write that is still to fail does so now
            ops += ["E 0 0 0", "W"]
        for _ in range(r.choice([1, 10])):
            serial += 1
            t, s, ln = r.choice(live), r.randrange(30), r.randrange(60)
            ops.append(f"L {t} {s} {serial} {ln}"); logged.append((len(ops), t, s, serial, ln))
        ops += ["S 0", "W"]
        env = dict(AIO_SEED=k, AIO_DELAY_US=r.choice([0, 300, 3000]), AIO_STATS=d + "/aiostats")
        q, rep = hist.execute(app, d, ops, env=env, timeout=60)
        if q.timed_out:
            return k, ("hang", f"after injected write failures: last report {max(rep, default=0)} of {len(ops)} ops"), {}, ops
        if q.rc:
            return k, ("crash", f"after injected write failures: rc={q.rc} {q.sanitizer or ''} {q.err[-800:]}"), {}, ops
        st = stats(d)
        # per message: must it be in the log? yes, unless a write failed between its call and the end of the sync that followed
        W = {n: int(v[1]) for n, v in rep.items() if v[0] == "W"}
        failed_spans, prev, base = [], None, None
        cur = 0
        for n, o in enumerate(ops, 1):
            if o[0] == "E":
                cur = int(o.split()[1]); lastn = n
            if n in W:
                if W[n] < cur:
                    failed_spans.append((lastn, n))
                cur, lastn = W[n], n
        err = None
        z = stress.decode_file(c, dec, d + "/compressedLog", "decompressUnordered")
        ex, bad, cnt = decode.parse(z.out)
        if z.rc or bad or len(ex) != 1:
            err = ("decode", f"log with failed writes undecodable: rc={z.rc} {bad[:2]} {z.err[-300:]}")
        else:
            got = [m.text for m in ex[0]]
            texts = {hist.text(s, sr, ln).encode(): (op, t) for op, t, s, sr, ln in logged}
            byk = {}
            for m in ex[0]:
                if m.text not in texts:
                    err = ("invented", f"{m.text[:100]!r} was never logged")
                    break
                byk.setdefault(texts[m.text][1], []).append(m.text)
            want = {}
            for op, t, s, sr, ln in logged:
                want.setdefault(t, []).append(hist.text(s, sr, ln).encode())
            if not err and len(set(got)) != len(got):
                err = ("duplicate", "messages printed twice after failed writes")
            for t, seq in byk.items():
                if not err and not subseq(seq, want[t]):
                    err = ("order", f"thread {t}: messages out of order after failed writes")
            have = set(got)
            nlost = 0
            for op, t, s, sr, ln in logged:
                if hist.text(s, sr, ln).encode() not in have:
                    nlost += 1
                    if not any(a <= op <= b for a, b in failed_spans) and not err:
                        err = ("lost", f"op {op} '{ops[op - 1]}' is missing although no write failed between it and the next completed sync (failures between ops {failed_spans})")
            st["lost"] = nlost
        if not err and st["failed"] and not q.err.strip():
            err = ("silent", f"{st['failed']} writes failed and nothing was reported on stderr")
        shutil.rmtree(d, ignore_errors=True)
        return k, err, st, ops
    for k, err, st, ops in pmap(failing, range(c.n(110, 3000))):
        c.ev()
        for a in ("failed", "writes", "lost"):
            c.count("failing_" + a, st.get(a, 0))
        c.nontrivial(("fail", k, st.get("failed"), st.get("lost")))
        if err:
            c.violation(f"{err[0]} failing history {k} seed {c.seed}", err[1], "\n".join(ops))
        c.sample(dict(history=ops[30:46], faults=st), 5)

    # C. real failures: a full device, and a file size limit
    def real(k):
        r = random.Random(c.seed * 41 + k)
        app, dec = HR
        d = f"{c.dir}/real{k}"
        m, ops, serial = hist.Model(), ["V 0 4"], 0
        m.set_level(4)

        def some(n, judged=True):
            nonlocal serial
            for _ in range(n):
                serial += 1
                s, ln = r.randrange(30), r.randrange(60)
                if judged:
                    m.log(0, s, serial, ln)
                ops.append(f"L 0 {s} {serial} {ln}")
        some(r.randrange(10)); ops.append("S 0")
        if k % 2 == 0:
            ops.append("F 0 /dev/full")
            some(r.choice([3, 300, 2000]), False); ops.append("S 0"); some(3, False)
            ops.append("S 0")
        else:
            m.switch("f0"); ops.append("F 0 f0")
            some(5); ops += ["S 0", f"Z {r.choice([700, 1500, 4096, 9000])}"]
            some(r.choice([300, 3000]), False); ops += ["S 0"]; some(10, False); ops += ["S 0", "Z 0"]
        m.switch("f1"); ops.append("F 0 f1")
        some(r.choice([5, 400])); ops.append("S 0")
        q, rep = hist.execute(app, d, ops, timeout=60)
        err = None
        if q.timed_out:
            err = ("hang", f"real failure, last report {max(rep, default=0)} of {len(ops)} ops")
        elif q.rc:
            err = ("crash", f"real failure: rc={q.rc} {q.err[-600:]}")
        elif not q.err.strip():
            err = ("silent", "writes failed and nothing was reported on stderr")
        else:
            for f in ("compressedLog", "f1"):
                e, _ = hist.judge_file(c, dec, f"{d}/{f}", m.files[f])
                if e:
                    err = err or ("delivery", f"file written before or after the failure: {e}")
            if k % 2 and not err:
                z = stress.decode_file(c, dec, d + "/f0", "decompressUnordered")
                ex, bad, cnt = decode.parse(z.out)
                got = [x.text for e in ex for x in e]
                w = [x[2] for e in m.files["f0"] for x in e]
                if got[:len(w)] != w:
                    err = ("delivery", f"messages synced before the limit was reached: {len(w)}, decoded {got[:3]}")
        shutil.rmtree(d, ignore_errors=True)
        return k, err, ops, len(q.err.split("\n"))
    for k, err, ops, n in pmap(real, range(c.n(12, 100))):
        c.ev()
        c.count("real_failures", 1); c.count("stderr_lines", n)
        c.nontrivial(("real", k))
        if err:
            c.violation(f"{err[0]} {'full device' if k % 2 == 0 else 'file size limit'} history {k} seed {c.seed}", err[1], "\n".join(ops))

    # D. failed writes whose loss makes later messages undecodable
    for name, script, first in (("write with dictionary entries lost", ["V 0 4", "L 0 3 1 5", "S 0", "E 1 28 0", "L 0 8 2 5", "S 0", "L 0 8 3 5", "L 0 3 4 5", "S 0"], [1, 3, 4]),
                                ("half-written block", ["V 0 4", "L 0 3 1 5", "L 0 8 2 5", "S 0", "E 1 28 1", "L 0 8 3 5", "S 0", "L 0 8 4 5", "L 0 3 5 5", "S 0"], [1, 2, 4, 5])):
        d = f"{c.dir}/known{first[1]}"
        q, rep = hist.execute(HF[0], d, script, timeout=60)
        z = stress.decode_file(c, HF[1], d + "/compressedLog", "decompressUnordered")
        ex, bad, cnt = decode.parse(z.out)
        c.ev()
        if q.rc or q.timed_out or not q.err.strip():
            c.violation(f"{name}: run", f"rc={q.rc} timeout={q.timed_out} {q.err[-300:]}")
            continue
        got = [int(re.match(rb"[a-m](\d+)", m.text).group(1)) for e in ex for m in e if re.match(rb"[a-m](\d+)", m.text)]
        if not set(first) <= set(got):
            c.violation(f"{name}: later messages undecodable", f"messages {sorted(set(first) - set(got))}, logged and synced after the device recovered, do not decode (decoded: {got})", "\n".join(script))
    if not c.violations and (not c.cov.get("faults_short") or not c.cov.get("failing_failed")):
        raise Inconclusive("no faults took effect")


main("C18", body, "fault_enumeration")
