#!/usr/bin/env python3
import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *
import stress, decode, random, subprocess


def judge(msgs, exp, events):
    """Real-time order of the printed sequence. Returns (error, ordered pairs of neighbours, overlapping neighbours)."""
    g = stress.group(msgs)
    assign, err = stress.match_groups(g, exp)
    if err:
        return err, 0, 0
    nxt = {}
    seq = []
    for m in msgs:
        w = assign[m.tid]
        i = nxt.get(w, 0)
        nxt[w] = i + 1
        seq.append((w, i) + events[w][i])
    # for each printed message, everything printed before it must not have begun after it ended
    maxb = (-1, None)
    ordered = overlap = 0
    suspects = []
    prev = None
    for s in seq:
        if prev:
            if prev[3] < s[2]:
                ordered += prev[0] != s[0]
            elif s[0] != prev[0]:
                overlap += 1
        prev = s
        if s[3] < maxb[0]:
            suspects.append((maxb[1], s))
        if s[2] > maxb[0]:
            maxb = (s[2], s)
    for a, b in suspects:
        # b returned before a began; only believe it if the time stamp counters of the two cores agree
        if b[5] < a[4]:
            return (f"worker {b[0]} message {b[1]} (call ended at event {b[3]}, tsc {b[5]}) is printed after worker {a[0]} message {a[1]} "
                    f"(call began at event {a[2]}, tsc {a[4]})"), ordered, overlap
    return None, ordered, overlap


def body(c):
    c.cov["rule"] = ("one evaluation = one multi-threaded run whose ordered decoding is compared with the begin/end events of every log call, "
                     "or one simulated schedule of background passes written by the real encoder; distinct = runs with a different number of "
                     "real-time ordered cross-thread neighbours")
    rnd = random.Random(c.seed * 23 + 5)
    B = stress.builds(c, "abcd")
    ed, _ = c.build("ed", [HARNESS + "/encdec.cc"], flags=["-O2"], lib_srcs=["Cycles", "Util", "Log"], dec=False,
                    defs=stress.size_defs(4096, 32768, False))
    jobs = []
    for k in range(c.n(8, 64)):
        jobs.append(("sim", rnd.randrange(1 << 40), c.n(250, 3000)))
    for i in range(c.n(90, 1200)):
        nm = rnd.choice("aaabbcd")
        threads = rnd.choice([2, 3, 4, 6, 8, 12, 24])
        waves = rnd.choice([1, 1, 2, 5])
        total = rnd.choice([1500, 6000])
        # rates: bursts and long pauses, so that buffers are visited with very different fill levels
        p = dict(SEED=rnd.randrange(1 << 30), THREADS=threads, WAVES=waves, MSGS=max(2, total // (threads * waves)),
                 MAXLEN=rnd.choice([10, 60, 300]), SIZES=rnd.choice([0, 1, 3]), SYNC=rnd.choice([0, 0, 5]),
                 PAUSE_PM=rnd.choice([0, 5, 100, 500]), PAUSE_NS=rnd.choice([100, 3000, 50000, 400000]), OVERLAP=rnd.randrange(2),
                 MAIN=rnd.choice([0, 30]), LATE_NS=rnd.choice([0, 100000, 1000000]), WAVESYNC=rnd.choice([0, 0, 1, 2]), MAINEARLY=1, FINALSYNC=1, ORDER=1)
        env = dict(VP_SEED=p["SEED"], VP_PROFILE=rnd.choice(stress.PROFILES + ["1:500:300", "2:500:200,6:300:200", "0:300:2000,6:300:100", "1:900:50,6:500:50"]),
                   AIO_SEED=p["SEED"], AIO_DELAY_US=rnd.choice([0, 0, 500, 3000]), AIO_DELAY_PCT=rnd.choice([10, 100]))
        jobs.append(("run", i, nm, p, env))

    for i in range(c.n(90, 900)):
        # tiny output buffers that fill up anywhere within a pass over many full staging buffers
        th = rnd.choice([8, 12, 24])
        p = dict(SEED=rnd.randrange(1 << 30), THREADS=th, WAVES=1, MSGS=6000 // th, MAXLEN=300, SIZES=rnd.choice([0, 0, 1]), SYNC=0, PAUSE_PM=rnd.choice([0, 100]),
                 PAUSE_NS=3000, OVERLAP=0, MAIN=30, LATE_NS=0, WAVESYNC=0, MAINEARLY=1, FINALSYNC=1, ORDER=1)
        env = dict(VP_SEED=p["SEED"], VP_PROFILE=rnd.choice(["", "6:200:20,8:100:20"]), AIO_SEED=p["SEED"], AIO_DELAY_US=3000, AIO_DELAY_PCT=rnd.choice([0, 50, 100]))
        jobs.append(("run", 100000 + i, "b", p, env))

    def one(j):
        if c.stop:
            return None
        if j[0] == "sim":
            return j, run([ed, "order", str(j[1]), str(j[2])], env={"ED_TMP": c.dir}, timeout=600)
        _, i, nm, p, env = j
        (app, dec), st, out = B[nm]
        d = f"{c.dir}/r{i}"
        r = stress.run_stress(c, app, d, p, env, timeout=120)
        res = dict(r=r, err=None, ordered=0, overlap=0, n=0)
        if r.rc == 0 and not r.timed_out:
            exp = stress.dump(app, d, p)
            events = {}
            for ln in open(d + "/events"):
                v = list(map(int, ln.split()))
                events.setdefault(v[0], {})[v[1]] = tuple(v[2:])
            qo = stress.decode_file(c, dec, d + "/log", "decompress")
            qu = stress.decode_file(c, dec, d + "/log", "decompressUnordered")
            eo, bo, co = decode.parse(qo.out)
            eu, bu, cu = decode.parse(qu.out)
            if qo.rc or qu.rc or bo or bu or len(eo) != 1 or len(eu) != 1:
                res["err"] = f"decoding failed: {qo.rc} {qu.rc} {bo[:2]} {bu[:2]}"
            elif sorted(map(key, eo[0])) != sorted(map(key, eu[0])):
                res["err"] = f"ordered decoding prints {len(eo[0])} messages, not a permutation of the {len(eu[0])} unordered ones"
            else:
                res["err"], res["ordered"], res["overlap"] = judge(eo[0], exp, events)
                res["n"] = len(eo[0])
                res["moved"] = sum(1 for a, b in zip(eo[0], eu[0]) if key(a) != key(b))
        shutil.rmtree(d, ignore_errors=True)
        return j, res

    def key(m):
        return (m.date, m.nanos, m.tid, m.line, m.text)

    for x in pmap(one, jobs, workers=5):
        if x is None:
            continue
        j, res = x
        if j[0] == "sim":
            out = res.out.decode("latin1")
            b = [ln for ln in out.split("\n") if ln.startswith("BAD ")]
            if b:
                c.violation(f"simulated passes seed {j[1]}: {b[0][4:].split(':')[0]}", b[0], out)
            elif res.timed_out or res.crashed:
                c.violation(f"simulated passes seed {j[1]}", f"rc={res.rc} timeout={res.timed_out} {res.err[-1500:]}")
            elif res.rc:
                raise Inconclusive(f"encdec rc={res.rc} {res.err[-300:]}")
            for ln in out.split("\n"):
                if ln.startswith("STAT "):
                    _, a, v = ln.split()
                    if a == "evaluations":
                        c.ev(int(v))
                        for q in range(int(v)):
                            c.nontrivial(("sim", j[1], q))
                    else:
                        c.count(a, int(v))
            continue
        c.ev()
        _, i, nm, p, env = j
        k = f"build={nm} params={json.dumps(p)} env={json.dumps(env)}"
        r = res["r"]
        if r.timed_out:
            raise Inconclusive("workload hangs: " + k)
        if r.rc:
            raise Inconclusive(f"workload rc={r.rc}: {k} {r.err[-300:]}")
        if res["err"]:
            c.violation("order " + k, res["err"])
        else:
            c.count("messages_judged", res["n"])
            c.count("cross_thread_neighbours_ordered_in_real_time", res["ordered"])
            c.count("cross_thread_neighbours_overlapping", res["overlap"])
            c.count("positions_changed_by_ordering", res["moved"])
            c.nontrivial((nm, res["n"], res["ordered"]))
            c.sample(dict(build=nm, params=p, messages=res["n"], ordered_neighbours=res["ordered"]), 3)
    # many threads in the shipped configuration: bounded memory
    (app, dec), _, _ = B["d"]
    d = f"{c.dir}/many"
    p = dict(SEED=rnd.randrange(1 << 30), THREADS=40, WAVES=1, MSGS=60, MAXLEN=20, SIZES=1, PAUSE_PM=300, PAUSE_NS=300000)
    r = stress.run_stress(c, app, d, p)
    if r.rc:
        raise Inconclusive(f"many threads: {r.rc}")
    pr = subprocess.Popen([dec, "decompress", d + "/log"], stdout=open(d + "/out", "wb"), stderr=subprocess.DEVNULL)
    _, status, ru = os.wait4(pr.pid, 0)
    pr.returncode = status
    rss = ru.ru_maxrss // 1024
    c.cov["decoder_rss_mb_40_threads"] = rss
    ex, bad, cnt = decode.parse(open(d + "/out", "rb").read())
    if status or bad or cnt != 40 * 60:
        c.violation("many-threads decode", f"status {status}, {cnt} of {40 * 60} messages, {bad[:2]}")
    elif rss > 1500:
        c.violation("many-threads memory", f"ordered decoding of a {os.path.getsize(d + '/log')}-byte log with 40 threads used {rss} MB")
    c.assumptions += ["pairs are only judged when the cores' time stamp counters agree with the event order"]
    if not c.violations and not c.cov.get("cross_thread_neighbours_ordered_in_real_time"):
        raise Inconclusive("no ordered pairs observed")


main("C06", body)
