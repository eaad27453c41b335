#!/usr/bin/env python3
import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *
import stress, decode, random, statics


def body(c):
    c.cov["rule"] = ("one evaluation = one process run of the multi-threaded workload with random thread/size/pause/sync/"
                     "delay/IO parameters, judged against the exact per-thread message sequences; distinct = parameter vectors "
                     "with different decoded block interleavings")
    rnd = random.Random(c.seed * 7 + 3)
    # (staging, output, hook points, flavour)
    builds = stress.builds(c, ("a", "b", "c", "d", "p"))
    runs = []
    N = c.n(120, 1500)
    for i in range(N):
        nm = rnd.choice("aaabbcp") if i % 12 else "d"
        (app, dec), st, out = builds[nm]
        waves = rnd.choice([1, 1, 2, 4, 8])
        threads = rnd.choice([1, 2, 3, 4, 6, 8, 12, 16])
        total = rnd.choice([2000, 8000, 20000])
        maxlen = rnd.choice([10, 60, st // 8, st // 4, st // 2 - 120, st // 2 - 64, st * 3 // 4])
        maxlen = min(maxlen, 60000)
        if maxlen > 5000:
            total = 1500
        p = dict(SEED=rnd.randrange(1 << 30), THREADS=threads, WAVES=waves, MSGS=max(1, total // (threads * waves)),
                 MAXLEN=max(8, maxlen), SIZES=rnd.choice([0, 0, 0, 1, 2, 3]), SYNC=rnd.choice([0, 0, 5, 50]),
                 PAUSE_PM=rnd.choice([0, 0, 10, 200]), PAUSE_NS=rnd.choice([100, 2000, 200000]), OVERLAP=rnd.randrange(2),
                 MAIN=rnd.choice([0, 1, 50]), LATE_NS=rnd.choice([0, 100000]), WAVESYNC=rnd.choice([0, 0, 1, 2]),
                 MAINEARLY=rnd.randrange(2), FINALSYNC=rnd.randrange(2), SYNCERS=rnd.choice([0, 0, 0, 1, 3]))
        env = dict(VP_SEED=p["SEED"], VP_PROFILE=rnd.choice(stress.PROFILES), AIO_SEED=p["SEED"],
                   AIO_DELAY_US=rnd.choice([0, 0, 200, 3000]), AIO_DELAY_PCT=rnd.choice([10, 50, 100]))
        if env["AIO_DELAY_US"] == 3000 and (p["SYNC"] or p["SYNCERS"]):
            p["SYNC"] = min(p["SYNC"], 5)
        runs.append((i, nm, app, dec, p, env))

    def one(t):
        i, nm, app, dec, p, env = t
        if c.stop:
            return None
        d = f"{c.dir}/r{i}"
        r = stress.run_stress(c, app, d, p, env, timeout=120)
        res = dict(t=t, r=r)
        if r.rc == 0 and not r.timed_out:
            exp = stress.dump(app, d, p)
            mode = "decompressUnordered" if i % 3 else "decompress"
            q = stress.decode_file(c, dec, d + "/log", mode)
            res.update(q=q, mode=mode, n=sum(map(len, exp.values())))
            ex, bad, cnt = decode.parse(q.out)
            res["switches"] = sum(1 for e in ex for a, b in zip(e, e[1:]) if a.tid != b.tid)
            if q.timed_out or q.rc != 0 or bad or len(ex) != 1:
                res["err"] = f"{mode}: rc={q.rc} timeout={q.timed_out} stray={bad[:2]} executions={len(ex)} {q.err[:300]}"
            else:
                res["err"] = stress.check_complete(ex[0], exp)
                if not res["err"] and cnt != res["n"]:
                    res["err"] = f"announced {cnt} messages, logged {res['n']}"
        shutil.rmtree(d, ignore_errors=True)
        return res

    msgs = sw = 0
    for res in pmap(one, runs, workers=5):
        if not res:
            continue
        i, nm, app, dec, p, env = res["t"]
        r = res["r"]
        c.ev()
        key = f"build={nm} params={json.dumps(p)} env={json.dumps(env)}"
        if r.timed_out:
            c.violation("hang " + key, "workload hung twice (no progress within 360 s)")
        elif r.rc != 0:
            c.violation("crash " + key, f"workload exited with {r.rc}: {r.err[-1500:]}")
        elif res["err"]:
            c.violation("delivery " + key, res["err"])
        else:
            msgs += res["n"]
            sw += res["switches"]
            c.nontrivial((nm, p["THREADS"], p["WAVES"], res["switches"]))
            c.sample(dict(build=nm, params=p, messages=res["n"], thread_switches_in_log=res["switches"]), 4)
    c.cov["messages_judged"] = msgs
    c.cov["thread_switches_observed"] = sw
    statics.check(c, {"shipped": (statics.build(c, "st"), False),
                      "small": (statics.build(c, "sts", defs=stress.size_defs(4096, 32768, False)), True)}, c.n(48, 600))
    c.assumptions += ["x86-64 (TSO) as the code requires", "message sizes up to 3/4 of a staging buffer"]
    if msgs == 0 and not c.violations:
        raise Inconclusive("nothing observed")


main("C03", body)
