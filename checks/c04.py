#!/usr/bin/env python3
import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *
import stress, decode, random, steady


def counts(ex, assign):
    n = {}
    for m in ex:
        w = assign.get(m.tid)
        n[w] = n.get(w, 0) + 1
    return n


def body(c):
    c.cov["rule"] = ("one evaluation = one sync() call whose return was judged: the log file as long as it was at the return (or as the "
                     "killed process left it) is decoded and must hold every message completed before the call; distinct = snapshots "
                     "with different (run, file length). The runs with threads that never stop logging also judge that every request completes "
                     "within 25 s and before the log has grown far beyond what the buffers hold")
    rnd = random.Random(c.seed * 13 + 5)
    builds = stress.builds(c, ("a", "b", "c", "d", "p"))
    runs = []
    N = c.n(64, 900)
    for i in range(N):
        nm = rnd.choice("aaabbbcp") if i % 10 else "d"
        (app, dec), st, out = builds[nm]
        threads = rnd.choice([1, 2, 3, 4, 8])
        waves = rnd.choice([1, 2, 5])
        total = rnd.choice([200, 1500, 5000])
        p = dict(SEED=rnd.randrange(1 << 30), THREADS=threads, WAVES=waves, MSGS=max(1, total // (threads * waves)),
                 MAXLEN=rnd.choice([10, 60, min(st // 8, 3000)]), SIZES=rnd.choice([0, 1, 3]),
                 SYNC=rnd.choice([0, 20, 100, 1000]), PAUSE_PM=rnd.choice([0, 10, 200]), PAUSE_NS=rnd.choice([100, 3000, 300000]),
                 OVERLAP=rnd.randrange(2), MAIN=rnd.choice([0, 1, 5]), LATE_NS=rnd.choice([0, 100000]), WAVESYNC=rnd.choice([0, 1, 2]),
                 MAINEARLY=rnd.randrange(2), FINALSYNC=1, SYNCERS=rnd.choice([0, 0, 1, 2, 4]), SNAPEVERY=1)
        if i % 4 == 3:
            p["KILLAFTER"] = 1 + rnd.randrange(12)
            p["WAVESYNC"] = 2
        env = dict(VP_SEED=p["SEED"], VP_PROFILE=rnd.choice(stress.PROFILES), AIO_SEED=p["SEED"],
                   AIO_DELAY_US=rnd.choice([0, 0, 100, 2000]), AIO_DELAY_PCT=rnd.choice([10, 50, 100]))
        if env["AIO_DELAY_US"] == 2000:
            p["SYNC"] = min(p["SYNC"], 20)
        if p["SYNC"] == 1000:
            p["MSGS"] = min(p["MSGS"], 300)
        if i % 4 == 1:
            # log one message, sync, repeat: while the background thread lingers between its scan and its sync check
            p.update(SYNC=10000, THREADS=rnd.choice([1, 1, 2, 3]), MSGS=rnd.choice([20, 60]), WAVES=rnd.choice([1, 2]), SYNCERS=rnd.choice([0, 0, 1]),
                     PAUSE_PM=rnd.choice([0, 500]), PAUSE_NS=rnd.choice([3000, 90000]))
            env.update(VP_PROFILE=rnd.choice(["3:1000:300", "3:700:60,0:300:30", "1:1000:80,3:500:80", "3:1000:20", "4:1000:200,3:200:100"]),
                       AIO_DELAY_US=rnd.choice([0, 0, 300]))
            if nm in "bdp":
                nm = "a"
                (app, dec), st, out = builds[nm]
            p["MAXLEN"] = 60
        runs.append((i, nm, app, dec, p, env))

    def one(t):
        i, nm, app, dec, p, env = t
        if c.stop:
            return None
        d = f"{c.dir}/r{i}"
        r = stress.run_stress(c, app, d, p, env, timeout=100)
        killed = bool(p.get("KILLAFTER")) and r.rc == -9 and not r.timed_out
        res = dict(t=t, r=r, killed=killed, judged=[], err=None)
        if (r.rc == 0 or killed) and not r.timed_out:
            exp = stress.dump(app, d, p)
            sh = stress.load_shared(d)
            res["syncs"] = sh["syncs"]
            if sh["durableBad"]:
                res["err"] = "the log file is neither open in synchronous mode nor flushed when sync() returns"
            q = stress.decode_file(c, dec, d + "/log", "decompressUnordered")
            ex, bad, cnt = decode.parse(q.out)
            if q.rc or q.timed_out or bad or len(ex) > 1:
                res["err"] = f"decoding failed: rc={q.rc} stray={bad[:2]} {q.err[:300]}"
            else:
                full = ex[0]
                assign, e = stress.match_groups(stress.group(full), exp)
                if e:
                    res["err"] = e
                else:
                    data = open(d + "/log", "rb").read()
                    snaps = sh["snaps"]
                    lim = c.n(30, 120)
                    if len(snaps) > lim:
                        step = len(snaps) / lim
                        snaps = [snaps[int(k * step)] for k in range(lim - 1)] + [snaps[-1]]
                    for s in snaps:
                        if s["fsize"] >= len(data):
                            msgs = full
                        else:
                            open(d + "/cut", "wb").write(data[:s["fsize"]])
                            q = stress.decode_file(c, dec, d + "/cut", "decompressUnordered")
                            ex, bad, cnt = decode.parse(q.out)
                            if q.rc or bad or len(ex) != 1:
                                res["err"] = f"decoding the first {s['fsize']} bytes failed: rc={q.rc} {bad[:2]} {q.err[:300]}"
                                break
                            msgs = ex[0]
                        n = counts(msgs, assign)
                        miss = [(w, s["count"][w], n.get(w, 0)) for w in exp if n.get(w, 0) < s["count"][w]]
                        res["judged"].append((s["fsize"], sum(s["count"])))
                        if miss:
                            w, want, got = miss[0]
                            res["err"] = (f"sync #{s['ordinal']} (caller {s['caller']}) returned with {s['fsize']} bytes in the file: worker {w} had "
                                          f"completed {want} messages, {got} decode{' after SIGKILL' if killed else ''}; {len(miss)} workers affected")
                            break
        shutil.rmtree(d, ignore_errors=True)
        return res

    for res in pmap(one, runs, workers=5):
        if not res:
            continue
        i, nm, app, dec, p, env = res["t"]
        r = res["r"]
        key = f"build={nm} params={json.dumps(p)} env={json.dumps(env)}"
        c.ev(len(res["judged"]))
        if r.timed_out:
            c.violation("hang " + key, "sync()/logging hung twice (no progress within 300 s)")
        elif r.rc != 0 and not res["killed"]:
            c.violation("crash " + key, f"workload exited with {r.rc}: {r.err[-1500:]}")
        elif res["err"]:
            c.violation("sync " + key, res["err"])
        else:
            c.count("syncs_executed", res["syncs"])
            c.count("killed_runs", 1 if res["killed"] else 0)
            for f, n in res["judged"]:
                c.nontrivial((i, f))
            if res["judged"]:
                f, n = res["judged"][len(res["judged"]) // 2]
                c.sample(dict(build=nm, params=p, file_bytes_at_return=f, messages_completed_before_call=n), 4)
    # threads that never stop logging must not keep a request from completing
    steady.scenario(c, rnd, c.n(20, 300), False)
    c.assumptions += ["'durable' = written through a descriptor in synchronous mode or flushed; the device itself is trusted",
                      "the log file is on a file system whose completed writes are visible to later opens"]
    if not c.cov["evaluations"] and not c.violations:
        raise Inconclusive("no sync observed")


main("C04", body)
