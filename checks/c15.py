#!/usr/bin/env python3
import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *
import stress, decode, hist, plateau, random


def body(c):
    c.cov["rule"] = ("one evaluation = one observation of the live per-thread buffers compared with the threads alive (histories), one comparison of "
                     "memory and descriptors between equal rounds of activity (plateau runs), or one churn run under AddressSanitizer; distinct = "
                     "observations with a different (live threads, buffers) history")
    rnd = random.Random(c.seed * 61 + 15)
    H = hist.builds(c, ("17", "pre"))
    specs = [dict(name="big", user_srcs=[HARNESS + "/hist.cc"], flags=["-O2"]),
             dict(name="churn", user_srcs=stress.SRCS, flags=ASAN, dec_flags=["-O2"], defs=stress.size_defs(4096, 32768, True)),
             dict(name="tls", user_srcs=[HARNESS + "/tlslog.cc", HARNESS + "/points.cc"], flags=["-O1", "-g"], defs=stress.size_defs(4096, 32768, True))]
    big, churn, tls = c.build_many(specs)

    def history(k):
        r = random.Random(c.seed * 100019 + k)
        m, ops, want = hist.Model(), [], {}
        live, nxt, serial, nfile = {0: False}, 1, 0, 0     # thread -> has a buffer
        dead = 0                                           # exited with a buffer since the last sync
        owner = {}
        for _ in range(r.choice([40, 150, 300])):
            x = r.random()
            if x < 0.16 and len(live) < r.choice([4, 12, 24]):
                ops.append(f"T {nxt}"); live[nxt] = False; nxt += 1
            elif x < 0.29 and len(live) > 1:
                q = r.choice([t for t in live if t]); ops.append(f"X {q}"); dead += live.pop(q)
            elif x < 0.36:
                t = r.choice(list(live)); ops.append(f"P {t}"); live[t] = True
            elif x < 0.42:
                ops.append(f"S {r.choice(list(live))}"); dead = 0
                ops.append("H"); want[len(ops)] = (sum(live.values()), sum(live.values()), tuple(live))
            elif x < 0.50:
                ops.append("H"); want[len(ops)] = (sum(live.values()), sum(live.values()) + dead, tuple(live))
            elif x < 0.52:
                n = r.choice([1, 3, 10])
                site, ln = r.randrange(30), r.randrange(40)
                for i in range(n):
                    if m.log(("J", len(ops), i), site, i, ln):
                        dead += 1
                ops.append(f"J {n} {site} {ln}")
            elif x < 0.54:
                nfile += 1
                f = r.choice([f"f{nfile}", m.file])
                m.switch(f); ops.append(f"F {r.choice(list(live))} {f}"); dead = 0
                ops.append("H"); want[len(ops)] = (sum(live.values()), sum(live.values()), tuple(live))
            elif x < 0.56:
                ops.append(f"Y {r.choice([10, 300])}")
            else:
                t, site, serial, ln = r.choice(list(live)), r.randrange(30), serial + 1, r.randrange(60)
                if m.log(t, site, serial, ln):
                    live[t] = True
                ops.append(f"L {t} {site} {serial} {ln}")
        ops += ["S 0", "H"]
        want[len(ops)] = (sum(live.values()), sum(live.values()), tuple(live))
        for t in [t for t in live if t]:
            ops.append(f"X {t}")
        ops += ["S 0", "H"]
        want[len(ops)] = (int(live[0]), int(live[0]), (0,))
        fl = ["17", "pre"][k % 2]
        d = f"{c.dir}/hist{k}"
        app, dec = H[fl]
        q, rep = hist.execute(app, d, ops)
        err, seen = None, {}
        if q.rc or q.timed_out:
            err = ("run", f"rc={q.rc} timeout={q.timed_out} {q.err[-300:]}")
        obs = []
        alive_before, gone = None, set()
        for n, (lo, hi, ths) in sorted(want.items()):
            v = rep.get(n)
            if err or v is None:
                break
            ids = v[1:]
            obs.append((len(ths), len(ids)))
            if len(set(ids)) != len(ids):
                err = ("duplicate", f"op {n}: thread numbers listed twice: {ids}")
            elif not lo <= len(ids) <= hi:
                err = ("buffers", f"op {n}: {len(ids)} live buffers ({' '.join(ids)}), {lo} live threads have one" + (f" and at most {hi - lo} exited ones may hold messages" if hi > lo else " and everything was synced")
                       + f"; history {ops[max(0, n - 12):n]}")
            back = gone & set(ids)
            if back:
                err = ("reused", f"op {n}: thread number {sorted(back)} in use again after its buffer was freed")
            if alive_before:
                gone |= alive_before - set(ids)
            alive_before = set(ids)
        if not err:
            tids = {}
            for f, ex in m.files.items():
                e, got = hist.judge_file(c, dec, f"{d}/{f}", ex)
                if e:
                    err = ("delivery", e)
                    break
        shutil.rmtree(d, ignore_errors=True)
        return k, fl, err, obs, ops

    for k, fl, err, obs, ops in pmap(history, range(c.n(320, 6000))):
        c.ev(len(obs))
        c.count("buffer_listings", len(obs))
        c.count("threads", sum(1 for o in ops if o[0] == "T") + sum(int(o.split()[1]) for o in ops if o[0] == "J"))
        if err and err[0] == "run":
            raise Inconclusive(f"history {k}: {err[1]}")
        if err:
            c.violation(f"{err[0]} flavour {fl} history {k} seed {c.seed}", err[1], "\n".join(ops))
        c.nontrivial((fl, tuple(obs)))
        c.sample(dict(flavour=fl, history=ops[:12], listings=obs[:8]), 2)

    # equal rounds must not add memory or descriptors
    plateau.plateau(c, [("17", H["17"]), ("pre", H["pre"]), ("default sizes", big)], rounds=c.n(7, 25), per=c.n(150, 1000))

    # churn under AddressSanitizer with delayed births and deaths: a buffer freed before its thread or its messages are done shows as use after free
    def ch(k):
        r = random.Random(c.seed * 991 + k)
        p = dict(SEED=r.randrange(1 << 30), THREADS=r.choice([2, 6]), WAVES=r.choice([10, 30]), MSGS=r.choice([1, 2, 12]), MAXLEN=60, SIZES=r.choice([0, 1]),
                 SYNC=r.choice([0, 300]), OVERLAP=k % 2, MAIN=r.choice([0, 1]), LATE_NS=r.choice([0, 50000]), WAVESYNC=0, FINALSYNC=r.randrange(2))
        env = dict(VP_SEED=p["SEED"], VP_PROFILE=r.choice(["9:500:500,11:500:300,10:300:100", "1:300:40,2:300:40,11:500:100", "0:300:60,3:300:60", "1:100:300,11:300:300"]))
        d = f"{c.dir}/ch{k}"
        q = stress.run_stress(c, churn[0], d, p, env)
        if q.timed_out or q.rc:
            return k, p, env, f"rc={q.rc} timeout={q.timed_out} {q.sanitizer or ''} {q.err[-1500:]}"
        exp = stress.dump(churn[0], d, p)
        z = stress.decode_file(c, churn[1], d + "/log", "decompressUnordered")
        ex, bad, cnt = decode.parse(z.out)
        e = "undecodable" if z.rc or bad or len(ex) != 1 else stress.check_complete(ex[0], exp)
        shutil.rmtree(d, ignore_errors=True)
        return k, p, env, e
    for k, p, env, e in pmap(ch, range(c.n(24, 400)), workers=5):
        c.ev()
        c.count("churn_threads", p["THREADS"] * p["WAVES"])
        c.nontrivial(("churn", k))
        if e:
            c.violation(f"churn {json.dumps(p)} {json.dumps(env)}", e)

    # threads that log while they die
    def dying(kind):
        d = f"{c.dir}/tls{kind}"
        os.makedirs(d)
        n = c.n(30, 200)
        r = run([tls[0], str(n), str(kind)], cwd=d, env={"VP_SEED": c.seed * 64 + kind, "VP_PROFILE": "9:300:300,11:500:300"}, timeout=90)
        st = dict((ln.split()[1], int(ln.split()[2])) for ln in r.out.decode("latin1").split("\n") if ln.startswith("STAT"))
        if r.rc or "buffers_many" not in st:
            return kind, ("run", f"rc={r.rc} timeout={r.timed_out} {r.err[-400:]}"), st
        for when in ("one", "many"):
            x = st[f"buffers_{when}"] - st["buffers_before"]
            if x:
                return kind, ("buffers never freed", f"{x} buffers of exited threads still live after sync"), st
        q = stress.decode_file(c, tls[1], f"{d}/compressedLog", "decompressUnordered")
        ex, bad, cnt = decode.parse(q.out)
        if q.rc or bad or len(ex) != 1:
            return kind, ("undecodable", f"rc={q.rc} {bad[:2]}"), st
        got, tid = {}, {}
        for m in ex[0]:
            a, b = m.text.decode("latin1").split(" ")
            got.setdefault(int(a[1:]), []).append(b)
            tid.setdefault(int(a[1:]), set()).add(m.tid)
        want = ([] if kind & 8 else ["hi"]) + [f"early{i}" for i in range(3)] * (kind & 1) + [f"late{i}" for i in range(3)] * (kind >> 1 & 1)
        keyed = sorted([f"key{k * 2 + a}" for k in range(3) for a in (0, 1)] * (kind >> 2 & 1))
        seen = set()
        for i in range(1, 2 * n + 1):
            g = got.get(i, [])
            # what the program's thread_local and pthread key destructors log, after what the thread did
            if [x for x in g if not x.startswith("key")] != want or sorted(x for x in g if x.startswith("key")) != keyed:
                return kind, ("lost or repeated", f"thread {i} logged {want} and {keyed} while it ended, the log holds {g}"), st
            t = tid.get(i, set())
            if not kind & 4 and len(t) > 1:
                return kind, ("thread number", f"the messages of thread {i} carry the thread numbers {sorted(t)}"), st
            if t & seen:
                return kind, ("thread number", f"thread {i} shares the number {t & seen} with another one"), st
            seen |= t
        return kind, None, st
    for kind, e, st in pmap(dying, [k for k in range(32) if k != 8]):
        c.ev(2)
        c.count("dying_thread_runs")
        c.nontrivial(("tls", kind, tuple(st.items())))
        if e:
            c.violation(f"{e[0]}: dying threads kind={kind}", e[1])
    if not c.violations and not c.cov.get("buffer_listings"):
        raise Inconclusive("nothing observed")


main("C15", body)
