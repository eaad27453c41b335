#!/usr/bin/env python3
import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *
import stress, decode, random, subprocess


def body(c):
    c.cov["rule"] = ("one evaluation = one log file cut at one byte position (or left by a killed process) decoded with all three decoder "
                     "interfaces (a tenth also under ASan/UBSan) and judged against the decoding of the complete file; distinct = cuts of one file that "
                     "leave a different number of messages")
    rnd = random.Random(c.seed * 17 + 3)
    defs = stress.size_defs(4096, 32768, False)
    apps = c.build_many([
        dict(name="ed", user_srcs=[HARNESS + "/encdec.cc"], flags=ASAN, defs=defs, lib_srcs=["Cycles", "Util", "Log"]),
        dict(name="ef", user_srcs=[HARNESS + "/encdec.cc"], flags=["-O2"], defs=defs, lib_srcs=["Cycles", "Util", "Log"], dec=False),
        dict(name="sa", user_srcs=stress.SRCS, flags=["-O1"], defs=stress.size_defs(4096, 32768, True))])
    (ed, edec), (ef, _), (app, dec) = apps
    logs = []      # (name, path, ends)
    # 1. logs with known block ends
    for k in range(c.n(10, 120)):
        f = f"{c.dir}/m{k}.log"
        s = rnd.randrange(1 << 40)
        r = run([ed, "mk", f, str(s)], env=SAN_ENV, timeout=60)
        if r.rc:
            raise Inconclusive("mk failed " + r.err[-300:])
        logs.append((f"encoder-log seed {s}", f, f + ".ends"))
    # 2. logs of real runs, several executions appended; snapshots at sync give lower bounds
    for k in range(c.n(5, 60)):
        d = f"{c.dir}/w{k}"
        os.makedirs(d)
        ends = []
        base = 0
        n = rnd.choice([1, 1, 2, 3])
        for e in range(n):
            p = dict(SEED=rnd.randrange(1 << 30), THREADS=rnd.choice([1, 2, 4]), WAVES=rnd.choice([1, 2]), MSGS=rnd.choice([3, 10, 25]), MAXLEN=rnd.choice([10, 80, 900]),
                     SIZES=rnd.choice([0, 3]), SYNC=rnd.choice([0, 2000]), MAIN=rnd.choice([0, 2]), WAVESYNC=1, SNAPEVERY=1)
            r = stress.run_stress(c, app, d, p, dict(VP_SEED=p["SEED"], VP_PROFILE=rnd.choice(stress.PROFILES)), timeout=60)
            if r.rc:
                raise Inconclusive(f"workload failed: {r.rc} {r.err[-300:]}")
            if n == 1:
                for s in stress.load_shared(d)["snaps"]:
                    ends.append((s["fsize"], sum(s["count"][:p["THREADS"] * p["WAVES"] + 1])))
            os.unlink(d + "/shared")
        open(d + "/ends", "w").write("".join(f"{a} {b}\n" for a, b in ends))
        logs.append((f"workload-log {json.dumps(p)} executions {n}", d + "/log", d + "/ends"))
    # all cuts (strided for the large ones), in parallel chunks
    jobs = []
    for name, f, e in logs:
        sz = os.path.getsize(f)
        for exe, full, per in ((ef, c.n(1100, 60000), 550), (ed, c.n(90, 6000), 90)):
            step = 1 if sz <= full else sz // full + 1
            parts = max(1, sz // step // per)
            for q in range(parts):
                lo, hi = sz * q // parts, sz * (q + 1) // parts + (1 if q == parts - 1 else 0)
                jobs.append((exe, name, f, e, lo + (rnd.randrange(step) if exe == ed else 0), hi, step))

    def one(j):
        if c.stop:
            return j, None
        exe, name, f, e, lo, hi, step = j
        r = run([exe, "cut", f, e, str(lo), str(hi), str(step)], env={**SAN_ENV, "ED_TMP": c.dir}, timeout=400)
        return j, r

    for j, r in pmap(one, jobs):
        if r is None:
            continue
        exe, name, f, e, lo, hi, step = j
        c.count("cuts_under_asan" if exe == ed else "cuts_plain", (hi - lo + step - 1) // step)
        out = r.out.decode("latin1")
        cuts = [ln for ln in r.err.split("\n") if ln.startswith("CUT ")]
        st = dict((ln.split()[1], int(ln.split()[2])) for ln in out.split("\n") if ln.startswith("STAT "))
        c.ev(st.get("evaluations", len(cuts)))
        b = [ln for ln in out.split("\n") if ln.startswith("BAD ")]
        where = f"{name} cut {cuts[-1][4:] if cuts else '?'}"
        if b:
            c.violation(f"{b[0][4:].split(':')[0]} {name}", b[0], out)
        elif r.timed_out:
            c.violation("hang " + where, "decoding a truncated log does not terminate")
        elif r.crashed:
            c.violation("crash " + where, f"rc={r.rc} {r.sanitizer} {r.err[-2500:]}")
        elif r.rc:
            raise Inconclusive(f"cut: rc={r.rc} {r.err[-300:]}")
        else:
            for q in range(st["distinct_prefixes"]):
                c.nontrivial((f, lo, q))
            c.sample(dict(log=name, bytes=st["file_bytes"], cuts=f"{lo}..{hi} step {step}", different_prefixes=st["distinct_prefixes"]), 4)

    # 3. the command line tool on random cuts
    def cli(k):
        name, f, e = logs[k % len(logs)]
        data = open(f, "rb").read()
        cut = random.Random(c.seed * 1000 + k).randrange(len(data) + 1)
        t = f"{c.dir}/cli{k}"
        open(t, "wb").write(data[:cut])
        res = []
        for cmd in ("decompress", "decompressUnordered", "rcdfTime"):
            res.append((name, cut, cmd, run([edec, cmd, t], env=SAN_ENV, timeout=60)))
        os.unlink(t)
        return res
    for res in pmap(cli, range(c.n(48, 1500))):
        for name, cut, cmd, r in res:
            c.ev()
            c.count("cli_runs")
            if r.timed_out or r.crashed:
                c.violation(f"cli {cmd} {name} cut {cut}", f"rc={r.rc} timeout={r.timed_out} {r.sanitizer} {r.err[-1500:]}")
            elif cmd != "rcdfTime":
                ex, bad, cnt = decode.parse(r.out)
                n = sum(map(len, ex))
                stray = [b for b in bad if not (n == 0 and b.startswith(b"Unable to open"))]
                if stray or (cnt is not None and cnt not in (n, -1)):
                    c.violation(f"cli-output {cmd} {name} cut {cut}", f"stray output {stray[:2]}, announced {cnt}, printed {n}")

    # 4. processes killed at arbitrary moments
    def kill(k):
        rr = random.Random(c.seed * 7919 + k)
        d = f"{c.dir}/k{k}"
        os.makedirs(d)
        p = dict(SEED=rr.randrange(1 << 30), THREADS=rr.choice([1, 3, 6]), WAVES=1, MSGS=8000, MAXLEN=rr.choice([20, 200]), SIZES=0,
                 SYNC=rr.choice([0, 5]), PAUSE_PM=rr.choice([0, 20]), PAUSE_NS=20000)
        env = dict(os.environ, LC_ALL="C", AIO_SEED="1", AIO_DELAY_US=str(rr.choice([0, 500])), AIO_DELAY_PCT="50", VP_PROFILE=rr.choice(stress.PROFILES),
                   **{"S_" + a: str(b) for a, b in p.items()})
        pr = subprocess.Popen([app, d], cwd=d, env=env, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        try:
            pr.wait(timeout=rr.uniform(0.02, 0.3))
        except subprocess.TimeoutExpired:
            pr.kill()
            pr.wait()
        res = dict(k=k, p=p, err=None, n=0, killed=pr.returncode == -9)
        if os.path.exists(d + "/log"):
            exp = stress.dump(app, d, p)
            for cmd in ("decompressUnordered", "decompress"):
                q = stress.decode_file(c, dec, d + "/log", cmd)
                if os.path.getsize(d + "/log") == 0:
                    continue
                ex, bad, cnt = decode.parse(q.out)
                if q.timed_out or q.crashed or bad or len(ex) > 1:
                    res["err"] = f"{cmd}: rc={q.rc} stray={bad[:2]} {q.err[-500:]}"
                    break
                res["n"] = len(ex[0])
                if cmd == "decompressUnordered":
                    a, e = stress.match_groups(stress.group(ex[0]), exp)
                    if e:
                        res["err"] = e
                        break
                    um = sorted((m.tid, m.text) for m in ex[0])
                elif sorted((m.tid, m.text) for m in ex[0]) != um:
                    res["err"] = "ordered and unordered decoding disagree on the messages"
        shutil.rmtree(d, ignore_errors=True)
        return res
    for res in pmap(kill, range(c.n(18, 400)), workers=5):
        c.ev()
        if res["err"]:
            c.violation(f"killed {json.dumps(res['p'])}", res["err"])
        elif res["killed"]:
            c.count("killed_processes")
            c.count("messages_decoded_from_killed", res["n"])
            c.nontrivial(("kill", res["k"], res["n"]))
    c.assumptions += ["truncation, not arbitrary corruption", "what a killed process had written is a prefix of complete write() calls"]


main("C05", body, "fault_enumeration")
