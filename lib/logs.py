"""A pool of varied log files for the decoder checks."""
import os, random, shutil
from vlib import *
import stress, hist


def pool(c, rnd, H, S, ed, nhist, nstress, nmk):
    """Returns [(description, path, model executions or None)]."""
    jobs = [("hist", k, rnd.randrange(1 << 40)) for k in range(nhist)] + [("stress", k, rnd.randrange(1 << 40)) for k in range(nstress)] + \
           [("mk", k, rnd.randrange(1 << 40)) for k in range(nmk)]

    def one(j):
        what, k, s = j
        r = random.Random(s)
        if what == "mk":
            f = f"{c.dir}/mk{k}.log"
            q = run([ed, "mk", f, str(s)], timeout=60)
            if q.rc:
                raise Inconclusive("mk: " + q.err[-300:])
            return (f"encoder log {s}", f, None)
        d = f"{c.dir}/pool_{what}{k}"
        os.makedirs(d)
        if what == "stress":
            (app, dec), st, out = S[r.choice(list(S))]
            p = dict(SEED=r.randrange(1 << 30), THREADS=r.choice([1, 3, 6]), WAVES=r.choice([1, 3]), MSGS=r.choice([3, 40, 150]), MAXLEN=r.choice([10, 200]),
                     SIZES=0, SYNC=r.choice([0, 500]), OVERLAP=1, MAIN=r.choice([0, 5]))
            q = stress.run_stress(c, app, d, p, dict(VP_SEED=p["SEED"], VP_PROFILE=r.choice(stress.PROFILES)))
            if q.rc:
                raise Inconclusive(f"workload: {q.rc} {q.err[-300:]}")
            return (f"workload log {json.dumps(p)}", d + "/log", None)
        execs = []
        for e in range(r.choice([1, 1, 2, 3])):
            app, dec = H[r.choice(list(H))]
            m = hist.Model()
            ops, live, nxt, serial = ["V 0 4"], [0], 1, 0
            m.set_level(4)
            for _ in range(r.choice([0, 5, 40, 150])):
                x = r.random()
                if x < 0.1 and len(live) < 6:
                    ops.append(f"T {nxt}"); live.append(nxt); nxt += 1
                elif x < 0.15 and len(live) > 1:
                    t = r.choice(live[1:]); live.remove(t); ops.append(f"X {t}")
                elif x < 0.2:
                    ops.append(f"S {r.choice(live)}")
                else:
                    t, site, serial, ln = r.choice(live), r.randrange(30), serial + 1, r.randrange(60)
                    m.log(t, site, serial, ln)
                    ops.append(f"L {t} {site} {serial} {ln}")
            ops.append("S 0")
            q, rep = hist.execute(app, d, ops)
            if q.rc or q.timed_out:
                raise Inconclusive(f"history: {q.rc} {q.err[-300:]}")
            execs += m.files["compressedLog"]
        return (f"history log {s}", d + "/compressedLog", execs)
    return list(pmap(one, jobs))
