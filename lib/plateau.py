"""Equal rounds of activity must not add memory or descriptors."""
import random
from vlib import *
import hist

KINDS = ["threads", "prealloc", "pingpong", "switch", "badswitch", "messages", "syncs"]


def plateau(c, progs, kinds=KINDS, rounds=7, per=150, names=None):
    """progs: [(name, (app, dec))]; reports violations, returns nothing."""
    def one(t):
        k, which = t
        r = random.Random(c.seed * 77 + k)
        ops, marks = ["V 0 4"], []
        f = 0
        for i in range(rounds):
            if which == "threads":
                ops += [f"J {per} {r.choice([1, 2, 8, 22])} {r.randrange(40)}", "S 0"]
            elif which == "prealloc":
                for j in range(per // 10):
                    ops += [f"T {j + 1}", f"P {j + 1}"]
                for j in range(per // 10):
                    ops += [f"X {j + 1}"]
                ops += ["S 0"]
            elif which == "pingpong":
                for j in range(per // 3):
                    ops += [f"T {j % 5 + 1}", f"L {j % 5 + 1} 3 {j} 10", f"L 0 2 {j} 5", f"X {j % 5 + 1}"] + (["S 0"] if j % 7 == 0 else [])
                ops += ["S 0"]
            elif which == "switch":
                for j in range(per // 6):
                    ops += [f"F 0 g{j % 3}", f"L 0 3 {j} 20"]
                ops += ["S 0"]
            elif which == "badswitch":
                for j in range(per // 3):
                    ops += [f"F 0 /nonexistent{'x' * (j % 50)}/f", "F 0 .", f"L 0 3 {j} 20"]
                ops += ["S 0"]
            elif which == "messages":
                ops += [f"B 0 {s} {j} 30 {per}" for j, s in enumerate((1, 7, 13, 22, 28))] + ["S 0"]
            else:
                for j in range(per):
                    ops += [f"L 0 3 {j} 9", "S 0"] + (["G 0"] if j % 5 == 0 else [])
            ops.append("M")
            marks.append(len(ops))
        d = f"{c.dir}/pl{k}"
        app, dec = progs[k % len(progs)][1]
        q, rep = hist.execute(app, d, ops, timeout=200)
        shutil.rmtree(d, ignore_errors=True)
        if q.rc or q.timed_out:
            return t, None, f"rc={q.rc} timeout={q.timed_out} {q.err[-300:]}", None
        M = [tuple(int(x) for x in rep[n][1:4]) for n in marks]
        return t, M, None, ops[:30]
    for (k, which), M, inc, ops in pmap(one, [(len(progs) * j + v, w) for j, w in enumerate(kinds) for v in range(len(progs))], workers=6):
        if inc:
            raise Inconclusive(f"plateau {which}: {inc}")
        c.ev(len(M) - 1)
        c.nontrivial((which, k % len(progs), M[-1][0]))
        c.sample(dict(activity=which, build=progs[k % len(progs)][0], bytes_per_round=[m[0] for m in M], descriptors=[m[1] for m in M]), 12)
        h = M[1:]
        grow = [b[0] - a[0] for a, b in zip(h, h[1:])]
        if min(grow) > 0 and sum(grow) > 64 * len(grow):
            c.violation(f"memory {which} build {progs[k % len(progs)][0]}", f"memory in use grows with every round of equal activity ({which}): {[m[0] for m in M]} bytes", "\n".join(ops))
        if h[-1][0] - h[0][0] > 20000:
            c.violation(f"memory {which} build {progs[k % len(progs)][0]}", f"memory in use after equal rounds of activity ({which}): {[m[0] for m in M]} bytes", "\n".join(ops))
        if len(set(m[1] for m in h)) > 1:
            c.violation(f"descriptors {which} build {progs[k % len(progs)][0]}", f"open descriptors after equal rounds of activity ({which}): {[m[1] for m in M]}", "\n".join(ops))
