#!/usr/bin/env python3
import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *
import stress, decode, hist, logs, random, struct


def ids(e):
    return [(m.date, m.nanos, m.file, m.line, m.level, m.tid, m.text) for m in e]


def body(c):
    c.cov["rule"] = ("one evaluation = one file made of several executions (appended by real processes, or logs joined) decoded with one interface "
                     "and compared, execution by execution, with each log decoded alone; distinct = different sequences of executions")
    rnd = random.Random(c.seed * 41 + 13)
    defs = stress.size_defs(4096, 32768, False)
    declog, ed, ckpt = [x[0] for x in c.build_many([
        dict(name="declog", user_srcs=[HARNESS + "/declog.cc"], flags=["-O2"], defs=defs, lib_srcs=["Cycles", "Util", "Log"], dec=False),
        dict(name="ed", user_srcs=[HARNESS + "/encdec.cc"], flags=["-O1"], defs=defs, lib_srcs=["Cycles", "Util", "Log"], dec=False),
        dict(name="ckpt", user_srcs=[HARNESS + "/ckpt.cc"], flags=["-O1"], defs=defs, lib_srcs=["Cycles", "Util", "Log"], dec=False)])]
    H = hist.builds(c, ("17", "pre"))
    S = stress.builds(c, "ap")
    decs = [H["17"][1], H["pre"][1]]

    def decoded(path, h):
        """h: 0 bulk API, 1 ordered API, 2 iterator API, 3.. command line tools."""
        if h < 3:
            r = run([declog, "out", path, str(h)], timeout=60)
        else:
            r = run([decs[h % 2], ["decompress", "decompressUnordered"][(h - 3) // 2], path], timeout=60)
        if r.rc or r.timed_out:
            return None, None, f"rc={r.rc} timeout={r.timed_out} {r.err[-400:]}"
        out = r.out
        cnt = None
        if h < 3:
            i = out.rfind(b"\r\nCOUNT ")
            if i < 0:
                return None, None, f"not opened: {out[:100]!r}"
            cnt = int(out[i + 8:].split()[0])
            out = out[:i]
        ex, bad, n = decode.parse(out)
        if bad:
            return None, None, f"stray output {bad[:2]}"
        return [ids(e) for e in ex], cnt if h < 3 else n, None

    P = logs.pool(c, rnd, H, S, ed, c.n(24, 200), c.n(6, 40), c.n(24, 200))
    # the model of real appended executions
    alone = {}
    for (desc, path, model), err in pmap(lambda x: (x, hist.judge_file(c, decs[0], x[1], x[2])[0] if x[2] is not None else None), P):
        c.ev()
        if err:
            c.violation(f"appended processes: {desc}", err)

    # executions take place on other days and on machines with other clock rates: change what the checkpoint says about both
    size, _, ut, rt = [int(x) for x in run([ckpt]).out.split()]
    for desc, path, model in P:
        with open(path, "r+b") as f:
            b = bytearray(f.read(size))
            if len(b) < size:
                continue
            t = int.from_bytes(b[ut:ut + 8], "little") + rnd.choice([0, 1, -1, 3600, rnd.randrange(-10**6, 10**6), rnd.randrange(-10**9, 10**9)])
            b[ut:ut + 8] = t.to_bytes(8, "little")
            if rnd.random() < .3:
                b[rt:rt + 8] = struct.pack("<d", struct.unpack("<d", b[rt:rt + 8])[0] * rnd.choice([.25, .5, 1.37, 2, 4]))
            f.seek(0)
            f.write(b)
        c.count("checkpoints_moved")

    def one(x):
        return x, {h: decoded(x[1], h) for h in range(7)}
    for (desc, path, model), res in pmap(one, P):
        alone[path] = res
        for h, (ex, n, err) in res.items():
            if err:
                c.violation(f"decoding {desc} interface {h}", err)
    if c.violations:
        return
    # bytes after which a log file may be followed by the next one (O_DIRECT pads with zeroes)
    cats = []
    for k in range(c.n(90, 1500)):
        n = rnd.choice([2, 2, 3, 3, 5, 9, 30])
        sel = [rnd.choice(P) for _ in range(n)]
        if rnd.random() < .2:
            sel = [sel[0]] * n
        pads = [rnd.choice([0, 0, 0, 1, 7, 511, 512, 4000]) for _ in range(n)]
        cats.append((k, sel, pads))

    def cat(t):
        k, sel, pads = t
        f = f"{c.dir}/cat{k}"
        with open(f, "wb") as o:
            for (d, p, m), z in zip(sel, pads):
                o.write(open(p, "rb").read() + b"\0" * z)
        res = []
        for h in ([0, 1, 2] if k % 3 else [1, 3, 4, 5, 6]):
            ex, n, err = decoded(f, h)
            want = [e for d, p, m in sel for e in alone[p][h][0]]
            if not err:
                if len(ex) != len(want):
                    err = f"{len(ex)} executions decoded, {len(want)} are in the file"
                elif ex != want:
                    i = next(i for i in range(len(ex)) if ex[i] != want[i])
                    j = next((j for j, (a, b) in enumerate(zip(ex[i], want[i])) if a != b), min(len(ex[i]), len(want[i])))
                    err = (f"execution {i} of {len(want)} decodes differently after others: message {j}: alone {want[i][j] if j < len(want[i]) else 'end'}, "
                           f"here {ex[i][j] if j < len(ex[i]) else 'end'} ({len(want[i])} vs {len(ex[i])} messages)")
                elif n != sum(map(len, want)):
                    err = f"count {n}, printed {sum(map(len, want))}"
            res.append((h, err, len(want)))
        os.unlink(f)
        return sel, pads, res
    for sel, pads, res in pmap(cat, cats):
        for h, err, n in res:
            c.ev()
            c.count("executions_compared", n)
            if err:
                c.violation(f"joined logs interface {h}: " + "; ".join(f"{d} pad {z}" for (d, p, m), z in zip(sel, pads))[:600], err)
        c.nontrivial(tuple(p for d, p, m in sel))
        c.sample(dict(executions=[d for d, p, m in sel], padding=pads), 3)


main("C13", body)
