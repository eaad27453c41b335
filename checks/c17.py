#!/usr/bin/env python3
import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *
import stress, decode, hist, random


def body(c):
    c.cov["rule"] = ("one evaluation = one reading of the statistics compared with the reference counts (messages recorded so far, bytes the log files "
                     "grew by, bytes in per message), or one run with concurrent readers; distinct = readings with different values")
    rnd = random.Random(c.seed * 67 + 3)
    H = hist.builds(c, ("17", "pre"))
    dd = stress.size_defs(4096, 32768, False) + ["NANOLOG_VERIF_FILE_PARAMS=(O_APPEND|O_RDWR|O_CREAT|O_DSYNC|O_DIRECT)"]
    B = c.build_many([dict(name="big", user_srcs=[HARNESS + "/hist.cc"], flags=["-O2"]),
                      dict(name="direct", user_srcs=[HARNESS + "/hist.cc"], flags=["-O2"], defs=dd),
                      dict(name="st", user_srcs=[HARNESS + "/stat.cc"], flags=["-O2"], defs=stress.size_defs(4096, 32768, False)),
                      dict(name="sta", user_srcs=[HARNESS + "/stat.cc"], flags=ASAN, dec_flags=["-O2"], defs=stress.size_defs(65536, 1 << 20, False)),
                      dict(name="stp", user_srcs=[HARNESS + "/stat.cc"], flags=["-O2"], defs=stress.size_defs(4096, 32768, False) + ["RECORD_PRODUCER_STATS"])])
    H["default"], H["direct"] = B[0], B[1]
    pr = f"{c.dir}/odirect"
    try:
        os.close(os.open(pr, os.O_CREAT | os.O_RDWR | os.O_DIRECT))
    except OSError:
        del H["direct"]
        c.assumptions.append("the file system of the check does not support O_DIRECT: padding statistics not exercised")

    # bytes in of one message of each kind, length and severity, learned alone (must be constant and cover the message's data)
    def learn(fl):
        sites, lens = range(30), [0, 1, 7, 30]
        ops, at = ["V 0 4", "S 0", "G 0"], {}
        for s in sites:
            for ln in lens:
                for rep in range(2):
                    ops += [f"L 0 {s} {17 + rep} {ln}", "S 0", "G 0"]
                    at[len(ops)] = (s, ln)
        d = f"{c.dir}/learn_{fl}"
        q, rep = hist.execute(H[fl][0], d, ops)
        shutil.rmtree(d, ignore_errors=True)
        if q.rc or q.timed_out:
            raise Inconclusive(f"learning run: {q.rc} {q.err[-300:]}")
        cost, err, prev = {}, None, [int(x) for x in rep[3][1:]]
        for n in sorted(at):
            v = [int(x) for x in rep[n][1:]]
            s, ln = at[n]
            d = v[1] - prev[1]
            low = {0: 4 + ln, 1: 16, 2: 16, 3: 4, 4: 8 + ln // 2, 5: 18 + ln}[s // 5]
            if v[0] - prev[0] != 1:
                err = err or ("events", f"one message of site {s} counted as {v[0] - prev[0]}")
            if cost.setdefault((s, ln), d) != d:
                err = err or ("bytes in", f"two identical messages (site {s}, length {ln}) count {cost[(s, ln)]} and {d} bytes in")
            if not low <= d <= low + 120:
                err = err or ("bytes in", f"a message of site {s} with a string of {ln} bytes (at least {low} bytes of data) counts {d} bytes in")
            prev = v
        return fl, cost, err
    COST = {}
    for fl, cost, err in pmap(learn, list(H)):
        COST[fl] = cost
        c.ev(len(cost) * 2)
        c.nontrivial((fl, tuple(cost.values())))
        if err:
            c.violation(f"{err[0]} flavour {fl}", err[1])

    def history(k):
        r = random.Random(c.seed * 100057 + k)
        fl = r.choice(list(H))
        m, ops, want = hist.Model(), [], {}
        live, nxt, serial, nfile, total = [0], 1, 0, 0, 0
        pre = {}
        d = f"{c.dir}/hist{k}"
        os.makedirs(d)
        lens = [0, 1, 7, 30]
        bytes_in = 0
        for _ in range(r.choice([20, 80, 200])):
            x = r.random()
            if x < 0.08 and len(live) < 6:
                ops.append(f"T {nxt}"); live.append(nxt); nxt += 1
            elif x < 0.12 and len(live) > 1:
                q = r.choice(live[1:]); live.remove(q); ops.append(f"X {q}")
            elif x < 0.17:
                v = r.randrange(-1, 6); m.set_level(v); ops.append(f"V {r.choice(live)} {v}")
            elif x < 0.27:
                ops += [f"S {r.choice(live)}"]
                for _ in range(r.choice([1, 1, 2])):
                    ops.append(f"G {r.choice(live)}"); want[len(ops)] = ("=", m.count, bytes_in, m.file)
                for f in m.files:
                    ops.append(f"C {f}"); want[len(ops)] = ("C", f)
            elif x < 0.33:
                ops.append(f"G {r.choice(live)}"); want[len(ops)] = ("<", m.count, bytes_in, m.file)
            elif x < 0.36:
                nfile += 1
                f = r.choice([f"f{nfile}", m.file, "f1"])
                m.switch(f); ops.append(f"F {r.choice(live)} {f}")
                if r.random() < 0.3:
                    ops.append("F 0 /nonexistent/f")
            elif x < 0.40:
                t, s, ln, n = r.choice(live), r.randrange(30), r.choice(lens), r.choice([5, 60, 300])
                ops.append(f"B {t} {s} {serial + 1} {ln} {n}")
                for i in range(n):
                    serial += 1
                    if m.log(t, s, serial, ln):
                        bytes_in += COST[fl][(s, ln)]
            else:
                t, s, serial, ln = r.choice(live), r.randrange(30), serial + 1, r.choice(lens)
                if m.log(t, s, serial, ln):
                    bytes_in += COST[fl][(s, ln)]
                ops.append(f"L {t} {s} {serial} {ln}")
        ops += ["S 0", "G 0"]
        want[len(ops)] = ("=", m.count, bytes_in, m.file)
        for f in m.files:
            ops.append(f"C {f}"); want[len(ops)] = ("C", f)
        app, dec = H[fl]
        for f in list(m.files) + ["f1", "f2"]:
            if r.random() < 0.3:
                pre[f] = r.choice([512, 1024, 4096])
                open(f"{d}/{f}", "wb").write(b"\0" * pre[f])
        q, rep = hist.execute(app, d, ops)
        err, prev, vals = None, [0, 0, 0, 0], []
        if q.rc or q.timed_out:
            err = ("run", f"rc={q.rc} timeout={q.timed_out} {q.err[-300:]}")
        sizes, cur = {}, None
        for n, w in sorted(want.items()):
            v = rep.get(n)
            if v is None or err:
                break
            if w[0] == "C":
                if cur is not None:
                    sizes[w[1]] = max(0, int(v[1])) - pre.get(w[1], 0)
                    if n + 1 not in want or want[n + 1][0] != "C":
                        tot = sum(sizes.values())
                        if tot != cur[2]:
                            err = ("bytes out", f"op {n}: {cur[2]} bytes out reported ({cur[3]} of them padding), the log files {sizes} hold {tot}")
                        cur = None
                continue
            v = [int(x) for x in v[1:]]
            vals.append(v)
            if any(a < b for a, b in zip(v, prev)):
                err = ("decrease", f"op {n}: counters went from {prev} to {v}")
            prev = v
            if w[0] == "=":
                sizes, cur = {}, v
                if v[0] != w[1]:
                    err = ("events", f"op {n}: {v[0]} events reported after a sync, {w[1]} recorded")
                elif v[1] != w[2]:
                    err = ("bytes in", f"op {n}: {v[1]} bytes in reported, the messages logged amount to {w[2]}")
                elif fl != "direct" and v[3]:
                    err = ("padding", f"op {n}: {v[3]} pad bytes without padding")
                elif fl == "direct" and (v[2] % 512 or not v[3] < v[2] + 1):
                    err = ("padding", f"op {n}: {v[2]} bytes out with {v[3]} pad bytes on an O_DIRECT file")
            elif v[0] > w[1] or v[1] > w[2]:
                err = ("excess", f"op {n}: {v[0]} events and {v[1]} bytes in reported, only {w[1]} and {w[2]} logged so far")
        if not err and not pre and k % 4 == 0:
            for f, ex in m.files.items():
                e, _ = hist.judge_file(c, dec, f"{d}/{f}", ex)
                if e:
                    err = ("delivery", e)
        shutil.rmtree(d, ignore_errors=True)
        return k, fl, err, vals, m.count, ops

    for k, fl, err, vals, cnt, ops in pmap(history, range(c.n(400, 8000))):
        c.ev(len(vals))
        c.count("readings", len(vals)); c.count("messages", cnt); c.count("histories_" + fl)
        if err and err[0] == "run":
            raise Inconclusive(f"history {k}: {err[1]}")
        if err:
            c.violation(f"{err[0]} flavour {fl} history {k} seed {c.seed}", err[1], "\n".join(ops))
        c.nontrivial((fl, tuple(map(tuple, vals))))
        c.sample(dict(flavour=fl, history=ops[:10], readings=vals[:4]), 3)

    def conc(k):
        r = random.Random(c.seed * 3001 + k)
        app, dec = B[(2, 3, 4)[k % 3]]
        d = f"{c.dir}/conc{k}"
        os.makedirs(d)
        L, M, R, S = r.choice([1, 3, 6]), r.choice([300, 4000, 20000]) // (4 if k % 3 == 1 else 1), r.choice([1, 2, 4]), r.choice([0, 0, 3, 20])
        q = run([app, d, str(k), str(L), str(M), str(R), str(S)], cwd=d, env=SAN_ENV, timeout=90)
        o = q.out.decode("latin1")
        err, st = None, {}
        if q.crashed:
            err = ("crash", f"rc={q.rc} {q.sanitizer} {q.err[-800:]}")
        elif q.timed_out:
            err = ("hang", "run with concurrent readers of the statistics did not end")
        elif "BAD" in o:
            err = ("concurrent " + re.search(r"BAD (\w+)", o).group(1), o[o.index("BAD"):][:400])
        else:
            st = dict((ln.split()[1], int(ln.split()[2])) for ln in o.split("\n") if ln.startswith("STAT"))
            ev, bi, bo, pad = map(int, re.search(r"FINAL (\d+) (\d+) (\d+) (\d+)", o).groups())
            tot = sum(os.path.getsize(f"{d}/{f}") for f in os.listdir(d))
            if ev != L * M:
                err = ("events", f"{ev} events reported after {L * M} messages logged with concurrent readers")
            elif tot != bo:
                err = ("bytes out", f"{bo} bytes out reported, files hold {tot}")
            else:
                got = {}
                for s in range(S + 1):
                    z = stress.decode_file(c, dec, f"{d}/log{s}", "decompressUnordered")
                    ex, bad, cnt = decode.parse(z.out)
                    if z.rc or bad:
                        err = ("delivery", f"log{s} undecodable: rc={z.rc} {bad[:2]}")
                        break
                    for e in ex:
                        for mm in e:
                            a = mm.text.split()
                            got.setdefault(a[0], []).append(int(a[1][1:]))
                if not err:
                    for w in range(L):
                        if got.get(b"w%d" % w) != list(range(M)):
                            err = ("delivery", f"worker {w}: {len(got.get(b'w%d' % w, []))} of {M} messages, not each once in order, with concurrent statistics")
        shutil.rmtree(d, ignore_errors=True)
        return k, (L, M, R, S), err, st
    for k, par, err, st in pmap(conc, range(c.n(36, 400)), workers=3):
        c.ev()
        for a, v in st.items():
            c.count("concurrent_" + a, v)
        c.nontrivial(("conc", k, st.get("distinct")))
        if err:
            c.violation(f"{err[0]} loggers={par[0]} messages={par[1]} readers={par[2]} switches={par[3]}", err[1])
    c.assumptions += ["bytes in: the implementation's choice of message header is learned from single messages (bounded by data size + 120); totals must be the exact sum"]
    if not c.violations and not c.cov.get("readings"):
        raise Inconclusive("nothing observed")


main("C17", body)
