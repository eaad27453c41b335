#!/usr/bin/env python3
import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *
import stress, decode, hist, random, re


def body(c):
    c.cov["rule"] = ("one evaluation = one executed history of level changes, log calls, syncs and file switches compared with the filter model, "
                     "or one concurrent run in which every call that saw an unchanged level is judged; distinct = histories (or runs) with a "
                     "different set of recorded messages")
    rnd = random.Random(c.seed * 31 + 7)
    H = hist.builds(c, ("17", "pre"))
    pd = c.dir + "/lpre"
    os.makedirs(pd)
    shutil.copy(HARNESS + "/lvl.cc", pd + "/lvl.cc")
    c.pp(pd, "lvl.cc", std="c++17")
    c.pp_combine(pd, ["lvl.cc"])
    c.cc([["g++", "-std=c++17", "-O2", "-I", RT, "-c", pd + "/lvl.cc.ii", "-o", pd + "/lvl_pp.o"]])
    L = c.build_many([dict(name="l17", user_srcs=[HARNESS + "/lvl.cc"], flags=["-O2"]),
                      dict(name="lpp", user_srcs=[pd + "/lvl_pp.o"], flags=["-O2"], pre=True, gen=pd + "/GeneratedCode.cc")])

    def history(k):
        r = random.Random(c.seed * 100003 + k)
        m, ops, want = hist.Model(), [], {}
        live, nxt, serial, nfile = [0], 1, 0, 0
        for _ in range(r.choice([30, 150, 400])):
            x = r.random()
            if x < 0.12 and len(live) < 6:
                ops.append(f"T {nxt}"); live.append(nxt); nxt += 1
            elif x < 0.16 and len(live) > 1:
                q = r.choice(live[1:]); live.remove(q); ops.append(f"X {q}")
            elif x < 0.34:
                v = r.choice([0, 1, 2, 3, 4, 0, 1, 2, 3, 4, -1, -5, -2147483648, 5, 6, 7, 8, 9, 100, 2147483647])
                m.set_level(v)
                ops.append(f"V {r.choice(live)} {v}"); want[len(ops)] = ("V", m.level)
            elif x < 0.40:
                ops.append(f"A {r.choice(live)}"); want[len(ops)] = ("A", m.level)
            elif x < 0.44:
                ops.append(f"S {r.choice(live)}")
            elif x < 0.455:
                nfile += 1
                f = r.choice([f"f{nfile}", m.file, "f1"])
                m.switch(f); ops.append(f"F {r.choice(live)} {f}")
            elif x < 0.47:
                ops.append("H"); 
            else:
                t, site, serial, ln = r.choice(live), r.randrange(30), serial + 1, r.randrange(60)
                m.log(t, site, serial, ln)
                ops.append(f"L {t} {site} {serial} {ln}"); want[len(ops)] = ("L", site % 5 <= m.level)
        ops.append("S 0")
        fl = ["17", "pre"][k % 2]
        d = f"{c.dir}/hist{k}"
        app, dec = H[fl]
        q, rep = hist.execute(app, d, ops)
        err = None
        if q.rc or q.timed_out:
            err = ("run", f"rc={q.rc} timeout={q.timed_out} {q.err[-300:]}")
        for n, w in want.items():
            v = rep.get(n)
            if v is None or err:
                break
            if w[0] in "VA" and int(v[1]) != w[1]:
                err = ("level", f"op {n} '{ops[n - 1]}': reported level {v[1]}, should be {w[1]}; preceding: {[o for o in ops[:n] if o[0] in 'VF'][-4:]}")
            if w[0] == "L" and w[1] and v[5] != "1":
                err = ("evaluate", f"op {n} '{ops[n - 1]}': arguments of a recorded statement evaluated {v[5]} times")
        if not err:
            for f, ex in m.files.items():
                e, _ = hist.judge_file(c, dec, f"{d}/{f}", ex, "decompress" if k % 3 == 0 else "decompressUnordered")
                if e:
                    err = ("filter", e)
                    break
        shutil.rmtree(d, ignore_errors=True)
        logs = sum(1 for w in want.values() if w[0] == "L")
        return k, fl, err, logs, m.count, sum(1 for w in want.values() if w[0] == "V"), tuple(m.files), ops

    for k, fl, err, logs, rec, sets, files, ops in pmap(history, range(c.n(360, 8000))):
        c.ev()
        c.count("log_calls", logs); c.count("recorded", rec); c.count("level_changes", sets)
        if err and err[0] == "run":
            raise Inconclusive(f"history {k}: {err[1]}")
        if err:
            c.violation(f"{err[0]} flavour {fl} history {k} seed {c.seed}", err[1], "\n".join(ops))
        c.nontrivial((fl, logs, rec, sets, files))
        c.sample(dict(flavour=fl, history=ops[:12], calls=logs, recorded=rec), 2)

    def conc(k):
        d = f"{c.dir}/c{k}"
        os.makedirs(d)
        app, dec = L[k % 2]
        r = run([app, d, str(c.seed * 1000 + k), str([1, 2, 4, 7][k % 4]), str(c.n(15000, 60000))], cwd=d, timeout=60)
        if r.rc or r.timed_out:
            return k, None, f"rc={r.rc} timeout={r.timed_out} {r.err[-300:]}", {}
        st = dict((ln.split()[1], int(ln.split()[2])) for ln in r.out.decode().split("\n") if ln.startswith("STAT"))
        q = stress.decode_file(c, dec, d + "/log", "decompressUnordered")
        ex, bad, cnt = decode.parse(q.out)
        if q.rc or bad or len(ex) != 1:
            return k, ("decode", f"rc={q.rc} {bad[:2]}"), None, st
        got = {}
        for m in ex[0]:
            a = re.fullmatch(rb"w(\d+) i(\d+)", m.text)
            got[(int(a.group(1)), int(a.group(2)))] = m.level
        err = None
        n = [0, 0, 0]
        for ln in open(d + "/expect"):
            w, i, e, sev = map(int, ln.split())
            n[e] += 1
            g = got.get((w, i))
            if e == 1 and g is None:
                err = ("lost", f"worker {w} message {i} of severity {sev} not recorded although the level allowed it throughout the call")
            elif e == 0 and g is not None:
                err = ("leaked", f"worker {w} message {i} of severity {sev} recorded although the level forbade it throughout the call")
            elif g is not None and g != hist.LEVELS[sev]:
                err = ("severity", f"worker {w} message {i}: severity {sev} decoded as {g}")
        if st["badLevel"]:
            err = ("level", f"{st['badLevel']} reads of a level that was never set (after clamping)")
        st.update(must=n[1], mustnot=n[0], undetermined=n[2])
        shutil.rmtree(d, ignore_errors=True)
        return k, err, None, st
    for k, err, inc, st in pmap(conc, range(c.n(12, 120)), workers=4):
        if inc:
            raise Inconclusive("concurrent run: " + inc)
        c.ev()
        for a, v in st.items():
            c.count("concurrent_" + a, v)
        if err:
            c.violation(f"concurrent {err[0]} run {k} seed {c.seed}", err[1])
        c.nontrivial(("conc", k, st.get("must")))
    if not c.violations and (not c.cov["recorded"] or not c.cov["concurrent_must"] or not c.cov["concurrent_mustnot"]):
        raise Inconclusive("nothing observed")


main("C07", body)
