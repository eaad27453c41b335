#!/usr/bin/env python3
import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *
import stress, decode, hist, random, re, steady

UID = 65534


def body(c):
    c.cov["rule"] = ("one evaluation = one history of log calls, syncs and setLogFile calls with good and bad targets (one or two processes "
                     "over the same files) compared with the partition model, or one run that switches files under concurrent logging; "
                     "distinct = histories with a different partition of messages over files")
    H = hist.builds(c, ("17", "pre"))
    sw, swdec = c.build("sw", [HARNESS + "/switch.cc"], flags=["-O2"], defs=stress.size_defs(8192, 65536, False))
    # can an unprivileged user run the programs here?
    t = c.dir + "/try"
    os.makedirs(t)
    os.chown(t, UID, UID)
    q = run(["setpriv", f"--reuid={UID}", f"--regid={UID}", "--clear-groups", H["17"][0], "/nonexistent"], cwd=t)
    unpriv = q.rc == 3
    c.cov["unprivileged_runs_possible"] = unpriv
    if not unpriv:
        c.assumptions.append("permission failures not exercised: cannot switch to an unprivileged user here")

    def history(k):
        r = random.Random(c.seed * 900001 + k)
        fl = ["17", "pre"][k % 2]
        app, dec = H[fl]
        d = f"{c.dir}/hist{k}"
        os.makedirs(d)
        asuser = unpriv and k % 3 == 0
        os.link(app, d + "/exe")
        garbage = bytes(r.randrange(256) for _ in range(r.choice([1, 100, 5000])))
        open(d + "/garbage", "wb").write(garbage)
        open(d + "/emptyfile", "wb").close()
        os.makedirs(d + "/adir")
        os.symlink("loop", d + "/loop")
        os.symlink("linked-target", d + "/link")
        bad = ["adir", "nodir/x", "<empty>", "garbage/x", "n" * 300, "loop", "exe", "adir/", "/"]
        if asuser:
            for name, mode in (("ro", 0o444), ("wo", 0o222), ("no", 0), ("rx", 0o555)):
                open(f"{d}/{name}", "wb").write(b"keep " + name.encode())
            os.makedirs(d + "/rodir")
            for root, ds, fs in os.walk(d):
                for n in ds + fs:
                    if n != "exe":
                        os.lchown(os.path.join(root, n), UID, UID)
            os.chown(d, UID, UID)
            for name, mode in (("ro", 0o444), ("wo", 0o222), ("no", 0), ("rx", 0o555), ("rodir", 0o555)):
                os.chmod(f"{d}/{name}", mode)
            bad += ["ro", "wo", "no", "rx", "rodir/new", "ro", "wo", "no"]
        m = hist.Model()
        m.files["garbage"] = []
        err, nops, nf, nbad, serial, allops = None, 0, 0, 0, 0, []
        sizes = {}
        for proc in range(r.choice([1, 1, 2, 3])):
            if proc:
                m.level, m.file = 3, "compressedLog"
                m.files["compressedLog"].append([])
            ops, want, live, nxt = [], {}, [0], 1
            for _ in range(r.choice([15, 60, 200])):
                x = r.random()
                if x < 0.07 and len(live) < 5:
                    ops.append(f"T {nxt}"); live.append(nxt); nxt += 1
                elif x < 0.10 and len(live) > 1:
                    t = r.choice(live[1:]); live.remove(t); ops.append(f"X {t}")
                elif x < 0.14:
                    ops.append(f"S {r.choice(live)}")
                elif x < 0.30:
                    ok = r.random() < 0.6
                    if ok:
                        f = r.choice(["fa", "fb", "fc", "garbage", "emptyfile", "link", "compressedLog", m.file, f"adir/n{len(ops)}"])
                        m.switch(f)
                        nf += 1
                    else:
                        f = r.choice(bad)
                        nbad += 1
                    ops.append(f"F {r.choice(live)} {f}"); want[len(ops)] = ok
                elif x < 0.33:
                    n = r.choice([3, 100])
                    t, site, ln = r.choice(live), r.randrange(30), r.randrange(100)
                    for i in range(n):
                        m.log(t, site, serial + 1 + i, ln)
                    ops.append(f"B {t} {site} {serial + 1} {ln} {n}"); serial += n
                else:
                    t, site, serial, ln = r.choice(live), r.randrange(30), serial + 1, r.randrange(60)
                    m.log(t, site, serial, ln)
                    ops.append(f"L {t} {site} {serial} {ln}")
            if r.random() < 0.3:
                ops += ["S 0", "Q"]
            allops += ["# process"] + ops
            nops += len(ops)
            before = {}
            for root, ds, fs in os.walk(d):
                for n in fs:
                    p = os.path.join(root, n)
                    if n not in ("exe", "script") and not os.path.islink(p):
                        before[p] = open(p, "rb").read()
            open(d + "/script", "w").close()
            q, rep = hist.execute(d + "/exe", d, ops, uid=UID if asuser else None)
            if q.rc or q.timed_out:
                err = ("run", f"rc={q.rc} timeout={q.timed_out} {q.err[-300:]}")
                break
            fdn = None
            for n, ok in want.items():
                v = rep.get(n)
                if v is None:
                    err = ("run", f"op {n} has no report")
                    break
                if (v[1] == "ok") != ok or v[1] == "other-exception":
                    err = ("result", f"op {n} '{ops[n - 1]}': {v[1]}, should {'succeed' if ok else 'throw'}")
                    break
                if fdn is not None and int(v[2]) != fdn:
                    err = ("leak", f"op {n} '{ops[n - 1]}' ({v[1]}): {v[2]} descriptors open, {fdn} after the previous setLogFile")
                    break
                fdn = int(v[2])
            for p, data in before.items():
                if not err and open(p, "rb").read()[:len(data)] != data:
                    err = ("damage", f"existing contents of {os.path.relpath(p, d)} changed")
            if err:
                break
        if not err:
            for f, ex in m.files.items():
                p = f"{d}/{f}"
                if f == "garbage":
                    data = open(p, "rb").read()
                    p = d + "/garbage.rest"
                    open(p, "wb").write(data[len(garbage):])
                if not any(ex):
                    if not os.path.exists(p):
                        err = ("missing", f"{f} was not created")
                    continue
                e, _ = hist.judge_file(c, dec, p, ex, "decompress" if k % 4 == 0 else "decompressUnordered")
                if e:
                    err = ("partition", e)
                    break
        shape = tuple(sorted((f, tuple(map(len, ex))) for f, ex in m.files.items()))
        shutil.rmtree(d, ignore_errors=True)
        return k, fl, err, nops, m.count, nf, nbad, shape, allops, asuser

    for k, fl, err, nops, cnt, nf, nbad, shape, ops, asuser in pmap(history, range(c.n(200, 6000))):
        c.ev()
        c.count("messages", cnt); c.count("switches", nf); c.count("rejected_targets", nbad)
        if asuser:
            c.count("unprivileged_histories")
        if err:
            if err[0] == "run":
                # a crash while switching files is this property's business
                c.violation(f"run flavour {fl} history {k} seed {c.seed}", err[1], "\n".join(ops))
            else:
                c.violation(f"{err[0]} flavour {fl} history {k} seed {c.seed}", err[1], "\n".join(ops))
        c.nontrivial(shape)
        c.sample(dict(flavour=fl, history=ops[:14], partition=shape), 2)

    def conc(k):
        d = f"{c.dir}/sw{k}x"
        os.makedirs(d)
        n, s = [1, 2, 4, 7][k % 4], c.n(40, 150)
        q = run([sw, d, str(c.seed * 1000 + k), str(n), str(s)], cwd=d, timeout=60)
        if q.rc or q.timed_out:
            return k, ("run", f"rc={q.rc} timeout={q.timed_out} {q.err[-300:]}"), 0, 0
        must, total = {}, {}
        for ln in open(d + "/switches"):
            j, w, b, a = map(int, ln.split())
            if j:
                must[(j, w)] = (b, a)
            else:
                total[w] = b
        seen = {w: 0 for w in total}
        for j in range(s + 1):
            q = stress.decode_file(c, swdec, f"{d}/f{j}", "decompress" if j % 5 == 0 else "decompressUnordered")
            ex, bad, cnt = decode.parse(q.out)
            if q.rc or bad:
                return k, ("decode", f"file {j}: rc={q.rc} {bad[:2]}"), 0, 0
            for e in ex:
                for mm in e:
                    a = re.match(rb"w(\d+) i(\d+)", mm.text)
                    w, i = int(a.group(1)), int(a.group(2))
                    if i != seen[w]:
                        return k, ("order", f"file {j}: worker {w} message {i} found where message {seen[w]} should be"), 0, 0
                    seen[w] += 1
                    # message i logged before switch j was called must not be in file >= j
                    if j and i < must[(j, w)][0]:
                        return k, ("late", f"worker {w} message {i} is in file {j}, but its call returned before the switch to it"), 0, 0
                    if j < s and i >= must[(j + 1, w)][1]:
                        return k, ("early", f"worker {w} message {i} is in file {j}, but was logged after the switch to file {j + 1} returned"), 0, 0
        for w, n2 in total.items():
            if seen[w] != n2:
                return k, ("lost", f"worker {w}: {seen[w]} of {n2} messages in the files"), 0, 0
        shutil.rmtree(d, ignore_errors=True)
        return k, None, sum(total.values()), s
    for k, err, n, s in pmap(conc, range(c.n(8, 120)), workers=4):
        c.ev()
        c.count("concurrent_messages", n); c.count("concurrent_switches", s)
        if err:
            c.violation(f"concurrent {err[0]} run {k} seed {c.seed}", err[1])
        c.nontrivial(("conc", k, n))
    # switching files while other threads never stop logging
    steady.scenario(c, random.Random(c.seed * 17 + 3), c.n(16, 200), True)
    c.assumptions += ["setLogFile is not called by two threads at once (documented)"]


main("C08", body)
