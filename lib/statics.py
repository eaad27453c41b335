"""Runs of harness/statics.cc: logging by the constructors and destructors of static objects."""
import os, random, shutil
from vlib import *
import stress, decode


def build(c, name, flags=("-O2",), defs=()):
    """One object in front of the library, one behind it."""
    d = f"{c.dir}/{name}_b"
    os.makedirs(d, exist_ok=True)
    c.cc([["g++", "-include", "array", "-std=c++17", *flags, *[f"-D{x}" for x in defs], "-DUNIT=B", "-I", RT, "-c",
           HARNESS + "/statics.cc", "-o", f"{d}/b.o"]])
    return c.build(name, [HARNESS + "/statics.cc"], flags=flags, defs=defs, app_defs=("UNIT=A", "WITH_MAIN"), link=(f"{d}/b.o",),
                   dec_flags=("-O2",))


def params(r, small):
    return dict(ST_K=r.choice([1, 3, 40, 400]), ST_BLOB=r.choice([0, 1, 50, 1000 if small else 15000]), ST_SYNC=r.randrange(8),
                ST_THREADS=r.randrange(8), ST_LEVEL=r.randrange(2), ST_FILE_AT=r.choice(["", "A-ctor", "B-ctor", "main", "A-dtor", "B-dtor"]))


def expected(p):
    out = []
    for o in "AB":
        w = ["ctor", "dtor"]
        t = p["ST_THREADS"]
        w += ["ctor-thread", "dtor-thread"] * (t & 1) + ["across"] * (t >> 1 & 1) + ["atexit"] * (t >> 2 & 1)
        out += [(o, x) for x in w]
    return out + [("M", "main")]


def once(c, app, dec, k, p, delays):
    """Returns (kind, text) of what is wrong, or None; and the number of messages seen."""
    d = f"{c.dir}/st{k}"
    os.makedirs(d, exist_ok=True)
    q = run([app], cwd=d, env=dict(SAN_ENV, ST_DIR=d, **p, **delays), timeout=60)
    n, err = 0, None
    if q.timed_out:
        err = ("static hang", "a program that logs from static objects did not end")
    elif q.crashed or q.rc:
        err = ("static crash", f"rc={q.rc} {q.sanitizer} {q.err[-900:]}")
    else:
        got = {}
        for f in ("compressedLog", "switched"):
            if not os.path.exists(f"{d}/{f}"):
                continue
            z = stress.decode_file(c, dec, f"{d}/{f}", "decompressUnordered")
            ex, bad, cnt = decode.parse(z.out)
            if z.rc or bad:
                err = err or ("static undecodable", f"{f}: rc={z.rc} {bad[:2]} {z.err[-300:]}")
            for e in ex:
                for m in e:
                    a = m.text.decode("latin1").split(" ", 3)
                    got.setdefault((a[0], a[1]), []).append((a[2], a[3] if len(a) > 3 else ""))
                    n += 1
        K, L = p["ST_K"], p["ST_BLOB"]
        want = [(str(i), "z" * ((i * 7919) % L if L else 0)) for i in range(K)] + [("quiet", "0")] * p["ST_LEVEL"]     # set before anything is logged
        for w in expected(p):
            if not err and got.pop(w, []) != want:
                err = ("static delivery", f"messages of {w[0]} ({w[1]}) are not each once, intact and in order in the log")
        if not err and got:
            err = ("static delivery", f"messages that were not logged or not enabled: {list(got)[:3]}")
    shutil.rmtree(d, ignore_errors=True)
    return err, n


def check(c, builds, rounds):
    """builds: {name: ((app, dec), small buffers)}"""
    def one(k):
        r = random.Random(c.seed * 4177 + k)
        nm = sorted(builds)[k % len(builds)]
        (app, dec), small = builds[nm]
        p = params(r, small)
        delays = {}
        if c.stop:
            return None
        err, n = once(c, app, dec, k, p, delays)
        return nm, p, err, n
    for res in pmap(one, range(rounds)):
        if not res:
            continue
        nm, p, err, n = res
        c.ev()
        c.count("static_object_runs"); c.count("static_object_messages", n)
        c.nontrivial(("static", nm, tuple(p.values())))
        if err:
            c.violation(f"{err[0]} build={nm} {json.dumps(p)}", err[1])
