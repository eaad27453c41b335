"""Running the multi-threaded workload and judging its decoded logs."""
import json, os, random, shutil, struct
from vlib import *
import decode

MAXW, MAXSNAP = 512, 400
SNAP = struct.Struct("<QII" + "I" * MAXW)

SRCS = [HARNESS + "/stress.cc", HARNESS + "/aioshim.cc", HARNESS + "/points.cc"]


def size_defs(staging, output, points=True):
    d = ["NANOLOG_VERIF", f"NANOLOG_VERIF_STAGING_SIZE={staging}", f"NANOLOG_VERIF_OUTPUT_SIZE={output}"]
    if points:
        d.append("NANOLOG_VERIF_POINTS")
    return d


# delay profiles at the hook points (see runtime/*: NANOLOG_VERIF_POINT)
PROFILES = [
    "",
    "0:50:200,3:50:200",                      # slow background loop
    "1:300:20,2:200:20",                      # between peek and encode / encode and consume
    "5:500:30,7:20:10",                       # producer: during wrap, before publishing
    "6:200:20,8:100:20",                      # consumer: inside peek/consume
    "9:500:500,11:500:300,10:300:100",        # thread birth/death, registration
    "0:20:50,1:20:30,2:20:30,3:20:50,4:50:100,5:100:20,6:20:20,7:5:10,8:20:20,9:200:200,11:200:200",
    "1:30:800,3:100:500",
    "0:200:3,1:200:2,6:200:2,8:200:2,7:50:1",
]


def run_stress(c, app, d, params, env=None, timeout=120, tag=""):
    os.makedirs(d, exist_ok=True)
    e = {("S_" + k): v for k, v in params.items()}
    if env:
        e.update(env)
    e.setdefault("AIO_STATS", d + "/aiostats")
    r = run([app, d], cwd=d, env={**SAN_ENV, **e}, timeout=timeout)
    if r.timed_out:
        # re-run once before believing in a hang
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        r = run([app, d], cwd=d, env={**SAN_ENV, **e}, timeout=timeout * 2)
    return r


def dump(app, d, params):
    dd = d + "/x"
    os.makedirs(dd, exist_ok=True)
    e = {("S_" + k): v for k, v in params.items()}
    r = run([app, dd, "dump"], cwd=dd, env={**SAN_ENV, **e}, timeout=120)
    if r.rc:
        raise Inconclusive("dump failed: " + r.err[-500:])
    exp = {}
    for f in os.listdir(dd):
        if f.startswith("expect."):
            w = int(f.split(".")[1])
            ls = []
            for ln in open(f"{dd}/{f}", "rb").read().split(b"\n")[:-1]:
                lv, _, tx = ln.partition(b" ")
                ls.append((lv, tx))
            exp[w] = ls
    shutil.rmtree(dd)
    return exp


def load_shared(d):
    b = open(d + "/shared", "rb").read()
    comp = struct.unpack_from("<%dI" % MAXW, b, 0)
    nsnap, fin, durbad, syncs = struct.unpack_from("<4I", b, 4 * MAXW)
    off = (4 * MAXW + 16 + 7) // 8 * 8
    snaps = []
    for k in range(min(nsnap, MAXSNAP)):
        v = SNAP.unpack_from(b, off + k * SNAP.size)
        if v[2] & 0x80000000:    # the process was not killed while it was being stored
            snaps.append(dict(fsize=v[0], ordinal=v[1], caller=v[2] & 0x7FFFFFFF, count=v[3:]))
    return dict(completed=comp, snaps=snaps, finished=fin, durableBad=durbad, syncs=syncs)


def group(msgs):
    g = {}
    for m in msgs:
        g.setdefault(m.tid, []).append((m.level, m.text))
    return g


def match_groups(groups, exp):
    """Assign each thread number's sequence to the worker it is a prefix of.
    Returns (assign tid->w, error)."""
    assign, used = {}, set()
    first = {}
    for w, l in exp.items():
        if l:
            first.setdefault(l[0], []).append(w)
    for tid, seq in sorted(groups.items(), key=lambda kv: -len(kv[1])):
        best, bestn = None, -1
        for w in first.get(seq[0], []):
            if w in used:
                continue
            l = exp[w]
            if len(seq) <= len(l) and l[:len(seq)] == seq:
                best = w
                break
        if best is None:
            # explain
            idx = {}
            for w, l in exp.items():
                for i, t in enumerate(l):
                    idx.setdefault(t, []).append((w, i))
            why = "no worker logged such a sequence"
            cand = None
            for t in seq:
                if len(idx.get(t, [])) == 1:
                    cand = idx[t][0][0]
                    break
            if cand is not None:
                l = exp[cand]
                i = 0
                while i < len(seq) and i < len(l) and seq[i] == l[i]:
                    i += 1
                where = idx.get(seq[i]) if i < len(seq) else None
                why = (f"worker {cand}: first difference at its message {i}: expected "
                       f"{l[i][1][:160] if i < len(l) else 'end'!r}, decoded {seq[i][1][:160] if i < len(seq) else 'end'!r}"
                       f" (decoded one is {'message ' + str(where[:3]) if where else 'not any logged message'})")
                if cand in used:
                    why += "; worker already seen under another thread number"
            return assign, f"thread number {tid} ({len(seq)} messages): {why}"
        assign[tid] = best
        used.add(best)
    return assign, None


def decode_file(c, dec, path, cmd="decompress", timeout=60, env=None):
    r = run([dec, cmd, path], timeout=timeout, env={**SAN_ENV, **(env or {})})
    return r


def check_complete(msgs, exp):
    g = group(msgs)
    assign, err = match_groups(g, exp)
    if err:
        return err
    got = {w: len(g[t]) for t, w in assign.items()}
    for w, l in exp.items():
        if got.get(w, 0) != len(l):
            return f"worker {w}: {got.get(w, 0)} of {len(l)} messages in the log (first missing: {l[got.get(w, 0)][1][:120]!r})"
    return None


CFG = dict(a=(4096, 32768, True), b=(2048, 8192, False), c=(65536, 1 << 20, True))


def builds(c, which, flags=("-O2", "-g"), dflags=("-O3", "-g"), extra_srcs=()):
    """a: small buffers + delay points; b: tiny buffers, no points; c: medium; d: default
    configuration, real AIO, as shipped; p: preprocessor flavour, small buffers."""
    specs, names = [], []
    for nm in which:
        if nm in CFG:
            s, o, pts = CFG[nm]
            specs.append(dict(name="s" + nm, user_srcs=SRCS, flags=list(flags), defs=size_defs(s, o, pts)))
            names.append((nm, s, o))
        elif nm == "d":
            specs.append(dict(name="sd", user_srcs=[HARNESS + "/stress.cc"], flags=list(dflags)))
            names.append((nm, 1 << 20, 1 << 26))
        elif nm == "p":
            pd = c.dir + "/pre"
            os.makedirs(pd)
            shutil.copy(HARNESS + "/stress.cc", pd + "/stress.cc")
            c.pp(pd, "stress.cc", flags=["-I", HARNESS] + ["-D" + x for x in size_defs(4096, 32768, False)], std="c++17")
            c.pp_combine(pd, ["stress.cc"])
            c.cc([["g++", "-std=c++17", *flags, "-I", RT, "-c", pd + "/stress.cc.ii", "-o", pd + "/stress_pp.o"]])
            specs.append(dict(name="sp", user_srcs=[pd + "/stress_pp.o", HARNESS + "/aioshim.cc"], flags=list(flags), pre=True,
                              defs=size_defs(4096, 32768, False), gen=pd + "/GeneratedCode.cc"))
            names.append((nm, 4096, 32768))
    return {nm: (b, s, o) for (nm, s, o), b in zip(names, c.build_many(specs))}
