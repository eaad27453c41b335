"""Scripts of API calls (harness/hist.cc), their reference model and judgement."""
import os, random, shutil
from vlib import *
import stress, decode

LEVELS = [b"(none)", b"ERROR", b"WARNING", b"NOTICE", b"DEBUG"]


def text(site, serial, ln):
    kind = site // 5
    p = chr(65 + serial % 26) * ln
    if kind == 0:
        return f"h{serial} {p}"
    if kind == 1:
        return f"i{serial} {serial * 2654435761 % 2**64} {chr(97 + serial % 26)}"
    if kind == 2:
        return f"j{serial} {serial / 8.0:.3f} {serial:x}"
    if kind == 3:
        return f"k{serial} fixed text % of a statement"
    if kind == 4:
        return f"l{serial} {p[:ln // 2]}|{-serial:5d}"
    s = ((serial + 32768) % 65536) - 32768
    return f"m{s} {-serial * serial} {p} " + (f"0x{serial:x}" if serial else "(nil)")


class Model:
    """Deterministic reference: what each file must contain."""
    def __init__(s, default="compressedLog"):
        s.level = 3
        s.file = default
        s.files = {default: [[]]}       # file -> executions -> messages (thread, level, text)
        s.count = 0

    def log(s, k, site, serial, ln):
        if site % 5 > s.level:
            return False
        s.files[s.file][-1].append((k, LEVELS[site % 5], text(site, serial, ln).encode()))
        s.count += 1
        return True

    def set_level(s, v):
        s.level = max(0, min(4, v))

    def switch(s, f):
        s.file = f
        s.files.setdefault(f, []).append([])


def builds(c, which="17,pre", flags=("-O2", "-g"), small=True, suffix=""):
    """hist in both flavours; returns {flavour: (app, dec)}."""
    defs = stress.size_defs(4096, 32768, False) if small else []
    specs, names = [], []
    if "17" in which:
        specs.append(dict(name="h17" + suffix, user_srcs=[HARNESS + "/hist.cc"], flags=list(flags), defs=defs))
        names.append("17")
    if "pre" in which:
        pd = c.dir + "/hpre" + suffix
        os.makedirs(pd)
        shutil.copy(HARNESS + "/hist.cc", pd + "/hist.cc")
        c.pp(pd, "hist.cc", flags=["-D" + x for x in defs], std="c++17")
        c.pp_combine(pd, ["hist.cc"])
        c.cc([["g++", "-std=c++17", *flags, "-I", RT, "-c", pd + "/hist.cc.ii", "-o", pd + "/hist_pp.o"]])
        specs.append(dict(name="hp" + suffix, user_srcs=[pd + "/hist_pp.o"], flags=list(flags), pre=True, defs=defs, gen=pd + "/GeneratedCode.cc"))
        names.append("pre")
    return dict(zip(names, c.build_many(specs)))


def execute(app, d, ops, timeout=60, env=None, uid=None):
    os.makedirs(d, exist_ok=True)
    open(d + "/script", "w").write("\n".join(ops) + "\n")
    cmd = [app, d + "/script"]
    if uid:
        cmd = ["setpriv", f"--reuid={uid}", f"--regid={uid}", "--clear-groups"] + cmd
    r = run(cmd, cwd=d, env={**SAN_ENV, **(env or {})}, timeout=timeout)
    rep = {}
    for ln in r.out.decode("latin1").split("\n"):
        if ln.startswith("R "):
            v = ln.split()
            rep[int(v[1])] = v[2:]
    return r, rep


def judge_file(c, dec, path, execs, cmd="decompressUnordered"):
    """Decodes path and compares with the model's executions (empty ones are not told apart from absent ones)."""
    q = stress.decode_file(c, dec, path, cmd)
    if q.timed_out or q.rc or q.crashed:
        return f"{cmd} {os.path.basename(path)}: rc={q.rc} timeout={q.timed_out} {q.err[-400:]}", None
    ex, bad, cnt = decode.parse(q.out)
    if bad:
        return f"{cmd} {os.path.basename(path)}: stray output {bad[:2]}", ex
    got = [e for e in ex if e]
    want = [e for e in execs if e]
    if len(got) != len(want):
        return f"{os.path.basename(path)}: {len(got)} executions with messages decoded, {len(want)} logged ({[len(e) for e in got]} vs {[len(e) for e in want]})", ex
    if cnt != sum(map(len, want)):
        return f"{os.path.basename(path)}: announced {cnt} messages, logged {sum(map(len, want))}", ex
    for n, (g, w) in enumerate(zip(got, want)):
        tid2k, k2tid = {}, {}
        per = {}
        for k, lv, tx in w:
            per.setdefault(k, []).append((lv, tx))
        seq = {}
        for m in g:
            seq.setdefault(m.tid, []).append((m.level, m.text))
        left = dict(per)
        for tid, s in seq.items():
            k = next((k for k, v in left.items() if v == s), None)
            if k is None:
                # explain
                allw = [x for v in per.values() for x in v]
                extra = [x for x in s if x not in allw]
                return (f"{os.path.basename(path)} execution {n}: thread {tid} printed {len(s)} messages that are no thread's logged sequence; "
                        + (f"never logged here: {extra[:2]}" if extra else f"first: {s[:2]}; logged per thread: { {k: (len(v), v[:1]) for k, v in per.items()} }")), ex
            del left[k]
        if left:
            k = next(iter(left))
            return f"{os.path.basename(path)} execution {n}: messages of thread {k} missing: {left[k][:2]}", ex
    return None, ex
