"""Requests (sync, setLogFile, process exit) made while other threads never
stop logging; see harness/steady.cc."""
import re, shutil, struct
from vlib import *
import stress

MAXW, MAXS = 32, 400
SNAP = struct.Struct("<QII" + "I" * (2 * MAXW))
CFG = dict(a=(4096, 32768, True), b=(2048, 8192, False), c=(65536, 1 << 20, True), d=None)


def builds(c, which):
    specs = []
    for nm in which:
        if CFG[nm]:
            s, o, pts = CFG[nm]
            specs.append(dict(name="y" + nm, user_srcs=[HARNESS + "/steady.cc", HARNESS + "/aioshim.cc", HARNESS + "/points.cc"],
                              flags=["-O2", "-g"], defs=stress.size_defs(s, o, pts)))
        else:
            specs.append(dict(name="yd", user_srcs=[HARNESS + "/steady.cc"], flags=["-O3", "-g"]))
    return dict(zip(which, c.build_many(specs)))


def params(rnd, nm, switch):
    p = dict(SEED=rnd.randrange(1, 1 << 30), THREADS=rnd.choice([1, 2, 3, 4, 6]), GAP=rnd.choice([0, 100, 300, 1000, 3000, 10000]),
             PAD=rnd.choice([0, 0, 20, 200]), OPS=rnd.choice([4, 8]), REST_US=rnd.choice([0, 100, 2000]),
             SYNCERS=rnd.choice([0, 0, 1, 3]), MULTI=rnd.choice([0, 1, 3, 7]), SWITCHPM=rnd.choice([300, 700, 1000]) if switch else 0, EXIT=rnd.randrange(2))
    if nm == "d":
        p["GAP"] = max(p["GAP"], 300)
    p["GROW"] = 200000000 if nm == "d" else 30000000     # far beyond what the buffers hold
    if switch:
        p["MULTI"] = 0
    if p["SYNCERS"] and switch:
        p["SYNCERS"] = 0                       # setLogFile is not called along with other control calls
    if p["EXIT"]:
        p["SYNCERS"] = 0
    env = dict(VP_SEED=p["SEED"], VP_PROFILE=rnd.choice(stress.PROFILES[:8] + ["", ""]), AIO_SEED=p["SEED"],
               AIO_DELAY_US=rnd.choice([0, 0, 0, 300, 2000]), AIO_DELAY_PCT=rnd.choice([10, 50, 100]))
    return p, env


def load(d):
    b = open(d + "/shared", "rb").read()
    st = struct.unpack_from(f"<{MAXW}I", b, 0)
    co = struct.unpack_from(f"<{MAXW}I", b, 4 * MAXW)
    ns, starved, fin = struct.unpack_from("<3I", b, 8 * MAXW)
    off = (8 * MAXW + 12 + 7) // 8 * 8
    wait, grow = struct.unpack_from("<QQ", b, off)
    off += 16
    sn = []
    for k in range(min(ns, MAXS)):
        v = SNAP.unpack_from(b, off + k * SNAP.size)
        sn.append(dict(fsize=v[0], kind=v[1], file=v[2], before=v[3:3 + MAXW], after=v[3 + MAXW:]))
    return dict(started=st, completed=co, starved=starved, finished=fin, snaps=sn, wait_us=wait, growth=grow)


LINE = re.compile(rb"^[^\n]*?: S (\d+) (\d+)(?: ([a-z]*))?\r?$", re.M)
FILL = (b"abcdefghijklmnopqrstuvwxyz" * 154)[:4000]


def decode(c, dec, path, pad):
    """-> ({worker: [indexes]}, error)"""
    q = stress.decode_file(c, dec, path, "decompressUnordered", timeout=200)
    if q.rc or q.timed_out:
        return None, f"decoding failed: rc={q.rc} {q.err[:300]}"
    got = {}
    n = 0
    for m in LINE.finditer(q.out):
        w, i = int(m[1]), int(m[2])
        if pad:
            k = (i * 7 + w) % pad
            if (m[3] or b"") != (FILL[4000 - k:] if k else b""):
                return None, f"altered contents: {m[0][-200:]!r}"
        got.setdefault(w, []).append(i)
        n += 1
    stray = [l for l in q.out.split(b"\n") if l and not l.startswith(b"#") and not LINE.match(l)] if q.out.count(b": S ") != n else []
    if stray:
        return None, f"unexpected output {stray[:2]}"
    return got, None


def one(c, app, dec, p, env, d, timeout=150):
    """-> dict(err=None or (kind, text), judged=n, ...)"""
    r = None
    for attempt in (0, 1):
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        r = run([app, d], cwd=d, env={**SAN_ENV, **{"S_" + k: v for k, v in p.items()}, **env}, timeout=timeout)
        if r.rc == 0 and not r.timed_out:
            break
        if not (r.timed_out or b"STARVED" in r.out):
            return dict(err=("crash", f"workload exited with {r.rc}: {r.err[-800:]}"), judged=0)
    if r.rc or r.timed_out:
        return dict(err=("starved", f"a request did not complete, twice: {r.out[-200:]!r}"), judged=0)
    sh = load(d)
    files = []
    for f in range(sh["snaps"][-1]["file"] + 1):
        if not os.path.exists(f"{d}/log.{f}") or not os.path.getsize(f"{d}/log.{f}"):
            files.append({})
            continue
        g, e = decode(c, dec, f"{d}/log.{f}", p["PAD"])
        if e:
            return dict(err=("content", f"log file {f}: {e}"), judged=0)
        files.append(g)
    cum = {w: 0 for w in range(p["THREADS"])}
    ends = []
    for f, g in enumerate(files):
        for w in cum:
            seq = g.get(w, [])
            if seq != list(range(cum[w], cum[w] + len(seq))):
                k = next(i for i, x in enumerate(seq) if x != cum[w] + i)
                return dict(err=("order", f"log file {f}, worker {w}: message {cum[w] + k} expected, found {seq[k]}"), judged=0)
            cum[w] += len(seq)
        ends.append(dict(cum))
    judged = 0
    for s in sh["snaps"]:
        f = s["file"]
        if s["kind"] == 0 and s["fsize"] < os.path.getsize(f"{d}/log.{f}"):
            if os.path.getsize(f"{d}/log.{f}") > 20000000 and judged:
                judged += 1
                continue
            open(d + "/cut", "wb").write(open(f"{d}/log.{f}", "rb").read()[:s["fsize"]])
            g, e = decode(c, dec, d + "/cut", p["PAD"]) if s["fsize"] else ({}, None)
            if e:
                return dict(err=("content", f"first {s['fsize']} bytes of log file {f}: {e}"), judged=judged)
            have = {w: (ends[f - 1][w] if f else 0) + len(g.get(w, [])) for w in cum}
        else:
            have = ends[f]
        what = ["sync()", "setLogFile()", "process exit"][s["kind"]]
        for w in cum:
            if have[w] < s["before"][w]:
                return dict(err=("lost", f"{what}: worker {w} had completed {s['before'][w]} messages, the log up to then holds {have[w]}"), judged=judged)
            if s["kind"] == 1 and ends[f][w] > s["after"][w]:
                return dict(err=("late", f"setLogFile(): worker {w} had started {s['after'][w]} messages by the return, but {ends[f][w]} went to the previous file"),
                            judged=judged)
        judged += 1
    return dict(err=None, judged=judged, wait_us=sh["wait_us"], growth=sh["growth"], total=sum(cum.values()),
                switches=len(files) - 1, sizes=[s["fsize"] for s in sh["snaps"]])


def scenario(c, rnd, n, switch, which=("a", "b", "c", "d")):
    bs = builds(c, which)
    jobs = []
    for i in range(n):
        nm = which[i % len(which)]
        p, env = params(rnd, nm, switch)
        jobs.append((i, nm, p, env))

    def go(j):
        i, nm, p, env = j
        if c.stop:
            return j, None
        app, dec = bs[nm]
        d = f"{c.dir}/y{i}"
        res = one(c, app, dec, p, env, d)
        shutil.rmtree(d, ignore_errors=True)
        return j, res
    for (i, nm, p, env), res in pmap(go, jobs, workers=3):
        if not res:
            continue
        key = f"steady build={nm} params={json.dumps(p)} env={json.dumps(env)}"
        c.ev(res["judged"])
        if res["err"]:
            c.violation(res["err"][0] + " " + key, res["err"][1])
            continue
        for k, z in enumerate(res["sizes"]):
            c.nontrivial(("steady", i, k, z))
        c.count("requests_under_steady_logging", res["judged"])
        c.count("messages_under_steady_logging", res["total"])
        c.cov["longest_request_us"] = max(c.cov.get("longest_request_us", 0), res["wait_us"])
        c.cov["largest_growth_during_a_request"] = max(c.cov.get("largest_growth_during_a_request", 0), res["growth"])
