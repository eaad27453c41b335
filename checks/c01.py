#!/usr/bin/env python3
import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *
import fmtgen, decode, random

TS = re.compile(rb"\d{4}-\d\d-\d\d \d\d:\d\d:\d\d\.\d{9} ")
DEEP = 12


def judge(out, side, files):
    """Sequential exact match of the decompressor's output; returns (n matched, error)."""
    p = 0
    for n, (tu, line, level, text) in enumerate(side):
        m = TS.match(out, p)
        want = b"%s:%d %s[" % (files[tu].encode(), line, level)
        if not m or not out.startswith(want, m.end()):
            return n, f"message {n} of {files[tu]}:{line}: expected header {want!r}, decoded {out[p:p + 200]!r}", (tu, line)
        q = out.find(b"]: ", m.end() + len(want)) + 3
        if not out.startswith(text + b"\r\n", q):
            i = 0
            while i < len(text) and q + i < len(out) and text[i] == out[q + i]:
                i += 1
            return n, (f"message {n} of {files[tu]}:{line}: text differs from printf at byte {i} of {len(text)}:\n"
                       f"  printf : {text[max(0, i - 60):i + 160]!r}\n  decoded: {out[max(0, q + i - 60):q + i + 160]!r}"), (tu, line)
        p = q + len(text) + 2
    tail = out[p:]
    if not re.fullmatch(rb"\r\n\r\n# Decompression Complete after printing %d log messages\r\n" % len(side), tail) and tail.strip():
        return len(side), f"unexpected output after the last message: {tail[:200]!r}", None
    return len(side), None, None


def body(c):
    c.cov["rule"] = ("one evaluation = one executed log statement whose decoded text was compared byte for byte with "
                     "vsnprintf of the same format and arguments; distinct = different (conversion, flags, width/precision "
                     "form, argument type) shapes")
    rnd = random.Random(c.seed * 101 + 1)
    ntu, per, reps = c.n(8, 28), c.n(110, 150), c.n(25, 80)
    srcs, stmts = [], []
    for i in range(ntu):
        s, sts = fmtgen.tu(rnd, i, per, reps)
        f = f"{c.dir}/tu{i}.cc"
        open(f, "w", encoding="utf8").write(s)
        srcs.append(f)
        stmts.append(sts)
    shutil.copy(HARNESS + "/exotic.cc", f"{c.dir}/exotic.cc")
    srcs.append(f"{c.dir}/exotic.cc")
    main = fmtgen.main_src(ntu).replace("int main", "void runTUX(uint64_t);\nint main").replace(
        "    fclose(sideFile)", f'    fprintf(sideFile, "TU {ntu}\\n"); runTUX(seed + 77);\n    fclose(sideFile)')
    open(f"{c.dir}/main.cc", "w").write(main)
    try:
        app, dec = c.build("f", srcs + [f"{c.dir}/main.cc"], flags=["-O1", "-w", "-g0"])
    except BuildError as e:
        # the statements are valid: a compiler error in them is a violation, anything else no answer
        if not re.search(r"-c \S*/tu\d+\.cc ", str(e).split("\n")[0]) or not re.search(r"tu\d+\.cc:\d+", str(e)) or re.search("Killed|internal compiler error", str(e)):
            raise
        err = [x for x in str(e).split("\n")[1:] if re.search(r"tu\d+\.cc:\d+|error", x)]
        c.violation("compilation", "valid log statements do not compile: " + " | ".join(err[:3])[:1500], str(e)[:6000])
        return

    def one(seed):
        d = f"{c.dir}/r{seed}"
        os.makedirs(d)
        r = run([app, str(seed)], cwd=d, timeout=300)
        if r.timed_out or r.rc != 0:
            return seed, r, None, []
        side = fmtgen.read_side(d + "/side")
        res = []
        for mode in ("decompress", "decompressUnordered"):
            q = run([dec, mode, d + "/log"], timeout=300)
            res.append((mode, q, *judge(q.out, side, srcs)))
        shutil.rmtree(d)
        return seed, r, len(side), res

    for seed, r, n, res in pmap(one, [c.seed * 1000 + k for k in range(c.n(3, 12))], workers=4):
        if n is None:
            c.violation(f"run seed={seed}", f"program logging well-formed statements ended with {r.rc} timeout={r.timed_out}: {r.err[-800:]}")
            continue
        for mode, q, done, err, where in res:
            c.ev(done)
            if q.timed_out or q.rc != 0:
                c.violation(f"decoder {mode}", f"decompressor ended with {q.rc} timeout={q.timed_out}: {q.err[-800:]} {err or ''}")
            elif err:
                st = ""
                if where:
                    st = open(srcs[where[0]], encoding="utf8").read().split("\n")[where[1] - 1]
                    m = re.search(r'NANO_LOG\(\w+, (".*)\); }', st)
                    st = m.group(1) if m else st
                c.violation(f"text {mode} {st[:200]}", err + "\nstatement: " + st, st)
    for sts in stmts:
        for st in sts:
            for k in st.kinds:
                c.nontrivial(k)
    c.cov["statements"] = ntu * per
    c.sample([st.fmt for st in stmts[0][:6]])
    c.assumptions += ["C locale; wide strings and characters limited to ASCII", "formats, names and messages within documented limits",
                      "L modifier only on floating conversions (ISO C)"]


main("C01", body)
