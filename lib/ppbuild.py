"""Building programs through the preprocessor and exact comparison of a single-threaded log."""
import re
from vlib import *

TS = re.compile(rb"\d{4}-\d\d-\d\d \d\d:\d\d:\d\d\.\d{9} ")
PENV = {"PYTHONDONTWRITEBYTECODE": "1", "LC_ALL": "C.UTF-8", "PYTHONWARNINGS": "ignore"}


def read_side(path):
    b, p, out = open(path, "rb").read(), 0, []
    while p < len(b):
        e = b.index(b"\n", p)
        f, l, lv, n = b[p:e].split(b"\t")
        p = e + 1
        out.append((f, int(l), lv, b[p:p + int(n)]))
        p += int(n) + 1
    return out


def judge(out, side, same, base=False):
    """Exact sequential comparison of the decompressed log with the reference; (messages matched, error)."""
    p = 0
    for n, (f, l, lv, text) in enumerate(side):
        m = TS.match(out, p)
        q = out.find(b"]: ", p)
        h = re.fullmatch(rb"(.*):(\d+) (\w+)\[\d+", out[m.end():q]) if m and q > 0 else None
        if not h:
            return n, f"message {n}: expected {f.decode()}:{l} {lv.decode()} {text[:120]!r}, decoded {out[p:p + 200]!r}"
        if (h.group(1).rsplit(b"/", 1)[-1] if base else h.group(1)) != f or h.group(3) != lv or not same(f.decode(), l, int(h.group(2))):
            return n, f"message {n} {text[:120]!r}: expected context {f.decode()}:{l} {lv.decode()}, decoded {out[m.end():q].decode()}"
        q += 3
        if not out.startswith(text + b"\r\n", q):
            i = 0
            while i < len(text) and q + i < len(out) and text[i] == out[q + i]:
                i += 1
            return n, f"message {n} of {f.decode()}:{l}: text differs from printf at byte {i}:\n  printf : {text[max(0, i - 60):i + 160]!r}\n  decoded: {out[max(0, q + i - 60):q + i + 160]!r}"
        p = q + len(text) + 2
    tail = out[p:]
    if not re.fullmatch(rb"\r\n\r\n# Decompression Complete after printing %d log messages\r\n" % len(side), tail):
        return len(side), f"unexpected output after the last message: {tail[:300]!r}"
    return len(side), None


def preprocess(d, f, extra=(), flags=("-O0",)):
    """cpp + parser.py + compile of one source; returns error or None."""
    r = run(["g++", "-E", "-include", "array", "-I", RT, "-std=gnu++17", "-DPREPROCESSOR_NANOLOG", *extra, f, "-o", f + ".i"], cwd=d, timeout=120)
    if r.rc:
        raise Inconclusive("cpp: " + r.err[-1500:])
    r = run(["python3", REPO + "/preprocessor/parser.py", f"--mapOutput={f}.map", f + ".i"], cwd=d, timeout=120, env=PENV)
    if r.rc or r.timed_out:
        return f"the preprocessor does not accept {f}: {r.out.decode('latin1')[-1500:]} {r.err[-800:]}"
    r = run(["g++", "-std=gnu++17", *flags, "-w", "-I", RT, *extra, "-c", f + ".ii", "-o", f + ".o"], cwd=d, timeout=300)
    if r.rc:
        return f"rewritten {f} does not compile: " + "\n".join(x for x in r.err.split("\n") if "error" in x)[:1500]
    return None


def combine(d, files, flags=("-O0",), defs=()):
    """Merges the maps of files and compiles the result to gen.o; returns error or None."""
    r = run(["python3", REPO + "/preprocessor/parser.py", "--combinedOutput=GeneratedCode.cc", *[f + ".map" for f in files]], cwd=d, timeout=120, env=PENV)
    if r.rc:
        return f"combining the maps failed: {r.out.decode('latin1')[-500:]} {r.err[-800:]}"
    r = run(["g++", "-std=c++11", *flags, "-w", "-DPREPROCESSOR_NANOLOG", *["-D" + x for x in defs], "-I", RT, "-c", "GeneratedCode.cc", "-o", "gen.o"], cwd=d, timeout=300)
    if r.rc:
        return "GeneratedCode.cc does not compile: " + "\n".join(x for x in r.err.split("\n") if "error" in x)[:1500]
    return None
