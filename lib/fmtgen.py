"""Random generator of log statements over the printf grammar."""
import random

INT = {  # length -> (signed type, unsigned type)
    "": ("int", "unsigned int"), "hh": ("signed char", "unsigned char"), "h": ("short", "unsigned short"),
    "l": ("long", "unsigned long"), "ll": ("long long", "unsigned long long"), "j": ("intmax_t", "uintmax_t"),
    "z": ("ssize_t", "size_t"), "t": ("ptrdiff_t", "ptrdiff_t")}
LIT = ["", " ", "a", "abc ", ": ", ", ", "%%", "%%%%", "x%%y", "100%% ", "{}", "[", "]", "\\n", "\\t", "\\\\", "\\\\%%",
       "\\\"", "\\\\\\\\", "'", "\\r\\n", "#New", " =", "\\x41 ", "\\101", "d", "s", "0x", "-", "*", ".", "ll", "%%d", "%%s",
       "\xc3\xa9", "// no comment", "/* no */", ";", "(", ")", "\\?", "$", "a\\0b"]


def cstr_lit(rnd, cpp17, extra=None):
    while True:
        s = rnd.choice(LIT)
        if s == "a\\0b":
            continue
        return s


class Stmt:
    __slots__ = ("fmt", "decls", "args", "level", "kinds", "typed")


def spec(rnd, st, n, opts):
    """Appends one conversion; returns format text."""
    i = len(st.decls)
    conv = rnd.choice(opts.get("convs", "dddiuuxXoffeEgGaAFccssssppS"))
    flags = ""
    width = prec = ""
    if rnd.random() < .4:
        allowed = {"d": "-+ 0", "i": "-+ 0", "u": "-0", "x": "-#0", "X": "-#0", "o": "-#0", "c": "-", "s": "-", "S": "-", "p": "-"}.get(conv, "-+ #0")
        flags = "".join(rnd.choice(allowed) for _ in range(rnd.randint(1, 2)))
    r = rnd.random()
    args = []
    if r < .15:
        width = str(rnd.choice([1, 2, 5, 10, 17, 40, 200]))
    elif r < .3 and opts.get("dyn", True):
        width = "*"
        st.decls.append(f"int w{i} = {opts.get('vwidth', 'vwidth(r)')};")
        args.append(f"w{i}")
    r = rnd.random()
    if conv not in "cp":
        if r < .2:
            prec = "." + str(rnd.choice([0, 1, 3, 7, 12, 30]))
        elif r < .35 and opts.get("dyn", True):
            prec = ".*"
            st.decls.append(f"int p{i} = {opts.get('vprec', 'vprec(r)')};")
            args.append(f"p{i}")
        elif r < .38 and opts.get("bareprec", True):
            prec = "."
    length = ""
    k = conv
    if conv in "di":
        length = rnd.choice(list(INT))
        t = INT[length][0]
        if length == "" and rnd.random() < .35 and opts.get("promote", True):
            t = rnd.choice(["char", "short", "bool", "unsigned char", "unsigned short", "signed char", "PlainEnum", "SmallEnum", "wchar_t"])
        if length in ("h", "hh") and rnd.random() < .4 and opts.get("promote", True):
            t = "int"
        v = {"bool": "(bool)(r.next() & 1)", "PlainEnum": "venum(r)", "SmallEnum": "(r.below(2) ? SE_A : SE_B)"}.get(t, f"vint<{t}>(r)")
        st.decls.append(f"{t} a{i} = {v};")
        k = length + conv + ":" + t
    elif conv in "uxXo":
        length = rnd.choice(list(INT))
        t = INT[length][1]
        if length == "" and rnd.random() < .3 and opts.get("promote", True):
            t = rnd.choice(["unsigned char", "unsigned short", "char", "short"])
        if length in ("h", "hh") and rnd.random() < .4 and opts.get("promote", True):
            t = rnd.choice(["int", "unsigned int"])
        st.decls.append(f"{t} a{i} = vint<{t}>(r);")
        k = length + conv + ":" + t
    elif conv in "fFeEgGaA":
        if rnd.random() < .25:
            length, t = "L", "long double"
        elif rnd.random() < .3:
            length, t = "l", "double"
        elif rnd.random() < .3 and opts.get("promote", True):
            t = "float"
        else:
            t = "double"
        st.decls.append(f"{t} a{i} = vflt<{t}>(r);")
        k = length + conv + ":" + t
    elif conv == "c":
        t = rnd.choice(["int", "char", "unsigned char"]) if opts.get("promote", True) else "int"
        if opts.get("wide", True) and rnd.random() < .2:
            t, length = "wint_t", "l"
            st.decls.append(f"wint_t a{i} = (wint_t)(32 + r.below(95));")
        else:
            st.decls.append(f"{t} a{i} = ({t})r.below(r.below(4) ? 128 : 70000);")
        k = length + "c:" + t
    elif conv == "s":
        t = rnd.choice(["const char *", "char *"])
        pv = f"p{i}" if prec == ".*" else (prec[1:] or "0") if prec else "-1"
        st.decls.append(f"Str s{i}(r, -1, {pv}); {t}a{i} = s{i}.p;")
        if rnd.random() < .15:
            k = "s:array"
            st.decls[-1] = f"char a{i}[24]; {{ Str q(r, (long)r.below(24)); strcpy(a{i}, q.p); }}"
        else:
            k = "s:" + t
    elif conv == "S":
        conv, length = "s", "l"
        if not opts.get("wide", True):
            length = ""
            st.decls.append(f"Str s{i}(r); const char *a{i} = s{i}.p;")
        else:
            pv = f"p{i}" if prec == ".*" else (prec[1:] or "0") if prec else "-1"
            st.decls.append(f"WStr s{i}(r, {pv}); const wchar_t *a{i} = s{i}.p;")
            k = "ls"
    elif conv == "p":
        t = rnd.choice(["void *", "const void *", "int *", "const char *"]) if opts.get("promote", True) else "const void *"
        st.decls.append(f"{t} a{i} = ({t})(uintptr_t)vint<uint64_t>(r);")
        k = "p:" + t
    st.decls.append("")  # keep indices unique
    args.append(f"a{i}")
    st.args += args
    st.typed.append(("str" if k[0] == "s" else "wstr" if k == "ls" else "val", t if k != "ls" else "const wchar_t *", f"a{i}",
                     (f"p{i}" if prec == ".*" else (prec[1:] or "0") if prec else "-1")))
    st.kinds.append((flags, "*" if width == "*" else bool(width), prec if prec in ("", ".*", ".") else "N", k))
    return "%" + flags + width + prec + length + conv


def statement(rnd, opts=None):
    opts = opts or {}
    st = Stmt()
    st.decls, st.args, st.kinds, st.typed = [], [], [], []
    st.level = rnd.choice(["DEBUG", "NOTICE", "WARNING", "ERROR"])
    r = rnd.random()
    n = 0 if r < .08 else rnd.randint(1, 4) if r < .7 else rnd.randint(4, 12) if r < .95 else rnd.randint(12, 40) if r < .997 else rnd.randint(60, 120)
    n = min(n, opts.get("maxargs", 99))
    parts = []
    lits = opts.get("lits", LIT)
    for _ in range(rnd.randint(0, 3)):
        parts.append(rnd.choice(lits))
    for _ in range(n):
        parts.append(spec(rnd, st, n, opts))
        for _ in range(rnd.choice([0, 0, 1, 1, 2])):
            parts.append(rnd.choice(lits))
    # avoid accidental escape/hex merges: "\\x41" followed by hex digit, octal followed by digit
    out = ""
    for p in parts:
        if (out.endswith("\\x41") or out.endswith("\\101")) and p:
            out += " "
        out += p
    if "\\0" in out:
        out = out.replace("\\0b", "")
    st.fmt = out.replace("a\\0b", "ab")
    return st


def function(st, name, macro="NANO_LOG"):
    """One statement per physical line, so that __LINE__ agrees."""
    args = "".join(", " + a for a in st.args)
    dec = " ".join(d for d in st.decls if d)
    lvl = st.level
    return (f'static void {name}(Rng &r) {{ {dec} '
            f'expectText(__LINE__, "{lvl}", "{st.fmt}"{args}); {macro}({lvl}, "{st.fmt}"{args}); }}\n')


def typed_function(st, name):
    """Logs the statement and records its argument values; name##r reads them back from a decoded message."""
    args = "".join(", " + a for a in st.args)
    dec = " ".join(d for d in st.decls if d)
    rec = "".join(f" canonStr(a, {v}, {p});" if k != "val" else "" if t == "long double" else f" canon<{t}>(a, {v});" for k, t, v, p in st.typed)
    rd = "".join(f" canonStr(a, m.get<{'const char *' if k == 'str' else t}>({n}), -1);" if k != "val"
                 else "" if t == "long double" else f" canon<{t}>(a, m.get<{t}>({n}));" for n, (k, t, v, p) in enumerate(st.typed))
    return (f'static void {name}(Rng &r) {{ {dec} std::string a;{rec} '
            f'expectText(__LINE__, "{st.level}", "{st.fmt}"{args}); uint64_t t0 = tick(); NANO_LOG({st.level}, "{st.fmt}"{args}); argsOut(a, t0, tick()); }}\n'
            f'static void {name}r(NanoLogInternal::Log::LogMessage &m) {{ std::string a;{rd} argsCheck("{name}", m, a, {len(st.typed)}, {1 if any(t == "long double" for _, t, _, _ in st.typed) else 0}); }}\n')


def tu(rnd, idx, nstmts, reps, opts=None, header='#include "NanoLogCpp17.h"'):
    out = [header + '\n#include "fmtgen.h"\nusing namespace NanoLog::LogLevels;\n#define IGN\n']
    sts = []
    for k in range(nstmts):
        st = statement(rnd, opts)
        if k >= nstmts - 2 and (opts or {}).get("big", True):
            # formats around and far beyond the sizes of the decoder's first buffers
            n = rnd.choice([1020, 1030, 4090, 8190, 10230, 10250, 12000, 16380, 30000, 60000])
            st.fmt = "<" + "".join(rnd.choice("abcdefgh ijklmnop,.;:_") for _ in range(n)) + ">" + st.fmt
        sts.append(st)
        out.append(function(st, f"f{k}"))
    out.append(f"typedef void (*Fn)(Rng &);\nstatic Fn fns[] = {{" + ",".join(f"f{k}" for k in range(nstmts)) + "};\n")
    out.append(f"void runTU{idx}(uint64_t seed) {{ Rng r(seed); for (int q = 0; q < {reps}; ++q) for (int k = 0; k < {nstmts}; ++k) fns[k](r); }}\n")
    return "".join(out), sts


def main_src(ntus, header='#include "NanoLogCpp17.h"'):
    s = header + '\n#include "fmtgen.h"\nFILE *sideFile; long sideCount;\n'
    s += "".join(f"void runTU{i}(uint64_t);\n" for i in range(ntus))
    s += '''int main(int argc, char **argv) {
    uint64_t seed = strtoull(argv[1], 0, 10);
    NanoLog::setLogFile("./log"); NanoLog::setLogLevel(NanoLog::LogLevels::DEBUG);
    sideFile = fopen("./side", "wb");
'''
    s += "".join(f"    fprintf(sideFile, \"TU {i}\\n\"); runTU{i}(seed + {i});\n" for i in range(ntus))
    s += '''    fclose(sideFile); NanoLog::sync(); return 0; }
'''
    return s


def read_side(path, filename=lambda i: None):
    """Yields (tu, line, level, text)."""
    b = open(path, "rb").read()
    p, tu_i, out = 0, None, []
    while p < len(b):
        e = b.index(b"\n", p)
        h = b[p:e].split()
        p = e + 1
        if h[0] == b"TU":
            tu_i = int(h[1])
            continue
        n = int(h[2])
        out.append((tu_i, int(h[0]), h[1], b[p:p + n]))
        p += n + 1
    return out
