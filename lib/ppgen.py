"""Generator of C++ sources with log statements in many layouts, for the preprocessor front end."""
import random, re

LV = ["ERROR", "WARNING", "NOTICE", "DEBUG"]


def flat(s):
    """A statement on one line."""
    s = re.sub(r"// comment, with \) \" stuff\n", "", s)
    return s.replace("\\\n", "").replace("\n", " ")


class PP:
    def __init__(g, rnd, d, nfiles, nfuncs, opts=()):
        g.r, g.d, g.k, g.f = rnd, d, 0, 0
        g.opts = set(opts)
        g.ranges = {}          # file -> [(lo, hi)] of multi-line statements
        g.files, g.fns = [], []
        g.heads = []
        for h in range(2):
            g.mkheader(h)
        for u in range(nfiles):
            g.mkfile(u, nfuncs)

    # ---- identifiers
    def ev(g):
        g.k += 1
        return g.k

    def fn(g):
        g.f += 1
        return g.f

    # ---- argument expressions -> source text
    def iarg(g, depth=0):
        r = g.r
        e = g.ev
        c = ["ev({0})", "ev({0}) + ev({1})", "(ev({0}), ev({1}))", "add(ev({0}), ev({1}))", "add( add(1, ev({0})), ev({1}) )", "Two<int,char>::v", "Two<int, long>::f(ev({0}), 3)",
             "std::pair<int, int>(ev({0}), 2).second", "Pt{{1, 2}}.y", "(Pt{{1, 2}})(ev({0}), 4)", "Pt{{ev({0}), 2}}[0]", "evb({0}) ? ev({1}) : -1", "std::max(ev({0}), 100)",
             "[&](int a, int b) {{ return a + b; }}(ev({0}), 2)", "[]{{ return 7; }}()", "(int)evd({0})", "static_cast<int>(ev({0}))", "ev({0}) < 3", "(ev({0}) < 3, 4 > ev({1}))",
             "'x'", "'\\''", "'\\\\'", "'\\n'", "ev({0}) == 'y'", "(int)sizeof(\"x),y(\")", "\"a,b)\\\"(\"[2]", "(int)strlen(\"\\\\\")", "ev({0}) /* , ) \" ' */", "/* NANO_LOG(NOTICE, \"no\"); */ ev({0})",
             "__LINE__ - __LINE__ + ev({0})", "(short)ev({0})", "!evb({0})", "~ev({0})", "-ev({0})", "ev({0})++ev({1})".replace("++", "+ +"), "1 ? ev({0}) : 0", "(*[](int x) {{ static int y; y = x; return &y; }}(ev({0})))",
             "std::vector<int>{{1, 2, ev({0})}}[2]", "(int)std::string(\"()\").size()", "({{ int q = ev({0}); q + 1; }})", "int(ev({0}))", "int{{ev({0})}}", "0x1F + ev({0})", "true", "ARG2(ev({0}), ev({1}))", "ONE"]
        if "chars" in g.opts:
            c += ["')'", "'('", "','", "'\"'", "'{{'", "'}}'", "'['", "']'", "ev({0}) + ')'", "add(',', ev({0}))", "'\"' + '\"'", "add('\"', '(')", "L'\"'", "';'", "'#'", "1'000 + ev({0})", "(0x1'0 + 1'0'0)", "Two<int,char>::v + ','"]
        s = r.choice(c)
        n = 2 if "{1}" in s else 1 if "{0}" in s else 0
        return s.format(*[e() for _ in range(n)])

    def sarg(g):
        r = g.r
        s = r.choice(["evs({0})", "evb({0}) ? \"yes, no\" : \")(\"", "\"lit\"", "\"a\" \"b\"", "std::string(evs({0})).c_str()", "(\"x,y\" + 0)", "&\"abc\"[1]", "(const char *)evs({0})", "\"back\\\\\"", "\"quo\\\"te\"",
                      "std::string(3, '*').c_str()", "[&]() -> const char * {{ return evs({0}); }}()", "\"NANO_LOG(NOTICE, \\\"hm\\\");\"", "\"\"", "__func__ ? evs({0}) : \"\"", "\"// no comment\"", "\"/* no */\""])
        return s.format(g.ev())

    # ---- format + args
    def spec(g):
        r = g.r
        fl = r.choice(["", "", "", "-", "+", "0", " ", "#"])
        k = r.random()
        if k < .5:
            t = r.choice(["d", "d", "i", "u", "x", "X", "o", "hd", "hhd", "hhu", "hu", "c"])
            if t == "c":
                return "%" + r.choice(["", "-", "5", "-3"]) + "c", ["32 + " + f"(ev({g.ev()}) & 63)"]
            if t[-1] in "di":
                fl = fl.replace("#", "")
            elif t[-1] == "u":
                fl = fl.replace("#", "").replace("+", "").replace(" ", "")
            else:
                fl = fl.replace("+", "").replace(" ", "")
            cast = {"u": "(unsigned)", "x": "(unsigned)", "X": "(unsigned)", "o": "(unsigned)"}.get(t, "")
            w = r.choice(["", "", "", "5", "*", "12"])
            p = r.choice(["", "", "", ".3", ".*"])
            a = []
            if w == "*":
                a.append(f"(int)(ev({g.ev()}) % 20)")
            if p == ".*":
                a.append(f"(int)(ev({g.ev()}) % 9)")
            x = g.iarg()
            return f"%{fl}{w}{p}{t}", a + [f"{cast}({x})" if cast else x]
        if k < .62:
            t, c = r.choice([("ld", "(long)"), ("lu", "(unsigned long)"), ("lld", "(long long)"), ("llx", "(unsigned long long)"), ("zu", "(size_t)"), ("zd", "(ssize_t)"), ("td", "(ptrdiff_t)"), ("jd", "(intmax_t)"), ("lx", "(unsigned long)")])
            return "%" + r.choice(["", "", "10", "-8", "020"]) + t, [f"{c}({g.iarg()})"]
        if k < .82:
            p = r.choice(["", "", "", ".2", ".0", ".*", "10", "-10", "*", "*.*", "-*.3", "4.2"])
            a = [f"(int)(ev({g.ev()}) % 15)" for _ in range(p.count("*"))]
            return f"%{p}s", a + [g.sarg()]
        if k < .87:
            p = r.choice(["", "", ".2", "8", "-8.3", ".*"] if "wide" in g.opts else ["", "8", "-9"])
            a = [f"(int)(ev({g.ev()}) % 15)" for _ in range(p.count("*"))]
            return f"%{p}ls", a + [f"evw({g.ev()})"]
        if k < .96:
            t = r.choice(["f", "e", "g", "a", "E", "lf", "G", "F"])
            return "%" + fl.replace("#", "") + r.choice(["", ".2", ".0", "9.3", "*.*"][:4]) + t, [r.choice([f"evd({g.ev()})", "0.5", "1e10", f"(float)evd({g.ev()})", ".5", "1.0 / 3"])]
        if k < .98:
            return "%Lf", [f"(long double)evd({g.ev()})"]
        return "%p", [f"(void *)(uintptr_t)(unsigned)ev({g.ev()})"]

    LITS = ["", " ", "a", "text ", ", ", ": ", "%%", "100%% ", "%%d ", "\\n", "\\t", "\\\\", "\\\"", "\\\\\\\"", "\\\\\\\\", "'", "\\'", "(", ")", "),", ");", "{", "}", "[", "#", "// ", "/* ", "NANO_LOG(", "\\x41 ", "\\101 ", "\\?", "\\a", "<>", "=", ";", "\\r\\n", "@$`", "\\\\n", "\\\\%%", "\\\\ "]

    def fmt(g, maxargs=5):
        """Returns (list of literal pieces, args)."""
        r = g.r
        pieces, args = [r.choice(["", "", f"s{g.ev()} "])], []
        for _ in range(r.choice([0, 0, 1, 1, 2, 3, maxargs])):
            if r.random() < .7:
                pieces.append(r.choice(g.LITS))
            f, a = g.spec()
            pieces.append(f); args += a
        if r.random() < .7:
            pieces.append(r.choice(g.LITS))
        if not "".join(pieces):
            pieces = ["x"]
        return pieces, args

    def literal(g, pieces):
        """The format argument's source text (adjacent literals, comments, line breaks...)."""
        r = g.r
        x = r.random()
        s = "".join(pieces)
        if x < .45 or len(pieces) < 2:
            out = f'"{s}"'
        else:
            seps = [" ", "", "\n        ", " /* c, \" ) */ ", " \\\n ", "\n", "\t"]
            out, cur = "", '"'
            for p in pieces:
                cur += p
                if r.random() < .4:
                    out += cur + '"' + r.choice(seps)
                    cur = '"'
            out += cur + '"'
        if "joins" in g.opts and r.random() < .08:
            out += r.choice([' "\\x1" "2"', ' "\\x41" "B"', ' "\\1" "2"', ' "\\\\x1" "2"', ' "\\12" "34"', ' "\\x4" "1%%"', ' "tail\\\\"', ' "a\\\\" "b"', ' "\\\\\\\\" "c"', ' "\\\\"'])
        if r.random() < .06:
            out += r.choice([' PRE_ " x"', " PRE_"])
        if r.random() < .04:
            i = r.randrange(1, len(out) - 1)
            while i < len(out) - 1 and (out[i - 1] in "\\ \n" or out[i] in "\\ \n"):
                i += 1
            if i < len(out) - 1:
                out = out[:i] + "\\\n" + out[i:]     # line continuation inside the literal or between tokens
        return out

    def stmt(g, level=None, nest=True):
        """A complete statement with its semicolon (may span lines)."""
        r = g.r
        pieces, args = g.fmt()
        lv = level or r.choice(LV)
        if r.random() < .08:
            lv = "NanoLog::LogLevels::" + lv
        elif r.random() < .05:
            lv = "M_" + lv
        lit = g.literal(pieces)
        if args and nest and "nest" in g.opts and r.random() < .05:
            inner = flat(g.stmt(nest=False)) if r.random() < .5 else g.stmt(nest=False)
            lit, args = '"nested %d"', [f"[&]{{ {inner} return ev({g.ev()}); }}()"]
        x = r.random()
        if x < .6:
            sep, op, cl = ", ", "(", ")"
        elif x < .75:
            sep, op, cl = r.choice([",", " , ", ",\t"]), r.choice(["(", " (", "( "]), r.choice([")", " )"])
        elif x < .9:
            sep, op, cl = ",\n        ", r.choice(["(", "(\n    ", "\n    ("]), r.choice([")", "\n    )"])
        else:
            sep, op, cl = r.choice([", // comment, with ) \" stuff\n    ", ", /* two\n lines */ ", ",\n\n", ", \\\n   "]), "(", ")"
            if "markers" in g.opts and r.random() < .5:
                sep = ", /*" + "\n" * r.randrange(6, 14) + "*/ "
        semi = r.choice([";", ";", ";", ";", " ;", "\n;" if x > .5 else ";"])
        return f"\x01NANO_LOG{op}{lv}{sep}{lit}" + "".join(sep + a for a in args) + cl + semi + "\x02"

    # ---- functions
    def body(g, hdr=False):
        """Function definition text; returns (text, call expression)."""
        r = g.r
        n = g.fn()
        S = g.stmt
        T = lambda: f"tr({g.ev()});"
        E = lambda: f"ev({g.ev()})"
        B = lambda: f"evb({g.ev()})"
        inl = "inline " if hdr else "static "
        k = r.randrange(38)
        name = f"fn{n}"
        call = f"{name}();"
        if k in (0, 1, 2, 3):
            b = f"{{\n    {T()} {S()}\n    {T()}\n}}"
        elif k == 4:
            b = "{ " + T() + " " + " ".join(S() for _ in range(r.choice([2, 3, 5]))) + " " + T() + " }"
        elif k == 5:
            b = f"{{\n    if ({B()})\n        {S()}\n    else\n        {S()}\n    {T()}\n}}"
        elif k == 6:
            b = f"{{ if ({B()}) {S()} else if ({B()}) {S()} else {S()} {T()} }}"
        elif k == 7:
            b = f"{{ if ({B()}) if ({B()}) {S()} else {S()} {T()} }}"
        elif k == 8:
            b = f"{{ for (int i = 0; i < 3; ++i)\n    {S()}\n  {T()} }}"
        elif k == 9:
            b = f"{{ int i = 0; while (i++ < 2) {S()} {T()} do {S()} while (i++ < 4); {T()} }}"
        elif k == 10:
            b = f"{{ switch ({E()} & 3) {{ case 0: {S()} case 1: {S()} break; case 2: {T()} {S()} break; default: {S()} }} {T()} }}"
        elif k == 11:
            b = f"{{ auto l = [&](int a) {{ {T()} {S()} return a; }}; {T()} l({E()}); l(2); }}"
        elif k == 12:
            b = f"{{ std::function<void(int)> f = [&](int n) {{ {S()} if (n) f(n - 1); }}; f(2); }}"
        elif k == 13:
            b = f"{{ try {{ {S()} if ({B()}) throw {E()}; {S()} }} catch (int e) {{ {S()} tr(e); }} {T()} }}"
        elif k == 14:
            pre = f"template<class X> {inl if not hdr else ''}void t{n}(X x) {{\n    {S()} tr((int)sizeof x);\n}}\n"
            return pre + f"{inl}void {name}() {{ t{n}(1); t{n}('c'); t{n}(2.5); }}\n", call
        elif k == 15:
            pre = f"struct C{n} {{ int m; C{n}() : m({E()}) {{ {S()} }} ~C{n}() {{ {S()} }} int operator+(int o) {{ {S()} return m + o; }} static void st() {{ {S()} }} }};\n"
            return pre + f"{inl}void {name}() {{ {{ C{n} c; tr(c + 1); C{n}::st(); }} {T()} }}\n", call
        elif k == 16:
            pre = f"template<int N> struct D{n} {{ template<class Y> static void m(Y y) {{ {S()} tr((int)y + N); }} }};\n"
            return pre + f"{inl}void {name}() {{ D{n}<1>::m(3); D{n}<2>::m('a'); }}\n", call
        elif k == 17:
            st = flat(S())
            pre = f"#define MAC{n}(mx_) do {{ tr(mx_); {st} }} while (0)\n"
            return pre + f"{inl}void {name}() {{ MAC{n}({g.ev()}); if ({B()}) MAC{n}(1); else MAC{n}(2); }}\n", call
        elif k == 18:
            b = f"{{ int value = {E()}; LOGV(value); LOGV(value + 1); LOGX(DEBUG, \"%d %s\", value, \"va\"); LOGX(NOTICE, \"none\"); LOGL(WARNING, value, value * 2); }}"
        elif k == 19:
            pre = f"namespace ns{n} {{ namespace {{ inline void in() {{ {S()} }} }} }}\n"
            return pre + f"{inl}void {name}() {{ ns{n}::in(); {T()} }}\n", call
        elif k == 20:
            b = f"{{ std::string s = \"NANO_LOG(DEBUG, \\\"fake\\\");\"; tr((int)s.size()); {S()} }}"
        elif k == 21:
            b = f"{{ int MY_NANO_LOG = 1, NANO_LOG_COUNT = 2, NANO_LOGS = 3; tr(MY_NANO_LOG + NANO_LOG_COUNT + NANO_LOGS); {S()} }}"
        elif k == 22:
            if r.random() < .6:      # other identifiers that end alike
                nm = r.choice(["NNANO_LOG", "NNNANO_LOG", "NANONANO_LOG", "NAN_NANO_LOG", "ANANO_LOG", "nNANO_LOG", "NANO_NANO_LOG", "NANO_LNANO_LOG", "NANO_LOGNANO_LOG"])
                pre = f"struct x{n} {{ static int {nm}(int a) {{ return a + 1; }} }};\n"
                return pre + f"{inl}void {name}() {{ tr(x{n}::{nm}({E()})); {S()} tr(x{n}::{nm}(3)); }}\n", call
            pre = f"static int x{n}_NANO_LOG(int a) {{ return a + 1; }}\n" if not hdr else f"inline int x{n}_NANO_LOG(int a) {{ return a + 1; }}\n"
            return pre + f"{inl}void {name}() {{ tr(x{n}_NANO_LOG({E()})); {S()} tr(x{n}_NANO_LOG(3)); }}\n", call
        elif k == 23:
            b = f"{{ for (int i : {{1, 2}}) {{ {S()} tr(i); }} if (int q = {E()}; q > 2) {S()} else {S()} }}"
        elif k == 24:
            pre = f"{inl}int rec{n}(int d) {{ {S()} int v = d ? rec{n}(d - 1) : 0; {S()} return v + 1; }}\n"
            return pre + f"{inl}void {name}() {{ tr(rec{n}(3)); }}\n", call
        elif k == 25:
            b = f"{{ goto skip; again: {S()} tr(1); return; skip: {S()} goto again; }}"
        elif k == 26:
            b = f"{{ [](auto x) {{ {S()} tr((int)x); }}(3); [](auto... x) {{ {S()} tr((int)sizeof...(x)); }}(1, 'a'); }}"
        elif k == 27:
            b = f"{{ if constexpr (sizeof(int) == 4) {{ {S()} }} else {{ {S()} }} ;;{S()};; {T()} }}"
        elif k == 28:
            b = f"{{ {{{{{S()}}}}} {T()}{S()}{T()} }}"
        elif k == 29:
            b = f"{{\n#if 1\n    {S()}\n#else\n    {S()}\n#endif\n    {T()}\n#ifdef NOT_DEFINED\n    {S()}\n#endif\n}}"
        elif k == 30:
            b = f"{{ struct L {{ void m() {{ {S()} }} }} l; l.m(); {T()} }}"
        elif k == 31:
            b = f"{{ tr(({{ {S()} {E()}; }})); }}"
        elif k == 32:
            st = S()
            b = f"{{\n    {st} {T()} {flat(st)}\n}}"
        elif k == 33:
            # same text, different severities, one line
            p, a = g.fmt(2)
            s = "".join(p)
            b = "{ " + " ".join(f'NANO_LOG({lv}, "{s}"' + "".join(", " + x for x in a) + ");" for lv in (r.sample(LV, 2) if "sameline" in g.opts else [r.choice(LV)] * 2)) + " }"
            b = flat(b)
        elif k == 34:
            if "chars" in g.opts:
                b = f"{{ char q = '\"'; {S()} tr(q); if (q == '\"') {S()} q = '\\''; tr(q); {S()} }}"
            else:
                b = f"{{ char q = 'q'; {S()} tr(q); }}"
        elif k == 35:
            b = f"{{ const char *q = \"\\\"\"; {S()} tr(*q); q = \"\\\\\"; {S()} tr(*q); }}"
        elif k == 36:
            b = "{ " + S() + " }" + "\n" * r.choice([1, 9, 30])
        else:
            pre = f"struct V{n} {{ virtual void v() {{ {S()} }} virtual ~V{n}() {{ }} }}; struct W{n} final : V{n} {{ void v() override {{ V{n}::v(); {S()} }} }};\n"
            return pre + f"{inl}void {name}() {{ W{n} w; V{n} &x = w; x.v(); }}\n", call
        return f"{inl}void {name}() {b}\n", call

    PRO = ("#define PRE_ \"%%pre%%\"\n#define ARG2(a, b) ((a) * (b))\n#define ONE 1\n#define M_ERROR ERROR\n#define M_WARNING WARNING\n#define M_NOTICE NOTICE\n#define M_DEBUG DEBUG\n"
           "#define LOGV(x) NANO_LOG(NOTICE, #x \" = %d\", x)\n#define LOGX(...) NANO_LOG(__VA_ARGS__)\n#define LOGL(lv, a, b) do { NANO_LOG(lv, \"LOGL \" #a \" %d %d\", a, b); } while (0)\n")

    def write(g, name, t):
        """Writes a source file, noting the line ranges of the (marked) statements."""
        line, st, rs, out = 1, [], [], []
        for ch in t:
            if ch == "\x01":
                st.append(line)
            elif ch == "\x02":
                rs.append((st.pop(), line))
            else:
                line += ch == "\n"
                out.append(ch)
        g.ranges[name] = [(a, b) for a, b in rs if a != b]
        open(f"{g.d}/{name}", "w", newline="").write("".join(out))

    def sameline(g, name, a, b):
        return a == b or any(x <= a <= y and x <= b <= y for x, y in g.ranges.get(name, []))

    def mkheader(g, h):
        t = "#pragma once\n#include \"ref.h\"\n" + (g.PRO if h == 0 else "")
        calls = []
        for _ in range(g.r.randrange(4, 9)):
            b, c = g.body(True)
            t += b; calls.append(c)
        g.write(f"ph{h}.h", t)
        g.heads.append(calls)

    def mkfile(g, u, nfuncs):
        t = '#include "ph0.h"\n#include "ph1.h"\n'
        fns = []
        for _ in range(nfuncs):
            b, c = g.body()
            t += b; fns.append(c[:-3])
        for h in range(2):
            for c in g.heads[h]:
                if g.r.random() < .5:
                    w = f"w{g.fn()}"
                    t += f"static void {w}() {{ {c} }}\n"; fns.append(w)
        t += f"extern void (*const fns{u}[])(); extern const int nfns{u};\nvoid (*const fns{u}[])() = {{{', '.join(fns)}}};\nconst int nfns{u} = {len(fns)};\n"
        if g.r.random() < .3:
            t = t.replace("\n", "\r\n") if "crlf" in g.opts else t
        g.write(f"p{u}.cc", t)
        g.files.append(f"p{u}.cc")
        g.fns.append(len(fns))

    def table(g):
        s = "".join(f"extern void (*const fns{u}[])();\n" for u in range(len(g.files)))
        s += "extern void (*const allFns[])(); extern const int nAllFns;\n"
        s += "void (*const allFns[])() = {" + ", ".join(f"[] {{ fns{u}[{i}](); }}" for u, n in enumerate(g.fns) for i in range(n)) + "};\n"
        s += f"const int nAllFns = {sum(g.fns)};\n"
        return s
