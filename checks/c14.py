#!/usr/bin/env python3
import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *
import stress, decode, hist, logs, fmtgen, random

MAIN = r'''#include "NanoLogCpp17.h"
#include "typed.h"
#include <memory>
FILE *sideFile; long sideCount;
std::vector<Rec> recs; size_t recAt; long typedBad, typedArgs; std::map<std::string, uint32_t> nameToId;
%s
int main(int argc, char **argv) {
    uint64_t seed = strtoull(argv[1], 0, 10);
    NanoLog::setLogFile("./log"); NanoLog::setLogLevel(NanoLog::LogLevels::DEBUG);
    sideFile = fopen("/dev/null", "wb");
%s
    fclose(sideFile); NanoLog::sync();
    using namespace NanoLogInternal::Log;
    for (int round = 0; round < 3; ++round) {
        recAt = 0;
        Decoder d; if (!d.open("./log")) { printf("BAD open: log\n"); return 1; }
        LogMessage m; FILE *o = round == 1 ? fopen("/dev/null", "w") : nullptr;
        // round 2 uses a fresh message object every time
        auto next = [&](LogMessage &x) { if (!d.getNextLogStatement(x, o)) { if (typedBad++ == 0) printf("BAD end: the log ends after %%zu of %%zu messages\n", recAt, recs.size()); return false; } return true; };
%s
        if (d.getNextLogStatement(m, o)) { ++typedBad; printf("BAD extra: more messages than logged\n"); }
        if (o) fclose(o);
    }
    printf("STAT evaluations %%zu\nSTAT typed_arguments %%ld\n", recs.size() * 3, typedArgs);
    return typedBad ? 1 : 0;
}
'''


def body(c):
    c.cov["rule"] = ("one evaluation = one decoded message whose timestamp, argument count and typed argument values were compared with the logged "
                     "ones, one log decoded with every interface, or one reopening of a used decoder; distinct = different argument type lists and logs")
    rnd = random.Random(c.seed * 37 + 11)
    # typed argument programs
    ntu, per, reps = c.n(4, 20), c.n(90, 150), c.n(12, 60)
    srcs, sts = [], []
    opts = {"promote": False}
    for i in range(ntu):
        out = ['#include "NanoLogCpp17.h"\n#include <vector>\n#include "typed.h"\nusing namespace NanoLog::LogLevels;\n']
        for k in range(per):
            st = fmtgen.statement(rnd, opts)
            sts.append(st)
            out.append(fmtgen.typed_function(st, f"f{i}_{k}"))
        fl = ",".join(f"f{i}_{k}" for k in range(per))
        fr = ",".join(f"f{i}_{k}r" for k in range(per))
        out.append(f"typedef void (*Fn)(Rng &); typedef void (*Fr)(NanoLogInternal::Log::LogMessage &);\nstatic Fn fns[] = {{{fl}}};\nstatic Fr frs[] = {{{fr}}};\n"
                   f"void runTU{i}(uint64_t seed) {{ Rng r(seed); for (int q = 0; q < {reps}; ++q) for (int k = 0; k < {per}; ++k) fns[k](r); }}\n"
                   f"Fr *readers{i}() {{ return frs; }}\n")
        f = f"{c.dir}/tt{i}.cc"
        open(f, "w", encoding="utf8").write("".join(out))
        srcs.append(f)
    decl = "".join(f"void runTU{i}(uint64_t); typedef void (*Fr)(NanoLogInternal::Log::LogMessage &); Fr *readers{i}();\n" for i in range(ntu))
    calls = "".join(f"    runTU{i}(seed + {i});\n" for i in range(ntu))
    reads = "".join(f"        for (int q = 0; q < {reps} && typedBad < 5; ++q) for (int k = 0; k < {per} && typedBad < 5; ++k) {{ std::unique_ptr<LogMessage> fresh(round == 2 ? new LogMessage : nullptr); LogMessage &x = fresh ? *fresh : m; if (!next(x)) return 1; readers{i}()[k](x); }}\n" for i in range(ntu))
    open(f"{c.dir}/tmain.cc", "w").write(MAIN.replace("#include <memory>", "#include <memory>\n#include <vector>").replace('#include "typed.h"\n#include <memory>\n#include <vector>', '#include <memory>\n#include <vector>\n#include "typed.h"') % (decl, calls, reads))
    defs = stress.size_defs(4096, 32768, False)
    t17, declog, ed = [x[0] for x in c.build_many([
        dict(name="typed", user_srcs=srcs + [f"{c.dir}/tmain.cc"], flags=["-O1", "-w", "-g0"], dec=False),
        dict(name="declog", user_srcs=[HARNESS + "/declog.cc"], flags=ASAN, defs=defs, lib_srcs=["Cycles", "Util", "Log"], dec=False),
        dict(name="ed", user_srcs=[HARNESS + "/encdec.cc"], flags=["-O1"], defs=defs, lib_srcs=["Cycles", "Util", "Log"], dec=False)])]
    H = hist.builds(c, ("17", "pre"))
    S = stress.builds(c, "a")

    def harvest(key, r):
        out = r.out.decode("latin1")
        b = [ln for ln in out.split("\n") if ln.startswith("BAD ")]
        for ln in out.split("\n"):
            if ln.startswith("STAT "):
                _, a, v = ln.split()
                c.ev(int(v)) if a == "evaluations" else c.count(a, int(v))
        if b:
            c.violation(f"{key} {b[0][4:].split(':')[0]}", b[0], out)
        elif r.timed_out or r.crashed:
            c.violation(f"{key} crash", f"rc={r.rc} timeout={r.timed_out} {r.sanitizer} {r.err[-2000:]}")
        elif r.rc:
            raise Inconclusive(f"{key}: rc={r.rc} {r.err[-300:]}")

    def typed(k):
        d = f"{c.dir}/ty{k}"
        os.makedirs(d)
        r = run([t17, str(c.seed * 100 + k)], cwd=d, timeout=200)
        shutil.rmtree(d, ignore_errors=True)
        return k, r
    for k, r in pmap(typed, range(c.n(3, 20))):
        harvest(f"typed run {k} seed {c.seed}", r)
    for st in sts:
        c.nontrivial(tuple((k, t) for k, t, v, p in st.typed))
    P = logs.pool(c, rnd, H, S, ed, c.n(40, 300), c.n(8, 60), c.n(40, 400))
    groups = [rnd.sample(P, min(len(P), rnd.choice([1, 2, 4, 8]))) for _ in range(c.n(16, 150))]
    # every log at least once
    for i in range(0, len(P), 12):
        groups.append(P[i:i + 12])

    groups = [(g, rnd.randrange(1 << 40)) for g in groups]

    def agree(gs):
        g, seed = gs
        return g, run([declog, "agree", str(seed), str(c.n(60, 300)), *[p for _, p, _ in g]], env=SAN_ENV, timeout=300)
    for g, r in pmap(agree, groups):
        harvest("agree " + "; ".join(x for x, _, _ in g)[:300], r)
        for x, _, _ in g:
            c.nontrivial(x)
        c.sample([x for x, _, _ in g], 3)
    c.assumptions += ["long double arguments are only counted, not read (documented as unsupported)", "dynamic widths and precisions are not counted as arguments"]


main("C14", body)
