"""Shared machinery of all checks: builds from /repo's working tree, verdict
discipline (held / violated / inconclusive), evidence and known findings."""
import concurrent.futures, hashlib, json, os, re, shutil, signal, subprocess, sys, threading, time, traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
RT = REPO + "/runtime"
HARNESS = VERIF + "/harness"
NCPU = os.cpu_count() or 4
LIB_SRCS = ["Cycles", "Util", "Log", "NanoLog", "RuntimeLogger", "TimeTrace"]
DEC_SRCS = ["Cycles", "Util", "Log"]
ASAN = ["-O1", "-g", "-fno-omit-frame-pointer", "-fsanitize=address,undefined",
        "-fno-sanitize=alignment", "-fno-sanitize-recover=all"]
SAN_ENV = {
    "ASAN_OPTIONS": "abort_on_error=0:exitcode=99:detect_leaks=0:detect_stack_use_after_return=1:"
                    "allocator_may_return_null=1:max_allocation_size_mb=20000",
    "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=1:exitcode=99",
}


class BuildError(Exception):
    pass


class Inconclusive(Exception):
    pass


class Result:
    def __init__(s, rc, out, err, timed_out, wall):
        s.rc, s.out, s.err, s.timed_out, s.wall = rc, out, err, timed_out, wall

    @property
    def sanitizer(s):
        e = s.err if isinstance(s.err, str) else s.err.decode("latin1")
        m = re.search(r"(ERROR: (?:Address|Leak|Memory|Thread)Sanitizer[^\n]*|[^\n]*runtime error:[^\n]*)", e)
        return m.group(1) if m else None

    @property
    def crashed(s):
        return (not s.timed_out) and (s.rc < 0 or s.rc in (99, 134, 136, 139) or s.sanitizer is not None)


RUNNING = set()          # process groups to end if the check gives up early


def run(cmd, timeout=120, cwd=None, env=None, stdin=None, text=False, ok_kill=False):
    e = dict(os.environ)
    e["LC_ALL"] = "C"
    e.pop("TZ", None)
    if env:
        e.update({k: str(v) for k, v in env.items()})
    t0 = time.time()
    p = subprocess.Popen(cmd, cwd=cwd, env=e, stdin=subprocess.DEVNULL if stdin is None else stdin,
                         stdout=subprocess.PIPE, stderr=subprocess.PIPE, start_new_session=True)
    RUNNING.add(p.pid)
    to = False
    try:
        out, err = p.communicate(timeout=timeout)
    except subprocess.TimeoutExpired:
        to = True
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        out, err = p.communicate()
    RUNNING.discard(p.pid)
    if text:
        out = out.decode("latin1")
    return Result(p.returncode, out, err.decode("latin1"), to, time.time() - t0)


CURRENT = None


def pmap(fn, items, workers=NCPU):
    """Yields fn(item) in order, computed in parallel; gives up on the rest once enough violations are known."""
    if CURRENT and CURRENT.stop:
        return
    items = list(items)
    ex = concurrent.futures.ThreadPoolExecutor(max_workers=workers)
    try:
        for f in [ex.submit(fn, i) for i in items]:
            yield f.result()
            if CURRENT and CURRENT.stop:
                return
    finally:
        ex.shutdown(wait=True, cancel_futures=True)


class Check:
    def __init__(self, pid, level="exploration"):
        self.pid, self.level = pid, level
        self.ending = threading.Lock()
        self.seed = int(os.environ.get("VERIF_SEED", "1"))
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if "--thorough" in sys.argv:
            self.tier = "thorough"
        if self.tier not in ("quick", "thorough"):
            self.tier = "quick"
        self.thorough = self.tier == "thorough"
        self.t0 = time.time()
        self.dir = f"{VERIF}/.build/{pid}.{os.getpid()}"
        shutil.rmtree(self.dir, ignore_errors=True)
        os.makedirs(self.dir)
        self.violations, self.known, self.inconclusive = [], [], []
        self.cov = {"evaluations": 0, "distinct_nontrivial": 0, "rule": "", "samples": []}
        self.assumptions = []
        self.distinct = set()
        self.known_list = []
        global CURRENT
        CURRENT = self
        kf = f"{VERIF}/known_findings.json"
        if os.path.exists(kf):
            self.known_list = [x for x in json.load(open(kf)).get("known", []) if x["property"] == pid]

    def n(self, quick, thorough):
        return thorough if self.thorough else quick

    # -- recording -----------------------------------------------------
    def ev(self, n=1):
        self.cov["evaluations"] += n

    def nontrivial(self, key):
        self.distinct.add(hashlib.md5(repr(key).encode()).hexdigest()[:16])

    def sample(self, s, limit=8):
        if len(self.cov["samples"]) < limit:
            self.cov["samples"].append(s)

    def count(self, key, n=1):
        self.cov[key] = self.cov.get(key, 0) + n

    def violation(self, key, what, replay=None):
        """key: stable identity of the failing input/site/history."""
        for k in self.known_list:
            if re.search(k["match"], key):
                if k not in self.known:
                    self.known.append(k)
                return
        d = f"{VERIF}/replay"
        os.makedirs(d, exist_ok=True)
        path = f"{d}/{self.pid}-{len(self.violations)}.txt"
        with open(path, "w", errors="replace") as f:
            f.write(f"property {self.pid} seed {self.seed} tier {self.tier}\nkey: {key}\n{what}\n")
            if replay:
                f.write("\n" + (replay if isinstance(replay, str) else json.dumps(replay, indent=1, default=repr)) + "\n")
        self.violations.append((key, what, path))
        print(f"# {self.pid}: {key}: {what[:1500]}", flush=True)
        if len(self.violations) == 1:
            # the verdict is known; do not let runs that hang keep it from being reported
            t = threading.Timer(float(os.environ.get("VERIF_LINGER", "150")), self.give_up)
            t.daemon = True
            t.start()

    def give_up(self):
        with self.ending:
            for p in list(RUNNING):
                try:
                    os.killpg(p, signal.SIGKILL)
                except OSError:
                    pass
            for attempt in range(5):
                try:
                    os._exit(self.finish())
                except RuntimeError:      # the other threads still count things
                    time.sleep(.2)
            for key, what, path in self.violations:
                print(f"VIOLATION property={self.pid} replay={path}", flush=True)
            os._exit(1)

    def inconcl(self, what):
        self.inconclusive.append(what)
        print(f"# inconclusive: {what}", flush=True)

    @property
    def stop(self):
        return len(self.violations) >= 3

    # -- building ------------------------------------------------------
    def cc(self, jobs):
        """jobs: list of argv lists; run in parallel, raise BuildError on failure."""
        def one(j):
            r = run(j, timeout=600)
            return j, r
        for j, r in pmap(one, jobs):
            if r.rc != 0:
                raise BuildError(" ".join(j) + "\n" + "\n".join(x[:300] for x in r.err.split("\n"))[:6000])

    def gen_empty(self):
        """GeneratedCode.cc with no log statements (generic decompressor)."""
        d = f"{self.dir}/gen0"
        if not os.path.exists(f"{d}/GeneratedCode.cc"):
            os.makedirs(d, exist_ok=True)
            open(f"{d}/empty.cc", "w").write('#include "NanoLog.h"\nint unusedEmpty;\n')
            self.pp(d, "empty.cc")
            self.pp_combine(d, ["empty.cc"])
        return f"{d}/GeneratedCode.cc"

    def pp(self, d, src, flags=(), std="c++11"):
        r = run(["g++", "-E", "-include", "array", "-I", RT, f"-std={std}", "-DPREPROCESSOR_NANOLOG", *flags, src,
                 "-o", src + ".i"], cwd=d, timeout=120)
        if r.rc:
            raise BuildError(r.err)
        r = run(["python3", REPO + "/preprocessor/parser.py", f"--mapOutput={src}.map", src + ".i"], cwd=d,
                timeout=300, env={"PYTHONDONTWRITEBYTECODE": "1", "LC_ALL": "C.UTF-8", "PYTHONWARNINGS": "ignore"})
        if r.rc:
            raise BuildError("parser.py: " + r.out.decode("latin1")[-3000:] + r.err[-3000:])
        return r

    def pp_combine(self, d, srcs):
        r = run(["python3", REPO + "/preprocessor/parser.py", "--combinedOutput=GeneratedCode.cc",
                 *[s + ".map" for s in srcs]], cwd=d, timeout=300,
                env={"PYTHONDONTWRITEBYTECODE": "1", "LC_ALL": "C.UTF-8", "PYTHONWARNINGS": "ignore"})
        if r.rc:
            raise BuildError("parser.py combine: " + r.out.decode("latin1")[-3000:] + r.err[-3000:])

    def build(self, name, user_srcs, **kw):
        return self.build_many([dict(name=name, user_srcs=user_srcs, **kw)])[0]

    def build_many(self, specs):
        plans = [self._plan(**s) for s in specs]
        self.cc([j for p in plans for j in p[0]])
        self.cc([j for p in plans for j in p[1]])
        return [p[2] for p in plans]

    def _plan(self, name, user_srcs, flags=("-O2",), defs=(), pre=False, link=(), user_std=None,
              app_defs=(), dec=True, dec_flags=None, extra_inc=(), gen=None, lib_srcs=LIB_SRCS, user_flags=()):
        """Builds program `name` (list of .cc/.o paths) against the library, plus a decompressor.
        Returns (app path, decompressor path)."""
        d = f"{self.dir}/{name}"
        os.makedirs(d, exist_ok=True)
        cxx = ["g++", "-include", "array"]
        std = "c++11" if pre else "c++17"
        D = [f"-D{x}" for x in defs] + (["-DPREPROCESSOR_NANOLOG"] if pre else [])
        gen = gen or self.gen_empty()
        jobs, objs, lib = [], [], []
        for s in lib_srcs:
            o = f"{d}/{s}.o"
            jobs.append([*cxx, f"-std={std}", *flags, *D, "-I", RT, "-c", f"{RT}/{s}.cc", "-o", o])
            lib.append(o)
        g = f"{d}/GeneratedCode.o"
        jobs.append([*cxx, f"-std={std}", *flags, *D, "-I", RT, "-c", gen, "-o", g])
        if dec:
            jobs.append([*cxx, f"-std={std}", *(dec_flags or flags), *D, "-I", RT, "-c", f"{RT}/LogDecompressor.cc", "-o", f"{d}/dec.o"])
        for i, u in enumerate(user_srcs):
            if u.endswith(".o"):
                objs.append(u)
                continue
            o = f"{d}/u{i}.o"
            jobs.append([*cxx, f"-std={user_std or 'c++17'}", *flags, *user_flags, *D, *[f"-D{x}" for x in app_defs], "-I", RT,
                         "-I", HARNESS, *[a for x in extra_inc for a in ("-I", x)], "-c", u, "-o", o])
            objs.append(o)
        links = []
        if user_srcs:
            links.append([*cxx, *flags, *objs, *lib, g, "-o", f"{d}/app", *link, "-lrt", "-pthread", "-ldl"])
        if dec:
            links.append([*cxx, *flags, f"{d}/dec.o", g, *[f"{d}/{s}.o" for s in DEC_SRCS], "-o", f"{d}/dec", "-lrt", "-pthread"])
        # long compilations first
        jobs.sort(key=lambda j: not any(x.endswith("/Log.cc") or x.endswith("stress.cc") for x in j))
        return jobs, links, (f"{d}/app", f"{d}/dec")

    # -- end -------------------------------------------------------------
    def finish(self):
        self.cov["distinct_nontrivial"] = max(self.cov["distinct_nontrivial"], len(self.distinct))
        if self.inconclusive:
            self.cov["inconclusive"] = self.inconclusive[:20]
        if self.known:
            self.cov["known_findings_seen"] = [k["id"] for k in self.known]
        os.makedirs(f"{VERIF}/evidence", exist_ok=True)
        ev = dict(property=self.pid, tier=self.tier, seed=self.seed, level=self.level, coverage=self.cov,
                  assumptions=self.assumptions, wall_s=round(time.time() - self.t0, 2), violations=len(self.violations))
        with open(f"{VERIF}/evidence/{self.pid}.json", "w") as f:
            json.dump(ev, f, indent=1, default=repr)
        for k in self.known_list:
            if k in self.known:
                print(f"KNOWN-FINDING: property={self.pid} {k['what']}")
        if not os.environ.get("VERIF_KEEP"):
            shutil.rmtree(self.dir, ignore_errors=True)
        for key, what, path in self.violations:
            print(f"VIOLATION property={self.pid} replay={path}")
        if not self.violations:
            print(f"{self.pid}: held on {self.cov['evaluations']} evaluations "
                  f"({self.cov['distinct_nontrivial']} distinct) in {ev['wall_s']} s")
        sys.stdout.flush()
        return 1 if self.violations else 0


def end(c, least=0):
    with c.ending:                # released by nobody: the first to get here ends the process
        rc = c.finish()
        sys.stdout.flush()
        os._exit(max(rc, least) if not c.violations else rc)


def killed(signum, frame):
    """The check is being stopped from outside: leave no process behind."""
    for p in list(RUNNING):
        try:
            os.killpg(p, signal.SIGKILL)
        except OSError:
            pass
    if CURRENT:
        shutil.rmtree(CURRENT.dir, ignore_errors=True)
    os._exit(3)


def main(pid, body, level="exploration"):
    signal.signal(signal.SIGTERM, killed)
    signal.signal(signal.SIGINT, killed)
    c = Check(pid, level)
    try:
        body(c)
    except BuildError as e:
        print(f"# build failed: {e}", flush=True)
        if c.violations:
            end(c)
        c.finish()
        sys.exit(2)
    except Inconclusive as e:
        c.inconcl(str(e))
        end(c, 2)
    except Exception:
        traceback.print_exc()
        if c.violations:
            end(c)
        shutil.rmtree(c.dir, ignore_errors=True)
        sys.exit(2)
    end(c)
