"""Shared machinery of the checks: building /repo in sanitizer flavors, running
harness processes, collecting verdicts, evidence and replay files."""
import fcntl, hashlib, json, os, random, re, shutil, subprocess, sys, tempfile, threading, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "build"))
NCPU = os.cpu_count() or 4

BASE = ["-DBUILD_TESTING=OFF", "-DWITH_GOTCHA=ON", "-DWITH_SAMPLER=ON", "-DWITH_TOOLS=ON",
        "-DWITH_LIBDW=OFF", "-DWITH_LIBUNWIND=OFF", "-DCMAKE_BUILD_TYPE=None"]
FLAVORS = {
    "asan":  dict(cc="clang", cxx="clang++", flags="-O1 -g1 -fno-omit-frame-pointer -fsanitize=address,undefined -fno-sanitize-recover=all", extra=[]),
    "tsan":  dict(cc="clang", cxx="clang++", flags="-O1 -g1 -fno-omit-frame-pointer -fsanitize=thread", extra=[]),
    "plain": dict(cc="clang", cxx="clang++", flags="-O1 -g1", extra=[]),
    "ubsan": dict(cc="clang", cxx="clang++", flags="-O1 -g1 -fsanitize=undefined -fno-sanitize-recover=all", extra=[]),
    # every load and store of the library calls into harness/sched.c, which delays threads at random accesses
    "sched": dict(cc="clang", cxx="clang++", flags="-O1 -g1 -fsanitize-coverage=edge,trace-loads,trace-stores,no-prune", extra=["-DWITH_TOOLS=OFF"]),
    "mpi":   dict(cc="clang", cxx="clang++", flags="-O1 -g1 -fno-omit-frame-pointer -fsanitize=address,undefined -fno-sanitize=function -fno-sanitize-recover=all", extra=["-DWITH_MPI=ON"]),
}

class HarnessError(Exception):
    pass

def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)

_locks = {}
class flock:
    def __init__(self, name):
        os.makedirs(BUILD, exist_ok=True)
        self.path = os.path.join(BUILD, "." + name + ".lock")
    def __enter__(self):
        self.f = open(self.path, "w"); fcntl.flock(self.f, fcntl.LOCK_EX)
    def __exit__(self, *a):
        self.f.close()

def build(flavor):
    """Builds libcaliper and the tools from /repo's working tree; returns the build directory."""
    fl = FLAVORS[flavor]
    d = os.path.join(BUILD, flavor)
    env = dict(os.environ); env["CCACHE_DISABLE"] = "1"
    with flock("build-" + flavor):
        t0 = time.time()
        if not os.path.exists(os.path.join(d, "build.ninja")):
            shutil.rmtree(d, ignore_errors=True)
            os.makedirs(d)
            r = sh(["cmake", "-S", REPO, "-B", d, "-G", "Ninja", "-DCMAKE_C_COMPILER=" + fl["cc"], "-DCMAKE_CXX_COMPILER=" + fl["cxx"],
                    "-DCMAKE_C_FLAGS=" + fl["flags"], "-DCMAKE_CXX_FLAGS=" + fl["flags"]] + BASE + fl["extra"], env=env)
            if r.returncode != 0:
                shutil.rmtree(d, ignore_errors=True)
                raise HarnessError("cmake failed for %s:\n%s" % (flavor, r.stdout[-3000:]))
        r = sh(["ninja", "-C", d], env=env)
        if r.returncode != 0:
            raise HarnessError("build failed for %s:\n%s" % (flavor, r.stdout[-3000:]))
        sys.stderr.write("[build %s %.1fs]\n" % (flavor, time.time() - t0))
    return d

def compile_harness(src, flavor, extra=(), libs=(), name=None, internal=False):
    """Compiles /verif/harness/<src> against the flavor's libcaliper."""
    d = build(flavor)
    fl = FLAVORS[flavor]
    out = os.path.join(BUILD, "h", flavor, name or os.path.splitext(os.path.basename(src))[0])
    os.makedirs(os.path.dirname(out), exist_ok=True)
    srcp = os.path.join(VERIF, "harness", src)
    cxx = fl["cc"] if src.endswith(".c") else fl["cxx"]
    if flavor == "mpi":
        cxx = "mpicxx"
    hflags = fl["flags"].split()
    if flavor == "sched":
        hflags = ["-O1", "-g1"]
        with flock("h-sched-runtime"):
            r = sh([fl["cc"], "-O2", "-c", os.path.join(VERIF, "harness", "sched.c"), "-o", os.path.join(os.path.dirname(out), "sched.o")])
        if r.returncode != 0: raise HarnessError("sched.c: " + r.stdout[-2000:])
    cmd = [cxx] + hflags + ([] if src.endswith(".c") else ["-std=c++17"]) + \
        ["-Wno-deprecated-declarations", "-I" + REPO + "/include", "-I" + d + "/include", "-I" + os.path.join(VERIF, "harness")] + \
        (["-I" + REPO + "/src", "-I" + REPO + "/src/common"] if internal else []) + \
        list(extra) + ([os.path.join(BUILD, "h", "sched", "sched.o"), "-rdynamic"] if flavor == "sched" else []) + [srcp, "-o", out, "-L" + d + "/src", "-lcaliper", "-Wl,-rpath," + d + "/src", "-lpthread"] + list(libs)
    env = dict(os.environ)
    env.update({"OMPI_CXX": "clang++", "MPICH_CXX": "clang++"})
    with flock("h-" + flavor + "-" + os.path.basename(out)):
        r = sh(cmd, env=env)
    if r.returncode != 0:
        raise HarnessError("harness compile failed: %s\n%s" % (" ".join(cmd), r.stdout[-4000:]))
    return out

def tool(flavor, name="cali-query"):
    return os.path.join(build(flavor), "src", "tools", name, name)

SAN_ENV = {
    "ASAN_OPTIONS": "abort_on_error=0:exitcode=86:detect_leaks=0:detect_stack_use_after_return=0:allocator_may_return_null=1:handle_abort=1:symbolize=1",
    "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=1:exitcode=87",
    "TSAN_OPTIONS": "halt_on_error=0:exitcode=88:second_deadlock_stack=1:history_size=4:report_signal_unsafe=0",
    "LC_ALL": "C.UTF-8",
}

def clean_env(extra=None):
    env = {k: v for k, v in os.environ.items() if not k.startswith("CALI_") and k not in ("OMP_TOOL_LIBRARIES",)}
    env.update(SAN_ENV)
    if extra:
        env.update(extra)
    return env

class Result:
    def __init__(self, rc, out, err, timed_out, wall):
        self.rc, self.out, self.err, self.timed_out, self.wall = rc, out, err, timed_out, wall

def run(cmd, timeout=60, env=None, cwd=None, stdin=None, text=True, preexec=None):
    t0 = time.time()
    p = subprocess.Popen(cmd, stdin=subprocess.PIPE if stdin is not None else subprocess.DEVNULL, stdout=subprocess.PIPE,
                         stderr=subprocess.PIPE, env=clean_env(env), cwd=cwd, start_new_session=True, preexec_fn=preexec)
    to = False
    try:
        if isinstance(stdin, str): stdin = stdin.encode("utf-8", "surrogateescape")
        o, e = p.communicate(stdin, timeout=timeout)
    except subprocess.TimeoutExpired:
        to = True
        try: os.killpg(p.pid, 9)
        except ProcessLookupError: pass
        try:
            o, e = p.communicate(timeout=20)
        except Exception:
            o, e = b"", b""
    if text:
        o = o.decode("utf-8", "surrogateescape"); e = e.decode("utf-8", "surrogateescape")
    else:
        e = e.decode("utf-8", "replace")
    return Result(p.returncode, o, e, to, time.time() - t0)

def run2(cmd, timeout=60, **kw):
    """As run(), but a timeout is retried once with three times the limit: only a second one counts as a hang."""
    r = run(cmd, timeout=timeout, **kw)
    if r.timed_out:
        r = run(cmd, timeout=timeout * 3, **kw)
    return r

_frame = re.compile(r"^\s*#\d+ 0x[0-9a-f]+ (?:in )?(.*?)(?: \(.*| /.*| <null>.*)?$")
def norm_func(f):
    f = re.sub(r"\(.*", "", f); f = re.sub(r"<.*", "", f)
    return f.strip()

def crash_key(err, rc):
    """A stable name for an abnormal end, from sanitizer output."""
    m = re.search(r"SUMMARY: (\w+): ([\w-]+)", err)
    if "WARNING: ThreadSanitizer" in err:
        return "tsan:" + tsan_keys(err)[0]
    um = re.search(r"runtime error: (.*)", err)
    kind = None
    if um:
        kind = "ubsan:" + re.sub(r"0x[0-9a-f]+|-?\d[\d.e+]*", "N", um.group(1))[:70]
    elif m:
        kind = m.group(1)[:4].lower() + ":" + m.group(2)
    elif "terminate called" in err or "libc++abi" in err:
        mm = re.search(r"what\(\):\s*(.*)", err)
        kind = "terminate:" + (mm.group(1)[:40] if mm else "")
    else:
        kind = "exit:%s" % rc
    funcs = []
    for l in err.splitlines():
        fm = re.match(r"^\s*#\d+ 0x[0-9a-f]+ in (.*)$", l)
        if fm and ("/repo" in l or REPO in l or "cali" in l):
            f = norm_func(re.sub(r" /\S+$", "", fm.group(1)))
            if f and f not in funcs: funcs.append(f)
            if len(funcs) >= 1: break
    return kind + "@" + ",".join(funcs)

def tsan_reports(err):
    return re.findall(r"={18}\nWARNING: ThreadSanitizer: (.*?)\n={18}", err, re.S)

def tsan_keys(err):
    """One key per report: kind + the innermost library function of each of the two stacks, sorted."""
    keys = []
    for rep in re.split(r"={18}\n", err):
        if not rep.startswith("WARNING: ThreadSanitizer"):
            continue
        kind = re.match(r"WARNING: ThreadSanitizer: ([^(]*)", rep).group(1).strip()
        stacks = re.split(r"\n\n", rep)
        fs = []
        for st in stacks[:2]:
            fn = "?"
            for l in st.splitlines():
                m = re.match(r"^\s*#\d+ (.*?) (/\S+|<null>|\S+:\d+)", l)
                if m and ("/repo/" in l or REPO + "/" in l):
                    fn = norm_func(m.group(1)); break
            fs.append(fn)
        keys.append(kind + ":" + "|".join(sorted(fs)))
    return keys or ["unparsed"]

class Known:
    """known_findings.txt: 'finding: property=<id> key=<regex> -- text' and 'fixed: ...' lines."""
    def __init__(self, pid):
        self.items = []
        p = os.path.join(VERIF, "known_findings.txt")
        if os.path.exists(p):
            for l in open(p):
                m = re.match(r"finding: property=(\S+) key=(\S+) -- (.*)", l.strip())
                if m and m.group(1) == pid:
                    self.items.append((re.compile(m.group(2)), m.group(3)))
    def match(self, key):
        for r, t in self.items:
            if r.fullmatch(key): return t
        return None

class Check:
    def __init__(self, pid, level="exploration"):
        self.pid = pid
        self.level = level
        self.tier = os.environ.get("VERIF_TIER", "quick")
        self.seed = int(os.environ.get("VERIF_SEED", "1"))
        self.t0 = time.time()
        self.evals = 0
        self.fps = set()
        self.stats = {}
        self.samples = []
        self.rule = ""
        self.viol = {}
        self.known_hit = {}
        self.known = Known(pid)
        self.assumptions = []
        self.inconclusive = 0
        self.lock = threading.Lock()
        self.errors = []
        self.tmp = tempfile.mkdtemp(prefix="verif-%s-" % pid, dir="/tmp")
        self.rdir = os.path.join(VERIF, "replay", pid)
        shutil.rmtree(self.rdir, ignore_errors=True)
        self.rng = random.Random("%s-%d" % (pid, self.seed))
    def thorough(self): return self.tier == "thorough"
    def n(self, quick, thorough): return thorough if self.thorough() else quick
    def cover(self, fp):
        with self.lock: self.fps.add(fp)
    def sample(self, s, limit=4):
        with self.lock:
            if len(self.samples) < limit: self.samples.append(s)
    def stat(self, k, v=1):
        with self.lock: self.stats[k] = self.stats.get(k, 0) + v
    def maxstat(self, k, v):
        with self.lock: self.stats[k] = max(self.stats.get(k, 0), v)
    def ev(self, n=1):
        with self.lock: self.evals += n
    def violation(self, key, text, replay=None):
        key = re.sub(r"\s+", "_", key)
        with self.lock:
            t = self.known.match(key)
            if t is not None:
                self.known_hit.setdefault(t, key); return
            if key in self.viol:
                self.viol[key][2] += 1; return
            os.makedirs(self.rdir, exist_ok=True)
            path = os.path.join(self.rdir, "%02d.txt" % len(self.viol))
            with open(path, "w", errors="surrogateescape") as f:
                f.write("property=%s seed=%d tier=%s\nkey=%s\n\n%s\n\n%s\n" % (self.pid, self.seed, self.tier, key, text, replay or ""))
            self.viol[key] = [text, path, 1]
    def keepfile(self, src, name=None):
        """copies an artefact next to the replay files"""
        os.makedirs(self.rdir, exist_ok=True)
        dst = os.path.join(self.rdir, name or os.path.basename(src))
        try: shutil.copy(src, dst)
        except OSError: pass
        return dst
    def error(self, text):
        with self.lock: self.errors.append(text)
    def crash(self, r, what, replay=""):
        """Judge an abnormal end of a process that ran the code under test."""
        if r.timed_out:
            self.violation("hang:" + what, "did not finish within the time limit, twice", replay)
        else:
            self.violation(crash_key(r.err, r.rc) + ":" + what if False else crash_key(r.err, r.rc), "%s: rc=%s\n%s" % (what, r.rc, r.err[-6000:]), replay)
    # --- C++ harness protocol
    def harness_out(self, path, what, replay):
        """Reads the line protocol a harness wrote: CASE/STAT/MAX/SAMPLE/VIOL/DONE"""
        done = False
        if os.path.exists(path):
            with open(path, errors="surrogateescape") as f:
                for l in f:
                    l = l.rstrip("\n")
                    k, _, rest = l.partition(" ")
                    if k == "CASE":
                        self.ev(); self.cover(rest)
                    elif k == "EV": self.ev(int(rest))
                    elif k == "FP": self.cover(rest)
                    elif k == "STAT":
                        a, b = rest.rsplit(" ", 1); self.stat(a, int(b))
                    elif k == "MAX":
                        a, b = rest.rsplit(" ", 1); self.maxstat(a, int(b))
                    elif k == "SAMPLE": self.sample(rest)
                    elif k == "VIOL":
                        a, _, b = rest.partition(" ")
                        self.violation(a, what + ": " + b.replace("\\n", "\n"), replay)
                    elif k == "ERROR": self.error(rest)
                    elif k == "DONE": done = True
        return done
    def run_shards(self, exe, shards, timeout=120, env=None, workers=NCPU, tsan=False, name=None, count_crash=True):
        """shards: list of argument lists. Each process appends --out FILE."""
        nm = name or os.path.basename(exe)
        def one(i_args):
            i, args = i_args
            sdir = os.path.join(self.tmp, "%s.%d" % (nm, i)); os.makedirs(sdir, exist_ok=True)
            outp = os.path.join(sdir, "out.txt")
            cmd = [exe] + [str(a) for a in args] + ["--out", outp]
            e = dict(env(i) if callable(env) else (env or {}))
            e.setdefault("CALI_LOG_VERBOSITY", "0"); e.setdefault("CALI_LOG_LOGFILE", os.path.join(sdir, "cali.log"))
            for attempt in (0, 1):
                if os.path.exists(outp): os.unlink(outp)
                r = run(cmd, timeout=timeout * (1 if attempt == 0 else 3), env=e, cwd=sdir)
                if not r.timed_out: break
            replay = "cd <scratch> && %s %s" % (" ".join("%s='%s'" % kv for kv in sorted(e.items())), " ".join(cmd))
            done = self.harness_out(outp, nm, replay)
            if tsan and "WARNING: ThreadSanitizer" in r.err:
                for rep in re.split(r"(?=={18}\nWARNING)", r.err):
                    if "WARNING: ThreadSanitizer" in rep:
                        self.violation("tsan:" + tsan_keys(rep)[0], rep[:6000], replay)
                if r.rc in (0, 88) and done: r.rc = 0
            if r.timed_out or r.rc != 0 or not done:
                if r.rc == 3 and not r.timed_out:
                    self.error("%s: %s" % (nm, r.err[-500:]))
                elif tsan and r.rc == 66:
                    self.error(nm + ": tsan internal: " + r.err[-500:])
                elif count_crash:
                    self.crash(r, nm, replay + "\nlast output:\n" + (open(outp, errors="replace").read()[-1500:] if os.path.exists(outp) else ""))
            shutil.rmtree(sdir, ignore_errors=True)
            return r
        with ThreadPoolExecutor(workers) as ex:
            return list(ex.map(one, enumerate(shards)))
    def run_sched(self, src, shards, timeout=120, env=None, internal=False, name=None):
        """runs shards with the library delaying threads at random memory accesses (flavor sched): no delays, delays at random
        accesses, at a random part of the code's accesses, or both"""
        exe = compile_harness(src, "sched", internal=internal); base = env if callable(env) else (lambda i: env or {})
        modes = [(0, 0), (30000, 0), (30000, 15), (30000, 63), (0, 127), (0, 7), (4000, 0), (100000, 31)]
        def e(i):
            p, m = modes[i % len(modes)]
            return dict(base(i), VERIF_SCHED="%d,%d,%d" % (p, m, self.seed * 100000 + i))
        self.stat("runs_with_injected_delays", len(shards))
        return self.run_shards(exe, shards, timeout=timeout, env=e, name=name or "sched-" + os.path.splitext(src)[0])
    def pmap(self, fn, items, workers=NCPU):
        with ThreadPoolExecutor(workers) as ex:
            return list(ex.map(fn, items))
    def finish(self, min_evals=1, min_distinct=2):
        shutil.rmtree(self.tmp, ignore_errors=True)
        cov = {"evaluations": self.evals, "distinct_nontrivial": len(self.fps), "rule": self.rule, "samples": self.samples or ["(none)"]}
        if self.stats: cov["observed"] = dict(sorted(self.stats.items()))
        ev = {"property": self.pid, "tier": self.tier, "seed": self.seed, "level": self.level, "coverage": cov,
              "wall_s": round(time.time() - self.t0, 2), "violations": len(self.viol)}
        if self.known_hit: ev["coverage"]["known_findings_seen"] = sorted(self.known_hit)
        if self.assumptions: ev["assumptions"] = self.assumptions
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1, ensure_ascii=True)
        for t in sorted({t for _, t in self.known.items}):
            print("KNOWN-FINDING: property=%s %s" % (self.pid, t))
        print("%s: %d evaluations, %d distinct, %d violations, %.1fs %s" % (self.pid, self.evals, len(self.fps), len(self.viol), time.time() - self.t0, json.dumps(self.stats)))
        for key, (text, path, cnt) in self.viol.items():
            print("  [%s] x%d %s" % (key, cnt, text[:1500].replace("\n", "\n    ").encode("utf-8", "replace").decode()))
            print("VIOLATION property=%s replay=%s" % (self.pid, path))
        sys.stdout.flush()
        for e in self.errors[:20]: print("ERROR: " + e[-2000:])
        if self.viol: return 1
        if self.errors: return 2
        if self.evals < min_evals or len(self.fps) < min_distinct:
            print("ERROR: the run observed too little (%d evaluations, %d distinct)" % (self.evals, len(self.fps)))
            return 2
        return 0
