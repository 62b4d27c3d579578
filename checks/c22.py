import os, random, re, subprocess
import vlib, qlib
from qlib import *
import c07
MPIRUN = ["mpirun", "--oversubscribe", "--bind-to", "none", "--mca", "btl", "self,vader", "--mca", "btl_vader_single_copy_mechanism", "none", "--mca", "mpi_yield_when_idle", "1", "--mca", "orte_base_help_aggregate", "0"]
def menv(tmp, **kw):
    e = dict(OMPI_ALLOW_RUN_AS_ROOT="1", OMPI_ALLOW_RUN_AS_ROOT_CONFIRM="1", TMPDIR=tmp); e.update({k: v for k, v in os.environ.items() if k.startswith("OMPI_MCA")}); e.update(kw); return e
class Ctx:
    def __init__(self, ck): self.ck, self.bad = ck, False
    def viol(self, key, text, files=()):
        self.bad = True; self.ck.violation(key, text, "".join("--- %s\n%s\n" % (os.path.basename(f), open(f, encoding="latin-1", newline="").read()[:20000]) for f in files))
    def stat(self, k, n=1): self.ck.stat(k, n)
    def __getattr__(self, k):
        if k == "samples": return self.ck.samples
        if k == "fps": return self.ck.fps
        raise AttributeError(k)
def write(p, text):
    with open(p, "w", encoding="latin-1", newline="") as f: f.write(text)
    return p
def dataset(rng, d, m):
    """a record set over m ranks: ids of their own, ranks without data, attributes that exist on some ranks only"""
    wide = rng.random() < .3; ds = gen_data(rng, "wide" if wide else "small")
    for r in ds.recs: r.imm = [(n, v) for n, v in r.imm if v == v]; r.refs = [p for p in (tuple((n, v) for n, v in p if v == v) for p in r.refs) if p]
    ds.recs = [r for r in ds.recs if r.refs or r.imm]
    parts = [Data() for _ in range(m)]; mode = rng.choice(["even", "skew", "holes", "last"]); sub = rng.sample(range(m), rng.randint(1, m))
    for p in parts: p.attrs = ds.attrs
    lone = rng.choice([a.name for a in ds.val]) if rng.random() < .4 else None; lr = rng.randrange(m)       # a metric that one rank has
    for r in ds.recs:
        k = rng.choice(sub) if mode == "holes" else m - 1 if mode == "last" and rng.random() < .8 else 0 if mode == "skew" and rng.random() < .7 else rng.randrange(m)
        if lone and any(n == lone for n, _ in r.imm): k = lr
        parts[k].recs.append(r)
    os.makedirs(d, exist_ok=True); base = rng.choice([None, None, 12, 30]); used = []
    for k, p in enumerate(parts):
        t = Data(); t.recs = p.recs; names = {n for r in p.recs for n, _ in entries(r)}
        t.attrs = ds.attrs
        if rng.random() < .7: t.attrs = {n: a for n, a in ds.attrs.items() if n in names or n == "class.extra" or any(n in [x[0] for x in ds.attrs[q].meta] for q in names)}   # a rank knows the attributes it has used
        used.append(write(os.path.join(d, "%d.cali" % k), render(t, rng, dup=.1 if rng.random() < .2 else 0, base=base)))
    return ds, wide, used, "%s|%s" % (mode, lone is not None)
def query(rng, ds, wide):
    while True:
        q_ = c07.gen_query(rng, ds, ["count", "min", "max", "inclusive_min", "inclusive_max", "any", "scale_count"] if wide else c07.OPS, rng.choice([8, 15, 30]) if rng.random() < .2 else None)
        if any(a.name == "count" for a in ds.val) : return None
        if q_.group is None and not q_.path: continue
        return q_
def launch(ck, np, cmd, tmp, what, timeout, **env):
    return vlib.run(MPIRUN + ["-np", str(np)] + cmd, timeout=timeout, env=menv(tmp, **env), cwd=tmp)
def batch(ck, i, exe, nagg, napp, ncfg):
    rng = random.Random("c22-%d-%d" % (ck.seed, i)); tmp = os.path.join(ck.tmp, "b%d" % i); os.makedirs(tmp + "/t")
    np = rng.choice([8, 8, 8, 7, 6, 5, 3, 2, 1]); jobs, todo = [], []
    for j in range(nagg):
        m = rng.choice([1, 2, 2, 3, 3, 4, 5, 6, 7, 8, 8]); m = min(m, np); ds, wide, files, fp = dataset(rng, "%s/d%d" % (tmp, j), m); q_ = query(rng, ds, wide)
        if q_ is None: continue
        qt = q_.text(rng); out = "%s/agg%d.out" % (tmp, j)
        if "\t" in qt or "\n" in qt: continue
        qt = qt.replace("\x1d", " "); jobs.append("agg\t%d\t%d\t%s\t%s\t%s" % (m, rng.randrange(np), out, qt, "\t".join(files))); todo.append((ds, q_, files, qt, out, "%d|%s|%d" % (m, fp, min(len(ds.recs), 20))))
    for j in range(napp): m = min(np, rng.choice([1, 2, 3, 4, 5, 6, 7, 8])); jobs.append("app\t%d\t%d\t%s\t%d" % (m if rng.random() < .7 else np, rng.randrange(np), tmp, rng.randrange(1 << 30)))
    for j in range(ncfg): m = min(np, rng.choice([1, 2, 3, 4, 5, 6, 7, 8])); jobs.append("cfg\t%d\t%d\t%s\t%d" % (m if rng.random() < .5 else np, rng.randrange(np), tmp, rng.randrange(1 << 30)))
    rng.shuffle(jobs); jf = write(tmp + "/jobs", "\n".join(jobs) + "\n")
    r = launch(ck, np, [exe, "--jobs", jf, "--out", tmp + "/o", "--alarm", "300"], tmp + "/t", "batch %d" % i, 400)
    return tmp, np, r, todo, jobs
def judge(ck, res):
    tmp, np, r, todo, jobs = res; fin = 0
    for k in range(np):
        p = "%s/o.%d" % (tmp, k)
        if os.path.exists(p): ck.harness_out(p, "mpi", "\n".join(jobs)); fin += open(p, errors="replace").read().rstrip().endswith("DONE")
    if r.rc != 0 or fin != np: ck.crash(r, "mpi -np %d" % np, "\n".join(jobs)); ck.stat("launches_that_failed")
    c = Ctx(ck)
    for ds, q_, files, qt, out, fp in todo:
        if not os.path.exists(out):
            if r.rc == 0: ck.violation("c22:agg:no-output", "%s: rank 0 wrote nothing" % qt, "\n".join(jobs))
            continue
        text = open(out, encoding="latin-1", newline="").read(); ck.evals += 1
        if c07.compare(c, "c22:agg", ds, q_, text, ds.recs, files, qt): ck.fps.add(fp); ck.stat("agg_jobs")
    for j in jobs:
        f = j.split("\t")
        if f[0] == "cfg" and r.rc == 0: cfgjudge(ck, tmp, np, f, "%s/%s" % (f[3], f[4]))
    ck.sample("batch of %d jobs on %d ranks" % (len(jobs), np))
def region_path(r): return "/".join(v for p in r.refs for n, v in p if n == "region")
def cfgjudge(ck, tmp, np, job, base):
    """region counts that built-in configurations report for all ranks"""
    if not os.path.exists(base + ".info"): return
    l = open(base + ".info").read().split("\n"); kinds, how, m, mark = map(int, l[0].split()); what = "cfg %s, interface %d, %d of %d ranks: " % (l[1], how, m, np); rot = int(job[2])
    per = [{k: int(n) for n, k in (x.rstrip("\n").split(" ", 1) for x in open("%s.exp.%d" % (base, r)))} for r in range(m)]
    want = {}
    for d in per:
        for k, n in d.items(): want.setdefault(k, []).append(n)
    exp = {k: (min(v), sum(v) // len(v), max(v), sum(v)) for k, v in want.items()}
    ck.evals += 1; ck.stat("cfg_regions_checked", len(exp)); ck.fps.add("cfg%d|%d|%d|%d" % (kinds, how, m, sum(not d for d in per)))
    def cmp(tag, got, exp, text):
        if got == exp: return
        k = sorted(set(got) ^ set(exp)) or sorted(k for k in exp if got[k] != exp[k]); k = k[0]
        ck.violation("c22:cfg-%s-differs" % tag, what + "region %r: reported %r, expected %r (the ranks have %r)" % (k, got.get(k), exp.get(k), [d.get(k if isinstance(k, str) else k[1]) for d in per]), text[:6000])
    def text(ext):
        p = base + ext
        return open(p, errors="replace").read() if os.path.exists(p) else ""
    if kinds & 1:
        t = text(".rr"); had = t.startswith("earlier output\n"); t = t[15:] if had else t
        if mark == 2 and not had: ck.violation("c22:output-not-appended", what + "the earlier content of the file is gone", t[:3000])
        if mark == 1 and had and t: ck.violation("c22:output-appended", what + "the earlier content of the file is still there", t[:3000])
        ls = [x for x in t.split("\n") if x.strip()]; got = {}; runs = 1
        if ls:
            h = ls[0]; names = ["Path", "Min time/rank", "Avg time/rank", "Max time/rank", "Time %", "Calls/rank (min)", "Calls/rank (avg)", "Calls/rank (max)", "Calls (total)", "Visits", "Nsec/visit (min)", "Nsec/visit (avg)", "Nsec/visit (max)"]
            pos = sorted((h.find(n), n) for n in names if h.find(n) >= 0); span = {n: (p, pos[i + 1][0] if i + 1 < len(pos) else 1 << 20) for i, (p, n) in enumerate(pos)}; st = []
            for x in ls[1:] if "Path" in span and "Calls (total)" in span else ():
                c = lambda n: x[span[n][0]:span[n][1]].strip(); pth = x[:span["Path"][1]]; d = (len(pth) - len(pth.lstrip(" "))) // 2; st = st[:d] + [pth.strip()]
                v = [c(n) for n in ("Calls/rank (min)", "Calls/rank (avg)", "Calls/rank (max)", "Calls (total)")]
                if not any(v): continue
                try: got["/".join(st)] = tuple(float(y) for y in v)
                except ValueError: got["/".join(st)] = tuple(v)
        r6 = lambda d: {k: tuple(round(y, 5) if isinstance(y, (int, float)) else y for y in v) for k, v in d.items()}
        cmp("runtime-report", r6(got), r6(exp), t)
    for bit, ext, tag in ((2, ".spot.cali", "spot"), (4, ".prof.cali", "runtime-profile")):
        if not kinds & bit: continue
        t = text(ext); got = {}
        try: ds = parse(t) if t else None
        except Exception as e: ck.violation("c22:cfg-%s-unparsable" % tag, what + str(e), t[:6000]); continue
        for r in ds.recs if ds else ():
            imm = dict(r.imm); k = region_path(r)
            if bit == 2 and "sum#sum#rc.count" in imm: got[k] = tuple(round(float(imm[x]), 5) for x in ("min#sum#rc.count", "avg#sum#rc.count", "max#sum#rc.count", "sum#sum#rc.count"))
            if bit == 4 and "sum#rc.count" in imm:
                rk = imm.get("mpi.rank"); rk = rk if rk is not None else [v for p in r.refs for n, v in p if n == "mpi.rank"][0]
                if (int(rk), k) in got: ck.violation("c22:cfg-duplicate-row", what + "rank %s region %r appears twice" % (rk, k), t[:6000])
                got[int(rk), k] = int(imm["sum#rc.count"])
        if bit == 2: cmp(tag, got, {k: tuple(round(y, 5) for y in v) for k, v in exp.items()}, t)
        else: cmp(tag, got, {((r - rot) % np, k): n for r in range(m) for k, n in per[r].items()}, t)
def canon(t): return sorted(",".join(sorted(x.strip() for x in l.split(","))) for l in t.split("\n") if l.strip())
def toolrun(ck, i, d):
    """mpi-caliquery over the files of the ranks prints what cali-query prints for all files"""
    rng = random.Random("c22-tool-%d-%d" % (ck.seed, i)); tmp = os.path.join(ck.tmp, "t%d" % i); m = rng.choice([1, 2, 3, 4, 5, 8]); os.makedirs(tmp + "/t")
    while True:
        ds, wide, files, fp = dataset(rng, tmp + "/in", m)
        if not any(a.name == "count" for a in ds.val) and not wide: break
    num = [a.name for a in ds.val if a.type in NUM and not a.hidden] ; keys = [a.name for a in ds.nest + ds.non if not a.hidden]; ok = lambda s: re.fullmatch(r"[a-z][\w.]*", s)
    num = [x for x in num if ok(x)]; keys = [x for x in keys if ok(x)]
    ops = ["count()"] + ["%s(%s)" % (rng.choice(["sum", "min", "max", "sum", "avg", "any" if False else "max"]), x) for x in (rng.sample(num, min(len(num), 2)))]
    let, where = "", ""
    if num and rng.random() < .6: x = rng.choice(num); let = "let vh.t=%s(%s%s) " % (rng.choice([("scale", x, ",2"), ("truncate", x, ",4")])); ops.append("sum(vh.t)")
    if num and rng.random() < .6: where = " where %s" % rng.choice((["vh.t>4", "vh.t", "not vh.t>10"] if let else []) + ["%s>1" % rng.choice(num), rng.choice(num), "not %s" % rng.choice(num + keys)])
    k = rng.sample(keys, min(len(keys), rng.randint(0, 2)))
    sel = ",".join(k + ["%s as %s" % (o, '"col %d"' % n) if rng.random() < .5 else o for n, o in enumerate(ops)])
    q_ = "%sselect %s%s%s format expand" % (let, sel, where, " group by " + ",".join(k) if k else " group by vh.none")
    r = launch(ck, m, [os.path.join(d, "src/tools/mpi-caliquery/mpi-caliquery"), "-q", q_, "-o", tmp + "/out", tmp + "/in"], tmp + "/t", "mpi-caliquery", 120)
    if r.rc: ck.crash(r, "mpi-caliquery -np %d %s" % (m, q_)); return
    s = vlib.run([os.path.join(d, "src/tools/cali-query/cali-query"), "-q", q_] + files, timeout=120, cwd=tmp)
    if s.rc: ck.crash(s, "cali-query " + q_); return
    a, b = canon(open(tmp + "/out", errors="replace").read()), canon(s.out); ck.evals += 1; ck.stat("tool_runs"); ck.fps.add("tool%d|%s|%s|%s" % (m, bool(let), bool(where), fp))
    if a != b: ck.violation("c22:tool-output-differs", "mpi-caliquery on %d ranks, %s: %d lines, cali-query %d; only over MPI: %s; only serially: %s" % (m, q_, len(a), len(b), [x for x in a if x not in b][:2], [x for x in b if x not in a][:2]), "".join("--- %s\n%s\n" % (os.path.basename(f), open(f, errors="replace").read()[:8000]) for f in files))
def final(ck, i, exe):
    """the combined output that MPI_Finalize writes"""
    rng = random.Random("c22-fin-%d-%d" % (ck.seed, i)); tmp = os.path.join(ck.tmp, "f%d" % i); m = rng.choice([1, 2, 3, 4, 6, 8]); os.makedirs(tmp + "/t"); aggr = rng.random() < .5
    x = "sum#vh.x" if aggr else "vh.x"; n = "sum(count)" if aggr else "count()"; nn = "sum#count" if aggr else "count"; key = rng.choice(["region", "region,vh.k", "vh.rank", "path"])
    local = "aggregate %s,sum(%s) group by %s where vh.mark" % (n, x, key); cross = "aggregate sum(%s),max(%s),sum(sum#%s) group by %s format expand" % (nn, nn, x, rng.choice([key, key, "region"]))
    env = dict(CALI_SERVICES_ENABLE="event,%s,recorder,mpi,mpireport" % ("aggregate" if aggr else "trace"), CALI_MPIREPORT_CONFIG=cross, CALI_MPIREPORT_LOCAL_CONFIG=local, CALI_MPIREPORT_FILENAME=tmp + "/out", CALI_RECORDER_FILENAME=tmp + "/%mpi.rank%.cali", CALI_CHANNEL_FLUSH_ON_EXIT="false")
    r = launch(ck, m, [exe, "--finalize", "1", "--out", tmp + "/o", "--seed", str(rng.randrange(1 << 30))], tmp + "/t", "finalize", 120, **env)
    if r.rc: ck.crash(r, "finalize -np %d %r" % (m, env)); return
    files = ["%s/%d.cali" % (tmp, k) for k in range(m)]; got = canon(open(tmp + "/out", errors="replace").read()) if os.path.exists(tmp + "/out") else None
    if got is None or not all(map(os.path.exists, files)): ck.violation("c22:finalize:no-output", "%d ranks, %s / %s: output of MPI_Finalize %s, files %r" % (m, local, cross, got is not None, sorted(os.listdir(tmp))), r.err[-3000:]); return
    s = vlib.run([exe, "--serial", local, cross] + files, timeout=120, cwd=tmp)
    if s.rc: ck.crash(s, "serial"); return
    want = canon(s.out); ck.evals += 1; ck.stat("finalize_runs"); ck.fps.add("fin%d|%s|%s" % (m, aggr, key))
    if got != want: ck.violation("c22:finalize-output-differs", "%d ranks, %s / %s: only in the combined output %s, only serially %s" % (m, local, cross, [x for x in got if x not in want][:2], [x for x in want if x not in got][:2]), "".join("--- %s\n%s\n" % (os.path.basename(f), open(f, errors="replace").read()[:8000]) for f in files))
def main():
    ck = vlib.Check("C22", "exploration")
    d = vlib.build("mpi"); exe = vlib.compile_harness("mpi.cpp", "mpi")
    ck.rule = "real MPI programs on 1..8 ranks: subcommunicators of any size and rank order aggregate record sets split over the ranks (ranks without data, metrics and attributes on some ranks only, ids of their own) and random programs write combined output through every interface (collective_flush, CollectiveOutputChannel, MpiChannelManager, mpireport, ConfigManager, mpi-caliquery, MPI_Finalize); the output must be what one process computes from the data of all ranks; AddressSanitizer and UndefinedBehaviorSanitizer watch; distinct = (kind, ranks, distribution, size)"
    nb = ck.n(20, 240)
    for res in ck.pmap(lambda i: batch(ck, i, exe, 12, 12, 12), range(nb), workers=2): judge(ck, res)
    ck.pmap(lambda i: toolrun(ck, i, d), range(ck.n(16, 200)), workers=2)
    ck.pmap(lambda i: final(ck, i, exe), range(ck.n(8, 80)), workers=2)
    return ck.finish(min_evals=nb * 15, min_distinct=nb * 4)
