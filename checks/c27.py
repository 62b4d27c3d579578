import os, random, re, shutil
import vlib, qlib
SVC = ["event,trace,recorder", "event:aggregate:recorder", "aggregate, event, report", "event,trace,report", "event,aggregate,recorder,report", "event,trace,statistics,recorder"]
POOL = {
    "CALI_EVENT_TRIGGER": ["vh.x", "vh.y,vh.x", "phase", "vh.z"],
    "CALI_EVENT_ENABLE_SNAPSHOT_INFO": ["true", "false", "0", "1"],
    "CALI_EVENT_INCLUDE_REGIONS": ["foo", "bar", "startswith(b)", "match(th.*)"],
    "CALI_EVENT_EXCLUDE_REGIONS": ["foo", "bar,thr", "p"],
    "CALI_AGGREGATE_KEY": ["region", "vh.y", "*", "loop,vh.x"],
    "CALI_CALIPER_ATTRIBUTE_PROPERTIES": ["vh.x=asvalue", "vh.x=nested", "vh.x=asvalue,vh.y=hidden:unaligned", "vh.x=process_scope"],
    "CALI_CALIPER_ATTRIBUTE_DEFAULT_SCOPE": ["thread", "process"],
    "CALI_CHANNEL_FLUSH_ON_EXIT": ["true", "false", "1"],
    "CALI_RECORDER_DIRECTORY": ["d1", "d2", "."],
    "CALI_REPORT_CONFIG": ["select * format expand", "select region,count() group by region format table", "select count(),vh.y group by vh.y order by vh.y format json", "aggregate sum(vh.z) group by region format json-split", "group by region,loop select count() format tree"],
    "CALI_TRACE_BUFFER_POLICY": ["grow", "stop", "flush"],
}
WRONG = {"CALI_SERVICES_ENABLE": "event,trace,recorder", "CALI_RECORDER_FILENAME": "wrong.cali", "CALI_REPORT_FILENAME": "wrong.txt"}
def gen_values(rng, tag, log=True):
    """the settings of one channel: variable -> candidate values"""
    keys = ["CALI_SERVICES_ENABLE", "CALI_RECORDER_FILENAME", "CALI_REPORT_FILENAME", "CALI_REPORT_CONFIG"] + rng.sample(sorted(k for k in POOL if k != "CALI_REPORT_CONFIG"), rng.randint(1, 6))
    cand = {}
    for k in keys:
        if k == "CALI_SERVICES_ENABLE": cand[k] = SVC
        elif k == "CALI_RECORDER_FILENAME": cand[k] = ["%s%d.cali" % (tag, i) for i in range(4)]
        elif k == "CALI_REPORT_FILENAME": cand[k] = ["%s%d.txt" % (tag, i) for i in range(4)]
        else: cand[k] = POOL[k]
    if log and rng.random() < .25: cand["CALI_LOG_LOGFILE"] = ["l0.log", "l1.log", "none"]; cand["CALI_LOG_VERBOSITY"] = ["0", "1"]
    return cand
def quote(v): return '"' + v.replace("\\", "\\\\").replace('"', '\\"') + '"'
def conf(profiles, rng):
    out = []
    for name, kv in profiles:
        if name != "default" or out: out.append("# [%s]" % name)
        items = list(kv.items()); rng.shuffle(items); out += ["%s=%s" % (k, quote(v)) for k, v in items]
        if rng.random() < .3: out.append("# nothing here")
    return "\n".join(out) + "\n"
DROP = re.compile(r"starttime|cali\.channel")
def norm(ctx_, d):
    res = {}
    for root, dirs, files in os.walk(d):
        for f in files:
            p = os.path.join(root, f); n = os.path.relpath(p, d)
            if f.endswith(".conf") or f in ("caliper.config", "spec.txt") : continue
            t = open(p, encoding="latin-1", newline="").read()
            if f.endswith(".cali"):
                try: ds = qlib.parse(t)
                except qlib.CaliError as e: res[n] = "unreadable: %s" % e; continue
                res[n] = (tuple(sorted(repr(qlib.exact(ds, r)) for r in ds.recs)), tuple(sorted(a.ident() for k, a in ds.attrs.items() if not DROP.match(k) and k.startswith("vh."))))
            else: res[n] = "\n".join((",".join(sorted(l.split(","))) if re.match(r"[\w.#]+=", l) else l) for l in t.split("\n") if not re.search(r"starttime|Creating channel|Configuring|cali.channel", l))
    return res
def execute(c, d, spec, env, files):
    shutil.rmtree(d, ignore_errors=True); os.makedirs(d + "/d1"); os.makedirs(d + "/d2")
    for f, t in files.items(): open(os.path.join(d, f), "w").write(t)
    open(d + "/spec.txt", "w").write("\n".join("\t".join(x) for x in spec) + "\n")
    cmd = [c.prog, "--mode", "prog", "--spec", "spec.txt"]
    r = vlib.run2(cmd, timeout=60, env=env, cwd=d); c.stat("runs")
    rep = "cd <scratch> && %s %s\n--- spec\n%s\n%s" % (" ".join("%s='%s'" % x for x in sorted(env.items())), " ".join(cmd), open(d + "/spec.txt").read(), "".join("--- %s\n%s" % x for x in files.items()))
    if r.timed_out: c.viol("hang", "the program did not end\n" + rep); return None, rep
    if r.rc: c.viol(vlib.crash_key(r.err, r.rc), "rc=%s\n%s\n%s" % (r.rc, r.err[-4000:], rep)); return None, rep
    n = norm(c, d); n["<stdout>"] = r.out; n["<stderr>"] = "\n".join(l for l in r.err.split("\n") if l); return n, rep
def diff(a, b):
    out = []
    for k in sorted(set(a) | set(b)):
        if a.get(k) != b.get(k):
            x, y = a.get(k), b.get(k)
            if isinstance(x, tuple) and isinstance(y, tuple): x, y = "\n".join(map(str, sorted(set(map(str, x[0] + x[1])) - set(map(str, y[0] + y[1])))))[:600] + " (%d records)" % len(x[0]), "\n".join(map(str, sorted(set(map(str, y[0] + y[1])) - set(map(str, x[0] + x[1])))))[:600] + " (%d records)" % len(y[0])
            elif isinstance(x, str) and isinstance(y, str):
                a_, b_ = x.split("\n"), y.split("\n"); x, y = "\n".join(l for l in a_ if l not in b_) or "(same lines in another order or number)", "\n".join(l for l in b_ if l not in a_)
            out.append("%s:\n  with the sources: %s\n  with the winning values only: %s" % (k, str(x)[:900], str(y)[:900]))
    return "\n".join(out)
SRC = ["preset", "default", "p1", "my profile", "env", "set"]
def sources(rng, cand, env_ok, sel):
    """distributes candidate values over sources, and computes the winner of each variable"""
    src = {s: {} for s in SRC}; win = {}; why = {}
    for k, vals in cand.items():
        for s in SRC:
            if rng.random() < .3: src[s][k] = rng.choice(vals)
        if k in ("CALI_SERVICES_ENABLE", "CALI_RECORDER_FILENAME", "CALI_REPORT_FILENAME", "CALI_REPORT_CONFIG"):
            src[rng.choice(["preset", "default"])][k] = rng.choice(vals)   # always given somewhere
        for s in ["preset", "default"] + sel + (["env"] if env_ok else []) + ["set"]:
            if k in src[s]: win[k] = src[s][k]; why[k] = s
    return src, win, why
def case(c, rng, i):
    import checks_c27_prog as P
    c.prog = P.exe
    d = os.path.join(c.tmp, "r%d" % os.getpid())
    mode = "channels" if rng.random() < .4 else "default"
    env_ok = rng.random() > .15; sel = rng.choice([[], ["p1"], ["my profile"], ["p1", "my profile"], ["my profile", "p1"], ["p1", "nosuchprofile"]]); valid = [s for s in sel if s in SRC]
    spec, env, files = [], {}, {}
    cand = gen_values(rng, "m", mode == "default"); src, win, why = sources(rng, cand, env_ok, valid)
    for s in ["p1", "my profile"]:
        if not src[s]: src[s]["CALI_VH_UNUSED"] = "1"
    if not env_ok: spec.append(["noenv"])
    profs = [("default", src["default"])] + [(p, src[p]) for p in ["p1", "my profile"]]
    # split the profiles over one or two files
    fname = "caliper.config"; how = rng.choice(["none", "none", "env", "set", "preset"]); how = "set" if how == "env" and not env_ok else how
    if how != "none":
        fname = rng.choice(["alt.conf", "a.conf,b.conf", "missing.conf,alt.conf"])
        if rng.random() < .5: files["caliper.config"] = conf([("default", WRONG)], rng)
    if fname == "a.conf,b.conf":
        a = [(n, {k: v for k, v in kv.items() if rng.random() < .5}) for n, kv in profs]; b = [(n, {k: v for k, v in kv.items() if k not in a[j][1] or rng.random() < .3}) for j, (n, kv) in enumerate(profs)]
        for j, (n, kv) in enumerate(a):        # the later file wins
            for k in kv:
                if k in b[j][1] and rng.random() < .5: kv[k] = rng.choice(cand.get(k, ["2"]))
        for n_, kv in b:
            if n_ != "default": kv.setdefault("CALI_VH_UNUSED", "1")
        files["a.conf"], files["b.conf"] = conf(a, rng), conf(b, rng)
    else: files[fname.split(",")[-1]] = conf(profs, rng)
    def put(k, v, how):
        if how == "env": env[k] = v
        else: spec.append([how, k, v])
    if how != "none": put("CALI_CONFIG_FILE", fname, how)
    if sel: put("CALI_CONFIG_PROFILE", ",".join(quote(s) if " " in s else s for s in sel), rng.choice(["set", "preset"] + (["env"] if env_ok else [])))
    for k, v in src["preset"].items(): spec.append(["preset", k, v])
    env.update(src["env"])
    for k, v in src["set"].items(): spec.append(["set", k, v])
    head = spec[:1] if spec and spec[0][0] == "noenv" else []; rest = spec[len(head):]; rng.shuffle(rest); spec = head + rest + [["init"]]
    chans, nchund = [], 0
    if mode == "channels":
        for j in range(rng.randint(1, 3)):
            cc = gen_values(rng, "c%d_" % j, False); flag = rng.choice([0, 0, 2]); vals = {k: rng.choice(v) for k, v in cc.items()}
            w = dict(vals)
            for k in list(w):
                if k.startswith("CALI_CALIPER") : del w[k]
            # lower-precedence sources of a channel: its environment (if asked) and caliper.config
            for k in src["env"]:
                if flag & 2 and k not in w and not k.startswith(("CALI_CALIPER", "CALI_LOG")): w[k] = src["env"][k]
            own = fname if (flag & 2 and "CALI_CONFIG_FILE" in env) else "caliper.config"   # the files this channel reads
            if own == fname: lower = dict(src["default"])
            elif "caliper.config" in files: lower = dict(WRONG)
            else: lower = {}
            if flag & 2 and "CALI_CONFIG_PROFILE" in env:
                for p in sel:
                    if own == fname and p in SRC: lower.update(src[p])
                    else: nchund += 1
            for k, v in lower.items():
                if k not in w and not k.startswith(("CALI_CALIPER", "CALI_LOG", "CALI_VH")): w[k] = v
            spec.append(["channel", "ch%d" % j, str(flag)] + [x for kv in vals.items() for x in kv]); chans.append((w, flag))
    spec.append(["run", "3"])
    got, rep = execute(c, d, spec, env, files)
    if got is None: return
    calwin = {k: v for k, v in win.items() if k.startswith("CALI_CALIPER")}
    want = {}; und = [s for s in sel if s not in SRC]
    refs = [win] + [dict(w, **calwin) for w, f in chans]
    for w in refs:
        r, _ = execute(c, d, [["init"], ["run", "3"]], w, {})
        if r is None: return
        for k, v in r.items(): want[k] = want.get(k, "") + v if k.startswith("<") else v
    got = dict(got); err = got["<stderr>"].split("\n"); keep = [l for l in err if "not defined" not in l]; nund = len(err) - len(keep); got["<stderr>"] = "\n".join(keep)
    # each configuration that selects an undefined profile says so
    nsel = len(und) + nchund
    if nund != nsel: c.viol("undefined-profile", "%d messages about undefined profiles, expected %d\n%s\n%s" % (nund, nsel, err, rep))
    if "<stdout>" in want and mode == "channels":
        got["<stdout>"], want["<stdout>"] = "\n".join(sorted(got["<stdout>"].split("\n"))), "\n".join(sorted(want["<stdout>"].split("\n")))
    c.ev += 1; c.stat("settings_judged", len(win) + sum(len(w) for w, f in chans)); c.stat("outputs_compared", len(want) - 2)
    for k, s in why.items(): c.fps.add("e2e %s %s from %s" % (mode, k, s)); c.stat("e2e_from_" + s.replace(" ", "-"))
    if got != want:
        c.viol("effect:" + mode, "case %d: outputs differ from a run with only the winning settings\nwinning: %s\n%s\n%s" % (i, win if mode == "default" else refs, diff(got, want), rep))
    elif len(c.samples) < 1: c.samples.append("%s: %s" % (mode, sorted((k, s) for k, s in why.items())))
    # direct effects of the winning values
    dird = win.get("CALI_RECORDER_DIRECTORY", "."); f = os.path.normpath(os.path.join(dird, win["CALI_RECORDER_FILENAME"])); fl = win.get("CALI_CHANNEL_FLUSH_ON_EXIT", "true") in ("true", "1")
    svc = re.split("[,: ]+", win["CALI_SERVICES_ENABLE"])
    if (f in got) != (fl and "recorder" in svc): c.viol("recorder-file", "case %d: %s %s, with services %s, flush_on_exit=%s\n%s" % (i, f, "exists" if f in got else "is missing", svc, fl, rep))
    if (win["CALI_REPORT_FILENAME"] in got) != (fl and "report" in svc): c.viol("report-file", "case %d: %s %s, with services %s, flush_on_exit=%s\n%s" % (i, win["CALI_REPORT_FILENAME"], "exists" if win["CALI_REPORT_FILENAME"] in got else "is missing", svc, fl, rep))
def main():
    import sys, types
    ck = vlib.Check("C27")
    exe = vlib.compile_harness("config.cpp", "asan", internal=True)
    m = types.ModuleType("checks_c27_prog"); m.exe = exe; sys.modules["checks_c27_prog"] = m
    n = ck.n(16, 200)
    ck.run_shards(exe, [["--mode", "unit", "--seed", ck.seed, "--from", i * 250, "--to", (i + 1) * 250] for i in range(n)], timeout=120)
    e = ck.n(400, 6000)
    qlib.run(ck, "c27", "case", e, budget=600 if not ck.thorough() else 3000)
    ck.rule = ("unit: random definitions of settings in presets, files (default and selected profiles, several files, quoting), environment and API calls, judged against the documented precedence; "
               "whole program: settings of 11 kinds defined by several sources at once, with the output files compared with those of a run given only the winning values in its environment, for the default channel and for channels created with their own settings; "
               "distinct = (winning source, defining sources) and (setting, winning source)")
    ck.assumptions = ["a profile with no settings counts as undefined"]
    return ck.finish(min_evals=n * 200 + e // 2, min_distinct=150)
