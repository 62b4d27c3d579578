import json, os, random, re, shutil
import vlib, qlib
def chan_cfg(k, kind, foe, rng):
    kv = []
    if kind == "stdout": kv = [("CALI_SERVICES_ENABLE", "trace,recorder"), ("CALI_RECORDER_FILENAME", "stdout")]
    if kind == "rec": kv = [("CALI_SERVICES_ENABLE", rng.choice(["event,trace,recorder", "trace,recorder", "event,timer,trace,recorder,statistics"])), ("CALI_RECORDER_FILENAME", "ch%d.cali" % k)]
    if kind == "agg": kv = [("CALI_SERVICES_ENABLE", rng.choice(["event,aggregate,recorder", "aggregate,recorder", "event,aggregate,timer,recorder"])), ("CALI_AGGREGATE_KEY", "vh.mark"), ("CALI_RECORDER_FILENAME", "ch%d.cali" % k)]
    if kind == "rep": kv = [("CALI_SERVICES_ENABLE", "event,trace,report"), ("CALI_REPORT_CONFIG", "select vh.mark where vh.mark format json"), ("CALI_REPORT_FILENAME", "ch%d.json" % k)]
    if kind == "repagg": kv = [("CALI_SERVICES_ENABLE", "aggregate,report"), ("CALI_AGGREGATE_KEY", "vh.mark"), ("CALI_REPORT_CONFIG", "select vh.mark,sum(count) as n where vh.mark group by vh.mark format json"), ("CALI_REPORT_FILENAME", "ch%d.json" % k)]
    if foe is not None: kv.append(("CALI_CHANNEL_FLUSH_ON_EXIT", foe))
    if kind != "agg" and rng.random() < .1: kv.append(("CALI_CHANNEL_CONFIG_CHECK", "false"))
    return kv
def gen(rng):
    """-> (script lines, environment, channel kinds, manager kinds, features)"""
    S, env, n = [], {}, [0]; chans, mgrs, feats = {}, {}, set()
    early = rng.random() < .15
    def marks(k=1): a = n[0]; n[0] += k; return a
    if rng.random() < .4: env.update(CALI_SERVICES_ENABLE=rng.choice(["event,trace,recorder", "aggregate,recorder"]), CALI_AGGREGATE_KEY="vh.mark", CALI_RECORDER_FILENAME="def.cali"); feats.add("default")
    elif not early and rng.random() < .15: S.append((0, "config", "CALI_SERVICES_ENABLE", "event,trace,recorder")); S.append((0, "config", "CALI_RECORDER_FILENAME", "def.cali")); feats.add("default")
    if rng.random() < .25: env["CALI_CONFIG"] = "event-trace(output=cc.cali)"; feats.add("builtin")
    if rng.random() < .3: env.update(CALI_LOG_VERBOSITY=str(rng.randint(0, 3)), CALI_LOG_LOGFILE=rng.choice(["stderr", "cali.log", "none"]))
    if early:
        feats.add("before-main")
        for _ in range(rng.randint(1, 3)): S.append((-2, rng.choice(["init", "state"])) if rng.random() < .4 else (-2, "mark", marks()))
    live, nextw, ended, exists = [0], 1, False, []
    started, regs, released = set(), {}, False
    idle_main = rng.random() < .15                 # the main thread does not use Caliper itself
    if idle_main: feats.add("main-idle")
    def thr(): l = [t for t in live if t] if idle_main else live; return rng.choice(l or live)
    if idle_main: S.append((0, "start", 1)); live.append(1); nextw = 2
    for _ in range(rng.randint(4, 45)):
        r = rng.random(); t = thr()
        if r < .30: k = rng.choice([1, 1, 2, 5, 40]); S.append((t, "marks", marks(k), k) if k > 1 else (t, "mark", marks()))
        elif r < .36: reg = "r%d" % rng.randint(0, 3); S.append((t, "region", reg)); regs.setdefault(t, []).append(reg)
        elif r < .40:
            if regs.get(t): S.append((t, "endregion", regs[t].pop()))
        elif r < .50:
            if nextw < 12: S.append((0 if idle_main else t, "start", nextw)); live.append(nextw); nextw += 1
        elif r < .56:
            w = [x for x in live if x and x != t]
            if idle_main and len(w) < 2: continue
            if w: x = rng.choice(w); S.append((t if t not in (x,) else 0, "join", x)); live.remove(x); regs.pop(x, None); feats.add("threads-exit")
        elif r < .68:
            if len(chans) < 8:
                k = len(chans) + 1; kind = rng.choice(["stdout", "rec", "rec", "agg", "rep", "repagg"]); foe = rng.choice([None, None, "true", "false", "0"]); fl = rng.choice([0, 0, 0, 1])
                S.append((t, "newchan", k, fl, "chn%d" % k) + tuple(x for p in chan_cfg(k, kind, foe, rng) for x in p)); chans[k] = dict(kind=kind, foe=foe not in ("false", "0"), active=fl == 0); exists.append(k); feats.add("chan-" + kind); feats.add("no-exit-flush" if foe in ("false", "0") else "exit-flush")
        elif r < .80:
            if chans:
                k = rng.choice(sorted(chans)); o = rng.choice(["activate", "deactivate", "flush", "flush", "clear", "delete", "flushclear"])
                if o == "delete" and rng.random() < .5: continue
                S.append((t, "flush", k, 0) if o == "flush" else (t, "flush", k, 1) if o == "flushclear" else (t, o, k)); feats.add(o)
        elif r < .84:
            if len(mgrs) < 3: k = len(mgrs) + 1; st = k < 3 and rng.random() < .4; mgrs[k] = dict(static=st, alive=True); S.append((t, "newmgr", k, "static" if st else "heap", "event-trace(output=mgr%d.cali%s)" % (k, rng.choice(["", ",trace.io=false"])))); feats.add("mgr-" + ("static" if st else "heap"))
            if rng.random() < .8 and mgrs[max(mgrs)]["alive"]: k = max(mgrs); S.append((t, "startmgr", k) + (("count",) if k not in started else ())); started.add(k)
        elif r < .90:
            m = [k for k in mgrs if mgrs[k]["alive"]]
            if m:
                k = rng.choice(m); o = rng.choice(["startmgr", "stopmgr", "flushmgr", "flushmgr", "delmgr"])
                if o == "delmgr":
                    if mgrs[k]["static"]: continue
                    mgrs[k]["alive"] = False
                if o == "startmgr": S.append((t, o, k) + (("count",) if k not in started else ())); started.add(k)
                else: S.append((t, o, k))
                feats.add(o)
        elif r < .93: nt, nm = rng.randint(2, 6), rng.randint(1, 30); S.append((t, "par", marks(nt * nm), nt, nm)); feats.add("par")
        elif r < .95: S.append((t, rng.choice(["init", "state"])))
        elif r < .97: S.append((t, "tls", marks())); feats.add("tls")
        elif r < .985 and "default" in feats: S.append((t, "defflush", rng.choice([0, 1]))); feats.add("defflush")
        elif not released and rng.random() < .3: S.append((t, "release")); released = True; feats.add("release"); S.append((thr(), "everything"))
    for _ in range(rng.choice([0, 0, 1, 2])):
        where = rng.choice(["static", "library"]); t = rng.choice(live + [0]); S.append((0 if not idle_main else live[-1], "fini", where, t) + (("mark", marks()) if rng.random() < .7 else ("everything",))); feats.add("fini-" + where)
    if rng.random() < .2: S.append((live[-1], "atexit") + (("mark", marks()) if rng.random() < .7 else ("everything",))); feats.add("atexit")
    e = rng.random(); others = [t for t in live if t]
    if e < .5: feats.add("end-return")
    elif e < .65: S.append((0, "exit")); feats.add("end-exit")
    elif e < .80 and others: S.append((rng.choice(others), "exit")); feats.add("end-exit-thread")
    elif e < .95 and others:
        d = others[0]; S.append((0, "pthread_exit", d)); feats.add("end-pthread_exit")
        for _ in range(rng.randint(0, 4)):
            t = rng.choice(others); S.append((t, "mark", marks()) if rng.random() < .6 else (t, "everything" if rng.random() < .2 else "state"))
        if rng.random() < .7: S.append((d, "exit"))
    elif e < .98: S.append((0, "_exit")); feats.add("end-_exit")
    # "everything" creates output of its own while the library is alive
    return ["\t".join(str(x) for x in l) for l in S], env, chans, mgrs, feats
def cali_marks(text):
    """marks of the records of a .cali stream, with their counts"""
    ds = qlib.parse(text); res = []
    for r in ds.recs:
        m = qlib.getval(r, "vh.mark")
        if m is not None: n = qlib.getval(r, "count"); res.append((m, 1 if n is None else n))
    return res, ds
def judge(c, d, script, chans, mgrs, env, feats, out, rc):
    L = open(d + "/log.txt").read().split("\n"); bad = []
    def viol(k, m): bad.append((k, m))
    buf = {k: None for k in chans}; act = set(); flushed = {}; written = {k: 0 for k in chans}; wexp = {k: 0 for k in chans}; fin = {k: 0 for k in chans}; content = {}; stdout_exp = {}; exists = set()
    mstate = {k: dict(started=False, exists=False, buf=[], content=None, fin=0, alive=True) for k in mgrs}
    defbuf, defcontent, alive, wasalive, released, ending = [], None, False, False, False, False
    everything = [n for n in (1,)]; allmarks = []; nev = 0
    main_gone = False
    pend = []
    for l in L:
        f = l.split(" ", 4); nev += 1
        if f[0] == "mark":
            n, s0, s1 = int(f[1]), int(f[2]), int(f[3])
            if s1:
                for k in act: buf[k].append(n)
                for m in mstate.values():
                    if m["started"]: m["buf"].append(n)
                defbuf.append(n); allmarks.append(n)
            states = (s1,)
        elif f[0] == "written":
            k = int(f[1])
            if k >= 1000:
                k -= 1000; mstate[k]["content"] = list(mstate[k]["buf"]); mstate[k]["w"] = mstate[k].get("w", 0) + 1
            else:
                written[k] += 1
                if chans[k]["kind"] == "stdout": stdout_exp.setdefault("chn%d" % k, []).append(sorted(buf[k]))
                else: content[k] = sorted(buf[k])
            continue
        elif f[0] == "finished":
            k = int(f[1])
            if k >= 1000: mstate[k - 1000]["fin"] += 1
            else: fin[k] += 1; act.discard(k)
            continue
        elif f[0] == "op":
            s0, s1 = int(f[2]), int(f[3]); o = f[4].split("\t")
            if s0 or s1:
                k = int(o[1]) if len(o) > 1 and re.fullmatch(r"\d+", o[1]) else None
                if o[0] == "newchan": exists.add(k); buf[k] = []; act |= {k} if chans[k]["active"] else set()
                elif o[0] in ("activate", "deactivate", "flush", "clear", "delete") and k in exists:
                    if o[0] == "activate": act.add(k)
                    elif o[0] == "deactivate": act.discard(k)
                    elif o[0] == "flush":
                        wexp[k] += 1
                        if o[2] == "1": buf[k] = []
                    elif o[0] == "clear": buf[k] = []
                    else: act.discard(k); exists.discard(k); wexp[k] += 0; chans[k]["deleted"] = True
                elif o[0] == "startmgr": m = mstate[k]; m["started"] = True; m["exists"] = True
                elif o[0] == "stopmgr": mstate[k]["started"] = False
                elif o[0] == "flushmgr": m = mstate[k]; m["wexp"] = m.get("wexp", 0) + (1 if m["exists"] else 0)
                elif o[0] == "delmgr": m = mstate[k]; m["started"] = False; m["finexp"] = 1 if m["exists"] else 0; m["exists"] = False
                elif o[0] == "defflush":
                    defcontent = sorted(defbuf)
                    if o[1] == "1": defbuf = []
                elif o[0] == "release":
                    released = True
            if o[0] == "release": wasalive = released = True
            if o[0] == "init" and not s1 and not released and not ending: viol("not-initialized", "cali_init() left the library uninitialized: " + l)
            states = (s1,)
        elif f[0] in ("exiting", "returning", "driver-ended", "main-ended"): ending = True; main_gone = True; continue
        elif f[0] == "mgr-error": viol("mgr-error", l); continue
        elif f[0] == "end": states = (int(f[1]),)
        elif f[0] == "alive": ended_alive = viol("alive", "a valid instance after finalization") if released else None; continue
        else: continue
        for s in states:
            if s: wasalive = True
            if released and s: viol("reinitialized", "the library is initialized after its release: " + l)
            if wasalive and not s and not released and not ending: viol("finalized-early", "the library was finalized while the program was running: " + l)
    if "end-_exit" not in feats and (not L or not any(x.startswith("end ") for x in L)): viol("incomplete", "the program did not come to its end (rc %s)" % rc)
    complete = wasalive and ("end-_exit" not in feats or released)
    # ---- deliveries
    for k in chans:
        if buf[k] is None: continue
        want = wexp[k] + (1 if complete and k in exists and chans[k]["foe"] else 0); c.stat("channels_judged")
        if written[k] != want: viol("write-count", "channel %d (%s, flush at exit: %s) was written %d times, expected %d" % (k, chans[k]["kind"], chans[k]["foe"], written[k], want))
        wf = 1 if (chans[k].get("deleted") or complete) else 0
        if fin[k] != wf: viol("finish-count", "channel %d was finished %d times, expected %d" % (k, fin[k], wf))
        fn = "%s/ch%d.%s" % (d, k, "json" if chans[k]["kind"].startswith("rep") else "cali")
        if chans[k]["kind"] == "stdout": continue
        if k not in content:
            if os.path.exists(fn): viol("unexpected-file", "channel %d was not flushed but %s exists" % (k, os.path.basename(fn)))
            continue
        if not os.path.exists(fn): viol("missing-file", "channel %d was flushed but wrote no %s" % (k, os.path.basename(fn))); continue
        compare(c, viol, "channel %d (%s)" % (k, chans[k]["kind"]), open(fn, encoding="latin-1", newline="").read(), content[k], chans[k]["kind"], "chn%d" % k)
    for k, m in mstate.items():
        fn = "%s/mgr%d.cali" % (d, k)
        if m.get("w", 0) != m.get("wexp", 0): viol("write-count", "manager %d was written %d times, expected %d" % (k, m.get("w", 0), m.get("wexp", 0)))
        if m["content"] is None:
            if os.path.exists(fn): viol("unexpected-file", "mgr%d.cali" % k)
        elif not os.path.exists(fn): viol("missing-file", "mgr%d.cali" % k)
        else: compare(c, viol, "manager %d" % k, open(fn, encoding="latin-1", newline="").read(), sorted(m["content"]), "rec", None)
    if "default" in feats:
        want = sorted(defbuf) if complete else defcontent; fn = d + "/def.cali"
        if want is None and os.path.exists(fn): viol("unexpected-file", "def.cali")
        elif want is not None and not os.path.exists(fn): viol("missing-file", "def.cali was not written")
        elif want is not None: compare(c, viol, "default channel", open(fn, encoding="latin-1", newline="").read(), want, "rec", "default")
    if "builtin" in feats:
        fn = d + "/cc.cali"
        if complete:
            if not os.path.exists(fn): viol("missing-file", "cc.cali was not written")
            else: compare(c, viol, "CALI_CONFIG channel", open(fn, encoding="latin-1", newline="").read(), sorted(allmarks), "rec", None)
        elif os.path.exists(fn): viol("unexpected-file", "cc.cali")
    # ---- standard output: one section per flush
    got = {}; sec = []
    for l in out.split("\n"):
        if l: sec.append(l)
        if l.startswith("__rec=globals"):
            try: m, ds = cali_marks("\n".join(sec) + "\n")
            except qlib.CaliError as e: viol("malformed-output", "standard output: %s" % e); break
            got.setdefault(next((qlib.getval(g, "cali.channel") for g in ds.globals), "?"), []).append(sorted(x for x, _ in m)); sec = []
    if sec and "end-_exit" not in feats and not any(x[0] == "malformed-output" for x in bad): viol("malformed-output", "standard output ends with %r" % sec[-3:])
    for k in (set(got) | set(stdout_exp)) if "end-_exit" not in feats else ():
        if got.get(k, []) != stdout_exp.get(k, []): viol("stdout", "channel %s on standard output: marks %s, expected %s" % (k, got.get(k), stdout_exp.get(k)))
    allow = {"log.txt", "script.txt", "cali.log", "def.cali", "cc.cali"} | {"ch%d.%s" % (k, e) for k in chans for e in ("cali", "json")} | {"mgr%d.cali" % k for k in mgrs} | {"late.cali", "late3.cali", "late4.txt", "late6.txt"}
    for fn in sorted(os.listdir(d)):
        if fn not in allow: viol("stray-file", fn)
    c.stat("log_events", nev); c.stat("marks", len(allmarks))
    return bad
def compare(c, viol, what, text, want, kind, name):
    c.stat("outputs_judged")
    if kind.startswith("rep"):
        try: j = json.loads(text)
        except ValueError as e: viol("malformed-output", "%s: %s: %r" % (what, e, text[:300])); return
        got = sorted((int(x["vh.mark"]) for x in j if "vh.mark" in x))
        if any(str(x.get("n", "1")) not in ("1", "1.0", "1.000000") for x in j): viol("duplicated", "%s: counts are not one: %s" % (what, text[:1500]))
    else:
        try: m, ds = cali_marks(text)
        except qlib.CaliError as e: viol("malformed-output", "%s: %s" % (what, e)); return
        got = sorted(x for x, n in m)
        if any(n != 1 for x, n in m): viol("duplicated", "%s: counts are not one: %s" % (what, [x for x in m if x[1] != 1]))
    if got != want:
        dup = sorted({x for x in got if got.count(x) > 1}); lost = [x for x in want if x not in got]; extra = [x for x in got if x not in want]
        viol("duplicated" if dup else "lost" if lost else "stale", "%s: %d marks delivered, %d expected; duplicated %s, lost %s, unexpected %s" % (what, len(got), len(want), dup[:20], lost[:20], extra[:20]))
def case(c, rng, i):
    import c16_exe
    S, env, chans, mgrs, feats = gen(rng); d = os.path.join(c.tmp, "w%d" % os.getpid()); shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    open(d + "/script.txt", "w").write("\n".join(S) + "\n"); c.ev += 1
    r = vlib.run2([c16_exe.exe], timeout=60, env=env, cwd=d); c.stat("runs")
    rep = "environment: %s\nscript:\n%s\nlog:\n%s" % (env, "\n".join(S), open(d + "/log.txt").read() if os.path.exists(d + "/log.txt") else "")
    if r.timed_out: c.viol("hang", rep); return
    if r.rc: c.viol(vlib.crash_key(r.err, r.rc), "rc=%s\n%s\n%s" % (r.rc, r.err[-5000:], rep)); return
    for k, m in judge(c, d, S, chans, mgrs, env, feats, r.out, r.rc): c.viol(k, m + "\n" + rep + "\nstderr:\n" + r.err[-1500:])
    for a in feats: c.fps.add(a); [c.fps.add(a + "/" + b) for b in feats if b > a]
    if i < 3: c.samples.append(" ; ".join(S)[:400])
def main():
    import sys, types
    ck = vlib.Check("C16"); m = types.ModuleType("c16_exe"); m.exe = vlib.compile_harness("life.cpp", "asan"); sys.modules["c16_exe"] = m
    n = ck.n(1800, 60000)
    qlib.run(ck, "c16", "case", n, budget=6000, chunk=20)
    ck.rule = ("whole programs driven by random scripts: initialization (explicit, implicit, before main), channels of five kinds with and without flush at exit, configuration managers (heap, static), the default channel and CALI_CONFIG, flush/clear/delete, threads that come and go or stay, release in the middle, marks from thread-local destructors, "
               "static destructors and atexit handlers, every API function after finalization, and the end by return, exit from any thread, pthread_exit of the main thread or _exit; an offline checker replays the log of operations and compares files and standard output: every mark exactly once per flush; distinct = features and pairs of features seen together")
    ck.assumptions = ["no annotation is in progress in another thread while the library is finalized"]
    return ck.finish(min_evals=n, min_distinct=150)
