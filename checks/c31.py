import json, os, re, shutil
import vlib, qlib
NEST, ASV, PROC = 256, 1, 12      # set from the headers in main()
AUTO = re.compile(r"^\d{6}-\d{6}_\d+_[0-9a-zA-Z]{12}\.cali$")
# ---------------------------------------------------------------- sections of an output stream
class Bad(Exception): pass
def cali_section(text):
    ds = qlib.parse(text); g = {n: v for r in ds.globals for n, v in qlib.entries(r)} if ds.globals else {}
    marks = [int(qlib.getval(r, "vh.mark")) for r in ds.recs if qlib.getval(r, "vh.mark") is not None]
    regs = set(); [regs.update(v for n, v in qlib.entries(r) if n == "region") for r in ds.recs]
    return ("cali", g.get("cali.channel"), tuple(marks), frozenset(regs), g)
TEXT = re.compile(r"^(SAY |== CALIPER|cali-query: |__rec=|[\[{]|m\d+( *$|=)|Path |Loop summary)")
def sections(text):
    """the sequence of outputs found in a stream; anything that is not a complete output is an error"""
    out, pos = [], 0; dec = json.JSONDecoder()
    def line(p): e = text.find("\n", p); return (text[p:], len(text)) if e < 0 else (text[p:e], e + 1)
    while pos < len(text):
        l, nxt = line(pos)
        if not l.strip(): pos = nxt; continue
        if l.startswith(("== CALIPER", "cali-query: ")): out.append(("log", l)); pos = nxt
        elif l.startswith("SAY "): out.append(("say", l[4:])); pos = nxt
        elif l.startswith("__rec="):
            p = pos
            while True:
                if p >= len(text): raise Bad("a .cali stream has no globals record at its end: ...%r" % text[max(pos, len(text) - 200):])
                l, p = line(p)
                if not l.startswith("__rec="): raise Bad("%r inside of a .cali stream" % l[:100])
                if l.startswith("__rec=globals"): break
            if text[p - 1] != "\n": raise Bad("a .cali stream without end of line")
            try: out.append(cali_section(text[pos:p]))
            except qlib.CaliError as e: raise Bad("malformed .cali stream: %s" % e)
            pos = p
        elif l[0] in "[{":
            try: j, p = dec.raw_decode(text, pos)
            except ValueError as e: raise Bad("malformed JSON: %s: %r" % (e, text[pos:pos + 200]))
            pos = p; keys = set(); marks = []
            if isinstance(j, list):
                for r in j: keys.update(r); marks += [int(v) for k, v in r.items() if re.match(r"m\d+$", k)]
                out.append(("json", next((k for k in keys if re.match(r"m\d+$", k)), None), tuple(marks), frozenset(str(r["path"]).split("/")[-1] for r in j if "path" in r)))
            else:
                c = j["columns"]; mc = [i for i, n in enumerate(c) if re.match(r"m\d+$", n)]
                marks = [int(r[i]) for r in j["data"] for i in mc if r[i] is not None]
                out.append(("split", j.get("cali.channel"), tuple(marks), frozenset(n["label"] for n in j["nodes"])))
        elif re.match(r"m\d+=", l):
            k = l.split("=")[0]; marks = []; p = pos
            while p < len(text):
                l, n = line(p); m = re.match(r"(m\d+)=(\d+)$", l)
                if not m or m.group(1) != k: break
                marks.append(int(m.group(2))); p = n
            out.append(("expand", k, tuple(marks))); pos = p
        elif re.match(r"m\d+ *$", l):
            k = l.strip(); marks = []; p = nxt
            while p < len(text):
                l, n = line(p); m = re.match(r" *(\d+) *$", l)
                if not m: break
                marks.append(int(m.group(1))); p = n
            out.append(("table", k, tuple(marks))); pos = p
        elif l.startswith("Path "):
            p = nxt; regs = []
            while p < len(text):
                l, n = line(p)
                if TEXT.match(l): break
                if l.strip(): regs.append(l.split()[0])
                p = n
            out.append(("report", None, (), frozenset(regs))); pos = p
        elif l.startswith("Loop summary"):
            p = nxt; body = []
            while p < len(text):
                l, n = line(p)
                if TEXT.match(l): break
                body.append(l); p = n
            out.append(("loops", None, (), frozenset(x.split()[0] for x in body if x and x[0] not in " -"))); pos = p
        else: raise Bad("unexpected text %r" % l[:200])
    return out
# ---------------------------------------------------------------- model
class Model:
    def __init__(self): self.files, self.links, self.dirs = {}, {}, {""}; self.streams = {"stdout": [], "stderr": []}; self.auto = []; self.fails = []; self.fsize = self.nofd = False; self.logged = 0
    def resolve(self, p):
        p = re.sub(r"/+", "/", p); seen = 0
        p = "/".join(x for i, x in enumerate(p.split("/")) if x != "." )
        while p in self.links and seen < 5: p = self.links[p]; seen += 1
        return p
    def opens(self, p):
        """can a file be opened for writing at p? creates the directories"""
        if p == "" or p.endswith("/"): 
            if p: self.mkdirs(p[:-1])
            return False
        par = p.rsplit("/", 1)[0] if "/" in p else ""
        if not self.mkdirs(par): return False
        return p not in self.dirs and not self.nofd
    def mkdirs(self, d):
        d = re.sub(r"/+", "/", d).strip("/"); d = d[2:] if d.startswith("./") else d
        if d == "": return True
        parts = d.split("/")
        for i in range(len(parts)):
            q = "/".join(parts[:i + 1])
            if q in self.files or q in self.links: return False
            self.dirs.add(q)
        return True
    def write(self, name, sec, append=False, raw=False):
        """one output goes to destination name (already expanded)"""
        if name in ("stdout", "stderr") and not raw: self.streams[name].append(sec); return True
        if name.startswith("/dev/") and self.nofd: self.fails.append(name); return False
        if name == "/dev/full" and sec is None: return True       # nothing is written
        if name == "/dev/full": self.fails.append(name); return False
        if name == "/dev/null": return True
        p = self.resolve(name)
        if not self.opens(p):
            self.fails.append(name); return False
        if self.fsize and sec is not None: self.fails.append(name); self.files[p] = None; return False
        old = self.files.get(p)
        if append and p in self.files: self.files[p] = None if old is None else old + [sec]
        else: self.files[p] = [sec]
        return True
def attrtext(t, v): return str(int(v)) if t == "int" else v if t == "string" else ("%f" % float(v))
def expand(pat, info, types):
    f = pat.split("%"); out = ""
    for i in range(0, len(f), 2):
        out += f[i]
        if i + 1 < len(f):
            m = re.match(r"^\[(\d+)\](.*)$", f[i + 1]); w, name = (int(m.group(1)), m.group(2)) if m else (0, f[i + 1])
            s = next((x[name] for x in info if name in x), ""); n = min(max(w - len(s), 0), 80)
            out += " " * n + s if types.get(name) in ("int", "double") else s + " " * n
    return out
FMT = ["json", "json", "json-split", "expand", "table", "table", "cali"]
def gen(rng, fds, conc):
    S, M, env = [], Model(), {}
    types, scope = {"cali.channel": "string"}, {}        # pattern attributes
    values = {}                                           # (where, attr) -> [stack]
    chans, mgrs, feats = {}, {}, set(); state = dict(mark=0, say=0, user=0, par=False)
    def op(*a): S.append("\t".join(str(x) for x in a))
    log = rng.choice(["stderr", "stderr", "cali.log", "none", "stdout"]); verb = rng.choice([0, 0, 0, 1, 2]) if log in ("cali.log", "none") else 0
    if log != "stderr": env["CALI_LOG_LOGFILE"] = log
    if verb: env["CALI_LOG_VERBOSITY"] = str(verb)
    for i in range(rng.randint(0, 4)):
        n = "fa.%d" % i; types[n] = rng.choice(["int", "string", "string", "double"]); props = rng.choice([0, 0, ASV, PROC, ASV | PROC, NEST]) if types[n] != "double" else ASV
        scope[n] = ("process" if props & 60 == PROC else "thread", bool(props & ASV)); op("attr", n, types[n], props)
    anames = list(scope)
    def val(n):
        t = types[n]; return str(rng.choice([0, 7, 42, 123456])) if t == "int" else rng.choice(["0.5", "12.25"]) if t == "double" else rng.choice(["x", "foo", "a b", "d1/e", "v.1", "long" * 8, "x"])
    def fname(ext):
        r = rng.random()
        if r < .18: return rng.choice(["stdout", "stdout", "stderr"])
        if r < .24: return rng.choice(["/dev/full", "blocked/" + "f" + ext, "isdir", "isdir/sub/"])
        base = rng.choice(["out", "o%d" % rng.randint(0, 5), "deep/er/o%d" % rng.randint(0, 3), "./here", "with space", "link%d" % rng.randint(0, 1), "old", "isdir/in"])
        if anames and rng.random() < .5:
            for _ in range(rng.randint(1, 2)): base += rng.choice(["-", "_", "."]) + "%" + rng.choice(["", "", "[3]", "[12]", "[90]"]) + rng.choice(anames + ["cali.channel", "no.such"]) + "%"; feats.add("pattern")
        return base + ext
    def info(k):                                          # what a flush of channel k can see, in lookup order
        def top(w): return {n: ("/".join(st) if not scope[n][1] else st[-1]) for (ww, n), st in values.items() if ww == w and st}
        ch = dict(top(("ch", k))); ch.setdefault("cali.channel", "chn%d" % k); return [ch, top("process"), top("thread")]
    def outputs(k, extra=()):
        """the destinations and sections of one flush of channel k"""
        ch = chans[k]; inf = list(extra) + info(k); res = []
        if "rec" in ch:
            f, d = ch["rec"]
            if f == "": res.append(((d + "/" if d else ""), ("cali", "chn%d" % k, tuple(ch["marks"])), False, True))
            else: e = expand((d + "/" if d else "") + f, inf, types); res.append((e, ("cali", "chn%d" % k, tuple(ch["marks"])), False, False))
        if "rep" in ch:
            f, fmt, app = ch["rep"]; m = tuple(ch["marks"])
            key = {"json": "m%d" % k if m else None, "json-split": "chn%d" % k, "expand": "m%d" % k, "table": "m%d" % k, "cali": "chn%d" % k}[fmt]; kind = {"json-split": "split"}.get(fmt, fmt)
            sec = (kind, key, m) if (kind != "expand" or m) else None
            res.append((expand(f, inf, types), sec, app, False))
        return res
    # is the name taken literally? "stdout" counts only without a pattern, and a directory makes it a file
    def israw(k, which): return which == "rec" and bool(chans[k]["rec"][1])
    def apply(k, extra=()):
        for i, (dst, sec, app, auto) in enumerate(outputs(k, extra)):
            if auto:
                made = M.mkdirs(dst.rstrip("/") if dst else "")
                if M.nofd or M.fsize or not made:
                    if M.fsize and not M.nofd and made: M.auto.append((M.resolve(dst) if dst else "", None))
                    M.fails.append(dst)
                else: M.auto.append((M.resolve(dst) if dst else "", sec))
                continue
            raw = (i == 0 and "rec" in chans[k] and bool(chans[k]["rec"][1]))
            pat = chans[k]["rec"][0] if i == 0 and "rec" in chans[k] else chans[k]["rep"][0]
            if pat not in ("stdout", "stderr"): raw = True
            M.write(dst, sec, app, raw)
    def apply_mgr(k):
        m = mgrs[k]; dst = m["dst"]; sec = (m["sec"], None, tuple(m["marks"]), frozenset(m["regs"]))
        M.write(dst, sec, m["append"], False)
    def pure(k): return k[0] != "m" and all(o[3] or o[0] == "/dev/null" for o in outputs(int(k)))     # every flush writes a file of its own
    def distinct(ks):
        """concurrent outputs must go to different destinations"""
        seen = set()
        for k in ks:
            d = [mgrs[int(k[1:])]["dst"]] if k[0] == "m" else [("auto", i) if o[3] else o[0] for i, o in enumerate(outputs(int(k)))]
            d = [x if isinstance(x, tuple) else M.resolve(x) for x in d]; d = set(("auto", k, x) if isinstance(x, tuple) else x for x in d)
            if pure(k): continue
            d.discard("/dev/null")
            if d & seen: return False
            seen |= d
        return not (log in seen) or not verb
    # what is there before the program starts, prepared by operations of the program itself
    op("mkfile", "blocked", "B"); M.files["blocked"] = ["B"]; op("mkdir", "isdir"); M.dirs.add("isdir")
    op("mkdir", "elsewhere"); M.dirs.add("elsewhere")
    for i, ext in enumerate([".cali", ".json"]): op("symlink", "elsewhere/t%d" % i, "link%d%s" % (i, ext)); M.links["link%d%s" % (i, ext)] = "elsewhere/t%d" % i
    op("mkfile", "elsewhere/t1", "old " * 3000); M.files["elsewhere/t1"] = ["old " * 3000]
    op("mkfile", "old.cali", "stale " * 5000); M.files["old.cali"] = ["stale " * 5000]
    if log == "stdout" and verb: state["par"] = True      # log lines of other threads would come in between
    def newchan():
        k = len(chans) + 1; ch = dict(marks=[], foe=rng.random() < .7); r = rng.random(); sv = ["trace"]; kv = []
        if r < .55 or r > .85:
            sv.append("recorder"); f = "" if rng.random() < .2 else fname(".cali"); d = rng.choice(["", "", "", "rdir", "rdir/%d" % k, "./r"]); ch["rec"] = (f, d)
            if f.startswith("/"): ch["rec"] = (f, "")
            kv += ["CALI_RECORDER_FILENAME", f]
            if ch["rec"][1]: kv += ["CALI_RECORDER_DIRECTORY", d]
            feats.add("rec-" + ("auto" if not f else "dir" if d else "plain"))
        if r >= .55:
            sv.append("report"); fmt = rng.choice(FMT); app = rng.random() < .35; f = "/dev/null" if rng.random() < .1 else fname(".json"); ch["rep"] = (f, fmt, app)
            kv += ["CALI_REPORT_FILENAME", f, "CALI_REPORT_CONFIG", "select vh.mark as m%d where vh.mark%s" % (k, "" if fmt == "table" and rng.random() < .6 else " format " + fmt)] + (["CALI_REPORT_APPEND", "true"] if app else []); feats.add("rep-" + fmt + ("-append" if app else ""))
        kv += ["CALI_SERVICES_ENABLE", ",".join(sv)]
        if not ch["foe"]: kv += ["CALI_CHANNEL_FLUSH_ON_EXIT", "false"]
        op("newchan", k, 0, "chn%d" % k, *kv); chans[k] = ch
    def newmgr():
        k = len(mgrs) + 1; kind = rng.choice(["event-trace", "runtime-report", "hatchet-region-profile", "runtime-profile", "spot", "loop-report"])
        dst = rng.choice(["mgr%d" % k, "mgr%d.cali" % k, "mgr%d.json" % k, "mdir/m%d.x" % k, "stdout", "stderr", "/dev/full", "blocked/m", "isdir"]); args = ["output=" + dst]; ap = False; sec = {"event-trace": "cali", "runtime-report": "report", "spot": "cali", "loop-report": "loops"}.get(kind)
        if kind == "spot" and dst[0] != "/" and rng.random() < .4:
            args.append("outdir=sdir"); dst = dst if dst in ("stdout", "stderr") else "sdir/" + dst
        if kind == "runtime-report":
            ap = True
            if rng.random() < .4: ap = rng.random() < .5; args.append("output.append=" + ("true" if ap else "false"))
        if kind in ("hatchet-region-profile", "runtime-profile"):
            f = rng.choice([None, "json", "json-split", "cali"]); 
            if f: args.append("output.format=" + f)
            f = f or ("cali" if kind == "runtime-profile" else "json-split"); f = "cali" if not [a for a in args if a.startswith("output.format")] else f
            sec = {"json-split": "split"}.get(f, f); 
            if dst not in ("stdout", "stderr", "/dev/full"):
                e = ".cali" if f == "cali" else ".json"
                if not dst.endswith(e): dst += e
            if dst == "/dev/full": args[0] = "output=mgr%d" % k; dst = "mgr%d%s" % (k, ".cali" if f == "cali" else ".json")
        op("newmgr", k, "%s(%s)" % (kind, ",".join(args))); mgrs[k] = dict(dst=dst, sec=sec, append=ap, marks=[], regs=set(), kind=kind, on=True); feats.add("mgr-" + kind)
    def say(): state["say"] += 1; op("say", state["say"]); M.streams["stdout"].append(("say", str(state["say"])))
    for _ in range(rng.randint(6, 50)):
        r = rng.random()
        if conc and len(chans) > 1 and rng.random() < .25: r = rng.choice([.84, .935])
        if r < .14 and len(chans) < 9: newchan()
        elif r < .20 and len(mgrs) < 4: newmgr()
        elif r < .36:
            n = rng.choice([1, 2, 3, 60]); a = state["mark"]; state["mark"] += n; op("mark", a, n)
            for c in chans.values(): c["marks"] += range(a, a + n)
            for m in mgrs.values():
                if m["on"] and m["kind"] == "event-trace": m["marks"] += range(a, a + n)
        elif r < .40 and chans:
            k = rng.choice(list(chans)); n = rng.choice([1, 5, 400]); a = state["mark"]; state["mark"] += n; op("cmark", k, a, n); chans[k]["marks"] += range(a, a + n)
        elif r < .44:
            n = "reg%d" % rng.randint(0, 4); lp = rng.random() < .4
            if lp: op("loop", "lp" + n, 3)
            else: op("region", n)
            for m in mgrs.values():
                if m["on"]: m["regs"].add(("loop", "lp" + n) if lp else n)
        elif r < .54 and anames:
            n = rng.choice(anames); w = scope[n][0]; w2 = ("ch", rng.choice(list(chans))) if chans and w == "thread" and rng.random() < .3 else w; st = values.setdefault((w2, n), [])
            x = rng.random(); v = val(n); pre = ("chset", w2[1]) if w2 != w else ("set",); preb = ("chbegin", w2[1]) if w2 != w else ("begin",)
            if x < .4: op(*(preb + (n, types[n], v))); st[:] = [] if scope[n][1] else st; st.append(attrtext(types[n], v))
            elif x < .8:
                op(*(pre + (n, types[n], v)))
                if st: st[-1] = attrtext(types[n], v)
                else: st.append(attrtext(types[n], v))
            elif st and w2 == w and not any(ss and nn != n and ww == w and not scope[nn][1] for (ww, nn), ss in values.items()): op("end", n); st.pop()
        elif r < .72 and chans:
            k = rng.choice(list(chans)); clr = int(rng.random() < .15); x = rng.random()
            if x < .12 and anames: n = rng.choice(anames); v = val(n); op("flushinfo", k, n, types[n], v); apply(k, [{n: attrtext(types[n], v)}]); feats.add("flush-info")
            else:
                op("flush", k, clr); apply(k)
                if clr: chans[k]["marks"] = []; feats.add("clear")
            feats.add("flush")
            if rng.random() < .5: say()
        elif r < .78 and mgrs:
            k = rng.choice(list(mgrs)); op("flushmgr", k); apply_mgr(k); say()
        elif r < .80 and mgrs: k = rng.choice(list(mgrs)); op("stopmgr", k); mgrs[k]["on"] = False
        elif r < .86 and len(chans) > 1 and not state["par"]:
            ks = [str(k) for k in chans] + ["m%d" % k for k in mgrs if mgrs[k]["regs"] or mgrs[k]["kind"] != "runtime-report"]; rng.shuffle(ks); ks = ks[:rng.randint(2, 6)]; ks += [k for k in ks if pure(k)] * rng.randint(0, 2)
            while len(ks) > 1 and not distinct(ks): ks.pop()
            if log in ("stdout", "stderr") and any(o[0] == log for k in ks if k[0] != "m" for o in outputs(int(k))): continue
            if any(k[0] == "m" and mgrs[int(k[1:])]["dst"] in ("stdout", "stderr") for k in ks): continue
            if len(ks) > 1:
                op("parflush", ",".join(ks)); feats.add("concurrent")
                # other threads' values are not visible
                keep = {kk: v for kk, v in values.items() if kk[0] == "thread"}
                for kk in keep: del values[kk]
                ok = distinct(ks)
                if not ok: S.pop(); values.update(keep); continue
                for k in ks: apply_mgr(int(k[1:])) if k[0] == "m" else apply(int(k))
                values.update(keep); say()
        elif r < .90 and chans:
            k = rng.choice(list(chans)); fmt = rng.choice(FMT[:-1]); state["user"] += 1; fn = "user%d.txt" % state["user"]
            if M.nofd or M.fsize: continue
            m = tuple(chans[k]["marks"]); op("query", k, fn, "select vh.mark as m%d where vh.mark format %s" % (k, fmt)); M.files[fn] = [("user", k, fmt, m)]; feats.add("user-stream")
        elif r < .915 and not (M.nofd or M.fsize) or r == .935 and not (M.nofd or M.fsize) and rng.random() < .6:
            if not chans: continue
            ks = [rng.choice(list(chans)) for _ in range(rng.randint(2, 6))]; fmt = rng.choice(FMT[:-1]); state["user"] += 1; fn = "user%d.txt" % state["user"]
            op("parquery", ",".join(map(str, ks)), fn, "select vh.mark as m0 where vh.mark format %s" % fmt); feats.add("user-stream-concurrent")
            for i, k in enumerate(ks): M.files[fn + str(i)] = [("user", 0, fmt, tuple(chans[k]["marks"]))]
        elif r < .94 and not (M.nofd or M.fsize):
            n, ln = rng.randint(2, 8), rng.randint(1, 20); dst = rng.choice(["st/s%d" % rng.randint(0, 2), "st/s%d" % rng.randint(0, 2), "user", "stdout"]); app = rng.random() < .4; state["user"] += 1; fn = "user%d.txt" % state["user"]
            if dst == "stdout": continue
            op("stream", n, ln, dst, "append" if app else "trunc", fn); sec = ("lines", n, ln); feats.add("shared-stream")
            if dst == "user": M.files[fn] = [sec]
            else: M.write(dst, sec, app)
        elif r < .95 and not M.nofd and log != "cali.log":
            if M.fsize: op("fsize", "max"); M.fsize = False
            else: op("fsize", 0); M.fsize = True; feats.add("file-size-limit")
        elif r < .99 and fds and not M.fsize and log != "cali.log":
            if M.nofd: op("freefds"); M.nofd = False
            else: op("hogfds"); M.nofd = True; feats.add("no-descriptors")
    if M.fsize: op("fsize", "max"); M.fsize = False
    if M.nofd: op("freefds"); M.nofd = False
    for k in sorted(chans):
        if chans[k]["foe"]: apply(k); feats.add("at-exit")
    return S, env, M, chans, mgrs, feats, log, verb
def secmatch(want, got):
    """does the output got fulfil want?"""
    if want[0] == "user": return False
    if want[0] == "loops": return got[0] == "loops"
    if want[0] != got[0]: return False
    if want[0] == "say": return want == got
    if want[1] is not None and want[1] != got[1]: return False
    if len(want) == 4:                                    # a configuration manager's output
        if want[2] and want[2] != got[2]: return False
        regs = {r for r in want[3] if isinstance(r, str)}; return regs <= got[3] or want[0] == "cali" and not want[2] and not regs - got[3]
    return want[2] == got[2]
def merge(l):
    """one expand output cannot be told from the next one of the channel"""
    out = []
    for w in l:
        if out and w[0] == "expand" and out[-1][:2] == w[:2]: out[-1] = w[:2] + (out[-1][2] + w[2],)
        else: out.append(w)
    return out
def compare(c, viol, what, text, want):
    """a file or stream against the sequence of outputs that were written to it"""
    c.stat("outputs_judged", len(want))
    if want and isinstance(want[0], str):
        if not text.startswith(want[0]): viol("foreign-file-changed", "%s: starts with %r" % (what, text[:100])); return
        text = text[len(want[0]):]; want = want[1:]
    if want and want[0] and want[0][0] == "user":
        _, k, fmt, m = want[0]
        if not (text.startswith("before\n") and text.endswith("after\n")): viol("mixed-output", "%s: %r" % (what, text[:300])); return
        key = {"json": "m%d" % k if m else None, "json-split": None, "expand": "m%d" % k, "table": "m%d" % k}[fmt]; want = [({"json-split": "split"}.get(fmt, fmt), key, m)] if fmt != "expand" or m else []; text = text[7:-6]
    if want and want[0] and want[0][0] == "lines":
        got = [l for l in text.split("\n")]; exp = 0
        if text and got.pop(): viol("malformed-output", what + " does not end with a newline"); return
        pos = 0
        for w in want:
            if not w or w[0] != "lines": return
            n, ln = w[1:]; blk = got[pos:pos + n * ln]; pos += n * ln
            for i in range(n):
                mine = [l for l in blk if l.startswith("line %d " % i)]
                if mine != ["line %d %d" % (i, j) for j in range(ln)]: viol("lost-output", "%s: thread %d of %d wrote %d lines, found %r" % (what, i, n, ln, mine[:30])); return
        if pos != len(got): viol("stale-output", "%s has %d lines, expected %d" % (what, len(got), pos))
        return
    try: got = [s for s in sections(text) if s[0] != "log"]
    except Bad as e: viol("malformed-output", "%s: %s" % (what, e)); return
    want = [w for w in want if w is not None]
    want, got = merge(want), merge(got)
    if len(got) != len(want): viol("output-count", "%s holds %d outputs, expected %d: %r / %r" % (what, len(got), len(want), [g[:2] for g in got], [w[:2] for w in want])); return
    for i, (w, g) in enumerate(zip(want, got)):
        if not secmatch(w, g): viol("wrong-output", "%s: output %d is %r, expected %r" % (what, i, str(g)[:600], str(w)[:600])); return
def judge(c, d, M, chans, log, verb, r):
    bad = []
    def viol(k, m): bad.append((k, m))
    lg = open(d + "/log.txt").read().split("\n")
    if "returning" not in lg: viol("no-end", "the program did not reach its end")
    for l in lg:
        if l.startswith(("wrong-stream", "mgr-error")): viol(l.split()[0], l)
    # files
    have, dirs = {}, set()
    for p, ds, fs in os.walk(d):
        rel = os.path.relpath(p, d); rel = "" if rel == "." else rel; dirs.add(rel)
        for f in fs: have[(rel + "/" if rel else "") + f] = os.path.join(p, f)
    auto = {}
    for rel in sorted(have):
        if rel in ("log.txt", "script.txt") or (rel == "cali.log" and log == "cali.log") or rel in M.links: continue
        b = os.path.basename(rel); dn = rel[:-len(b)]
        if AUTO.match(b): auto.setdefault(dn, []).append(rel); continue
        if rel not in M.files: viol("stray-file", "%r was written" % rel); continue
        if M.files[rel] is not None: compare(c, viol, "file %r" % rel, open(have[rel], encoding="latin-1", newline="").read(), M.files[rel])
    for rel in M.files:
        if rel not in have: viol("missing-file", "%r was not written" % rel)
    for x in dirs - M.dirs: viol("stray-directory", x)
    want = {}
    for dn, sec in M.auto: want.setdefault(dn, []).append(sec)
    for dn in set(auto) | set(want):
        a, w = auto.get(dn, []), list(want.get(dn, [])); c.stat("outputs_judged", len(w))
        if len(a) != len(w): viol("auto-named-files", "%d generated file names in %r, expected %d" % (len(a), dn, len(w))); continue
        if None in w: continue
        for rel in a:
            try: g = sections(open(have[rel], encoding="latin-1", newline="").read())
            except Bad as e: viol("malformed-output", "%s: %s" % (rel, e)); continue
            m = next((x for x in w if len(g) == 1 and secmatch(x, g[0])), None)
            if m is None: viol("wrong-output", "%s: %r is none of %r" % (rel, str(g)[:500], str(w)[:500]))
            else: w.remove(m)
    # standard streams
    for name, text in (("stdout", r.out), ("stderr", r.err)):
        if name != log and "== CALIPER" in text: viol("log-destination", "log output on %s, the log goes to %s" % (name, log))
        compare(c, viol, name, text, M.streams[name])
    # failures are reported
    text = {"stdout": r.out, "stderr": r.err, "none": None}.get(log)
    if log == "cali.log": text = open(d + "/cali.log").read()
    if text is not None:
        rep = [l for l in text.split("\n") if re.search(r"could not (open|write)|write failed|create_directories failed|error writing", l, re.I)]
        for f in M.fails:
            base = os.path.normpath(f) if f else f
            if not any((f or "output stream") in l or base in l.replace("./", "") for l in rep): viol("failure-not-reported", "writing to %r failed, the log has %r" % (f, rep[:10]))
        n = len([l for l in rep if "create_directories" not in l])
        if n != len(M.fails): viol("failure-report-count", "%d failures, %d reported: %r" % (len(M.fails), n, rep[:20]))
        if not M.fails and not verb and "== CALIPER" in text: viol("log-noise", [l for l in text.split("\n") if "== CALIPER" in l][:3].__repr__())
    c.stat("failed_destinations", len(M.fails)); c.stat("operations", len(lg))
    return bad
def case(c, rng, i):
    import c31_exe
    fds = rng.random() < .15      # the sanitizers need file descriptors
    conc = not fds and rng.random() < .2
    S, env, M, chans, mgrs, feats, log, verb = gen(rng, fds, conc); d = os.path.join(c.tmp, "w%d" % os.getpid()); shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    open(d + "/script.txt", "w").write("\n".join(S) + "\n"); c.ev += 1
    r = vlib.run2([c31_exe.plain if fds else c31_exe.tsan if conc else c31_exe.exe], timeout=60, env=env, cwd=d); c.stat("runs")
    rep = "environment: %s\nscript:\n%s\n" % (env, "\n".join(x[:300] for x in S))
    if r.timed_out: c.viol("hang", rep); return
    if r.rc: c.viol(vlib.crash_key(r.err, r.rc), "rc=%s\n%s\n%s" % (r.rc, r.err[-5000:], rep)); return
    for k, m in judge(c, d, M, chans, log, verb, r): c.viol(k, m + "\n" + rep + "\nstdout:\n" + r.out[-3000:] + "\nstderr:\n" + r.err[-3000:])
    for a in feats: c.fps.add(a); [c.fps.add(a + "/" + b) for b in feats if b > a]
    if i < 3: c.samples.append(" ; ".join(S)[:400])
def main():
    import sys, types
    ck = vlib.Check("C31"); m = types.ModuleType("c31_exe"); m.exe = vlib.compile_harness("output.cpp", "asan"); m.plain = vlib.compile_harness("output.cpp", "plain"); m.tsan = vlib.compile_harness("output.cpp", "tsan"); sys.modules["c31_exe"] = m
    n = ck.n(1000, 60000)
    qlib.run(ck, "c31", "case", n, budget=6000, chunk=20)
    ck.rule = ("whole programs driven by random scripts: recorder and report channels and configuration managers of six kinds whose destinations are standard streams, plain files, nested and existing directories, links, longer old files, generated names and "
               "name patterns over thread, process and channel values; repeated, clearing and concurrent flushes, append mode, user-provided streams, shared output streams, and destinations that cannot be opened or written (blocked parent, directory, full device, file size "
               "limit, no descriptors); an offline checker compares every file, directory and standard stream left behind, section by section, with a model of the file system, and the log with the failures")
    ck.assumptions = ["outputs written at the same time go to different destinations"]
    return ck.finish(min_evals=n, min_distinct=150)
