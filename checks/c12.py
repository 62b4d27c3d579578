import json, os, random, re
import vlib, qlib
SERVICES = ["event", "trace", "aggregate", "recorder", "timer", "report", "statistics"]
CATS = ["ca", "cb", "cc"]
def esc(s): return s.replace("\\", "\\\\").replace("\t", "\\t").replace("\n", "\\n").replace("\r", "\\r")
def word(rng): return "".join(rng.choice("abcdefgxyz0189_.-#%/") for _ in range(rng.randint(1, 8)))
def text(rng):
    s = word(rng)
    for _ in range(rng.randint(0, 3)): s += rng.choice([" ", ",", "=", "(", ")", "{", "}", "[", "]", ":", '"', "\\", "; ", "'"]) + word(rng)
    return s
# ------------------------------------------------------------ rendering of JSON specs
def ws(rng): return rng.choice(["", "", " ", "\n  ", "\t"])
def jstr(s, rng, bare=True):
    if bare and re.fullmatch(r"[A-Za-z0-9_.#%/-]+", s) and rng.random() < .1: return s
    return '"' + s.replace("\\", "\\\\").replace('"', '\\"') + '"'
def jlist(l, rng): return "[" + ws(rng) + ("," + rng.choice([" ", "\n "])).join(l) + ws(rng) + "]"
def jdict(kv, rng): return "{" + ws(rng) + ("," + rng.choice([" ", "\n "])).join(jstr(k, rng, False) + ws(rng) + ":" + rng.choice([" ", "  "]) + v for k, v in kv) + ws(rng) + "}"
def jopt(o, rng):
    kv = [("name", jstr(o["name"], rng))]
    if o.get("category"): kv.append(("category", jstr(o["category"], rng)))
    if o.get("type"): kv.append(("type", jstr(o["type"], rng)))
    if o.get("description") is not None: kv.append(("description", jstr(o["description"], rng)))
    if o["services"]: kv.append(("services", jlist([jstr(s, rng) for s in o["services"]], rng)))
    if o["inherit"]: kv.append(("inherit", jlist([jstr(s, rng) for s in o["inherit"]], rng)))
    if o["config"]: kv.append(("config", jdict([(k, jstr(v, rng)) for k, v in o["config"].items()], rng)))
    if o["query"]: kv.append(("query", jdict([(k, jstr(v, rng, False)) for k, v in o["query"].items()], rng)))
    rng.shuffle(kv); return jdict(kv, rng)
def jspec(c, rng):
    kv = [("name", jstr(c["name"], rng))]
    if c["services"]: kv.append(("services", jlist([jstr(s, rng) for s in c["services"]], rng)))
    if c["cats"]: kv.append(("categories", jlist([jstr(s, rng) for s in c["cats"]], rng)))
    if c["config"]: kv.append(("config", jdict([(k, jstr(v, rng)) for k, v in c["config"].items()], rng)))
    if c["defaults"]: kv.append(("defaults", jdict([(k, jstr(v, rng)) for k, v in c["defaults"].items()], rng)))
    if c["alias"]: kv.append(("alias", jlist([jstr(s, rng) for s in c["alias"]], rng)))
    if c["options"]: kv.append(("options", jlist([jopt(o, rng) for o in c["options"]], rng)))
    if c["description"] is not None: kv.append(("description", jstr(c["description"], rng)))
    rng.shuffle(kv); return jdict(kv, rng)
# ------------------------------------------------------------ random worlds
VALID = {"bool": ["true", "false", "t", "f", "1", "0", "TRUE", "False"], "int": ["0", "1", "42", "-7", "1000000"], "double": ["0", "1.5", "-2.25", "1e3", "7"]}
INVALID = {"bool": ["maybe", "yes", "tru", "1x", "off"], "int": ["abc", "12abc", "1.5", "1e3", "0x10"], "double": ["x", "1.5.2", "2x", "--1"]}
def value(rng, o): return rng.choice(VALID[o["type"]]) if o["type"] in VALID else (word(rng) if rng.random() < .6 else text(rng))
def mkopt(rng, name, cat):
    t = rng.choice(["bool", "bool", "int", "double", "string", ""]); ph = rng.random() < .5
    o = dict(name=name, type=t, category=cat, services=rng.sample(SERVICES, rng.choice([0, 0, 1, 2])), inherit=[], config={}, query={}, description=text(rng) if rng.random() < .5 else None)
    if rng.random() < .08: o["services"].append("nosuchservice")
    for _ in range(rng.choice([0, 0, 1, 2])): o["config"]["CALI_VH_" + rng.choice("ABCD")] = ("x{}y" if ph and rng.random() < .5 else "{}" if ph and rng.random() < .5 else "") + (text(rng) if rng.random() < .7 else "v")
    for lv in ("local", "cross"):
        if rng.random() < .4: o["query"][lv] = rng.choice(["select sum(x)", "let y=first(a,b) aggregate max(y)", "order by {}", 'select x as "X y" where not {}', 'where a="{b}",c={}', "select count() as \\n"])
    return o
def world(rng):
    n = [0]; W = dict(configs=[], gopts=[])
    def nm(p): n[0] += 1; return p + rng.choice(["", ".x", "_y", "-z"]) + str(n[0])
    for _ in range(rng.randint(0, 5)): W["gopts"].append(mkopt(rng, nm("g"), rng.choice(CATS)))
    for _ in range(rng.randint(1, 3)):
        c = dict(name=nm("cfg") + (" sp" if rng.random() < .05 else ""), services=rng.sample(SERVICES, rng.randint(0, 3)), cats=rng.sample(CATS, rng.randint(0, 3)), config={}, defaults={}, alias=[nm("al")] if rng.random() < .2 else [], options=[mkopt(rng, nm("o"), "") for _ in range(rng.randint(0, 4))], description=text(rng) if rng.random() < .5 else None)
        if rng.random() < .05: c["services"].append("nosuchservice")
        for _ in range(rng.choice([0, 1, 2])): c["config"]["CALI_VH_" + rng.choice("ABCD")] = text(rng)
        if rng.random() < .15: c["config"]["CALI_SERVICES_ENABLE"] = ",".join(rng.sample(SERVICES, rng.randint(1, 2)))
        if W["gopts"] and rng.random() < .15:       # a local option hides a global one
            o = mkopt(rng, rng.choice(W["gopts"])["name"], ""); c["options"].append(o)
        vis = visible(W, c)
        for o in vis.values():
            if rng.random() < .2: o["inherit"] = rng.sample(sorted(vis), min(len(vis), rng.randint(1, 2)))
            if rng.random() < .1: c["defaults"][o["name"]] = value(rng, o) if rng.random() < .9 else rng.choice(INVALID.get(o["type"], ["x"]))
        W["configs"].append(c)
    return W
def visible(W, c):
    d = {o["name"]: o for o in W["gopts"] if o["category"] in c["cats"]}; d.update({o["name"]: o for o in c["options"]}); return d
# ------------------------------------------------------------ the documented meaning
def tobool(s):
    l = s.lower()
    if l in ("true", "t"): return True
    if l in ("false", "f"): return False
    return int(s) != 0 if re.fullmatch(r"[+-]?[0-9]+", s) else None
def typed(o, v):
    if o["type"] == "bool": return tobool(v) is not None
    if o["type"] == "int": return re.fullmatch(r"\s*[+-]?[0-9]+\s*", v) is not None
    if o["type"] == "double":
        try: float(v); return True
        except ValueError: return False
    return True
def available(c): return "nosuchservice" not in c["services"]
def closure(vis, name, seen):
    if name not in vis or name in seen: return []
    seen.add(name); r = []
    for i in vis[name]["inherit"]: r += closure(vis, i, seen); r.append(i)
    return r
def expect_channel(W, c, args, mgr):
    """-> None if the arguments are not valid, or the channel as it has to come out"""
    vis = visible(W, c); args = list(args)
    for more in (mgr["per"].get(c["name"], []), mgr["defs"], sorted(c["defaults"].items())):
        for k, v in more:
            if k == "metadata" or not any(k == a for a, _ in args): args.append((k, v))
    for k, v in args:
        if k in vis and not typed(vis[k], v): return None
    en = []
    for k, v in args:
        if k in vis and not (vis[k]["type"] == "bool" and not tobool(v)): en += [k] + closure(vis, k, set())
    seen = []; [seen.append(k) for k in en if k not in seen]; en = [k for k in seen]
    if any(s == "nosuchservice" for k in en if k in vis for s in vis[k]["services"]): return None
    first = {}
    for k, v in args: first.setdefault(k, v)
    initial = dict(c["config"])
    if c["services"]: initial["CALI_SERVICES_ENABLE"] = ",".join(([initial["CALI_SERVICES_ENABLE"]] if "CALI_SERVICES_ENABLE" in initial else []) + c["services"])
    cfg = dict(initial); svc = set(s for s in cfg.get("CALI_SERVICES_ENABLE", "").split(",") if s)
    for k in en: svc |= set(vis[k]["services"]) if k in vis else set()
    cfg["CALI_SERVICES_ENABLE"] = ",".join(sorted(svc))
    q = {"local": "BASE", "cross": ""}
    for k in en:
        if k not in vis: continue
        for a, b in sorted(vis[k]["config"].items()): cfg[a] = expand(b, first[k]) if k in first else b
        for lv in q:
            if lv in vis[k]["query"]: q[lv] += " " + expand(vis[k]["query"][lv], first.get(k, ""))
    md = {}
    for k, v in args:
        if k == "metadata": md.update(v.kv)
        else: md["opts:" + k] = v
    return dict(name=c["name"], config=cfg, initial=initial, local=q["local"], cross=q["cross"], enabled=[k for k in en if k in vis and vis[k]["type"] == "bool"], metadata=md,
                opts={k: [int(k in first), int(k in en), first.get(k, "<none>")] for k in W["names"]})
def quote(rng, s, force=False):
    if force or not re.fullmatch(r"[A-Za-z0-9_.#%/-]+", s): return '"' + s.replace("\\", "\\\\").replace('"', '\\"') + '"'
    return s if rng.random() < .85 else '"' + s + '"'
def sp(rng): return rng.choice(["", "", "", " ", "  "])
class Meta(str): kv = ()
TMP = [None]
def meta(rng):
    """the arguments of a metadata() term; kv: the entries they make"""
    if TMP[0] and rng.random() < .4: return filemeta(rng)
    m = Meta(",".join("k%s%d=%s" % (word(rng).replace("=", ""), i, word(rng)) for i in range(rng.randint(1, 2))))
    m.kv = [tuple(p.split("=", 1)) for p in m.split(",")]; return m
def filemeta(rng):
    """metadata(file=...,keys=...): entries from a JSON file, nested dictionaries as a.b.c"""
    K = ["a", "b", "c", "run", "info", "x1", "build_type"]
    def tree(d): return {k: tree(d - 1) if d and rng.random() < .4 else rng.choice(["v", "two words", "a.b", "", "x,y=z", "7", 42, -3, True, False]) for k in rng.sample(K, rng.randint(1, 4))}
    def flat(key, v):
        if isinstance(v, dict): return [e for k, x in v.items() for e in flat(key + "." + k, x)]
        return [(key, v if isinstance(v, str) else json.dumps(v))]
    def paths(key, v): return [key] + ([p for k, x in v.items() for p in paths(key + "." + k, x)] if isinstance(v, dict) else [])
    t = tree(2); fn = os.path.join(TMP[0], "md%d.json" % rng.getrandbits(40)); miss = rng.random() < .08
    if not miss: open(fn, "w").write(rng.choice(["", " ", "\n"]) + json.dumps(t, indent=rng.choice([None, 1])))
    m = "file=" + rng.choice(["%s", '"%s"']) % fn; keys = list(t)
    if rng.random() < .7:
        allp = [p for k, v in t.items() for p in paths(k, v)]; keys = rng.sample(allp, rng.randint(1, min(3, len(allp))))
        for k in list(keys):
            if rng.random() < .3: keys.insert(rng.randint(0, len(keys)), rng.choice([k + ".nope", "nope", "nope." + k, k + "." + rng.choice(K), rng.choice(K) + "." + rng.choice(K), rng.choice(K)]))
        kw = 'keys="%s"' % ",".join(keys) if len(keys) > 1 or rng.random() < .5 else "keys=" + keys[0]
        m = ",".join([kw, m] if rng.random() < .3 else [m, kw])
    kv = []
    for k in ([] if miss else keys):
        v, ok = t, True
        for x in k.split("."):
            if not isinstance(v, dict) or x not in v: ok = False; break
            v = v[x]
        if ok: kv += flat(k, v)
    m = Meta(m); m.kv = kv; return m
def expand(t, val):
    """{} in a configuration text stands for the option's value"""
    out, i = "", 0
    while i < len(t):
        if t[i:i + 2] == "{}": out += val; i += 2
        elif t[i] == "{": out += t[i:i + 2]; i += 2
        else: out += t[i]; i += 1
    return out
def gen_string(rng, W, mgr):
    """-> (text, items, fault or None). items: ('cfg', config, args) | ('opt', name, value) | ('meta', value)"""
    items = []; fault = rng.choice([None] * 6 + ["badopt", "badname", "badvalue", "novalue", "unbalanced", "extra)", "junk", "trailing,"]); used = set()
    cfgs = [c for c in W["configs"]]
    toks = []
    faulty = False
    def arg(o, allow_bad):
        nonlocal faulty
        v = None
        if fault == "badvalue" and allow_bad and not faulty and o["type"] in INVALID: faulty = True; v = rng.choice(INVALID[o["type"]]); return (o["name"], v), quote(rng, o["name"]) + "=" + quote(rng, v)
        if o["type"] in ("bool", "string", "") and rng.random() < .35: return (o["name"], "true"), quote(rng, o["name"])
        v = value(rng, o)
        if re.fullmatch(r"[A-Za-z0-9_.#%/-]+", v) and rng.random() < .12: return (o["name"], v), quote(rng, o["name"]) + sp(rng) + "(" + v + ")"
        if fault == "novalue" and not faulty: faulty = True; return (o["name"], ""), quote(rng, o["name"]) + "="
        return (o["name"], v), quote(rng, o["name"]) + sp(rng) + "=" + sp(rng) + quote(rng, v)
    for _ in range(rng.randint(1, 4)):
        r = rng.random()
        if r < .7:
            c = rng.choice(cfgs); vis = visible(W, c)
            if c["name"] in used and rng.random() < .8: continue
            used.add(c["name"]); key = rng.choice([c["name"]] + c["alias"]); args, at = [], []
            for o in rng.sample(list(vis.values()), rng.randint(0, min(4, len(vis)))): a, t = arg(o, True); args.append(a); at.append(t)
            if rng.random() < .1: m = meta(rng); args.append(("metadata", m)); at.append("metadata" + sp(rng) + "(" + m + ")")
            if fault == "badopt" and not faulty: faulty = True; at.insert(rng.randint(0, len(at)), rng.choice(["nosuchoption", "nosuchoption=1", "cfg1", "x y"]))
            t = quote(rng, key) + sp(rng)
            if at or rng.random() < .2:
                cl = ")"
                if fault == "unbalanced" and not faulty: faulty = True; cl = ""
                if fault == "extra)" and not faulty: faulty = True; cl = "))"
                t += "(" + sp(rng) + (sp(rng) + "," + sp(rng)).join(at) + sp(rng) + cl
            elif fault == "junk" and not faulty: faulty = True; t += " " + rng.choice(["junk", "=", "=5", "{", "[x]", "a=b"])
            items.append(("cfg", c, args)); toks.append(t)
        elif r < .9:
            allo = [o for c in cfgs if available(c) for o in c["options"]] + W["gopts"]
            if not allo: continue
            o = rng.choice(allo)
            if o["name"] in [k for k, v in mgr["defs"]] or any(i[0] == "opt" and i[1] == o["name"] for i in items): continue
            a, t = arg(o, False); items.append(("opt",) + a); toks.append(t)
        elif r < .95: m = meta(rng); items.append(("meta", m)); toks.append("metadata(" + m + ")")
        elif fault == "badname" and not faulty: faulty = True; toks.append(rng.choice(["nosuchconfig", "nosuchconfig(a,b)", "nosuch=1", "\"no such\""]))
    if fault == "badname" and not faulty: faulty = True; toks.insert(rng.randint(0, len(toks)), rng.choice(["nosuchconfig", "nosuch=1"]))
    if fault == "trailing," and toks: faulty = True; toks.append("")
    return sp(rng) + (sp(rng) + "," + sp(rng)).join(toks) + sp(rng), items, fault if faulty else None
def expect_string(W, items, fault, mgr):
    """-> (accepted, channels)"""
    if fault not in (None, "badvalue", "badname"): return False, []
    defs = list(mgr["defs"]); unknown = fault == "badname"
    for i in items:
        if i[0] == "opt": defs.append(i[1:])
        elif i[0] == "meta": defs.append(("metadata", i[1]))
        elif not available(i[1]):
            unknown = True
            if i[2]: pass          # its argument list is read as a value
    m2 = dict(mgr, defs=defs); ch = []
    for i in items:
        if i[0] == "cfg" and available(i[1]):
            c = expect_channel(W, i[1], i[2], m2)
            if c is None: return False, []
            ch.append(c)
    return (False, []) if unknown else (True, ch)
def commands(lines): return "\n".join("\t".join(esc(x) for x in l) for l in lines) + "\n"
def run(c, lines, what):
    """runs a script -> list of answers (or None if the process died)"""
    p = os.path.join(c.tmp, "s%d.txt" % os.getpid()); open(p, "w", encoding="latin-1", newline="").write(commands(lines))
    r = vlib.run2([c.cfgmgr, p], timeout=60, cwd=c.tmp); c.stat("processes")
    if r.timed_out: c.viol("hang", what + "\n" + commands(lines)[-20000:]); return None
    if r.rc or not r.out.endswith("END\n"):
        cs = r.out.rfind("case "); n = r.out[cs:].split("\n")[0]; txt = commands(lines); k = txt.find(n.replace(" ", "\t") + "\n")
        c.viol(vlib.crash_key(r.err, r.rc), "rc=%s\n%s\nscript of the case:\n%s" % (r.rc, r.err[-3500:], txt[k:k + 6000])); return None
    res, cur = {}, None
    for l in r.out.split("\n")[:-2]:
        if l.startswith("case "): cur = res.setdefault(int(l[5:]), [])
        else: cur.append(json.loads(l))
    return res
def batch(c, rng, i):
    TMP[0] = c.tmp
    import c12_exe; c.cfgmgr = c12_exe.exe
    lines, exp = [], []
    for k in range(25):
        W = world(rng); W["names"] = sorted({o["name"] for o in W["gopts"]} | {o["name"] for cc in W["configs"] for o in cc["options"]} | {"nosuchoption"}); mgr = dict(defs=[], per={})
        L, E = [["case", str(k)]], []
        def cmd(x, e): L.append(x); E.append(e)
        ok = ("error", 0)
        cmd(["names"] + W["names"], ok)
        order = [("opt", o) for o in W["gopts"]] + [("spec", cc) for cc in W["configs"]]; rng.shuffle(order)
        way = rng.random(); specs = [jspec(o, rng) for t, o in order if t == "spec"]; opts = [jopt(o, rng) for t, o in order if t == "opt"]
        if opts and way < .5: cmd(["opt", jlist(opts, rng)], ok)
        else:
            for o in opts: cmd(["opt", o if rng.random() < .5 else "[" + o + "]"], ok)
        for s in specs: cmd(["spec", ws(rng) + s + ws(rng)], ok)
        broken = None
        if rng.random() < .25:                                   # a specification that is not well-formed
            o2 = mkopt(rng, "zz1", "ca"); c2 = dict(name="zzcfg", services=[], cats=["ca"], config={"CALI_VH_A": "1"}, defaults={}, alias=[], options=[mkopt(rng, "zz2", "")], description="d"); t = jspec(c2, rng) if rng.random() < .6 else None; isopt = t is None; t = t or "[" + jopt(o2, rng) + "]"
            way2 = rng.random()
            if way2 < .6: b = t[:rng.randint(1, t.rstrip().rfind("]" if isopt else "}"))]; how = "cut"
            elif way2 < .8: j = [m.start() for m in re.finditer(r'(?<=["}\]])\s*,(?= |\n)', t)]; j = rng.choice(j) if j else None; b = t if j is None else t[:j] + " " + t[j:].replace(",", " ", 1); how = "comma"
            else: b = re.sub(r'"name"\s*:\s*("(zz\w*)"|zz\w*)', '"nome": "zz"', t, count=1); how = "name"
            if b != t: cmd(["opt" if isopt else "spec", b], ("error", 1)); broken = (how, b)
        if broken: exp.append((W, E, L, 0)); lines += L; c.fps.add("broken spec " + broken[0]); c.stat("broken_specs"); continue
        for cc in W["configs"]:
            if not available(cc): continue
            for o in visible(W, cc).values():
                if rng.random() < .05: v = value(rng, o); mgr["per"].setdefault(cc["name"], []).append((o["name"], v)); cmd(["defc", cc["name"], o["name"], v], ok)
        for o in W["gopts"]:
            if rng.random() < .06: v = value(rng, o); mgr["defs"].append((o["name"], v)); cmd(["def", o["name"], v], ok)
        total = []
        for _ in range(rng.randint(1, 3)):
            s, items, fault = gen_string(rng, W, mgr)
            if not s.strip(): fault, items = None, []
            acc, ch = expect_string(W, items, fault, mgr)
            c.fps.add("string %s %d%d %s" % (fault, acc, len(ch), ",".join(sorted({i[0] + (str(min(3, len(i[2]))) if i[0] == "cfg" else "") for i in items})))); c.stat("strings_accepted" if acc else "strings_rejected")
            cmd(["check", s, "0"], ("check", acc, s))
            if rng.random() < .2: cmd(["parse", s], ("parse", acc, s, fault)); mgr = dict(mgr, defs=mgr["defs"] + [i[1:] if i[0] == "opt" else ("metadata", i[1]) for i in items if i[0] != "cfg"]) if acc else mgr; acc2 = acc; E[-1] = ("parsechans", acc, ch, fault)
            if L[-1][0] == "parse":
                if not acc: break
                continue
            cmd(["add", s], ("add", acc, s, fault)); total += ch
            cmd(["chans"], ("chans", list(total), s))
            if not acc: cmd(["err"], ("error", 1)); break
            mgr["defs"] = mgr["defs"] + [i[1:] if i[0] == "opt" else ("metadata", i[1]) for i in items if i[0] != "cfg"]
        lines += L; exp.append((W, E, L, len(total)))
    res = run(c, lines, "batch %d" % i)
    if res is None: return
    for k, (W, E, L, n) in enumerate(exp):
        c.ev += 1; got = res[k]; scr = commands(L)
        for e, g, l in zip(E, got, L[1:]):
            w = None
            if e[0] == "error":
                if g["error"] != e[1]: w = ("spec", "error is %d (%s), expected %d" % (g["error"], g["msg"], e[1]))
                elif g["error"] and not g["msg"]: w = ("nomessage", "an error without a message")
            elif e[0] == "check":
                if (g == "") != e[1]: w = ("check", "check() says %r, expected the string to be %s" % (g, "accepted" if e[1] else "rejected"))
            elif e[0] == "add":
                if bool(g) != e[1]: w = ("add", "add() returned %r, expected the string to be %s (fault: %s)" % (g, "accepted" if e[1] else "rejected", e[3]))
            elif e[0] == "parsechans":
                if e[3] == "badname" or not e[1]: w = None
                elif [x["name"] for x in g] != [x["name"] for x in e[2]]: w = ("parse", "parse() returned %s" % [x["name"] for x in g])
            elif e[0] == "chans":
                if [x["name"] for x in g] != [x["name"] for x in e[1]]: w = ("channels", "channels are %s, expected %s" % ([x["name"] for x in g], [x["name"] for x in e[1]]))
                else:
                    for x, y in zip(g, e[1]):
                        c.stat("channels_judged")
                        for key in y:
                            if x.get(key) != y[key]: w = ("channel-" + key, "channel %s: %s is %s, expected %s" % (y["name"], key, x.get(key), y[key])); break
            if w: c.viol(w[0], "case %d of batch %d, after command %s:\n%s\n--- script\n%s" % (k, i, "\t".join(l)[:1500], w[1][:3000], scr)); break
    if i == 0: c.samples.append(" | ".join(l[1] for l in lines if l[0] == "add")[:400])
def mutate(rng, s):
    b = list(s)
    for _ in range(rng.randint(1, 6)):
        k = rng.random(); p = rng.randint(0, len(b))
        if k < .35: b.insert(p, rng.choice('(),="\\{}[]: \n\x00\xffab1') * rng.choice([1, 1, 1, 50]))
        elif k < .6 and b: del b[min(p, len(b) - 1)]
        elif k < .75 and b: q = rng.randint(p, len(b)); b[p:p] = b[p:q][:200]
        elif k < .9 and b: b[min(p, len(b) - 1)] = rng.choice('(),="\\{}[]: \n\x80')
        elif b: del b[p:]
    return "".join(b).replace("\x00", "")
def fuzz(c, rng, i):
    """arbitrary text: no crash, and check() agrees with add()"""
    import c12_exe; c.cfgmgr = c12_exe.exe
    lines = []
    for k in range(40):
        W = world(rng); W["names"] = []; lines.append(["case", str(k)])
        for o in W["gopts"]: lines.append(["opt", mutate(rng, jopt(o, rng)) if rng.random() < .25 else jopt(o, rng)])
        for cc in W["configs"]: lines.append(["spec" if rng.random() < .7 else "bspec", mutate(rng, jspec(cc, rng)) if rng.random() < .25 else jspec(cc, rng)])
        s = gen_string(rng, W, dict(defs=[], per={}))[0]
        if rng.random() < .3: s = rng.choice(["runtime-report(output=x,profile.mpi)", "event-trace(output=stdout,trace.io=false)", "load(" + rng.choice([c.tmp, "/dev/null", "nofile", "\"", "x y"]) + ")", "hatchet-region-profile(use.mpi=false,output.format=json)", "spot", "sample-report(sample.frequency=%s)" % rng.choice(["abc", "1e9", "-1", "0", "nan", "999999999999999999999"]), "runtime-report(metadata(file=%s,keys=\"a,b\"))" % rng.choice([c.tmp, "nofile", "/dev/null"]), "loop-report(timeseries,timeseries.maxrows=%s,target_loops=\"a,b\")" % rng.choice(["x", "-5", "3"]), "mpi-report", "runtime-report(max_column_width=%s)" % rng.choice(["x", "-1", "10"])])
        if rng.random() < .8: s = mutate(rng, s)
        lines += [["check", s, "0"], ["check", s, "1"], ["add" if rng.random() < .5 else "addx", s], ["chans"], ["err"]]; c.ev += 1; c.stat("fuzzed_strings")
    res = run(c, lines, "fuzz batch %d" % i)
    if res is None: return
    L = {}; cur = None
    for l in lines:
        if l[0] == "case": cur = L.setdefault(int(l[1]), [])
        else: cur.append(l)
    for k, a in res.items():
        c0, c1, ad, ch, er = a[-5:]; strict = L[k][-3][0] == "add"; ok = bool(ad) if strict else bool(ad["ok"])
        want = (c0 if strict else c1) == ""
        c.fps.add("fuzz %s %d %d %s" % ("strict" if strict else "lenient", ok, len(ch), re.sub(r'[\"\'].*|at .*|[0-9]+|: .*', "", er["msg"])[:40]))
        if ok != want: c.viol("check-vs-add", "check() says %r but %s() %s: %r\n%s" % (c0 if strict else c1, L[k][-3][0], "accepted" if ok else "rejected with %r" % er["msg"], L[k][-3][1], commands(L[k])))
        if not ok and ch: c.viol("channels-despite-error", "%d channels exist after the error %r: %r\n%s" % (len(ch), er["msg"], L[k][-3][1], commands(L[k])))
        if bool(er["error"]) == ok: c.viol("error-flag", "error() is %d, result %d: %r" % (er["error"], ok, L[k][-3][1]))
def builtin(c, rng, i):
    """built-in configurations with options they document"""
    import c12_exe; c.cfgmgr = c12_exe.exe
    r = run(c, [["case", "0"], ["specs"]], "specs")
    if r is None: return
    specs = r[0][0]; r = run(c, [["case", "0"], ["specs"]] + [["doc", s] for s in specs], "docs")
    if r is None: return
    opts = {}
    for s, d in zip(specs, r[0][1:]): opts[s] = [l.strip().split(" ")[0] for l in d.split("  Options:\n")[1].split("\n")] if "  Options:" in d else []
    lines, ex = [], []
    for k in range(30):
        lines.append(["case", str(k)]); parts, names = [], []
        bad = rng.choice([None, None, None, "option", "config"])
        for s in rng.sample(specs, rng.randint(1, 3)):
            o = rng.sample(opts[s], rng.randint(0, min(4, len(opts[s])))); out = "f%d.out" % rng.randint(0, 9) if "output" in opts[s] and rng.random() < .7 else None
            a = [x + ("=json" if x == "output.format" else "=region.count" if x == "timeseries.metrics" else "=1") for x in o if x != "output"] + (["output=" + out] if out else [])
            if bad == "option" and not names: a.append("nosuchoption=1")
            rng.shuffle(a); parts.append(s + ("(" + ",".join(a) + ")" if a else "")); names.append((s, out, o))
        if bad == "config": parts.append("nosuchconfig")
        st = ",".join(parts); lines += [["check", st, "0"], ["add", st], ["chans"]]; ex.append((st, bad, names))
    res = run(c, lines, "builtin batch %d" % i)
    if res is None: return
    for k, (st, bad, names) in enumerate(ex):
        chk, ok, ch = res[k]; c.ev += 1
        if (chk == "") != bool(ok): c.viol("builtin-check-vs-add", "check() says %r, add() %r: %s" % (chk, ok, st))
        if bad and chk == "": c.viol("builtin-accepted", "accepted: " + st)
        if not bad and chk and not re.search(r"is not available$|not available|required|is set but", chk): c.viol("builtin-rejected", "%r: %s" % (chk, st))
        if not ok and ch: c.viol("channels-despite-error", "%d channels after %r: %s" % (len(ch), chk, st))
        if ok:
            if len(ch) != len(names): c.viol("builtin-channels", "%s: %s" % ([x["name"] for x in ch], st)); continue
            for x, (s, out, o) in zip(ch, names):
                c.fps.add("builtin %s %d" % (x["name"], len(o))); c.stat("builtin_channels")
                for y in o: c.fps.add("builtin %s option %s" % (s, y))
                if x["instantiated"]: c.viol("builtin-active", "channel %s exists before start(): %s" % (s, st))
                fn = [v for kk, v in x["config"].items() if kk.endswith("FILENAME")]; c.stat("output_settings", len(fn))
                if out and fn and not all(v.startswith(out) for v in fn): c.viol("builtin-output", "no output file setting of %s is %s: %s" % (s, out, x["config"]))
def main():
    import sys, types
    ck = vlib.Check("C12")
    m = types.ModuleType("c12_exe"); m.exe = vlib.compile_harness("cfgmgr.cpp", "asan"); sys.modules["c12_exe"] = m
    n, f, b = ck.n(160, 4000), ck.n(80, 3000), ck.n(24, 300)
    qlib.run(ck, "c12", "batch", n, budget=3000, chunk=2); qlib.run(ck, "c12", "fuzz", f, budget=3000, chunk=2); qlib.run(ck, "c12", "builtin", b, budget=3000, chunk=2)
    ck.rule = ("random specifications (configurations, local and category options with types, services, settings, queries, inheritance incl. cycles, aliases, defaults) rendered as JSON with random layout, and random configuration strings over them, valid or with one injected fault, judged against an independent model: acceptance by check() and add(), channels, option values, settings, metadata and queries; "
               "mutated specifications and strings: no crash and check() agrees with add(); built-in configurations with the options they document; distinct = (fault, outcome, item kinds) and (built-in configuration, option)")
    ck.assumptions = ["the same option is not given twice in one string", "the value of an option is not empty"]
    return ck.finish(min_evals=n * 12 + f * 20, min_distinct=100)
