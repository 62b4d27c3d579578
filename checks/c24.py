import json, os, random, re, subprocess, sys
import vlib, qlib
from qlib import *
import c06, c09, c10
from c06 import un, unv
S = to_string
def clamp(s, w):
    if len(s) <= w: return s
    return s[:w] if w < 4 else s[:w // 2 - 1] + "~~" + s[len(s) - (w // 2 - 1):]
def ltype(t): return t in ("double", "int", "uint")
def cleaned(v): return v
def globlist(text):
    """globals of a .cali stream: name -> list of (type, value)"""
    out = parse(text); d = {}
    for g in out.globals:
        for n, v in entries(g): d.setdefault(n, []).append((out.attrs[n].type, v))
    return out, d
def judge(c, tag, fmt, text, want, files, ours="g24."):
    """want: name -> (type, value): every one exactly once among the globals; none in profile records"""
    what = "%s globals %r" % (fmt, sorted(want)[:8])
    def bad(k, t): c.viol("%s:%s" % (tag, k), "%s: %s\n%s" % (what, t, text[:2500]), files)
    base = fmt.split("(")[0]; c.stat("outputs_" + base)
    if base in ("cali"):
        try: out, d = globlist(text)
        except CaliError as e: bad("stream", str(e)); return
        got = {n: v for n, v in d.items() if n.startswith(ours)}
        for n, (t, v) in want.items():
            g = got.pop(n, [])
            if len(g) != 1 or g[0][0] != t or not veq(g[0][1], v): bad(base, "%r: %r, expected once %r" % (n, g, (t, v))); return
        if got: bad(base, "not set: %r" % got); return
        c.stat("globals_compared", len(want)); return
    if base in ("json", "json-split"):
        try: js = c09.loads(text)
        except c09.Bad as e: bad("json", str(e)); return
        if base == "json" and not isinstance(js, dict):
            for r in js:
                x = [n for n in r if n.startswith(ours)]
                if x: bad("in-records", "%r in a record" % x); return
            return
        gl = js["globals"] if base == "json" else js
        got = {n: v for n, v in gl.items() if n.startswith(ours)}
        for n, (t, v) in want.items():
            if got.pop(n, None) != S(t, v): bad(base, "%r: %r, expected %r" % (n, gl.get(n), S(t, v))); return
        if got: bad(base, "not set: %r" % got); return
        recs = js.get("records", []) if base == "json" else [{n: 1 for n in js["columns"]}]
        for r in recs:
            x = [n for n in r if n.startswith(ours)]
            if x: bad("in-records", "%r in a record" % x); return
        c.stat("globals_compared", len(want)); return
    if base in ("table", "tree", "table-cols"):
        if "print-globals" not in fmt and base != "table-cols":
            if any(x.startswith(ours) for x in text.split("\n")[0].split()): bad("in-records", "a column for a global"); return
            return
        kw = 24
        for n, (t, v) in want.items():
            s = S(t, v); k = clamp(n, kw)
            # the key column is as wide as the longest key
            pat = re.compile(r"(?:^|\n)" + re.escape(k) + r" *: " + ((" *" + re.escape(s) + " ?") if ltype(t) else re.escape(clamp(s, 52))) + r"(?=\n|\Z)")
            m = [x for x in pat.finditer(text)]
            if len(m) != 1 and sum(clamp(x, kw) == k for x in want) == 1: bad("table", "%r = %r: %d lines" % (n, s, len(m))); return
        c.stat("globals_compared", len(want)); return
    if base == "expand": return
def readmem(d):
    cur, res, end = None, [], False
    for l in open(os.path.join(d, "mem")):
        f = l.rstrip("\n").split(" ")
        if f[0] == "F": cur = (f[1], f[2], {}); res.append(cur)
        elif f[0] == "G":
            h = f[3]; cur[2][un(f[1])] = (f[2], unv(h)[1])
        elif f[0] == "END": end = True
    return res, end
PER, RT = 1, None
def rt_case(c, rng, i):
    d = os.path.join(RT, "s%d" % i)
    if not os.path.exists(os.path.join(d, "mem")): return
    res, _ = readmem(d); cali = []
    for f, fmt, want in res:
        c.ev += 1
        if f == "none": c.viol("c24:no-output", "%s wrote nothing" % fmt, []); continue
        text = open(f, encoding="latin-1", newline="").read()
        judge(c, "c24:" + fmt.split("(")[0], fmt, text, want, [f, os.path.join(d, "mem")])
        if fmt.startswith("cali"): cali.append((f, text, want))
        c.fps.add("%s|%d" % (fmt, len(want)))
    # and on through the tools, in every format that carries globals
    if cali:
        f, text, want = rng.choice(cali); onward(c, rng, "c24:reread", [f], want, "g24.")
def onward(c, rng, tag, files, want, ours):
    for cmd, q in (("copy", ""), ("query", "format cali"), ("query", "format json(object)"), ("query", "format json-split"), ("query", "format table(print-globals)"), ("query", "format tree(print-globals)"), ("globals", "format expand"), ("globals", "format json"), ("globals", "format cali"), ("query", "group by path aggregate count() format cali"), ("par", "format cali")):
        if rng.random() < .4: continue
        st, text = c.query(files, q, cmd); c.ev += 1
        if st == "died": return
        if st != "ok": c.viol("%s:%s" % (tag, st), text[:300], files); return
        fmt = q.split("format ")[-1] if q else "cali"
        if cmd != "globals": judge(c, tag + ":" + fmt.split("(")[0], fmt, text, want, files, ours)
        elif fmt == "json":
            
            try: js = c09.loads(text)
            except c09.Bad as e: c.viol(tag + ":list-globals:json", "%s\n%s" % (e, text[:3000]), files); return
            got = {k: v for r in js for k, v in r.items() if k.startswith(ours)}
            w = {n: c09.jval(t, v, False) if t != "type" else v for n, (t, v) in want.items()}
            if set(got) != set(w): c.viol(tag + ":list-globals", "keys %r, expected %r" % (sorted(got), sorted(w)), files); return
# several inputs
def merge(c, rng, i):
    k = rng.choice([1, 2, 3, 4]); names = ["m.%d" % j for j in range(rng.randint(1, 6))]; kind = {n: (rng.choice(["string", "int", "double", "uint"]), rng.choice([0, ASVALUE])) for n in names}
    parts, want, byval = [], {}, {}
    for p in range(k):
        ds = Data(); g = Rec(); ds.add(Attr("region", "string", NESTED | THREAD)); ds.add(Attr("val", "int", ASVALUE | THREAD))
        ds.recs = [Rec([(("region", rng.choice(PLAIN)),)], [("val", rng.randint(0, 9))]) for _ in range(rng.randint(0, 8))]
        for n in rng.sample(names, rng.randint(0, len(names))):
            t, pr = kind[n]; ds.add(Attr(n, t, GLOBAL | SKIP | UNALIGNED | 12 | pr)); v = gen_value(rng, t, rng.choice(["wide", "small"]))
            while isinstance(v, str) and (not v or any(ord(x) < 32 for x in v)) or v != v: v = gen_value(rng, t, "small")
            if pr: g.imm.append((n, v)); byval.setdefault(n, []).append(v)
            else: g.refs.append(((n, v),)) if rng.random() < .5 or not g.refs else g.refs.__setitem__(0, g.refs[0] + ((n, v),))
            if not pr: want.setdefault(n, set()).add(repr(hv(v)))
        if g.refs or g.imm: ds.globals.append(g)
        parts.append(ds)
    files = [c.file(render(d, rng)) for d in parts]
    for cmd, q in (("copy", ""), ("query", "format cali"), ("par", "format cali"), ("query", "aggregate count() group by path format cali"), ("query", "format json(object)"), ("query", "format json-split")):
        fs = c10.shuffled(rng, files); st, text = c.query(fs, q, cmd); c.ev += 1
        if st == "died": return
        if st != "ok": c.viol("c24:merge:" + st, text[:300], files); return
        if "json" in q:
            try: js = c09.loads(text)
            except c09.Bad as e: c.viol("c24:merge:json", str(e), files); return
            gl = js["globals"] if "object" in q else js
            if {n for n in gl if n.startswith("m.")} != set(want) | set(byval): c.viol("c24:merge:json", "globals %r, expected %r" % (sorted(gl), sorted(set(want) | set(byval))), files); return
            continue
        try: out, d = globlist(text)
        except CaliError as e: c.viol("c24:merge:stream", str(e), files); return
        for n, vs in want.items():
            got = [repr(hv(v)) for _, v in d.get(n, [])]
            if set(got) != vs: c.viol("c24:merge:reference", "%s: %r has %r, inputs %r" % (q or cmd, n, got, sorted(vs)), files); return
        for n, vs in byval.items():
            got = [v for _, v in d.get(n, [])]
            if len(got) != 1 or not any(veq(got[0], v) for v in vs): c.viol("c24:merge:value", "%s: %r has %r, inputs %r" % (q or cmd, n, got, vs), files); return
        if set(d) - set(want) - set(byval): c.viol("c24:merge:extra", "%r" % sorted(set(d) - set(want) - set(byval)), files); return
        c.stat("merged_globals", len(want) + len(byval))
    c.fps.add("m%d|%d|%d" % (k, len(want), len(byval)))
def main():
    global RT
    ck = vlib.Check("C24")
    m = ck.n(240, 3000); n = ck.n(1200, 20000)
    ck.rule = "random programs that set, overwrite, begin and end run metadata of every type by reference and by value through the C and C++ interfaces from several threads, on the process and on single channels, next to 1..4 channels (recorder, report with every format, ConfigManager controllers), some inactive, some with more than 120 globals; after every flush the globals in the output file are compared with the last values set; multi-file merges with shared and distinct globals; distinct = (format, number of globals)"
    exe = vlib.compile_harness("globals.cpp", "asan", internal=True); RT = os.path.join(ck.tmp, "rt")
    for i in range(m): os.makedirs(os.path.join(RT, "s%d" % i))
    ck.run_shards(exe, [["--seed", ck.seed * 100000 + i, "--dir", os.path.join(RT, "s%d" % i)] + (["--many", 1] if i % 12 == 5 else []) for i in range(m)], timeout=60)
    sys.modules["c24"].RT = RT
    qlib.run(ck, "c24", "rt_case", m)
    qlib.run(ck, "c24", "merge", n)
    ck.assumptions = ["numbers in JSON and table output have the documented text form (six decimals)", "a by-value global that several inputs define has one of the inputs' values", "control characters are left to C06; hidden globals are not written"]
    return ck.finish(min_evals=m, min_distinct=30)
