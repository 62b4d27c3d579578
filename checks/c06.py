import math, os, random, re, struct, sys
import vlib, qlib
from qlib import *
CTRL = ["a\tb", "\x01", "cr\r", "bell\x07x", "\x1b[0m", "nl\n\ttab"]
def decorate(rng, ds):
    """more types, deeper metadata, odd globals"""
    if rng.random() < .4:
        a = ds.add(Attr("a type", "type", rng.choice([ASVALUE, 0]) | THREAD)); vals = ["int", "string", "double", "bool", "uint", "addr", "type"]
        for r in ds.recs:
            if rng.random() < .4:
                if a.value: r.imm.append((a.name, rng.choice(vals)))
                elif r.refs: r.refs[0] = r.refs[0] + ((a.name, rng.choice(vals)),)
    if rng.random() < .5:
        m = [ds.add(Attr("meta.%d" % k, t, SKIP | rng.choice([0, ASVALUE, HIDDEN * 0]))) for k, t in enumerate(["double", "string", "int", "uint", "bool", "addr"])]
        for a in list(ds.attrs.values()):
            if a.name.startswith("meta.") or a.name in ("attribute.unit", "class.extra") or rng.random() < .5: continue
            a.meta = a.meta + tuple((x.name, gen_value(rng, x.type, "wide")) for x in rng.sample(m, rng.randint(1, 3)))
        for a in ds.attrs.values(): a.meta = tuple((n, v) for n, v in a.meta if v == v)
    ctrl = rng.random() < .05
    if ctrl:
        k = rng.choice(ds.nest).name; w = rng.choice(CTRL)
        for r in ds.recs:
            if r.refs: r.refs[0] = r.refs[0] + ((k, w),)
    if rng.random() < .35:       # long strings, dense in characters that are escaped
        big = rng.random() < .15; pool = {}
        def rnd(w):
            if w not in pool:
                n = rng.choice([rng.randint(0, 12), rng.randint(20, 140), rng.randint(20, 140), rng.randint(100, 5000)])
                if big and rng.random() < .3: n = rng.choice([65530, 65536, 70000, 131072, rng.randint(60000, 200000)])
                ab = rng.choice(["\\,=\nn", "a\\", "ab\\n,=\n\"", "\\"]); x = "".join(rng.choice(ab) for _ in range(min(n, 500))); pool[w] = "%d:" % len(pool) + (x * (n // 500 + 1))[:n]
            return pool[w]
        m = lambda n, v: rnd(v) if isinstance(v, str) and ds.attrs[n].type == "string" and rng.random() < .5 else v
        for r in ds.recs + ds.globals: r.refs = [tuple((n, m(n, v)) for n, v in p) for p in r.refs]; r.imm = [(n, m(n, v)) for n, v in r.imm]
    return ctrl
def strip(x):
    if isinstance(x, str): return "".join(c for c in x if ord(c) >= 32 or c == "\n")
    if isinstance(x, tuple): return tuple(strip(y) for y in x)
    return x
def used_attrs(ds):
    u = set()
    def add(n):
        if n in u or n not in ds.attrs: return
        u.add(n)
        for m, _ in ds.attrs[n].meta: add(m)
    for r in ds.recs + ds.globals:
        for n, _ in entries(r): add(n)
    return u
def gset(ds, gl):
    """globals as a set of paths and values"""
    s = {}
    for g in gl:
        for p in g.refs: s[("ref", tuple(p))] = s.get(("ref", tuple(p)), 0) + 1
        for n, v in g.imm: s[("imm", n, hv(v))] = s.get(("imm", n, hv(v)), 0) + 1
    return s
def check(c, tag, ds, text, files, what, ctrl=False):
    try: out = parse(text)
    except CaliError as e: c.viol(tag + ":stream:" + " ".join(w for w in str(e).split() if w.isalpha())[:50], "%s: %s\n%s" % (what, e, text[:3000]), files); return None
    if getattr(out, "dups", 0) and ctrl: c.viol("c06:control-characters-dropped", "%s: two nodes whose values differ in control characters only are written alike" % what, files); return None
    if getattr(out, "dups", 0): c.viol(tag + ":node-twice", "%s: %d nodes are written twice under different ids\n%s" % (what, out.dups, text[:3000]), files); return None
    a, b = [exact(ds, r) for r in ds.recs], [exact(out, r) for r in out.recs]
    if a != b and repr(a) != repr(b):
        k = next((j for j, (x, y) in enumerate(zip(a, b)) if repr(x) != repr(y)), min(len(a), len(b)))
        if ctrl and [strip(x) for x in a] == [strip(x) for x in b]: c.viol("c06:control-characters-dropped", "%s: %r became %r" % (what, a[k:k + 1], b[k:k + 1]), files)
        else: c.viol(tag + ":records", "%s: %d records, expected %d; record %d: got %r, expected %r" % (what, len(b), len(a), k, b[k:k + 1], a[k:k + 1]), files)
        return None
    for n in used_attrs(ds):
        if n not in out.attrs: c.viol(tag + ":attribute-missing", "%s: attribute %r" % (what, n), files); return None
        x, y = ds.attrs[n].ident(), out.attrs[n].ident()
        if repr(x) != repr(y): c.viol(tag + ":attribute-changed", "%s: attribute became %r, expected %r" % (what, y, x), files); return None
    g, h = gset(ds, ds.globals), gset(out, out.globals)
    if {repr(x): y for x, y in g.items()} != {repr(x): y for x, y in h.items()}: c.viol(tag + ":globals", "%s: globals %r, expected %r" % (what, h, g), files); return None
    return out
def case(c, rng, i):
    ds = gen_data(rng, "wide"); ctrl = decorate(rng, ds)
    f = c.file(render(ds, rng, dup=.1 if rng.random() < .2 else 0))
    for cmd, q, tag in (("copy", "", "c06:copy"), ("query", "format cali", "c06:query")):
        st, text = c.query([f], q, cmd); c.ev += 1
        if st == "died": return
        if st != "ok": c.viol(tag + ":" + st, text[:500], [f]); return
        if cmd == "query":     # formats no hidden attributes, and globals at the end
            pass
        out = check(c, tag, ds, text, [f], cmd, ctrl)
        if out is None: return
        f2 = c.file(text); st, t2 = c.query([f2], q, cmd)
        if st != "ok": c.viol(tag + ":second:" + st, t2[:500], [f2]); return
        out2 = check(c, tag + ":second", out, t2, [f, f2], "second " + cmd)
        if out2 is None: return
        c.stat("records", len(ds.recs)); c.stat("nodes", text.count("__rec=node"))
    c.fps.add("%d|%d|%s" % (len(ds.recs), text.count("__rec=node"), sorted({a.type for a in ds.attrs.values()})))
    if len(c.samples) < 1 and ds.recs: c.samples.append(repr(ds.recs[0])[:400])
# ---- files written at run time
def unv(h):
    s = bytes.fromhex(h).decode("latin-1"); t, _, v = s.partition(":")
    if t == "s": return "string", v
    if t == "i": return "int", int(v)
    if t == "U": return "uint", int(v)
    if t == "a": return "addr", int(v)
    if t == "d": return "double", struct.unpack(">d", bytes.fromhex(v))[0]
    if t == "b": return "bool", v == "1"
    if t == "t": return "type", ("inv", "usr", "int", "uint", "string", "addr", "double", "bool", "type", "ptr")[int(v)] 
    return t, v
def un(h): return bytes.fromhex(h).decode("latin-1")
def memdata(path):
    ds = Data()
    for l in open(path):
        f = l.split()
        if f[0] == "A": ds.add(Attr(un(f[1]), f[2], int(f[3]), [(un(x.split("=")[0]), unv(x.split("=")[1])[1]) for x in f[4:]]))
        else:
            r = Rec()
            for x in f[1:]:
                k, *els = x.split(":"); els = tuple((un(y.split("=")[0]), unv(y.split("=")[1])[1]) for y in els)
                if k == "i": r.imm += els
                else: r.refs.append(els)
            (ds.recs if f[0] == "R" else ds.globals).append(r)
    for a in ds.attrs.values(): a.meta = tuple((n, v) for n, v in a.meta if not ds.attrs[n].hidden)
    return ds
CLEAN = re.compile("[\x00-\x09\x0b-\x1f]")
def runtime_file(c, base):
    mem = memdata(base + ".mem"); text = open(base + ".cali", encoding="latin-1", newline="").read()
    vals = [v for r in mem.recs + mem.globals for n, v in entries(r) if isinstance(v, str)]
    ctrl = any(CLEAN.search(v) for v in vals)
    try: out = parse(text)
    except CaliError as e: c.viol("c06:runtime:stream", "%s: %s" % (e, text[:3000]), [base + ".mem"]); return
    a, b = [exact(mem, r) for r in mem.recs], [exact(out, r) for r in out.recs]
    if ctrl:
        if a != b and any(x != strip(x) for x in a): c.viol("c06:control-characters-dropped", "runtime file", [])
        a, b = [[tuple(sorted(p, key=repr)) for p in strip(x)] for x in a], [[tuple(sorted(p, key=repr)) for p in strip(x)] for x in b]
    c.stat("runtime_records", len(a)); c.stat("runtime_files", 1); c.ev += 1
    if a != b and repr(a) != repr(b):
        k = next((j for j, (x, y) in enumerate(zip(a, b)) if repr(x) != repr(y)), min(len(a), len(b)))
        d = [[repr(z)[:300] for p, q in zip(x, y) for z in p if z not in q] for x, y in ((b[k], a[k]), (a[k], b[k]))] if k < min(len(a), len(b)) else (b[k:k + 1], a[k:k + 1])
        c.viol("c06:runtime:records", "%d records written, %d in memory; record %d: only in file %s, only in memory %s" % (len(b), len(a), k, *d), [base + ".mem", base + ".cali"]); return
    for n in mem.attrs:
        if n not in out.attrs: 
            if any(n == x for r in mem.recs + mem.globals for x, _ in entries(r)): c.viol("c06:runtime:attribute-missing", repr(n), [base + ".mem", base + ".cali"])
            continue
        if repr(mem.attrs[n].ident()) != repr(out.attrs[n].ident()): c.viol("c06:runtime:attribute-changed", "file %r, memory %r" % (out.attrs[n].ident(), mem.attrs[n].ident()), [base + ".mem", base + ".cali"]); return
    g, h = gset(mem, mem.globals), gset(out, out.globals)
    if {strip(repr(k)) if not ctrl else "" for k in g} != {strip(repr(k)) if not ctrl else "" for k in h}: c.viol("c06:runtime:globals", "file %r, memory %r" % (h, g), [base + ".mem", base + ".cali"]); return
    c.fps.add("rt%d|%d" % (len(a), len(text)))
    # and through the library's reader
    st, t2 = c.query([base + ".cali"], "", "copy")
    if st == "died": return
    if st != "ok": c.viol("c06:runtime:read:" + st, t2[:500], [base + ".cali"]); return
    check(c, "c06:runtime:read", out, t2, [base + ".cali"], "runtime file read back")
def rt_case(c, rng, i):
    runtime_file(c, os.path.join(RTDIR, "s%d" % (i // PER), "c%d" % i))
PER = 40; RTDIR = None
def main():
    global RTDIR
    ck = vlib.Check("C06")
    n = ck.n(5000, 80000)
    ck.rule = "random record sets with strings of any printable, delimiter or non-ASCII bytes, all value types up to their limits, attributes with metadata, shared and duplicated nodes, random id schemes; read and written again by CaliWriter and by a .cali query, twice; streams read by an independent strict parser and compared exactly; runtime-written files compared with the flushed in-memory records; distinct = (records, nodes, types)"
    qlib.run(ck, "c06", "case", n)
    exe = vlib.compile_harness("cwrite.cpp", "asan", internal=True); RTDIR = os.path.join(ck.tmp, "rt"); m = ck.n(24, 240)
    for i in range(m): os.makedirs(os.path.join(RTDIR, "s%d" % i))
    ck.run_shards(exe, [["--seed", ck.seed, "--from", i * PER, "--to", (i + 1) * PER, "--dir", os.path.join(RTDIR, "s%d" % i)] for i in range(m)], timeout=200)
    sys.modules["c06"].RTDIR = RTDIR
    if not ck.viol: qlib.run(ck, "c06", "rt_case", m * PER)
    ck.assumptions = ["values of the USR and PTR types and the data of hidden reference attributes are not read back (documented in the reader); embedded NUL characters end a string"]
    return ck.finish(min_evals=n, min_distinct=n // 10)
