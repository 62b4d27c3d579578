import io, os, random, subprocess, sys
import vlib, qlib
from qlib import *
import c06
KINDS = {}
def reader():
    p = os.path.join(vlib.REPO, "python", "caliper-reader")
    if p not in sys.path: sys.path.insert(0, p)
    import caliperreader
    assert caliperreader.__file__.startswith(p), caliperreader.__file__
    return caliperreader
def u(s): return s.encode("latin-1").decode("utf-8", "surrogateescape")     # the model holds bytes as latin-1
def expected(ds, r):
    """{key: values root to leaf}, path: as the native tools see the record"""
    d = {}
    for p in r.refs:
        for n, v in p:
            a = ds.attrs[n]
            if a.hidden: continue
            d.setdefault(n, []).append(v)
            if a.nested: d.setdefault("path", []).append((n, v))
    for n, v in r.imm:
        if not ds.attrs[n].hidden: d[n] = [v]
    return d
def same(ds, want, got):
    """compares an expected dict with one from the Python reader; -> None or a description"""
    if set(u(k) for k in want) != set(got): return "keys %r, expected %r" % (sorted(got), sorted(want))
    for k, vs in want.items():
        g = got[u(k)]
        if k == "path":
            if not isinstance(g, list): return "path is not a list: %r" % (g,)
            ts = [ds.attrs[n].type for n, _ in vs]; vs = [v for _, v in vs]
        else: ts = [ds.attrs[k].type] * len(vs)
        gl = g if isinstance(g, list) else [g]
        if len(gl) != len(vs): return "%r: %r, expected %r" % (k, g, vs)
        if k != "path" and isinstance(g, list) != (len(vs) > 1): return "%r: %r is %sa list" % (k, g, "" if isinstance(g, list) else "not ")
        for t, x, y in zip(ts, gl, vs):
            if not isinstance(x, str): return "%r: value %r is no string" % (k, x)
            x = x.encode("utf-8", "surrogateescape").decode("latin-1")
            z = x if t in ("string", "usr", "type") else parseval(t, x)
            if not veq(z, y): return "%r: value %r, expected %r" % (k, x, y)
    return None
FLAGS = (("is_nested", NESTED), ("is_value", ASVALUE), ("is_global", GLOBAL), ("is_hidden", HIDDEN), ("is_aggregatable", AGG))
def attrs(ds, names, R):
    db = R.attribute
    for n in names:
        a = ds.attrs[n]
        try: p = db(u(n))
        except KeyError: return "attribute %r is missing" % n
        if p.name() != u(n): return "attribute %r: name() %r" % (n, p.name())
        if p.attribute_type() != a.type: return "attribute %r: attribute_type() %r, expected %r" % (n, p.attribute_type(), a.type)
        for f, b in FLAGS:
            if getattr(p, f)() != bool(a.props & b): return "attribute %r: %s() %r, properties %d" % (n, f, getattr(p, f)(), a.props)
        sc = {20: "thread", 12: "process", 24: "task"}.get(a.props & 60, "UNKNOWN")
        if p.scope() != sc: return "attribute %r: scope() %r, expected %r" % (n, p.scope(), sc)
        m = {}
        for k, v in a.meta: m[k] = v            # the innermost value counts
        md = p.metadata()
        for k, v in m.items():
            for how, x in (("get", p.get(u(k))), ("metadata", md.get(u(k)))):
                if x is None or not veq(parseval(ds.attrs[k].type, x.encode("utf-8", "surrogateescape").decode("latin-1")), v): return "attribute %r: %s %r is %r, expected %r" % (n, how, k, x, v)
        extra = [k for k in md if k not in {u(k) for k in m} and not k.startswith("cali.attribute.") and k not in ("is_global", "is_value", "is_nested", "is_aggregatable", "class.aggregatable", "type")]
        extra = [k for k in extra if not R.attribute(k).is_hidden()]
        if extra: return "attribute %r: metadata %r that the attribute does not have" % (n, extra)
        if md.get("type") != a.type or md.get("is_nested") != a.nested or md.get("is_value") != a.value or md.get("is_global") != a.glob: return "attribute %r: metadata() %r" % (n, md)
    vis = {u(n) for n in names if not ds.attrs[n].hidden}
    if hasattr(R, "records") and not vis <= set(R.attributes()): return "attributes() lacks %r" % sorted(vis - set(R.attributes()))[:5]
    hid = {u(n) for n in names if ds.attrs[n].hidden}
    if hasattr(R, "records") and hid & set(R.attributes()): return "attributes() has hidden %r" % sorted(hid & set(R.attributes()))
    return None
def pyread(c, path, text, how):
    cr = reader()
    if how == 0: R = cr.CaliperReader(); R.read(path); return R, R.records, R.globals
    if how == 1:
        R = cr.CaliperReader()
        with open(path, encoding="utf-8", errors="surrogateescape", newline="\n") as f: R.read(f)
        return R, R.records, R.globals
    if how == 2: rec, g = cr.read_caliper_contents(path); return None, rec, g
    if how == 3:
        R = cr.caliperstreamreader.CaliperStreamReader(); rec = []; R.read(path, rec.append); return R, rec, R.globals
    return None, None, cr.read_caliper_globals(path)
def agree(c, tag, path, ds, names, gl, files, what):
    """every way of reading the file gives the records, globals and attributes of ds"""
    for how in range(5):
        try: R, recs, g = pyread(c, path, None, how)
        except Exception as e:
            c.viol("%s:raises:%s" % (tag, type(e).__name__), "%s: the Python reader raises %r" % (what, e), files); return False
        c.ev += 1
        if recs is not None:
            if len(recs) != len(ds.recs): c.viol(tag + ":records", "%s: %d records, expected %d" % (what, len(recs), len(ds.recs)), files); return False
            for k, (r, x) in enumerate(zip(ds.recs, recs)):
                d = same(ds, expected(ds, r), x)
                if d: c.viol(tag + ":record", "%s: record %d %r: %s" % (what, k, x, d), files); return False
            c.stat("records_compared", len(recs))
        d = same(ds, gl, g)
        if d: c.viol(tag + ":globals", "%s: globals %r: %s" % (what, g, d), files); return False
        if R is not None:
            d = attrs(ds, names, R)
            if d: c.viol(tag + ":attribute", "%s: %s" % (what, d), files); return False
            c.stat("attributes_compared", len(names))
    return True
def wantglobals(ds, gl):
    d = {}
    for g in gl:
        for k, v in expected(ds, g).items(): d[k] = v
    return d
def native(c, path, tag):
    st, text = c.query([path], "format cali", "copy"); c.ev += 1
    if st == "died": return None
    if st != "ok": c.viol("%s:native:%s" % (tag, st), "the native reader reports an error: " + text[:300], [path]); return None
    try: return parse(text)
    except CaliError as e: c.viol(tag + ":native:stream", str(e), [path]); return None
def case(c, rng, i):
    ds = gen_data(rng, rng.choice(["wide", "wide", "small"])); c06.decorate(rng, ds)
    clean = lambda v: v.replace("\x00", "") if isinstance(v, str) else v
    ok = lambda v: not (isinstance(v, str) and any(ord(ch) < 32 and ch != "\n" for ch in v))     # the writer drops control characters (C06)
    for r in ds.recs + ds.globals:
        r.refs = [p for p in (tuple((n, v) for n, v in p if ok(v)) for p in r.refs) if p]; r.imm = [(n, v) for n, v in r.imm if ok(v)]
        seen = set(); r.imm = [(n, v) for n, v in r.imm if not (n in seen or seen.add(n)) and not any(n == m for p in r.refs for m, _ in p)]
    if rng.random() < .2:      # several references with the same keys; hidden attributes
        for r in rng.sample(ds.recs, len(ds.recs) // 2):
            if r.refs: r.refs.append(tuple(rng.choice(r.refs)[:rng.randint(1, 3)]))
    if ds.globals and rng.random() < .4:      # more than one globals record
        g = Rec()
        for k in range(rng.randint(1, 3)):
            if rng.random() < .5: a = ds.add(Attr("g2.%d" % k, "string", GLOBAL | ASVALUE | SKIP)); g.imm.append((a.name, gen_value(rng, "string", "wide")))
            else: a = ds.add(Attr("g2.%d" % k, "string", GLOBAL | SKIP | rng.choice([0, NESTED]))); g.refs.append(((a.name, gen_value(rng, "string", "wide")),))
        for n, v in ds.globals[0].imm:
            if rng.random() < .5: g.imm.append((n, gen_value(rng, ds.attrs[n].type, "wide")))
        ds.globals.append(g)
    ds.globals = [g for g in ds.globals if g.refs or g.imm]
    text = render(ds, rng, dup=.2 if rng.random() < .2 else 0)
    if rng.random() < .1: text = text.replace("\n", "\n\n", rng.randint(1, 5))       # blank lines are skipped
    elif rng.random() < .1 and not text.endswith("\\"): text = text[:-1]              # no newline at the end
    f = c.file(text); names = sorted(c06.used_attrs(ds))
    if not agree(c, "c28", f, ds, names, wantglobals(ds, ds.globals), [f], "generated"): return
    out = native(c, f, "c28")
    if out is None: return
    # the same file through the native tools
    if not agree(c, "c28:native", f, out, [n for n in names if n in out.attrs], wantglobals(out, out.globals), [f], "file vs. native"): return
    st, text2 = c.query([f], "format cali", "query"); c.ev += 1
    if st == "died": return
    g = c.file(text2); out2 = parse(text2)
    if not agree(c, "c28:rewritten", g, out2, [n for n in names if n in out2.attrs], wantglobals(out2, out2.globals), [f, g], "native output"): return
    a, b = sorted(repr(sorted(expected(ds, r).items(), key=repr)) for r in ds.recs), sorted(repr(sorted(expected(out2, r).items(), key=repr)) for r in out2.recs)
    c.stat("files"); c.fps.add("%d|%d|%d|%d" % (len(ds.recs), len(ds.attrs), len(ds.globals), sum(len(r.refs) > 1 for r in ds.recs)))
    if len(c.samples) < 1: c.samples.append("%d records, %d attributes, %d globals records" % (len(ds.recs), len(ds.attrs), len(ds.globals)))
# files written by the runtime
def runtime(c, rng, i):
    import glob
    for f in sorted(glob.glob(os.path.join(c.tmp, "rt", "s*", "*.cali")))[i::64]:
        out = native(c, f, "c28:runtime")
        if out is None: continue
        if not agree(c, "c28:runtime", f, out, sorted(c06.used_attrs(out)), wantglobals(out, out.globals), [f], "runtime file"): continue
        c.stat("runtime_files"); c.fps.add("rt%d|%d" % (len(out.recs), len(out.attrs)))
def main():
    ck = vlib.Check("C28")
    n = ck.n(6000, 80000)
    ck.rule = "random files (all value types, escapes, non-UTF-8 bytes, id schemes, shared and repeated nodes, several references, hidden attributes, metadata, several globals records, blank lines) and files written by the runtime, read by five entry points of the Python package; records, key order-free dicts, value lists root to leaf, paths, globals and attribute objects compared with the generated content and with what the native reader and writer make of the file; distinct = (records, attributes, globals, multi-reference records)"
    exe = vlib.compile_harness("cwrite.cpp", "asan", internal=True); d = os.path.join(ck.tmp, "rt"); m = ck.n(8, 80)
    for k in range(m): os.makedirs(os.path.join(d, "s%d" % k))
    ck.run_shards(exe, [["--seed", ck.seed, "--from", k * 25, "--to", (k + 1) * 25, "--dir", os.path.join(d, "s%d" % k)] for k in range(m)], timeout=200)
    qlib.run(ck, "c28", "case", n)
    qlib.run(ck, "c28", "runtime", 64)
    ck.assumptions = ["values containing control characters are left to C06"]
    return ck.finish(min_evals=n, min_distinct=n // 40)
