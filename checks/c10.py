import random
import vlib, qlib
from qlib import *
import c07
def shuffled(rng, x): x = list(x); rng.shuffle(x); return x
def case(c, rng, i):
    wide = rng.random() < .3
    ds = gen_data(rng, "wide" if wide else "small")
    for r in ds.recs:
        r.imm = [(n, v) for n, v in r.imm if v == v]; r.refs = [tuple((n, v) for n, v in p if v == v) for p in r.refs]
        r.refs = [p for p in r.refs if p]
    ds.recs = [r for r in ds.recs if r.refs or r.imm]
    k = rng.choice([1, 2, 2, 3, 4, 6, 8])
    parts = [Data() for _ in range(k)]; skew = rng.random() < .3
    for p in parts: p.attrs = ds.attrs
    for r in ds.recs: parts[0 if skew and rng.random() < .7 else rng.randrange(k)].recs.append(r)
    for g in ds.globals: rng.choice(parts).globals.append(g)
    base = rng.choice([None, None, 12, 30])
    files = [c.file(render(p, rng, dup=.1 if rng.random() < .2 else 0, base=base)) for p in parts]
    # the union, whatever the order
    want = sorted(repr(exact(ds, r)) for r in ds.recs)
    for cmd in ("query", "par", "copy"):
        fs = shuffled(rng, files); st, text = c.query(fs, "format cali", cmd); c.ev += 1
        if st == "died": return
        if st != "ok": c.viol("c10:%s:%s" % (cmd, st), text[:500], files); return
        try: out = parse(text)
        except CaliError as e: c.viol("c10:%s:stream:%s" % (cmd, " ".join(w for w in str(e).split() if w.isalpha())[:40]), "%s\n%s" % (e, text[:3000]), files); return
        if getattr(out, "dups", 0): c.viol("c10:%s:node-not-unified" % cmd, "%d nodes appear twice\n%s" % (out.dups, text[:3000]), files); return
        got = sorted(repr(exact(out, r)) for r in out.recs)
        if got != want:
            d = [x for x in got if x not in want][:2], [x for x in want if x not in got][:2]
            c.viol("c10:%s:records" % cmd, "%d records, expected %d; only in the output %s; missing %s" % (len(got), len(want), *d), files); return
        if cmd == "copy":      # the records of one file keep their order
            pos = 0
            for f in fs:
                p = parts[files.index(f)]
                a, b = [repr(exact(ds, r)) for r in p.recs], [repr(exact(out, r)) for r in out.recs[pos:pos + len(p.recs)]]; pos += len(p.recs)
                if a != b: c.viol("c10:copy:order", "records of a file are out of order", files); return
        for n in {n for r in ds.recs for n, _ in entries(r)}:
            if repr(out.attrs[n].ident()) != repr(ds.attrs[n].ident()): c.viol("c10:%s:attribute" % cmd, "%r became %r" % (ds.attrs[n].ident(), out.attrs[n].ident()), files); return
        c.stat("records_merged", len(got))
    # aggregation over the merged input, and of partial aggregates
    for cmd in ("query", "par", "partial%d" % rng.randrange(3), "partial%d" % rng.randrange(3, 6)):
        if cmd.startswith("partial") and wide: ops = ["count", "min", "max", "inclusive_min", "inclusive_max", "any", "scale_count"]
        else: ops = c07.EXACT if wide else c07.OPS
        q_ = c07.gen_query(rng, ds, ops); fs = shuffled(rng, files); qt = q_.text(rng)
        if cmd.startswith("partial") and any(a.name == "count" for a in ds.val): continue
        if cmd.startswith("partial") and q_.group is None and not q_.path: continue      # default keys keep the context's order of values
        st, text = c.query(fs, qt, cmd); c.ev += 1
        if st == "died": return
        if st != "ok": c.viol("c10:%s:%s" % (cmd.rstrip("012345"), st), text[:500], files); return
        if not c07.compare(c, "c10:" + cmd.rstrip("012345"), ds, q_, text, ds.recs, files, qt): return
        c.stat(cmd.rstrip("012345") + "_aggregations")
    c.fps.add("%d|%d|%s|%d" % (k, len(ds.recs), base, sum(len(p.recs) == 0 for p in parts)))
    if len(c.samples) < 1: c.samples.append("%d records over %d files" % (len(ds.recs), k))
# concurrent readers under ThreadSanitizer
def race(c, rng, i):
    ds = gen_data(rng, "small", nrec=rng.randint(5, 60)); k = rng.choice([2, 3, 4, 6])
    parts = [Data() for _ in range(k)]
    for p in parts: p.attrs = ds.attrs
    for r in ds.recs: parts[rng.randrange(k)].recs.append(r)
    for g in ds.globals: rng.choice(parts).globals.append(g)
    files = [c.file(render(p, rng)) for p in parts]
    for cmd, q_ in (("par", None), ("par", c07.gen_query(rng, ds)), ("partial%d" % rng.randrange(3, 6), c07.gen_query(rng, ds))):
        qt = q_.text(rng) if q_ else rng.choice(["format cali", "format expand", "format json", "format json-split", "format table", "format tree"])
        st, text = c.query(files, qt, cmd); c.ev += 1
        if st == "died": return
        c.stat("concurrent_reads", k)
    c.fps.add("race%d|%d" % (k, len(ds.recs)))
# attributes of the same name that differ are kept apart
def clash(c, rng, i):
    kinds = rng.sample([("int", 0), ("string", 0), ("double", 0), ("uint", 0), ("string", NESTED), ("int", ASVALUE), ("double", ASVALUE), ("string", ASVALUE), ("uint", ASVALUE), ("int", SKIP)], rng.randint(2, 4))
    files, want = [], {}
    for t, p in kinds:
        ds = Data(); a = ds.add(Attr("x", t, p | THREAD)); n = ds.add(Attr("n", "string", NESTED | THREAD))
        for _ in range(rng.randint(1, 5)):
            v = gen_value(rng, t, "small"); r = Rec([((n.name, rng.choice(PLAIN)),)] if rng.random() < .5 else [], [])
            if a.value: r.imm.append(("x", v))
            else: r.refs = [(r.refs[0] if r.refs else ()) + (("x", v),)]
            ds.recs.append(r); k = (t, a.props, fmtval(t, v), r.refs[0][0][1] if r.refs and r.refs[0][0][0] == "n" else None); want[k] = want.get(k, 0) + 1
        files.append(c.file(render(ds, rng)))
    for cmd in ("query", "par", "copy"):
        fs = shuffled(rng, files); st, text = c.query(fs, "format cali", cmd); c.ev += 1
        if st == "died": return
        if st != "ok": c.viol("c10:clash:%s:%s" % (cmd, st), text[:500], files); return
        nodes, got = {}, {}
        def at(i):       # (name, type, props) of an attribute id
            if i < 12: return None
            a, d, p = nodes[i]; props = 0
            while p is not None and p >= 12:
                if nodes[p][0] == 10: props = int(nodes[p][1])
                p = nodes[p][2]
            return d, IDTYPE.get(p), props
        for l in text.split("\n"):
            if not l: continue
            f = dict(split_rec(l))
            if f["__rec"] == ["node"]: nodes[int(f["id"][0])] = (int(f["attr"][0]), (f.get("data") or [""])[0], int(f["parent"][0]) if "parent" in f else None)
            elif f["__rec"] == ["ctx"]:
                x = reg = None
                for r in f.get("ref", []):
                    r = int(r)
                    while r is not None:
                        a = at(nodes[r][0])
                        if a[0] == "x": x = (a[1], a[2], nodes[r][1])
                        elif a[0] == "n": reg = nodes[r][1]
                        r = nodes[r][2]
                for y, z in zip(f.get("attr", []), f.get("data", [])):
                    a = at(int(y))
                    if a[0] == "x": x = (a[1], a[2], z)
                k = x + (reg,) if x else None; got[k] = got.get(k, 0) + 1
        num = lambda w: sorted(repr((k[0], k[1], float(k[2]) if k[0] == "double" else k[2], k[3], v)) if k else "None" for k, v in w.items())
        if num(got) != num(want): c.viol("c10:clash:%s" % cmd, "attributes %r of one name: got %r, expected %r\n%s" % (kinds, got, want, text[:3000]), files); return
        c.stat("clashes")
    c.fps.add("clash%r" % (sorted(kinds),))
def main():
    ck = vlib.Check("C10")
    n = ck.n(2000, 60000)
    ck.rule = "random record sets split over 1..8 files with ids of their own (colliding bases, random orders and schemes, duplicated nodes, empty files), merged by one query in random order, by concurrent reader threads, and by partial aggregators merged in chains, trees and stars; all outputs compared with the union / the reference aggregation of all records; attributes of one name that differ; distinct = (files, records, id base, empty files)"
    qlib.run(ck, "c10", "case", n)
    qlib.run(ck, "c10", "clash", n // 4)
    qlib.run(ck, "c10", "race", n // 8, flavor="tsan")
    ck.assumptions = ["values are chosen so that double sums are exact"]
    return ck.finish(min_evals=n, min_distinct=n // 20)
