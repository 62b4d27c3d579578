import math, random
import vlib, qlib
from qlib import *
OPS = ["count", "sum", "min", "max", "avg", "scale", "percent_total", "ratio", "inclusive_sum", "inclusive_scale", "inclusive_percent_total", "inclusive_ratio", "inclusive_min", "inclusive_max", "any", "variance", "scale_count"]
EXACT = ["count", "min", "max", "inclusive_min", "inclusive_max", "any", "scale_count"]
def gen_query(rng, ds, OPS=OPS, nops=None):
    q_ = Query()
    vals = [a.name for a in ds.val if a.type in NUM and not a.hidden and a.name != "count"]
    keys = [a.name for a in ds.nest + ds.non]
    for _ in range(nops or rng.choice([1, 1, 2, 3, 4, 6])):
        o = rng.choice(OPS); a = rng.choice(vals)
        args = {"count": [], "scale_count": [rng.choice(["2", "0.5", "10"])], "scale": [a, rng.choice(["2", "0.25", "-1"])], "inclusive_scale": [a, rng.choice(["2", "0.25", "-1"])],
                "ratio": [a, rng.choice(vals)] + ([rng.choice(["2", "0.5"])] if rng.random() < .4 else []), "inclusive_ratio": [a, rng.choice(vals)] + ([rng.choice(["2", "0.5"])] if rng.random() < .4 else [])}.get(o, [a])
        if any(q_.opname(x) == q_.opname((o, args)) for x in q_.ops): continue
        q_.ops.append((o, args))
    r = rng.random()
    aggd = {a for o in q_.ops for a in o[1]}
    ik = [v.name for v in ds.val if v.name not in aggd and not v.hidden and v.name != "count"]
    if r < .2: pass
    else:
        if rng.random() < .5: q_.path = True
        k = rng.sample(keys, rng.randint(0, min(3, len(keys))))
        if ik and rng.random() < .4: k.append(rng.choice(ik))
        if rng.random() < .15 and "class.extra" in ds.attrs and not any(("class.extra", ) == m[:1] for a in aggd if a in ds.attrs for m in ds.attrs[a].meta): k.append("class.extra")
        if rng.random() < .1: k.append("no.such.attr")
        if not k and not q_.path: q_.path = True
        q_.group = k if k or not q_.path else None
    return q_
def outkey(out, r, keynames, sel_all):
    pth, non, imm = [], {}, []
    for p in r.refs:
        for n, v in p:
            if out.attrs[n].nested: pth.append((n, v))
            else: non.setdefault("" if sel_all else n, []).append((n, v) if sel_all else v)
    for n, v in r.imm:
        if n in keynames: imm.append((n, v))
    return tuple(pth), tuple(sorted((n, tuple(v)) for n, v in non.items())), tuple(sorted(imm, key=lambda x: x[0]))
def hk(k):   # hashable, -0.0 and nan tolerant form of a group key
    return k[0], tuple((n, tuple(map(repr, v))) for n, v in k[1]), tuple((n, repr(v)) for n, v in k[2])
def compare(c, tag, ds, q_, text, recs, files, qtext):
    try: out = parse(text)
    except Exception as e:
        c.viol(tag + ":unparsable", "%s: %s\n%s" % (qtext, e, text[:1500]), files); return False
    want = aggregate(ds, q_, recs)
    wk = {}
    for k, row in want.items(): wk.setdefault(hk(k), []).append(row)
    resn = {q_.opname(o) for o in q_.ops}
    allv = {n for r in recs for n, _ in r.imm}
    keynames = {n for n in allv if iskey(ds, n, set(q_.group or []))}
    seen = {}
    for r in out.recs:
        k = hk(outkey(out, r, keynames, q_.group is None and not q_.path))
        if k in seen: c.viol(tag + ":group-twice", "%s: group %r appears twice\n%s" % (qtext, k, text[-3000:]), files); return False
        seen[k] = r
        if k not in wk: c.viol(tag + ":unknown-group", "%s: group %r is not one of the records' groups\n%s" % (qtext, k, text[-3000:]), files); return False
        got = {}
        for n, v in r.imm:
            if n in keynames or out.attrs[n].hidden or n.startswith("scount#"): continue
            if n in got: c.viol(tag + ":value-twice", "%s: %r twice in a record\n%s" % (qtext, n, text[-2000:]), files); return False
            got[n] = v
        # groups with keys that differ in the order of non-nested values only are one group; its row is among the candidates
        rows = wk[k]
        if len(rows) > 1: c.stat("ambiguous_rows"); continue
        row = rows[0]
        for n in row:
            if n not in got: c.viol("%s:missing-result:%s" % (tag, n.split("#")[0]), "%s: group %r lacks %s, expected %r\n%s" % (qtext, k, n, row[n], text[-3000:]), files); return False
            if not opmatch(row[n], got[n]):
                c.viol("%s:wrong-result:%s" % (tag, n.split("#")[0]), "%s: group %r: %s is %r, expected %r\n%s" % (qtext, k, n, got[n], row[n], text[-3000:]), files); return False
            c.stat("results_checked")
        for n in got:
            if n not in row: c.viol("%s:extra-result:%s" % (tag, n.split("#")[0]), "%s: group %r has %s=%r, which no record of it defines\n%s" % (qtext, k, n, got[n], text[-3000:]), files); return False
    for k in wk:
        if k not in seen and (any(wk[k]) or k != hk(((), (), ()))):
            c.viol(tag + ":missing-group", "%s: group %r is missing (expected %r)\n%s" % (qtext, k, wk[k], text[-3000:]), files); return False
    return True
def case(c, rng, i):
    wide = rng.random() < .2
    ds = gen_data(rng, "wide" if wide else "small")
    if wide:
        for r in ds.recs: r.imm = [(n, v) for n, v in r.imm if v == v]
        ds.recs = [r for r in ds.recs if r.refs or r.imm]
    f = c.file(render(ds, rng, dup=0.1 if rng.random() < .2 else 0))
    for _ in range(3):
        q_ = gen_query(rng, ds, EXACT if wide else OPS); qt = q_.text(rng)
        st, text = c.query([f], qt)
        if st == "died": return
        c.ev += 1
        if st != "ok": c.viol("c07:refused:" + st, "%s: %s %s" % (qt, st, text[:500]), [f]); return
        if compare(c, "c07", ds, q_, text, ds.recs, [f], qt):
            c.fps.add("%s|%s|%d" % (sorted(o[0] for o in q_.ops), (len(q_.group or []), q_.path), len(ds.recs)))
            c.stat("queries"); c.stat("groups", text.count("__rec=ctx"))
            if len(c.samples) < 1: c.samples.append("%s over %d records -> %d groups" % (qt, len(ds.recs), text.count("__rec=ctx")))
def main():
    ck = vlib.Check("C07")
    n = ck.n(9000, 150000)
    ck.rule = "random record sets (several attribute types and properties, nested, recursive and mixed paths, missing values) written as .cali with ids of their own; random GROUP BY keys and operators; every group and every result compared with a reference evaluator; distinct = (operators, key shape, record count)"
    qlib.run(ck, "c07", "case", n)
    ck.assumptions = ["values are chosen so that double sums are exact; integer overflow is not judged; without GROUP BY, contexts that hold non-nested values in different order count as different groups (as the unit tests define)"]
    return ck.finish(min_evals=n, min_distinct=n // 10)
