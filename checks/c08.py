import json, math, random, re
import vlib, qlib, c07
from qlib import *
ODD = ["init loop", "x/y", "f(int, char*)", "std::vector<int>", "eq=ual", "com,ma", "back\\slash", "\"quoted\"", "\xc3\xa9t\xc3\xa9", "AS", "order", "-5", "a<b", "it's", "tail;"]
def words(ds, rng):
    """replaces some plain strings by ones that need quoting in a query"""
    m = {w: rng.choice(ODD) for w in PLAIN if rng.random() < .3}
    f = lambda p: tuple((n, m.get(v, v) if isinstance(v, str) and ds.attrs[n].type == "string" and not ds.attrs[n].glob else v) for n, v in p)
    for r in ds.recs: r.refs = [f(p) for p in r.refs]; r.imm = list(f(r.imm))
def qtext_value(rng, t, v):
    if t == "string": return v
    return fmtval(t, v)
def gen_cond(rng, ds, names, lets={}):
    a = rng.choice(names); neg = rng.random() < .35; t = lets.get(a) or (ds.attrs[a].type if a in ds.attrs else "string")
    op = rng.choice([None, "=", "=", "<", ">"])
    if op is None: return (neg, a, None, "", None)
    pool = [v for r in ds.recs for n, v in entries(r) if n == a]
    v = rng.choice(pool) if pool and rng.random() < .8 else gen_value(rng, t, "small")
    if t == "string" and (v == "" ): return (neg, a, None, "", None)
    if t == "double": v = float(v); v = 0.0 if v == 0 else v
    if t == "uint" and v < 0: v = 0
    return (neg, a, op, qtext_value(rng, t, v), v)
def gen_let(rng, ds, q_):
    nums = [a for a in ds.val if a.type in NUM and not a.hidden]; strs = [a for a in ds.nest + ds.non if a.type == "string"]
    types = {}
    for k in range(rng.choice([0, 1, 1, 2, 3])):
        t = rng.choice(["let.%d" % k, "L%d" % k, "my value %d" % k]); op = rng.choice(["scale", "ratio", "truncate", "first", "sum", "leaf"])
        prev = [n for n, ty in types.items() if ty in NUM]
        pick = lambda: rng.choice([a.name for a in nums] + prev + (["no.such"] if rng.random() < .1 else []))
        if op == "scale": args = [pick(), rng.choice(["2", "0.5", "-1", "10"])]; ty = "double"
        elif op == "ratio": args = [pick(), pick()] + ([rng.choice(["2", "100"])] if rng.random() < .4 else []); ty = "double"
        elif op == "truncate":
            args = [pick()] + ([rng.choice(["2", "5", "0.5", "10"])] if rng.random() < .7 else []); ty = types.get(args[0]) or (ds.attrs[args[0]].type if args[0] in ds.attrs else "double")
        elif op in ("first", "sum"):
            ty = rng.choice(["int", "uint", "double"]); c = [a.name for a in nums if a.type == ty] + [n for n, x in types.items() if x == ty]
            if op == "first" and rng.random() < .4: ty = "string"; c = [a.name for a in strs]
            if not c: continue
            args = rng.sample(c, rng.randint(1, min(4, len(c))))
        else:
            args = [rng.choice(strs).name] if rng.random() < .5 and strs else []; ty = "string"
        cond = gen_cond(rng, ds, [a.name for a in ds.nest + ds.non + ds.val if not a.hidden] + list(types), types) if rng.random() < .4 else None
        q_.let.append((t, op, args, cond)); types[t] = ty
    return types
def vis(ds, r):
    return visible(ds, r)
def alias(rng, q_, n, used):
    if rng.random() < .5:
        a = rng.choice(["Alias", "Time (s)", "my col", "A,B", "Zeit", "x=y", "Min time/rank", "\xc3\x9c"]) + str(len(used))
        q_.aliases[n] = a
        used.add(a)
        if rng.random() < .3: q_.units[n] = rng.choice(["sec", "Mega Bytes", "#", "MB/s", "1/s"])
def disp(q_, n): return q_.aliases.get(n, n)
def case(c, rng, i):
    ds = gen_data(rng, "small")
    if rng.random() < .5: words(ds, rng)
    f = c.file(render(ds, rng))
    for kind in (0, 1, 2, 3):
        one(c, rng, ds, f, kind)
def one(c, rng, ds, f, kind):
    attrs0 = dict(ds.attrs); q_ = Query()
    try:
        types = gen_let(rng, ds, q_) if rng.random() < .6 else {}
        names = [a.name for a in ds.nest + ds.non + ds.val if not a.hidden] + list(types) + ["no.such.attr"]
        for _ in range(rng.choice([0, 1, 1, 2, 3])): q_.where.append(gen_cond(rng, ds, names, types))
        if kind == 0: filters(c, rng, ds, f, q_)
        elif kind == 1: aggr(c, rng, ds, f, q_, types)
        elif kind == 2: select(c, rng, ds, f, q_, types)
        else: table(c, rng, ds, f, q_, types)
    finally: ds.attrs = attrs0
def ask(c, f, q_, rng, key):
    qt = q_.text(rng); st, text = c.query([f], qt); c.ev += 1
    if st == "died": return None, qt
    if st != "ok": c.viol("c08:refused:%s:%s" % (key, st), "%s: %s %s" % (qt, st, text[:300]), [f]); return None, qt
    return text, qt
def filters(c, rng, ds, f, q_):
    text, qt = ask(c, f, q_, rng, "filter")
    if text is None: return
    want = [vis(ds, r) for r in preprocess(ds, q_)]
    try: out = parse(text)
    except Exception as e: c.viol("c08:unparsable", "%s: %s\n%s" % (qt, e, text[:1000]), [f]); return
    got = [vis(out, r) for r in out.recs]
    if len(got) != len(want) or got != want:
        k = next((j for j, (a, b) in enumerate(zip(got, want)) if a != b), min(len(got), len(want)))
        tag = "let" if q_.let and [x[:2] for x in got] == [x[:2] for x in want] else "filter" if q_.where else "records"
        c.viol("c08:wrong-records:" + tag, "%s: %d records, expected %d; first difference at %d: got %r, expected %r" % (qt, len(got), len(want), k, got[k:k + 1], want[k:k + 1]), [f]); return
    c.stat("filter_queries"); c.stat("records_compared", len(got)); c.fps.add("f|%s|%s|%d|%d" % ([l[1] for l in q_.let], [(w[0], w[2]) for w in q_.where], len(ds.recs), len(got)))
    if q_.where and q_.let and len(c.samples) < 1: c.samples.append("%s: %d of %d records" % (qt, len(got), len(ds.recs)))
def aggr(c, rng, ds, f, q_, types):
    q2 = c07.gen_query(rng, ds, [o for o in c07.OPS if not o.startswith("ratio")]); q_.ops, q_.group, q_.path = q2.ops, q2.group, q2.path
    nt = [n for n, t in types.items() if t in NUM]
    if nt:
        o = (rng.choice(["sum", "max", "inclusive_sum", "avg"]), [rng.choice(nt)])
        q_.ops.append(o)
    if types and q_.group and rng.random() < .3:
        n = rng.choice(list(types))
        if not any(n in o[1] for o in q_.ops): q_.group.append(n)
    text, qt = ask(c, f, q_, rng, "aggregate")
    if text is None: return
    recs = preprocess(ds, q_)
    for n, t in types.items():
        if n not in ds.attrs: ds.add(Attr(n, t, SKIP | ASVALUE))
    if any(isinstance(v, float) and n.startswith(("let", "L", "my")) and v == v and abs(v) < 1e300 and v * 4096 != int(v * 4096) for r in recs for n, v in r.imm): c.stat("inexact_skipped"); return
    if c07.compare(c, "c08:aggregate", ds, q_, text, recs, [f], qt): c.stat("aggregate_queries"); c.fps.add("a|%s|%s|%s" % ([l[1] for l in q_.let], [(w[0], w[2]) for w in q_.where], sorted(o[0] for o in q_.ops)))
def rowvals(ds, r, q_, sep):
    """JSON view of a record: {attr or 'path': text}"""
    ref, imm = {}, {}
    for p in r.refs:
        for n, v in reversed(p):
            a = ds.attrs[n]
            k = "path" if a.nested and not sep else n
            ref.setdefault(k, []).insert(0, to_string(a.type, v))
    for n, v in r.imm: imm[n] = to_string(ds.attrs[n].type, v)
    return {k: "/".join(v) for k, v in ref.items()}, imm
def select(c, rng, ds, f, q_, types):
    cand = [a.name for a in ds.nest + ds.non + ds.val] + list(types)
    sep = rng.random() < .5; fmt = rng.choice(["json", "json", "expand"]); used = set()
    star = rng.random() < .2
    for n in rng.sample(cand, rng.randint(1, min(5, len(cand)))):
        q_.select.append(("attr", n))
        alias(rng, q_, n, used)
    if star and rng.random() < .5: q_.select = [("*",)]; q_.aliases, q_.units = {}, {}
    elif star: q_.select.insert(rng.randint(0, len(q_.select)), ("*",))        # the listed ones only get their names
    sel = None if star else {s[1] for s in q_.select}
    q_.fmt = fmt + (rng.choice(["(separate-nested)", "(separate-nested=true)"]) if sep and fmt == "json" else "")
    text, qt = ask(c, f, q_, rng, "select")
    if text is None: return
    recs = preprocess(ds, q_); want = []
    for r in recs:
        keep = lambda n: n in sel if sel is not None else not ds.attrs[n].hidden
        rr = Rec([tuple((n, v) for n, v in p if keep(n)) for p in r.refs], [(n, v) for n, v in r.imm if keep(n)])
        if fmt == "expand":
            parts = []
            for p in rr.refs:
                d = {}
                for n, v in p: d.setdefault(n, []).append(to_string(ds.attrs[n].type, v))
                parts += [disp(q_, n) + "=" + "/".join(v) for n, v in d.items()]
            parts += [disp(q_, n) + "=" + to_string(ds.attrs[n].type, v) for n, v in rr.imm]
            if parts: want.append(sorted(parts))
        else:
            ref, imm = rowvals(ds, rr, q_, sep)
            row = {("path" if k == "path" else disp(q_, k)): v for k, v in ref.items()}
            row.update({disp(q_, k): v for k, v in imm.items()})
            if row: want.append(row)
    if fmt == "expand":
        lines = text.split("\n")[:-1]
        if any(x.type == "addr" for x in ds.attrs.values() if x.name in (sel or [])): pass
        ok = len(lines) == len(want) and all(match_parts(l, w) for l, w in zip(lines, want))
        if star and any(a.hidden for a in ds.attrs.values()): return            # expand shows hidden attributes too
        if not ok: c.viol("c08:select:expand", "%s: got\n%s\nexpected %r" % (qt, text[:1500], want[:8]), [f]); return
    else:
        try: got = json.loads(text, parse_int=str, parse_float=str, parse_constant=str)
        except ValueError as e:
            if any(ds.attrs[n].type in ("addr",) for r in recs for n, _ in r.imm): return
            c.viol("c08:select:json-invalid", "%s: %s\n%s" % (qt, e, text[:1500]), [f]); return
        got = [{k: ({True: "true", False: "false"}[v] if isinstance(v, bool) else v) for k, v in g.items()} for g in got]
        got = [{k: v.encode("utf-8", "surrogateescape").decode("latin-1") if False else v for k, v in g.items()} for g in got]
        if got != want:
            k = next((j for j, (a, b) in enumerate(zip(got, want)) if a != b), min(len(got), len(want)))
            c.viol("c08:select:json", "%s: %d rows, expected %d; first difference at %d: got %r, expected %r" % (qt, len(got), len(want), k, got[k:k + 1], want[k:k + 1]), [f]); return
    c.stat("select_queries"); c.fps.add("s|%s|%s|%d" % (fmt, star, len(want)))
def match_parts(line, parts):
    """the line is a permutation of the parts joined by commas"""
    if len(line) != sum(map(len, parts)) + max(0, len(parts) - 1): return False
    def rec(rest, left):
        if not left: return rest == ""
        for k, p in enumerate(left):
            if rest.startswith(p) and (len(left) == 1 and len(rest) == len(p) or rest[len(p):len(p) + 1] == "," and len(left) > 1):
                if rec(rest[len(p) + 1:], left[:k] + left[k + 1:]): return True
        return False
    return rec(line, parts)
def split_table(text, heads):
    """cells of a table with the given header texts"""
    lines = text.split("\n")
    pos, p = [], 0
    for h in heads:
        q = lines[0].find(h, p)
        if q < 0 or lines[0][p:q].strip(): return None
        pos.append(q); p = q + len(h)
    if lines[0][p:].strip(): return None
    rows = []
    for l in lines[1:-1]: rows.append([l[a:b].strip() for a, b in zip(pos, pos[1:] + [None])])
    return rows
def table(c, rng, ds, f, q_, types):
    used = set(); cols = []
    plain = all(ok_cell(v) for r in ds.recs for n, v in entries(r) if isinstance(v, str))
    if not plain: return
    q2 = None
    if rng.random() < .5:
        q2 = c07.gen_query(rng, ds, ["count", "sum", "min", "max", "avg", "scale", "inclusive_sum"]); q_.ops, q_.group, q_.path = q2.ops, (q2.group or []) and [g for g in q2.group if g in ds.attrs and not ds.attrs[g].meta == () or g in ds.attrs], q2.path
        if not q_.group and not q_.path: q_.group = [rng.choice(ds.nest + ds.non).name]
        q_.group = q_.group or None
        keys = [n for n in ds.attrs if (iskey(ds, n, set(q_.group or [])) and not ds.attrs[n].hidden) or (q_.path and ds.attrs[n].nested)]
        ops = list(range(len(q_.ops))); rng.shuffle(ops)
        for n in rng.sample(keys, len(keys))[:4]:
            if n in ds.attrs and n != "class.extra": q_.select.append(("attr", n)); cols.append(n); alias(rng, q_, n, used)
        for o in ops:
            q_.select.insert(rng.randint(0, len(q_.select)), ("op", o))
            alias(rng, q_, q_.opname(q_.ops[o]), used)
        cols = [s[1] if s[0] == "attr" else q_.opname(q_.ops[s[1]]) for s in q_.select]
        sortc = cols + keys
    else:
        cand = [a.name for a in ds.nest + ds.non + ds.val] + list(types)
        cols = rng.sample(cand, rng.randint(1, min(6, len(cand))))
        q_.select = [("attr", n) for n in cols]
        for n in cols: alias(rng, q_, n, used)
        sortc = cand
    for n in rng.sample(sortc, rng.choice([0, 1, 1, 2, min(3, len(sortc))]) if len(sortc) > 1 else 1):
        if n not in [s[0] for s in q_.sort]: q_.sort.append((n, rng.choice(["", "ASC", "DESC"])))
    q_.fmt = "table" + rng.choice(["", "", "(column-width=200)"])
    text, qt = ask(c, f, q_, rng, "table")
    if text is None: return
    recs = preprocess(ds, q_)
    for n, t in types.items():
        if n not in ds.attrs: ds.add(Attr(n, t, SKIP | ASVALUE))
    typ = {n: ds.attrs[n].type for n in ds.attrs}
    if q2:
        # rows: (cells as text, sort values)
        want = []
        for k, row in aggregate(ds, q_, recs).items():
            d = {}
            for n, v in k[0]: d.setdefault(n, []).append(to_string(typ[n], v))
            for n, vs in k[1]: d.setdefault(n, []).extend(to_string(typ[n], v) for v in vs)
            d = {n: "/".join(v) for n, v in d.items()}
            for n, v in k[2]: d[n] = to_string(typ[n], v)
            for n, (t, v) in row.items(): typ[n] = t; d[n] = to_string(t, v)
            want.append(d)
        order = False
    else:
        want = []
        for r in recs:
            d = {}
            for n in {x for x, _ in entries(r)}:
                for p in r.refs:
                    s = [to_string(typ[m], v) for m, v in p if m == n]
                    if s: d[n] = "/".join(s); break
                else:
                    d[n] = next(to_string(typ[m], v) for m, v in r.imm if m == n)
            want.append(d)
        order = True
    shown = [w for w in want if any(w.get(n, "") for n in cols + [s[0] for s in q_.sort])]
    rows = split_table(text, [disp(q_, n) for n in cols])
    if rows is None: c.viol("c08:table:header", "%s: header does not show %r\n%s" % (qt, [disp(q_, n) for n in cols], text[:600]), [f]); return
    exp = [[w.get(n, "") for n in cols] for w in shown]
    if sorted(rows) != sorted(exp):
        if q2 and "count" in attrs_in(ds.recs) and ("count" in q_.aliases or "count" in q_.units):
            # does the result equal the one obtained when the records' own count attribute is ignored?
            save = ds.recs; ds.add(Attr("other count", "uint", ASVALUE))
            ds.recs = [Rec(r.refs, [(n if n != "count" else "other count", v) for n, v in r.imm]) for r in ds.recs]
            cc = [row["count"][1] for row in aggregate(ds, q_, preprocess(ds, q_)).values() if "count" in row]; k = cols.index("count"); ds.recs = save
            if sorted(int(r[k]) for r in rows if r[k]) == sorted(cc):
                c.viol("c08:aliased-count-ignores-count-attribute", "%s: counts %r" % (qt, cc), [f]); return
        d1 = [r for r in rows if r not in exp][:3]; d2 = [r for r in exp if r not in rows][:3]
        c.viol("c08:table:rows", "%s: %d rows, expected %d; not expected %r; missing %r\n%s" % (qt, len(rows), len(exp), d1, d2, text[:1500]), [f]); return
    # sortedness: successive stable sorts, the last key being the primary one
    st = [(n, d) for n, d in q_.sort]
    def key(t, s):
        if s == "": return (0, 0)
        if t == "string": return (1, s.encode("latin-1"))
        if t == "bool": return (1, s == "true")
        if t == "addr": return (1, int(s, 16))
        return (1, float(s)) if t == "double" else (1, int(s))
    for w in shown: w["#row"] = [w.get(n, "") for n in cols]
    exp2 = shown
    multi = any("/" in w.get(n, "") and typ.get(n) not in ("string", None) for n, _ in st for w in shown)
    if multi: return
    for n, d in st:
        if n in typ: exp2 = sorted(exp2, key=lambda w: key(typ[n], w.get(n, "")), reverse=False) if d != "DESC" else stable_desc(exp2, lambda w: key(typ[n], w.get(n, "")))
    if order:
        if rows != [w["#row"] for w in exp2]: c.viol("c08:order-by", "%s: rows out of order: got %r, expected %r" % (qt, rows[:12], [w["#row"] for w in exp2][:12]), [f]); return
    elif st:
        # rows of equal sort keys may come in any order
        kf = lambda w: tuple(key(typ[n], w.get(n, "")) if n in typ else 0 for n, _ in st)
        if all(n in cols for n, _ in st):
            got = [tuple(key(typ[n], r[cols.index(n)]) if n in typ else 0 for n, _ in st) for r in rows]
            if got != [kf(w) for w in exp2]: c.viol("c08:order-by", "%s: rows out of order\n%s" % (qt, text[:1500]), [f]); return
    c.stat("table_queries"); c.stat("table_rows", len(rows)); c.fps.add("t|%s|%d|%d|%s" % (st and [d for _, d in st], len(cols), len(rows), bool(q2)))
def attrs_in(recs): return {n for r in recs for n, _ in r.imm}
def ok_cell(s): return s == s.strip() and "\n" not in s and s != ""
def stable_desc(l, k):
    r = sorted(reversed(l), key=k); r.reverse(); return r
def main():
    ck = vlib.Check("C08")
    n = ck.n(8000, 80000)
    ck.rule = "random record sets; random LET (all operators, with conditions), WHERE (all operators and negations, values needing quotes), SELECT with aliases and units, ORDER BY with one to three keys, clause order and spelling shuffled; records (.cali), selections (JSON, expand) and sorted tables compared with a reference evaluator; distinct = (clause shapes, sizes)"
    qlib.run(ck, "c08", "case", n)
    ck.assumptions = ["a negated less/greater condition is only judged to hold for records that have the attribute (as implemented)", "several ORDER BY keys: the last one is the primary one, as in the documentation's example"]
    return ck.finish(min_evals=n, min_distinct=n // 20)
