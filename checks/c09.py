import json, random, re
from collections import Counter
import vlib, qlib, c07
from qlib import *
S = to_string
def strs(ds):
    for r in ds.recs + ds.globals:
        for n, v in entries(r):
            if isinstance(v, str): yield v
def sanitize(ds, f):
    """applies f to every string value"""
    m = lambda v: f(v) if isinstance(v, str) else v
    for r in ds.recs + ds.globals:
        r.refs = [tuple((n, m(v)) for n, v in p) for p in r.refs]; r.imm = [(n, m(v)) for n, v in r.imm]
def shown(b, r, sel, hidden=False):
    """attribute test: what a formatter has to show of a record"""
    def ok(n):
        a = b.attrs[n]
        if sel: return n in sel
        return hidden or not (a.hidden or a.glob)
    return ok
def joined(b, r, ok, key, j="/"):
    """values as text per key: paths joined root to leaf, later references in front; then the immediate values (type, value)"""
    d, im = {}, {}
    for p in r.refs:
        for n, v in reversed(p):
            if ok(n):
                k = key(n); t = S(b.attrs[n].type, v); d[k] = t if k not in d else t + j + d[k]
    for n, v in r.imm:
        if ok(n): im[key(n)] = (b.attrs[n].type, v)
    return d, im
class Bad(Exception): pass
def loads(text):
    def pairs(p):
        ks = [k for k, _ in p]
        if len(set(ks)) != len(ks): raise Bad("duplicate key %r" % [k for k in ks if ks.count(k) > 1][0])
        return dict(p)
    def const(x): raise Bad("invalid constant " + x)
    try: return json.loads(text, object_pairs_hook=pairs, parse_constant=const)
    except ValueError as e: raise Bad(str(e))
def jval(t, v, quote):
    """the JSON value of an immediate entry"""
    s = S(t, v)
    if quote or t in ("string", "usr", "addr", "type", "ptr"): return s
    if t in ("int", "uint"): return v
    if t == "bool": return v
    return float(s) if math.isfinite(v) else s
def canon(d): return json.dumps({k: [type(v).__name__, repr(v) if isinstance(v, float) else v] for k, v in d.items()}, sort_keys=True)
def differ(c, key, qt, want, got, f, text):
    w, g = Counter(want), Counter(got)
    if w == g: return False
    c.viol(key, "%s: %d rows expected, %d found; missing %r; not expected %r\n%s" % (qt, len(want), len(got), list((w - g).elements())[:3], list((g - w).elements())[:3], text[:3000]), [f]); return True
def metadata_of(b, a):
    return {n: S(b.attrs[n].type, v) for n, v in a.meta}

def j_records(c, rng, b, f, qt, sel, al):
    opts = rng.sample(["pretty", "quote-all", "separate-nested"], rng.choice([0, 0, 1, 2, 3])); lay = rng.choice(["records", "object", "split", None, "object"])
    if lay: opts.insert(rng.randint(0, len(opts)), lay)
    fq = qt + " format json" + ("(" + ",".join(opts) + ")" if opts else ""); sep, qa = "separate-nested" in opts, "quote-all" in opts
    st, text = c.query([f], fq); c.ev += 1
    if st == "died": return
    key = lambda n: "path" if b.attrs[n].nested and not sep else al.get(n, n)
    want = []
    for r in b.recs:
        d, im = joined(b, r, shown(b, r, sel), key); d = dict(d)
        d.update({k: jval(t, v, qa) for k, (t, v) in im.items()})
        if d: want.append(canon(d))
    try:
        if lay == "split":
            recs = loads("[" + text + "]")
        else:
            o = loads(text); recs = o["records"] if lay == "object" else o
            if lay == "object":
                g = {}
                for r in b.globals:
                    d, im = joined(b, r, lambda n: True, lambda n: n); g.update(d); g.update({k: S(t, v) for k, (t, v) in im.items()})
                if o.get("globals") != g: c.viol("c09:json:globals", "%s: globals %r, expected %r" % (fq, o.get("globals"), g), [f]); return
                used = {n for r in b.recs for n, _ in entries(r)} | (set(g) if not sel else set())
                for n in used:
                    a = b.attrs[n]
                    if a.hidden or (a.nested and not sep) or (sel and n not in sel): continue
                    e = o["attributes"].get(n)
                    w = {"is_global": a.glob, "is_nested": a.nested, **metadata_of(b, a)}
                    if e is None or any(e.get(k) != v for k, v in w.items()): c.viol("c09:json:attributes", "%s: attribute %r is described as %r, expected %r" % (fq, n, e, w), [f]); return
                    c.stat("json_attributes")
        if not all(isinstance(x, dict) for x in recs): raise Bad("a record is not an object")
    except Bad as e: c.viol("c09:json:invalid", "%s: %s\n%s" % (fq, e, text[:4000]), [f]); return
    if not differ(c, "c09:json:records", fq, want, [canon(x) for x in recs], f, text): c.stat("json_records", len(want))
def j_split(c, rng, b, f, qt, sel, al, q_):
    if q_ and q_.group and any(k not in b.attrs or any(m == k for a in b.attrs.values() for m, _ in a.meta) for k in q_.group): return
    fq = qt + " format json-split"
    st, text = c.query([f], fq); c.ev += 1
    if st == "died": return
    ok0 = shown(b, None, sel)
    if q_ and (q_.group or q_.path):         # the columns are the key and the operators
        res = set(q_.group or []) | {q_.opname(o) for o in q_.ops}; ok1 = ok0; ok0 = lambda n: ok1(n) and (n in res or (q_.path and b.attrs[n].nested))
    ok = (lambda n: ok0(n) or (b.attrs[n].nested and "path" in sel)) if sel else ok0
    title = lambda n: "path" if b.attrs[n].nested else al.get(n, n)
    try: o = loads(text)
    except Bad as e: c.viol("c09:split:invalid", "%s: %s\n%s" % (fq, e, text[:4000]), [f]); return
    try:
        cols, meta, nodes, data = o["columns"], o["column_metadata"], o["nodes"], o["data"]
        assert len(cols) == len(meta) and len(set(cols)) == len(cols), "column titles and metadata"
        for r in data: assert len(r) == len(cols), "row length"
        for i, nd in enumerate(nodes): assert set(nd) <= {"label", "column", "parent"} and isinstance(nd["label"], str) and ("parent" not in nd or 0 <= nd["parent"] < i), "node %d" % i
        got = []
        for r in data:
            d = {}
            for t, m, v in zip(cols, meta, r):
                if v is None: continue
                if m["is_value"]: d[t] = v
                else:
                    ch = []
                    while v is not None:
                        assert nodes[v].get("column", t) == t, "a node of column %r is listed under column %r" % (t, nodes[v].get("column"))
                        ch.append(nodes[v]["label"]); v = nodes[v].get("parent")
                    d[t] = ch[::-1]
            got.append(canon(d))
    except (AssertionError, KeyError, TypeError, IndexError) as e: c.viol("c09:split:structure", "%s: %r\n%s" % (fq, e, text[:4000]), [f]); return
    want = []
    for r in b.recs:
        d = {}
        for p in reversed(r.refs):
            for n, v in p:
                if ok(n): d.setdefault(title(n), []).append(S(b.attrs[n].type, v))
        for n, v in r.imm:
            if ok(n):
                t = b.attrs[n].type; d[title(n)] = S(t, v) if t not in ("int", "uint", "double") else jval(t, v, False)
        want.append(canon(d))
    if differ(c, "c09:split:rows", fq, want, got, f, text): return
    for t, m in zip(cols, meta):
        for n in b.attrs:
            if title(n) == t and not b.attrs[n].nested and ok(n):
                a = b.attrs[n]; w = {k: v for k, v in metadata_of(b, a).items() if not b.attrs[k].hidden}
                if m["is_value"] != a.value or any(m.get(k) != v for k, v in w.items()): c.viol("c09:split:column_metadata", "%s: column %r has %r, expected is_value %r and %r" % (fq, t, m, a.value, w), [f]); return
    c.stat("split_rows", len(want)); c.stat("split_nodes", len(nodes))
def expand(c, rng, b, f, qt, sel, al):
    fq = qt + " format expand"
    st, text = c.query([f], fq); c.ev += 1
    if st == "died": return
    want = []
    for r in b.recs:
        ok = shown(b, r, sel, True); parts = []
        for p in r.refs:
            d = {}
            for n, v in p:
                if ok(n): d.setdefault(n, []).append(S(b.attrs[n].type, v))
            parts += [al.get(n, n) + "=" + "/".join(v) for n, v in d.items()]
        parts += [al.get(n, n) + "=" + S(b.attrs[n].type, v) for n, v in r.imm if ok(n)]
        if parts: want.append(parts)
    lines = text.split("\n")[:-1]
    if len(lines) != len(want): c.viol("c09:expand:lines", "%s: %d lines, expected %d\n%s" % (fq, len(lines), len(want), text[:3000]), [f]); return
    left = sorted(lines)
    for w in want:
        k = next((i for i, l in enumerate(left) if composed(l, w)), None)
        if k is None: c.viol("c09:expand:line", "%s: no line shows %r\n%s" % (fq, w, text[:3000]), [f]); return
        del left[k]
    c.stat("expand_lines", len(want))
def composed(line, parts):
    if len(line) != sum(map(len, parts)) + len(parts) - 1: return False
    def rec(rest, left):
        if not left: return rest == ""
        for k, p in enumerate(left):
            if rest.startswith(p) and (rest[len(p):len(p) + 1] == "," if len(left) > 1 else rest == p):
                if rec(rest[len(p) + 1:], left[:k] + left[k + 1:]): return True
        return False
    return rec(line, parts)
def clamp(s, w): return s if len(s) <= w else (s[:w] if w < 4 else s[:w // 2 - 1] + "~~" + s[len(s) - (w // 2 - 1):])
def header_order(head, names, width, start):
    """the order in which the columns appear"""
    todo, p, order = set(names), start, []
    while todo:
        m = [n for n in todo if head[p:p + width[n][1] + 1] == clamp(width[n][0], width[n][1]).ljust(width[n][1]) + " "]
        if not m: return None
        n = max(m, key=lambda n: width[n][1]); order.append(n); todo.remove(n); p += width[n][1] + 1
    return order if p == len(head) else None
def disp(b, al, n):
    if n in al: return al[n]
    m = dict(b.attrs[n].meta); return m.get("attribute.alias", n)
def table(c, rng, b, f, qt, sel, al):
    mx = rng.choice([None, None, 0, 10, 4, 200]); fq = qt + " format table" + ("(column-width=%d)" % mx if mx is not None else ""); lim = 60 if mx is None else mx
    st, text = c.query([f], fq); c.ev += 1
    if st == "died": return
    rows, names = [], []
    for r in b.recs:
        ok = shown(b, r, sel); d = {}
        for n in {n for n, _ in entries(r) if ok(n)}:
            for p in r.refs:
                s = "/".join(S(b.attrs[n].type, v) for m, v in p if m == n)
                if s: d[n] = s; break
            else: d[n] = next((S(b.attrs[n].type, v) for m, v in r.imm if m == n), "")
        rows.append(d)
        for n in d:
            if n not in names: names.append(n)
    if sel: names = list(sel)
    rows = [d for d in rows if any(d.get(n) for n in names)]
    width = {}
    for n in names:
        w = max([len(disp(b, al, n) if not sel else al.get(n, n))] + [len(d.get(n, "")) for d in rows]); width[n] = (disp(b, al, n) if not sel else al.get(n, n), max(min(w, lim) if lim > 0 else w, 4))
    lines = text.split("\n")[:-1]
    order = list(sel) if sel else header_order(lines[0], names, width, 0)
    if sel and lines[0] != "".join(clamp(*width[n]).ljust(width[n][1] + 1) for n in order): order = None
    if order is None: c.viol("c09:table:header", "%s: header %r does not show the columns %r" % (fq, lines[0], {n: width[n] for n in names}), [f]); return
    def cell(n, s):
        w = width[n][1]; s = clamp(s, w); return (s.rjust(w) if b.attrs[n].type in ("int", "uint", "double") else s.ljust(w)) + " "
    want = ["".join(cell(n, d.get(n, "")) for n in order).rstrip() for d in rows]
    if not differ(c, "c09:table:rows", fq, want, [l.rstrip() for l in lines[1:]], f, text): c.stat("table_rows", len(rows))
def tree(c, rng, b, f, qt, sel, al):
    keys = None; opt = ["column-width=0"]
    cand = [n for n in b.attrs if not re.search(r"[,=()\"\\ ]", n) and not b.attrs[n].hidden and not b.attrs[n].value]
    if cand and not sel and rng.random() < .3: keys = [rng.choice(cand)]; opt.append("path-attributes=" + keys[0])
    inpath = lambda n: n in keys if keys else b.attrs[n].nested
    exp_rows, nodes, names = [], set(), []
    for r in b.recs:
        path = [(n, v) for p in reversed(r.refs) for n, v in p if inpath(n)]
        path += [(n, v) for n, v in reversed(r.imm) if inpath(n)]
        if not path: continue
        for k in range(1, len(path) + 1): nodes.add(tuple((n, hv(v)) for n, v in path[:k]))
        d = {}
        for n, v in entries(r):
            if not inpath(n) and n not in d: d[n] = S(b.attrs[n].type, v)
        exp_rows.append((tuple((n, v) for n, v in path), d))
        for n in d:
            if n not in names and (qt == "select *" or not (b.attrs[n].hidden or b.attrs[n].glob)): names.append(n)
    lab = lambda path: tuple(S(b.attrs[n].type, v) for n, v in path)
    unh = lambda v: math.nan if v == "nan" else v[1]
    nodes = [tuple(S(b.attrs[n].type, unh(v)) for n, v in p) for p in nodes]
    multi = {n for r in b.recs for n in b.attrs if sum(1 for m, _ in entries(r) if m == n) > 1 and not inpath(n)}
    if sel:
        sel = [n for n in sel if n in names]
        if not sel: return
        fq = re.sub(r"(?i)select .*", "", qt) + " select " + ",".join(q(n) + ((" as " + q(al[n])) if n in al else "") for n in sel)
        names = sel
    else: fq = qt
    fq += " format tree(" + ",".join(opt) + ")"
    st, text = c.query([f], fq); c.ev += 1
    if st == "died": return
    lines = text.split("\n")[:-1]
    lw = max([4] + [2 * (len(p) - 1) + len(p[-1]) for p in nodes])
    width = {n: (disp(b, al, n), max([4, len(disp(b, al, n))] + [len(d.get(n, "")) for _, d in exp_rows])) for n in names}
    if not lines or lines[0][:lw + 1] != "Path".ljust(lw + 1): c.viol("c09:tree:header", "%s: label column is not %d wide: %r" % (fq, lw, lines[:1]), [f]); return
    order = header_order(lines[0], names, width, lw + 1)
    if order is None or (sel and order != sel): c.viol("c09:tree:header", "%s: header %r does not show the columns %r" % (fq, lines[0], width), [f]); return
    got_nodes, got_rows, stack = [], [], []
    for l in lines[1:]:
        m = re.match(r"( *) \|- ", l); lb = max(lw, len(m.group(1)) + 3) + 1 if m else lw + 1       # the mark may be wider than the label column
        label, rest = l[:lb].rstrip(), l[lb:]; ind = len(label) - len(label.lstrip(" "))
        p, cells = 0, []
        for n in order: w = width[n][1]; cells.append(rest[p:p + w].strip()); p += w + 1
        if label.lstrip() == "|-" and ind % 2 == 1:
            if len(stack) != (ind - 1) // 2 + 1: c.viol("c09:tree:indent", "%s: row %r under %r" % (fq, l, stack), [f]); return
        else:
            if ind % 2 or ind // 2 > len(stack): c.viol("c09:tree:indent", "%s: node %r under %r" % (fq, l, stack), [f]); return
            stack = stack[:ind // 2] + [label.strip()]; got_nodes.append(tuple(stack))
            if not any(cells): continue
        if any(cells): got_rows.append((tuple(stack), tuple(x if n not in multi else None for n, x in zip(order, cells))))
    strip = lambda p: tuple(x.strip() for x in p)
    if differ(c, "c09:tree:nodes", fq, [strip(p) for p in nodes], got_nodes, f, text): return
    want = [(strip(lab(p)), tuple(d.get(n, "").strip() if n not in multi else None for n in order)) for p, d in exp_rows if any(d.get(n, "").strip() for n in order)]
    if not differ(c, "c09:tree:rows", fq, want, got_rows, f, text): c.stat("tree_rows", len(want)); c.stat("tree_nodes", len(nodes))
def tree_order(c, rng):
    """ORDER BY in trees: siblings follow the least (ascending) or greatest (descending) value in their subtrees, the records of a node follow their values"""
    ds = Data(); k = rng.choice([1, 1, 2]); nest = [ds.add(Attr("n%d" % j, "string", NESTED)) for j in range(k)]
    t = rng.choice(["int", "double", "uint", "string"]); key = ds.add(Attr("key", t, rng.choice([ASVALUE, ASVALUE, 0]) if t in ("string", "int") else ASVALUE)); ds.add(Attr("id", "int", ASVALUE))
    paths = [((nest[0].name, "r0"),)]; lo, hi = rng.choice([(0, 3), (0, 100000), (-50, 50)])
    for j in range(rng.randint(2, 25)):
        p = rng.choice(paths + [()] * 2); p = p + ((rng.choice(nest).name, "r%d" % (j + 1)),)
        if len(p) < 7: paths.append(p)
    partial = rng.random() < .3; todo = [p for p in paths if not partial or rng.random() < .8] * rng.choice([1, 1, 2]); rng.shuffle(todo)
    for j, p in enumerate(todo):
        v = rng.randint(max(lo, 0) if t == "uint" else lo, hi); v = "k%03d" % (v % 1000) if t == "string" else v / 4.0 if t == "double" else v
        r = Rec([p], [("id", j)]); (r.imm.append(("key", v)) if key.value else r.refs.append((("key", v),))); ds.recs.append(r)
    f = c.file(render(ds, rng)); desc = rng.random() < .5; by = rng.choice(["", "", " asc"]) if not desc else " desc"
    fq = "select id,key order by key%s format tree(column-width=0)" % by
    st, text = c.query([f], fq); c.ev += 1
    if st == "died": return
    val, cast = {}, (lambda x: x) if t == "string" else float
    for r in ds.recs: val.setdefault(tuple(v for _, v in r.refs[0]), []).append(next(v for n, v in entries(r) if n == "key"))
    nodes = {tuple(v for _, v in p[:m]) for r in ds.recs for p in [r.refs[0]] for m in range(1, len(p) + 1)}
    stack, sib, recs = [], {}, {}
    for l in text.split("\n")[1:]:
        if not l.strip(): continue
        m = re.match(r"( *)(\|-|r\d+)(?: +(\d+) +(\S+))? *$", l)
        if not m: c.viol("c09:order:line", "%s: %r\n%s" % (fq, l, text[:3000]), [f]); return
        if m.group(2) != "|-":
            stack = stack[:len(m.group(1)) // 2] + [m.group(2)]; sib.setdefault(tuple(stack[:-1]), []).append(tuple(stack))
        if m.group(4) is not None: recs.setdefault(tuple(stack), []).append(cast(m.group(4)))
    if {x for s in sib.values() for x in s} != nodes: c.viol("c09:order:nodes", "%s: nodes differ\n%s" % (fq, text[:3000]), [f]); return
    def sub(p):     # None if a node of the subtree has no value
        ns = [n for n in nodes if n[:len(p)] == p]
        return None if any(n not in val for n in ns) else [v for n in ns for v in val[n]]
    for s in sib.values():
        ks = [(sub(p), p) for p in s]; ks = [((max if desc else min)(v), p) for v, p in ks if v]
        for (a, p), (b_, q2) in zip(ks, ks[1:]):
            c.stat("siblings_compared")
            if a < b_ if desc else a > b_: c.viol("c09:order:siblings", "%s: %s (%r) before %s (%r)\n%s" % (fq, "/".join(p), a, "/".join(q2), b_, text[:3000]), [f]); return
    for p, vs in recs.items():
        if vs != sorted(map(cast, val[p]), reverse=desc): c.viol("c09:order:records", "%s: the records of %s are shown as %r\n%s" % (fq, "/".join(p), vs, text[:3000]), [f]); return
    c.stat("ordered_trees"); c.fps.add("o|%d|%s|%s|%d" % (len(nodes), t, desc, partial))
def case(c, rng, i):
    if rng.random() < .25: tree_order(c, rng)
    mode = rng.choice(["wide", "wide", "small"]); ds = gen_data(rng, mode); text_ok = rng.random() < .5
    if text_ok: sanitize(ds, lambda s: re.sub(r"[\n\r]", "_", s).strip(" ") or "empty")
    if mode == "wide" and rng.random() < .4:      # special numbers everywhere
        for r in ds.recs:
            for k, (n, v) in enumerate(r.imm):
                if isinstance(v, float) and rng.random() < .3: r.imm[k] = (n, rng.choice([math.nan, math.inf, -math.inf, 0.0, -0.0]))
    for g in ds.globals:                         # globals with several values
        for k, p in enumerate(g.refs):
            if rng.random() < .35:
                t = ds.attrs[p[0][0]].type; m = rng.randint(1, 3)
                g.refs[k] = p + tuple((p[0][0], rng.choice(["x", "y", "zz", "a b"]) if t == "string" else rng.randint(0, 12)) for _ in range(m))
                if t == "string" and rng.random() < .5: g.refs[k] = ((p[0][0], rng.choice("abc")),) + g.refs[k][1:]
    f = c.file(render(ds, rng)); qt, q_ = "", None
    if rng.random() < .35 and ds.recs:
        q_ = c07.gen_query(rng, ds); q_.let, q_.select, q_.sort, q_.fmt = [], [], [], "cali"
        qt = re.sub(r"(?i)\s*format\s+cali\s*", " ", q_.text(rng, False))
    st, base = c.query([f], qt + " format cali"); c.ev += 1
    if st != "ok":
        if st != "died": c.viol("c09:query", "%s: %s" % (qt, base[:500]), [f])
        return
    try: b = parse(base)
    except CaliError as e: c.viol("c09:cali", "%s: %s\n%s" % (qt, e, base[:2000]), [f]); return
    have = {n for r in b.recs for n, _ in entries(r)}
    if any(n in ("path",) or n == "" for n in have): return
    sel, al = None, {}
    if not q_ and have and rng.random() < .5:
        sel = rng.sample(sorted(have), rng.randint(1, min(5, len(have)))); rng.shuffle(sel)
        for n in sel:
            if not b.attrs[n].nested and rng.random() < .3: al[n] = rng.choice(["My Alias", "al", "x\"y", "p,q", "\xe9", "T"]) + str(len(al))
        qt = "select " + ",".join(q(n, rng) + ((" as " + q(al[n], rng)) if n in al else "") for n in sel)
    elif not q_ and rng.random() < .1: qt = "select *"
    if q_: al = dict(q_.aliases)
    if len(set(al.values()) | have) < len(set(al.values())) + len(have): return
    c.fps.add("%s|%d|%s|%s|%d|%s" % (mode, len(b.recs), bool(q_), sel and len(sel), len(have), len(base)))
    j_records(c, rng, b, f, qt, sel, al)
    if not any(len(r.refs) == 0 and not r.imm for r in b.recs): j_split(c, rng, b, f, qt, sel, al, q_)
    vals = list(strs(b))
    if not any("\n" in v for v in vals) and not any("\n" in x for x in have):
        expand(c, rng, b, f, qt, sel, al)
        if not any(v == "" or v != v.strip(" ") for v in vals):
            if sel or not q_: table(c, rng, b, f, qt, sel, al)
            tree(c, rng, b, f, qt, sel, al)
    if len(c.samples) < 1: c.samples.append("%d records of %d attributes, query %r" % (len(b.recs), len(have), qt))
def main():
    ck = vlib.Check("C09"); n = ck.n(3000, 60000)
    ck.rule = "random record sets (wide: any strings, names, number magnitudes, NaN and infinities; small: many duplicates), plain, selected with aliases, and aggregated; the .cali result of each query is parsed independently and every other format must show the same records: JSON (all layouts and options, strict parser, duplicate keys rejected, globals and attribute metadata of the object layout), split JSON (nodes, columns, metadata), expand, tables (exact text), trees (nodes and rows by nesting); distinct = (mode, sizes, selection, attributes, output size)"
    qlib.run(ck, "c09", "case", n)
    ck.assumptions = ["text values are judged in their six-decimal form (Variant::to_string), which is what these formats print", "trees leave out records without a path, tables and JSON records without a visible value"]
    return ck.finish(min_evals=n, min_distinct=n // 10)
