"""Generated .cali data, an independent .cali parser, a reference evaluator for CalQL,
and workers that run queries against the sanitized library (harness/qserver.cpp)."""
import math, os, random, re, struct, subprocess, sys, time, traceback, multiprocessing, shutil, tempfile
import vlib
TYPEID = {"usr": 0, "int": 1, "uint": 2, "string": 3, "addr": 4, "double": 5, "bool": 6, "type": 7, "ptr": 11}
IDTYPE = {v: k for k, v in TYPEID.items()}
ASVALUE, NOMERGE, SKIP, HIDDEN, NESTED, GLOBAL, UNALIGNED, AGG = 1, 2, 64, 128, 256, 512, 1024, 2048
THREAD, PROCESS = 20, 12
NUM = ("int", "uint", "double")

class Attr:
    def __init__(self, name, type, props=0, meta=()):
        self.name, self.type, self.props, self.meta = name, type, props, tuple(meta)   # meta: root-to-leaf ((attr name, value), ...)
    value = property(lambda s: bool(s.props & ASVALUE)); nested = property(lambda s: bool(s.props & NESTED))
    hidden = property(lambda s: bool(s.props & HIDDEN)); glob = property(lambda s: bool(s.props & GLOBAL))
    def ident(self): return (self.name, self.type, self.props, tuple(sorted(self.meta)))
    def __repr__(self): return "%s:%s:%d%s" % (self.name, self.type, self.props, self.meta or "")

class Rec:
    """refs: paths, each a root-to-leaf tuple of (attr name, value); imm: list of (attr name, value)"""
    __slots__ = ("refs", "imm")
    def __init__(self, refs=(), imm=()): self.refs, self.imm = list(refs), list(imm)
    def __repr__(self): return "Rec(%r,%r)" % (self.refs, self.imm)

class Data:
    def __init__(self): self.attrs, self.recs, self.globals = {}, [], []      # globals: Rec list
    def add(self, a): self.attrs[a.name] = a; return a

def esc(s):
    return s.replace("\\", "\\\\").replace(",", "\\,").replace("=", "\\=").replace("\n", "\\n")
def fmtval(t, v):
    if t == "string": return esc(v)
    if t == "double":
        if math.isnan(v): return "nan"
        if math.isinf(v): return "inf" if v > 0 else "-inf"
        return repr(v)
    if t == "bool": return "true" if v else "false"
    if t == "addr": return "%x" % v
    return str(v)

def render(ds, rng, dup=0.0, lazy=None, base=None):
    """Writes ds as .cali text (latin-1 str) with ids, sharing and order of its own."""
    out, nodes, used, attrid = [], {}, set(range(12)), {"cali.attribute.name": 8, "cali.attribute.type": 9, "cali.attribute.prop": 10}
    nxt = [base if base is not None else rng.choice([12, 12, 20, 100, 1000, 40000])]; mode = rng.randrange(3)
    def newid():
        if mode == 0: nxt[0] += 1; i = nxt[0] - 1
        elif mode == 1: nxt[0] += rng.randint(1, 7); i = nxt[0]
        else:
            while True:
                i = rng.randint(12, 60 + 4 * len(used))
                if i not in used: break
        while i in used: i += 1
        nxt[0] = max(nxt[0], i + 1) if mode != 2 else nxt[0]
        used.add(i); return i
    def node(attr, text, parent):
        k = (attr, text, parent)
        if k in nodes and not (dup and rng.random() < dup): return nodes[k]
        i = newid(); nodes[k] = i
        f = ["id=%d" % i, "attr=%d" % attr, "data=" + text] + (["parent=%d" % parent] if parent is not None else [])
        if rng.random() < .1: rng.shuffle(f)
        out.append("__rec=node," + ",".join(f)); return i
    def attr(name):
        if name in attrid: return attrid[name]
        a = ds.attrs[name]; p = TYPEID[a.type]
        for mn, mv in a.meta: p = node(attr(mn), fmtval(ds.attrs[mn].type, mv), p)
        p = node(10, str(a.props), p)
        i = node(8, esc(name), p); attrid[name] = i; return i
    def path(pth):
        p = None
        for n, v in pth: p = node(attr(n), fmtval(ds.attrs[n].type, v), p)
        return p
    def rec(kind, r):
        s = "__rec=" + kind
        ids = [path(p) for p in r.refs if p]
        im = [(attr(n), fmtval(ds.attrs[n].type, v)) for n, v in r.imm]
        parts = []
        if ids: parts.append("ref=" + "=".join(map(str, ids)))
        if im:
            parts.append("attr=" + "=".join(str(a) for a, _ in im)); parts.append("data=" + "=".join(v for _, v in im))
        if parts or kind == "ctx": out.append(",".join([s] + parts))
    if lazy is None: lazy = rng.random() < .6
    if not lazy:
        order = list(ds.attrs); rng.shuffle(order)
        for n in order: attr(n)
        allp = [p for r in ds.recs for p in r.refs]; rng.shuffle(allp)
        for p in allp: path(p)
    for r in ds.recs: rec("ctx", r)
    for g in ds.globals: rec("globals", g)
    return "\n".join(out) + ("\n" if out else "")

class CaliError(Exception): pass
def split_rec(line):
    """-> list of (key, [values]) with escapes resolved"""
    res, cur, key, vals, i, n = [], [], None, [], 0, len(line)
    def endtok():
        nonlocal key
        t = "".join(cur); cur.clear()
        if key is None: key = t
        else: vals.append(t)
    while i < n:
        c = line[i]
        if c == "\\" and i + 1 < n: i += 1; cur.append("\n" if line[i] == "n" else line[i])
        elif c == "=": endtok()
        elif c == ",": endtok(); res.append((key, vals)); key, vals = None, []
        else: cur.append(c)
        i += 1
    endtok(); res.append((key, vals)); return res
def parseval(t, s):
    try:
        if t in ("int", "uint"): return int(s)
        if t == "double": return float(s)
        if t == "addr": return int(s, 16)
        if t == "bool": return {"true": True, "false": False}.get(s, s)
    except ValueError: return ("unreadable", s)
    return s
def parse(text):
    """Strict parser of a .cali stream; raises CaliError if a node is used before it is defined, or written twice."""
    ds = Data(); nodes, content = {}, {}
    for i in range(12): nodes[i] = (9 if i in (0, 1, 2, 3, 4, 5, 6, 7, 11) else 8, None, None)
    attrs = {8: Attr("cali.attribute.name", "string", 0), 9: Attr("cali.attribute.type", "type", 0), 10: Attr("cali.attribute.prop", "int", 0)}
    def mkattr(i):
        if i in attrs: return attrs[i]
        if i not in nodes: raise CaliError("attribute id %d used before it is written" % i)
        a, d, p = nodes[i]
        if a != 8: raise CaliError("node %d used as attribute is not one" % i)
        props, meta, t = 0, [], None
        while p is not None:
            if p < 12: t = IDTYPE.get(p); break
            pa, pd, pp = nodes[p]
            if pa == 10: props = int(pd)
            elif not mkattr(pa).hidden: meta.append((mkattr(pa).name, parseval(mkattr(pa).type, pd)))
            p = pp
        if t is None: raise CaliError("attribute %r has no type" % d)
        attrs[i] = Attr(d, t, props, reversed(meta)); ds.attrs.setdefault(d, attrs[i]); 
        if ds.attrs[d] is not attrs[i]: raise CaliError("attribute %r is written twice" % d)
        return attrs[i]
    def path(i):
        p = []
        while i is not None:
            if i not in nodes: raise CaliError("node id %d used before it is written" % i)
            a, d, q = nodes[i]; at = mkattr(a); p.append((at.name, parseval(at.type, d) if not at.hidden else d)); i = q
        return tuple(reversed(p))
    for line in text.split("\n"):
        if not line: continue
        f = split_rec(line); kind = f[0]
        d = dict(f[1:])
        if kind == ("__rec", ["node"]):
            i = int(d["id"][0]); a = int(d["attr"][0]); p = int(d["parent"][0]) if "parent" in d else None; v = d.get("data", [""])
            v = v[0] if v else ""
            if i in nodes: raise CaliError("node id %d is written twice" % i)
            if p is not None and p not in nodes: raise CaliError("parent %d of node %d used before it is written" % (p, i))
            if a not in nodes: raise CaliError("attribute %d of node %d used before it is written" % (a, i))
            nodes[i] = (a, v, p)
            if (a, v, p) in content and a != 8: ds.dups = getattr(ds, "dups", 0) + 1
            content[(a, v, p)] = i
            if a == 8: mkattr(i)
        elif kind in (("__rec", ["ctx"]), ("__rec", ["globals"])):
            r = Rec()
            for x in d.get("ref", []): r.refs.append(path(int(x)))
            at, da = d.get("attr", []), d.get("data", [])
            if len(at) != len(da): raise CaliError("attr/data size mismatch: " + line[:200])
            for x, y in zip(at, da): a = mkattr(int(x)); r.imm.append((a.name, parseval(a.type, y)))
            (ds.recs if kind[1] == ["ctx"] else ds.globals).append(r)
        elif kind[0] == "__rec" and kind[1] in (["ctx"], ["globals"]): pass
        else: raise CaliError("unknown record: " + line[:200])
    return ds

# ---------------------------------------------------------------- values
def veq(a, b, tol=0.0):
    if isinstance(a, float) or isinstance(b, float):
        try: a, b = float(a), float(b)
        except (TypeError, ValueError): return False
        if math.isnan(a) or math.isnan(b): return math.isnan(a) and math.isnan(b)
        if a == b: return True
        return tol > 0 and abs(a - b) <= tol * max(abs(a), abs(b), 1e-300) 
    return type(a) == type(b) and a == b
def to_string(t, v):
    """Variant::to_string"""
    if t == "double":
        if math.isnan(v): return "-nan" if math.copysign(1, v) < 0 else "nan"
        if math.isinf(v): return "inf" if v > 0 else "-inf"
        return "%f" % v
    if t == "bool": return "true" if v else "false"
    if t == "addr": return "%x" % v
    return str(v)

# ---------------------------------------------------------------- CalQL text
WORD = re.compile(r"[A-Za-z0-9_.#:+-]+\Z")
def q(w, rng=None):
    if WORD.match(w) and not (rng and rng.random() < .1): return w
    return '"' + w.replace("\\", "\\\\").replace('"', '\\"') + '"'
def kw(w, rng): return w if rng.random() < .6 else (w.lower() if rng.random() < .7 else w.capitalize())

class Query:
    def __init__(self): self.let, self.where, self.ops, self.select, self.group, self.path, self.sort, self.fmt, self.aliases, self.units = [], [], [], [], None, False, [], "cali", {}, {}
    # let: (target, op, [args], cond); cond/where: (neg, attr, op|None, valuetext, value); ops: (name, [args]); select: list of ("attr", n) / ("op", i) / ("*",) / ("path",)
    def cond(self, c, rng):
        neg, a, op, txt, _ = c
        return (kw("NOT ", rng) if neg else "") + q(a, rng) + ((rng.choice(["", " "]) + op + rng.choice(["", " "]) + q(txt, rng)) if op else "")
    def opname(self, o):
        n, a = o
        m = {"count": "count", "scale_count": "scount"}
        if n in m: return m[n]
        pre = {"sum": "sum#", "percent_total": "percent_total#", "inclusive_sum": "inclusive#", "min": "min#", "max": "max#", "avg": "avg#", "scale": "scale#", "inclusive_scale": "iscale#", "inclusive_percent_total": "ipercent_total#", "any": "any#", "inclusive_min": "imin#", "inclusive_max": "imax#", "variance": "variance#"}
        if n in pre: return pre[n] + a[0]
        return {"ratio": "ratio#", "inclusive_ratio": "iratio#"}[n] + a[0] + "/" + a[1]
    def text(self, rng, shuffle=True):
        cl = []
        if self.let:
            cl.append(kw("LET ", rng) + ",".join(q(t, rng) + rng.choice(["=", " = "]) + kw(op, rng).lower() + "(" + ",".join(q(x, rng) for x in args) + ")" + ((" " + kw("IF ", rng) + self.cond(c, rng)) if c else "") for t, op, args, c in self.let))
        def al(n): return ((" " + kw("AS ", rng) + q(self.aliases[n], rng)) if n in self.aliases else "") + ((" " + kw("UNIT ", rng) + q(self.units[n], rng)) if n in self.units else "")
        sel, rest = [], list(range(len(self.ops)))
        for s in self.select:
            if s[0] == "*": sel.append("*")
            elif s[0] == "path": sel.append("path")
            elif s[0] == "attr": sel.append(q(s[1], rng) + al(s[1]))
            else: rest.remove(s[1]); o = self.ops[s[1]]; sel.append(o[0] + "(" + ",".join(q(x, rng) for x in o[1]) + ")" + al(self.opname(o)))
        if sel: cl.append(kw("SELECT ", rng) + ",".join(sel))
        if rest: cl.append(kw("AGGREGATE ", rng) + ",".join(self.ops[i][0] + "(" + ",".join(q(x, rng) for x in self.ops[i][1]) + ")" for i in rest))
        if self.where: cl.append(kw("WHERE ", rng) + ",".join(self.cond(c, rng) for c in self.where))
        if self.group is not None or self.path:
            g = [q(x, rng) for x in (self.group or [])]
            if self.path: g.insert(rng.randint(0, len(g)), "path")
            cl.append(kw("GROUP ", rng) + kw("BY ", rng) + ",".join(g))
        cl.append(kw("FORMAT ", rng) + self.fmt)
        if self.sort: cl.append(kw("ORDER ", rng) + kw("BY ", rng) + ",".join(q(a, rng) + (" " + kw(d, rng) if d else "") for a, d in self.sort))
        if shuffle and rng.random() < .7: rng.shuffle(cl)
        return rng.choice([" ", "  ", " \x1d "]).join(cl)      # 0x1d is turned into a newline by qserver

# ---------------------------------------------------------------- reference evaluator
def entries(r):
    """(attr, value) pairs, leaf first, as the readers walk them"""
    for p in r.refs:
        for n, v in reversed(p): yield n, v
    for n, v in r.imm: yield n, v
def getval(r, name):
    for n, v in entries(r):
        if n == name: return v
    return None
def cmpkey(t, v): return v.encode("latin-1") if t == "string" else v
def match(ds, r, c):
    neg, a, op, txt, val = c
    have = [v for n, v in entries(r) if n == a]
    if op is None: ok = bool(have); return ok != neg
    t = ds.attrs[a].type if a in ds.attrs else None
    if op == "=": ok = any(veq(v, val) for v in have); return ok != neg
    k = cmpkey(t, val)
    f = {("<", 0): lambda v: v < k, (">", 0): lambda v: v > k, ("<", 1): lambda v: v >= k, (">", 1): lambda v: v <= k}[(op, int(neg))]
    return any(f(cmpkey(t, v)) for v in have)          # a negated comparison also needs the attribute
def truncated(b, s, t):
    v = math.fmod(float(b), s); r = float(b) - v
    return int(r) if t == "int" else (int(abs(r)) if t == "uint" else r)
def plainsum(xs):        # without the compensation of Python's sum()
    s = None
    for x in xs: s = x if s is None else s + x
    return s
def apply_let(ds, q_, r, types):
    for target, op, args, c in q_.let:
        if c and not match(ds, r, c): continue
        v = None; t = "double"
        if op == "scale":
            x = getval(r, args[0]); v = None if x is None else float(args[1]) * float(x)
        elif op == "ratio":
            x, y = getval(r, args[0]), getval(r, args[1])
            if x is not None and y is not None and float(y) != 0: v = (float(args[2]) if len(args) > 2 else 1.0) * (float(x) / float(y))
        elif op == "truncate":
            x = getval(r, args[0]); t = ds.attrs[args[0]].type if args[0] in ds.attrs else "double"
            if t not in ("int", "uint"): t = "double"
            if x is not None: v = truncated(x, float(args[1]) if len(args) > 1 else 1.0, t)
        elif op == "first":
            for a in args:
                x = getval(r, a)
                if x is not None: v, t = x, ds.attrs[a].type; break
        elif op == "sum":
            xs = [(a, getval(r, a)) for a in args]; xs = [(a, x) for a, x in xs if x is not None]
            if xs: v = plainsum(x for _, x in xs); t = ds.attrs[xs[0][0]].type
        elif op == "leaf":
            if args:
                x = getval(r, args[0]); t = ds.attrs[args[0]].type if args[0] in ds.attrs else "string"; v = x
            else:
                t = "string"
                for p in r.refs:
                    n = [x for a, x in p if ds.attrs[a].nested]
                    if n: v = n[-1]; break
        if v is not None:
            r.imm.append((target, v)); types.setdefault(target, t)
            if target not in ds.attrs: ds.add(Attr(target, types[target], SKIP | ASVALUE))
def preprocess(ds, q_):
    """-> records after LET and WHERE (ds gains the LET attributes)"""
    res, types = [], {}
    for r in ds.recs:
        r = Rec(r.refs, r.imm)
        apply_let(ds, q_, r, types)
        if all(match(ds, r, c) for c in q_.where): res.append(r)
    return res
def iskey(ds, name, keys):
    if name in keys: return True
    return any(m in keys for m, _ in ds.attrs[name].meta)
def groupkey(ds, q_, r):
    """(nested path, non-nested reference values by attribute, immediate key values)"""
    sel_all = q_.group is None and not q_.path; keys = set(q_.group or [])
    pth, non, imm = [], {}, []
    for p in (reversed(r.refs) if sel_all else r.refs):
        for n, v in p:
            a = ds.attrs[n]
            if sel_all or (q_.path and a.nested) or iskey(ds, n, keys):
                if a.nested: pth.append((n, v))
                elif sel_all: non.setdefault("", []).append((n, v))      # the default key keeps the context's order
                else: non.setdefault(n, []).append(v)
    for n, v in r.imm:
        if iskey(ds, n, keys): imm.append((n, v))
    return tuple(pth), tuple(sorted((n, tuple(v)) for n, v in non.items())), tuple(sorted(imm, key=lambda x: x[0]))
INCL = {"inclusive_sum", "inclusive_scale", "inclusive_percent_total", "inclusive_ratio", "inclusive_min", "inclusive_max"}
class Group:
    def __init__(self): self.recs, self.below = [], []
def derived(q_, o):
    pre = {"sum": "sum#", "inclusive_sum": "inclusive#", "min": "min#", "max": "max#", "inclusive_min": "imin#", "inclusive_max": "imax#", "any": "any#"}
    return pre[o[0]] + o[1][0] if o[0] in pre else None
def aggregate(ds, q_, recs):
    """-> {group key: {result attr: (type, value)}}; 'any' results hold the set of allowed values"""
    groups = {}
    for r in recs: groups.setdefault(groupkey(ds, q_, r), Group()).recs.append(r)
    typ = lambda a: ds.attrs[a].type if a in ds.attrs else None
    def vals(rs, a, o=None):
        d = derived(q_, o) if o else None
        return [v for r in rs for n, v in r.imm if n == a or (d and n == d)]
    def count(rs):
        n = 0
        for r in rs:
            c = [v for k, v in r.imm if k == "count"]; n += c[0] if c else 1
        return n
    # groups of the prefixes, for the inclusive operators
    for i, o in enumerate(q_.ops):
        if o[0] not in INCL: continue
        attrs = [a for a in (o[1][:2] if o[0] == "inclusive_ratio" else o[1][:1])]
        for k in [k for k in groups if groups[k].recs]:
            rs = [r for r in groups[k].recs if any(vals([r], a, o) for a in attrs)]
            if not rs: continue
            for l in range(len(k[0]) - 1, 0, -1): groups.setdefault((k[0][:l], k[1], k[2]), Group()).below.append((i, rs))
    tot = {}
    for i, o in enumerate(q_.ops):
        if o[0] in ("percent_total", "inclusive_percent_total"): tot[i] = sum(sum(vals(g.recs, o[1][0])) for g in groups.values())
    res = {}
    for k, g in groups.items():
        row = {}
        for i, o in enumerate(q_.ops):
            n, a = o; nm = q_.opname(o); rs = list(g.recs)
            if n in INCL: rs += [r for j, b in g.below if j == i for r in b]
            if n == "count":
                if g.recs: row[nm] = ("uint", count(g.recs))
            elif n == "scale_count":
                if g.recs: row[nm] = ("double", float(a[0]) * len(g.recs))
            elif n in ("ratio", "inclusive_ratio"):
                x, y = vals(rs, a[0]), vals(rs, a[1])
                if x and y:
                    d = float(sum(y)); nu = (float(a[2]) if len(a) > 2 else 1.0) * float(sum(x))
                    row[nm] = ("double", nu / d if d else (math.nan if nu == 0 or nu != nu else math.copysign(math.inf, nu) * math.copysign(1, d)))
            else:
                t = typ(a[0]); v = vals(rs, a[0], o)
                if not v: continue
                if n in ("sum", "inclusive_sum"): row[nm] = (t, sum(v))
                elif n in ("scale", "inclusive_scale"): row[nm] = ("double", float(a[1]) * float(sum(v)))
                elif n in ("min", "inclusive_min"): row[nm] = (t, min(v))
                elif n in ("max", "inclusive_max"): row[nm] = (t, max(v))
                elif n == "avg":
                    s, c = sum(v), len(v)
                    row[nm] = (t, s / c if t == "double" else int(math.copysign(abs(s) // c, s)) if s else 0)
                elif n in ("percent_total", "inclusive_percent_total"):
                    if tot[i] > 0: row[nm] = ("double", 100.0 * float(sum(v)) / float(tot[i]))
                elif n == "any": row[nm] = ("any", set(v))
                elif n == "variance":
                    f = [float(x) for x in v]; m = sum(f) / len(f); row[nm] = ("var", (sum(x * x for x in f) / len(f) - m * m, sum(x * x for x in f) / len(f)))
        res[k] = row
    return res
def opmatch(want, got, tol=1e-12):
    t, v = want
    if t == "any": return any(veq(x, got) for x in v)
    if t == "var": return isinstance(got, (float, int)) and abs(got - v[0]) <= 1e-9 * max(abs(v[1]), 1e-300) + 1e-300
    if t == "double": return isinstance(got, (float, int)) and veq(float(v), float(got), tol)
    return veq(v, got)

# ---------------------------------------------------------------- canonical record forms
def visible(ds, r, hidden=False):
    """order-insensitive form: nested path, other reference values per attribute, immediates"""
    pth, non, imm = [], {}, []
    for p in r.refs:
        for n, v in p:
            a = ds.attrs[n]
            if a.hidden and not hidden: continue
            if a.nested: pth.append((n, v))
            else: non.setdefault(n, []).append(v)
    for n, v in r.imm:
        if not hidden and ds.attrs[n].hidden: continue
        imm.append((n, hv(v)))
    return tuple(pth), tuple(sorted((n, tuple(v)) for n, v in non.items())), tuple(sorted(imm, key=repr))
def hv(v):
    if isinstance(v, float): return "nan" if math.isnan(v) else ("f", v)
    return (type(v).__name__, v)
def exact(ds, r):
    return tuple(sorted(tuple(p) for p in r.refs)), tuple(sorted(((n, hv(v)) for n, v in r.imm), key=repr))

# ---------------------------------------------------------------- generators
WORDS = ["main", "foo", "bar", "baz", "solve", "init loop", "a", "b", "x/y", "f(int, char*)", "std::vector<int>::push_back", "tab", "\"quoted\"", "back\\slash", "eq=ual", "com,ma", "new\nline", "\xc3\xa9t\xc3\xa9", "trailing\\", "", " lead", "trail ", "\xff\x80", "'", "{}", "[x]", "%s", "null", "0", "-1", "1e5", "very_long_" + "x" * 70]
PLAIN = ["main", "foo", "bar", "baz", "solve", "init", "a", "b", "c", "d", "work", "comm"]
ANAMES = ["function", "annotation", "loop", "phase", "region", "kernel", "iteration#main loop", "time.duration", "x", "y", "a.b", "rank", "mpi.rank", "bytes", "alloc#size", "some name", "q\"uote", "com,ma attr", "e=q", "\xc3\xa4ttr", "UPPER", "Not", "tab.le", "a/b"]
def gen_value(rng, t, mode):
    if t == "int": return rng.randint(-20, 20) if mode != "wide" else rng.choice([rng.randint(-2**63, 2**63 - 1), rng.randint(-5, 5), -2**63, 2**63 - 1, rng.randint(-2**31 - 3, -2**31 + 3), rng.randint(2**31 - 3, 2**31 + 3)])
    if t == "uint": return rng.randint(0, 30) if mode != "wide" else rng.choice([rng.randint(0, 2**64 - 1), 2**64 - 1, 2**63, rng.randint(0, 5), 2**32])
    if t == "addr": return rng.choice([0, 1, 0xdeadbeef, 2**64 - 1, rng.randint(0, 2**64 - 1)])
    if t == "bool": return rng.random() < .5
    if t == "double":
        if mode != "wide": return rng.randint(-400, 400) / 8.0
        return rng.choice([rng.uniform(-1, 1), rng.uniform(-1e9, 1e9), struct.unpack("<d", struct.pack("<Q", rng.getrandbits(64)))[0], 0.1, 1e-9, 1e300, 5e-324, 123456789.123456789, float(rng.randint(0, 2**60)), -0.0, 1 / 3, 1e22, math.inf, -math.inf])
    return rng.choice(WORDS) if mode == "wide" else rng.choice(PLAIN)
def gen_attrs(rng, ds, mode, nval=None, extra_global=True):
    names = rng.sample(ANAMES if mode == "wide" else [n for n in ANAMES if WORD.match(n) and n != "Not"], 15 if mode == "wide" else 12)
    ds.add(Attr("attribute.unit", "string", SKIP)); ds.add(Attr("class.extra", rng.choice(["int", "bool", "string"]), SKIP | ASVALUE if rng.random() < .5 else SKIP))
    def meta():
        m = []
        if rng.random() < .25: m.append(("attribute.unit", rng.choice(["sec", "Bytes", "#"])))
        if rng.random() < .25: m.append(("class.extra", {"int": rng.randint(0, 3), "bool": True, "string": "cls"}[ds.attrs["class.extra"].type]))
        return m
    S = lambda: rng.choice([THREAD, PROCESS, THREAD])
    nest = [ds.add(Attr(names.pop(), "string", NESTED | S(), meta())) for _ in range(rng.randint(1, 3))]
    non = [ds.add(Attr(names.pop(), rng.choice(["string", "string", "int", "uint", "bool", "double", "addr"]), S() | rng.choice([0, 0, UNALIGNED, SKIP]), meta())) for _ in range(rng.randint(0, 3))]
    val = [ds.add(Attr(names.pop(), rng.choice(["int", "uint", "double", "double"] if mode != "wide" or i < 2 else ["int", "uint", "double", "string", "bool", "addr", "double"]), ASVALUE | S() | rng.choice([0, AGG, SKIP | AGG]), meta())) for i in range(nval or rng.randint(2, 4))]
    if rng.random() < .3: val.append(ds.add(Attr("hid", "uint", ASVALUE | HIDDEN | THREAD)))
    if mode != "wide" and rng.random() < .25: val.append(ds.add(Attr("count", "uint", ASVALUE | AGG | SKIP)))
    return nest, non, val
def gen_data(rng, mode="small", nrec=None, globs=True):
    ds = Data(); nest, non, val = gen_attrs(rng, ds, mode)
    W = WORDS if mode == "wide" else PLAIN[:rng.randint(2, 6)]
    paths = [()]
    for _ in range(rng.randint(2, 14)):
        p = rng.choice(paths)
        if len(p) < (12 if rng.random() < .1 else 5): paths.append(p + ((rng.choice(nest).name, rng.choice(W)),))
    pool = {a.name: [gen_value(rng, a.type, mode) for _ in range(rng.randint(1, 4))] for a in non}
    vpool = {a.name: [gen_value(rng, a.type, mode) if a.name != "count" else rng.randint(1, 5) for _ in range(rng.randint(1, 6))] for a in val}
    for _ in range(nrec if nrec is not None else rng.choice([0, 1, 3, rng.randint(2, 40), rng.randint(2, 40), rng.randint(20, 120)])):
        p = list(rng.choice(paths)); other = []
        for a in non:
            k = rng.choice([0, 0, 1, 1, 2])
            for _ in range(k):
                x = (a.name, rng.choice(pool[a.name]))
                if a.props & UNALIGNED: other.append(x)
                else: p.insert(rng.randint(0, len(p)), x)
        imm = []
        for a in val:
            if rng.random() < .7: imm.append((a.name, rng.choice(vpool[a.name]) if rng.random() < .6 else (gen_value(rng, a.type, mode) if a.name != "count" else rng.randint(1, 5))))
        rng.shuffle(imm)
        ds.recs.append(Rec([tuple(x) for x in (p, other) if x], imm))
    if rng.random() < .8: ds.recs = [r for r in ds.recs if r.refs or r.imm]
    if globs and rng.random() < .7:
        g = Rec()
        for i in range(rng.randint(1, 5)):
            if rng.random() < .6:
                a = ds.add(Attr("g.%d" % i, rng.choice(["string", "int", "double", "uint"]), GLOBAL | ASVALUE | SKIP)); g.imm.append((a.name, gen_value(rng, a.type, mode)))
            else:
                a = ds.add(Attr("g.%d" % i, rng.choice(["string", "string", "int"]), GLOBAL | SKIP))
                g.refs.append(((a.name, gen_value(rng, a.type, mode)),))
        ds.globals.append(g)
    ds.nest, ds.non, ds.val = nest, non, val
    return ds

# ---------------------------------------------------------------- running
class Died(Exception):
    def __init__(self, rc, err, hang=False): self.rc, self.err, self.hang = rc, err, hang
class Server:
    def __init__(self, exe, tmp):
        self.exe, self.tmp, self.p, self.err = exe, tmp, None, ""
    def start(self):
        env = vlib.clean_env({"CALI_LOG_VERBOSITY": "0"})
        self.errf = open(os.path.join(self.tmp, "err.%d" % os.getpid()), "w+b")
        self.p = subprocess.Popen([self.exe], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=self.errf, env=env, cwd=self.tmp, bufsize=0)
        self.buf = b""
    def _read(self, n, deadline):
        import select
        while len(self.buf) < n:
            t = deadline - time.time()
            r, _, _ = select.select([self.p.stdout], [], [], max(t, 0))
            if not r: raise TimeoutError
            b = os.read(self.p.stdout.fileno(), 1 << 16)
            if not b: raise EOFError
            self.buf += b
        r, self.buf = self.buf[:n], self.buf[n:]; return r
    def _line(self, deadline):
        s = b""
        while not s.endswith(b"\n"): s += self._read(1, deadline) if b"\n" not in self.buf else self._read(self.buf.index(b"\n") + 1, deadline)
        return s
    def ask(self, cmd, files, query, timeout=60):
        if self.p is None: self.start()
        msg = "\x1f".join([cmd, "\x1e".join(files), query.replace("\n", "\x1d")]) + "\n"
        try:
            self.p.stdin.write(msg.encode("latin-1")); dl = time.time() + timeout
            h = self._line(dl).split(); return h[1].decode(), self._read(int(h[2]), dl).decode("latin-1")
        except (EOFError, BrokenPipeError, TimeoutError) as e:
            hang = isinstance(e, TimeoutError)
            if hang: self.p.kill()
            self.p.wait(); self.errf.seek(0); err = self.errf.read().decode("latin-1")[-20000:]; self.errf.close(); rc = self.p.returncode; self.p = None
            raise Died(rc, err, hang)
    def stop(self):
        if self.p:
            try: self.p.stdin.close(); self.p.wait(30)
            except Exception: self.p.kill()
            self.errf.seek(0); self.err = self.errf.read().decode("latin-1"); self.errf.close(); self.p = None

class Ctx:
    """What a worker hands back."""
    def __init__(self, tmp, exe): self.tmp, self.viols, self.stats, self.fps, self.samples, self.ev, self.srv, self.nf, self.errs = tmp, {}, {}, set(), [], 0, Server(exe, tmp), 0, []
    def viol(self, key, text, files=()):
        if key in self.viols: self.viols[key][1] += 1; return
        rep = "".join("--- %s\n%s\n" % (os.path.basename(f), open(f, encoding="latin-1", newline="").read()[:20000]) for f in files)
        self.viols[key] = [text, 1, rep]
    def stat(self, k, n=1): self.stats[k] = self.stats.get(k, 0) + n
    def file(self, text):
        self.nf += 1; p = os.path.join(self.tmp, "f%d.%d.cali" % (os.getpid(), self.nf % 64))
        with open(p, "w", encoding="latin-1", newline="") as f: f.write(text)
        return p
    def query(self, files, qtext, cmd="query", key="crash"):
        try: return self.srv.ask(cmd, files, qtext)
        except Died as d:
            if d.hang: self.viol("hang:" + cmd, "no answer within the time limit: " + qtext, files)
            else: self.viol(vlib.crash_key(d.err, d.rc), "rc=%s query=%s\n%s" % (d.rc, qtext, d.err[-5000:]), files)
            return "died", ""
def _work(args):
    modname, fn, exe, tmp, seed, lo, hi, budget = args
    c = Ctx(tmp, exe); t0 = time.time()
    mod = __import__(modname)
    try:
        for i in range(lo, hi):
            if time.time() - t0 > budget: c.stat("budget_stops"); break
            getattr(mod, fn)(c, random.Random("%s-%s-%d-%d" % (modname, fn, seed, i)), i)
    except Exception:
        c.errs.append("case %d of seed %d: %s" % (i, seed, traceback.format_exc()[-3000:]))
    c.srv.stop()
    for rep in re.split(r"(?=={18}\nWARNING)", c.srv.err):
        if "WARNING: ThreadSanitizer" in rep: c.viol("tsan:" + vlib.tsan_keys(rep)[0], rep[:6000])
    c.srv = None
    return c
def run(ck, modname, fn, n, budget=300, chunk=None, flavor="asan"):
    """Runs modname.fn(ctx, rng, index) for n indices over all cores."""
    exe = vlib.compile_harness("qserver.cpp", flavor, internal=True)
    chunk = chunk or max(1, n // 64)
    jobs = [(modname, fn, exe, ck.tmp, ck.seed, lo, min(n, lo + chunk), budget) for lo in range(0, n, chunk)]
    with multiprocessing.get_context("fork").Pool(vlib.NCPU) as pool:
        for c in pool.imap_unordered(_work, jobs):
            for k, (t, cnt, rep) in c.viols.items():
                ck.violation(k, t, rep)
            for k, v in c.stats.items(): ck.stat(k, v)
            ck.fps |= c.fps; ck.evals += c.ev
            for s in c.samples: ck.sample(s)
            for e in c.errs: ck.error(e)
def dbg(modname, fn, seed, lo, hi):
    import shutil
    ck = type("K", (), {})(); exe = vlib.compile_harness("qserver.cpp", "asan", internal=True)
    tmp = tempfile.mkdtemp(prefix="dbg", dir="/tmp")
    c = _work((modname, fn, exe, tmp, seed, lo, hi, 1e9))
    shutil.rmtree(tmp, ignore_errors=True); return c
