"""The command-line tools: options, input and output plumbing of cali-query and the numbers of cali-stat."""
import os, random, re
import vlib, qlib, c07, c08
from qlib import *
CQ = CS = None
OPTS = {"select": "s", "sort-by": "S", "format": "f", "query": "q", "query-file": "Q", "caliper-config": "P", "output": "o", "aggregate": "", "aggregate-key": "", "print-attributes": "", "title": ""}
def opt(rng, name, val):
    """one of the spellings of an option with an argument"""
    s = OPTS[name]; k = rng.randrange(5)
    if s and k == 0: return ["-" + s, val]
    if s and k == 1 and val: return ["-%s=%s" % (s, val)]
    if s and k == 2: return ["-v" + s, val]
    return ["--%s=%s" % (name, val)] if k == 3 and val else ["--" + name, val]
def flag(rng, fmt):
    s = {"table": "t", "tree": "T", "json": "j", "expand": "e"}[fmt]
    return rng.choice([["-" + s], ["-v" + s], ["--" + fmt], ["-%sv" % s]])
def enc(a): return [x.encode("latin-1") if isinstance(x, str) else x for x in a]
ENV = [{}, {}, {}, {"CALI_SERVICES_ENABLE": "event,trace,report", "CALI_LOG_VERBOSITY": "2"}, {"CALI_CONFIG_PROFILE": "runtime-report"}]
def arrange(rng, groups, files):
    """options in any order, files in between, maybe -- before the last files"""
    groups = list(groups); rng.shuffle(groups); files = list(files)
    dd = rng.random() < .2; tail = files[len(files) // 2:] if dd else []; head = files[:len(files) // 2] if dd else files
    pos = sorted(rng.randint(0, len(groups)) for _ in head); out = []
    for i in range(len(groups) + 1):
        out += [f for f, p in zip(head, pos) if p == i]
        if i < len(groups): out += groups[i]
    return out + (["--"] + tail if dd else [])
def call(c, rng, exe, groups, files, stdin=None, tag="run", shownfiles=None):
    """runs the tool; -> (rc, stdout or output file, stderr) or None when it died"""
    groups = list(groups); of = None; argfiles = files
    if rng.random() < .3:
        of = os.path.join(c.tmp, "o%d.%d" % (os.getpid(), rng.getrandbits(30)))
        if exe is CQ: groups.append(opt(rng, "output", of))
        else: groups.append(rng.choice([["-o", of], ["-o=" + of], ["--output=" + of], ["--output", of]]))
    av = arrange(rng, groups, argfiles)
    if shownfiles is not None: files = shownfiles
    r = vlib.run([exe] + enc(av), timeout=120, env=rng.choice(ENV) if exe is CQ else {}, cwd=c.tmp, stdin=stdin.encode("latin-1") if stdin is not None else None, text=False)
    c.ev += 1; c.stat("tool_runs"); err = r.err; out = r.out.decode("latin-1")
    shown = os.path.basename(exe) + " " + " ".join(av)
    if r.timed_out: c.viol("c32:hang:" + tag, shown, files); return None
    if r.rc < 0 or r.rc in (86, 87) or "Sanitizer" in err: c.viol(vlib.crash_key(err, r.rc), shown + "\n" + err[-4000:], files); return None
    if of:
        c.stat("output_files")
        if out: c.viol("c32:stdout-with-output-file", "%s: %d bytes on stdout: %s" % (shown, len(out), out[:300]), files)
        if os.path.exists(of):
            out = open(of, encoding="latin-1", newline="").read(); os.unlink(of)
        elif r.rc == 0: out = ""; c.stat("no_output_file")
    return r.rc, out, err, shown
def differ(c, key, shown, got, want, files, how):
    if got == want: return False
    g, w = got.split("\n"), want.split("\n"); k = next((j for j, (a, b) in enumerate(zip(g, w)) if a != b), min(len(g), len(w)))
    c.viol(key, "%s: %d lines, %s gives %d; line %d: %r, expected %r" % (shown, len(g), how, len(w), k + 1, g[k:k + 2], w[k:k + 2]), files); return True
def data(c, rng, nf):
    ds = gen_data(rng, "small"); files = []
    for _ in range(nf):
        d = Data(); d.attrs = ds.attrs; d.recs = [r for r in ds.recs if nf == 1 or rng.random() < .6]; d.globals = ds.globals
        files.append(c.file(render(d, rng)))
    return ds, files
def clause(rng, ds, names):
    while True:
        neg, a, op, txt, v = c08.gen_cond(rng, ds, names)
        if "," in txt or (a in ds.attrs and ds.attrs[a].type == "string" and not WORD.match(txt) and op): continue
        return neg, a, op, txt, v
def case(c, rng, i):
    k = rng.random()
    if k < .55: options(c, rng)
    elif k < .75: formatted(c, rng)
    elif k < .85: listing(c, rng)
    elif k < .95: stat(c, rng)
    else: errors(c, rng)
def options(c, rng):
    ds, files = data(c, rng, rng.choice([1, 1, 1, 2, 3])); q_ = Query(); groups = []
    names = [a.name for a in ds.nest + ds.non + ds.val if not a.hidden] + ["no.such.attr"]
    if rng.random() < .5:
        q_.where = [clause(rng, ds, names) for _ in range(rng.choice([1, 1, 2, 3]))]
        groups.append(("select", ",".join(("-" if n else "") + a + ((op + t) if op else "") for n, a, op, t, _ in q_.where)))
    aggr = rng.random() < .5; none = False
    if aggr:
        q2 = c07.gen_query(rng, ds); q_.ops, q_.group, q_.path = q2.ops, q2.group, q2.path
        groups.append(("aggregate", rng.choice([",", ", "]).join(o + (rng.choice(["", "()"]) if not a else "(" + rng.choice([",", ", "]).join(a) + ")") for o, a in q_.ops)))
        if rng.random() < .15: none = True; q_.group, q_.path = ["no.such.attr"], False; groups.append(("aggregate-key", "none"))
        elif q_.group is not None or q_.path:
            g = list(q_.group or []) + ([rng.choice(["path", "prop:nested"])] if q_.path else []); rng.shuffle(g)
            if g == ["no.such.attr"] or not g: return
            groups.append(("aggregate-key", ",".join(g)))
    fmt = rng.choice(["cali", "json", "expand", "table", "tree", "json", "table"]); q_.fmt = fmt
    if fmt != "cali" and rng.random() < .6:
        cand = names + [q_.opname(o) for o in q_.ops]
        sel = rng.sample(cand, min(len(cand), rng.randint(1, 5)))
        groups.append(("print-attributes", ",".join(sel)))
    else: sel = None
    if fmt in ("table", "tree") and rng.random() < .6:
        cand = names + [q_.opname(o) for o in q_.ops]
        if not aggr and fmt == "table": cand = [n for n in cand if n in (sel or cand)]
        if cand:
            srt = rng.sample(cand, min(len(cand), rng.randint(1, 2))); q_.sort = [(a, None) for a in srt]; groups.append(("sort-by", ",".join(srt)))
    # the query the options stand for
    w = Query(); w.where, w.group, w.path, w.fmt, w.sort = q_.where, q_.group, q_.path, q_.fmt, q_.sort
    ops = ",".join(o + "(" + ",".join(qlib.q(x) for x in a) + ")" for o, a in q_.ops)
    plain = random.Random(1); core = w.text(plain, False).replace("\x1d", " ")
    qt = ("AGGREGATE " + ops + " " if ops else "") + ("SELECT " + ",".join(qlib.q(x) for x in sel) + " " if sel else "") + core
    st, want = c.query(files, qt)
    if st == "died": return
    if st != "ok": c.viol("c32:refused", "%s: %s %s" % (qt, st, want[:300]), files); return
    how = rng.random(); args = []
    if how < .2: args = [opt(rng, "query", qt)]; mode = "query"
    elif how < .35:
        qf = os.path.join(c.tmp, "q%d" % os.getpid()); open(qf, "w", encoding="latin-1").write(qt.replace(" ", rng.choice([" ", "\n", "\t", "  "]))  if '"' not in qt else qt)
        args = [opt(rng, "query-file", qf)]; mode = "query-file"
    elif how < .5 and len(groups) > 1:             # part in a query, the rest in options
        mode = "mixed"; g2 = [g for g in groups if g[0] in ("select", "sort-by")]
        p = Query(); p.group, p.path, p.fmt = q_.group, q_.path, rng.choice([fmt, "cali", "expand"]) ; p.sort = [] if any(g[0] == "sort-by" for g in g2) else q_.sort
        pt = ("AGGREGATE " + ops + " " if ops else "") + ("SELECT " + ",".join(qlib.q(x) for x in sel) + " " if sel else "") + p.text(plain, False).replace("\x1d", " ")
        args = [opt(rng, "query", pt)] + [opt(rng, n, v) for n, v in g2]
        if fmt != "cali": args.append(flag(rng, fmt))
        elif p.fmt != "cali": return
    else:
        mode = "options"; args = [opt(rng, n, v) for n, v in groups]
        if fmt != "cali": args.append(flag(rng, fmt))
    prof = os.path.join(c.tmp, "prof%d.%d.txt" % (os.getpid(), rng.getrandbits(30))) if rng.random() < .15 else None
    if prof: args.append(opt(rng, "caliper-config", "runtime-report(output=%s)" % prof)); c.stat("profiled_runs")
    stdin = None; fl = files
    if len(files) == 1 and rng.random() < .25: stdin = open(files[0], encoding="latin-1", newline="").read(); fl = []; c.stat("stdin_runs")
    r = call(c, rng, CQ, args, fl, stdin, mode)
    if not r: return
    if r[0]: c.viol("c32:exit-code", "%s: %s %s" % (r[3], r[0], r[2][-500:]), files); return
    a, b = r[1], want
    if prof:
        t = open(prof).read() if os.path.exists(prof) else ""
        if any(x not in t for x in ("Initialization", "Processing", "Writing")): c.viol("c32:profile-missing", "%s: %r" % (r[3], t[:600]), files)
        elif os.path.exists(prof): os.unlink(prof)
    if differ(c, "c32:%s:%s" % (mode, "+".join(sorted(n for n, _ in groups)) or fmt), r[3], a, b, files, "the query " + qt): return
    c.stat(mode + "_compared"); c.stat("lines_compared", b.count("\n")); c.fps.add("o|%s|%s|%s|%d|%d" % (mode, fmt, sorted(n for n, _ in groups), len(files), len(b) // 64))
    if mode == "options" and len(groups) > 2 and not c.samples: c.samples.append(r[3][:300] + "  ==  " + qt[:300])
def formatted(c, rng):
    """-f: one line for each record, from the format string"""
    ds, files = data(c, rng, 1); q_ = Query()
    names = [a.name for a in ds.nest + ds.non + ds.val if not a.hidden] + ["no.such.attr"]
    if rng.random() < .5: q_.where = [clause(rng, ds, names)]
    fields = []; fs = ""
    for _ in range(rng.randint(1, 5)):
        pre = rng.choice(["", " ", "x=", ": ", "(", "100 ", "\t"]); n = rng.choice(names); w = rng.choice([0, 0, 1, 5, 12, 20, 79, 80, 81, 100])
        fields.append((pre, n, w)); fs += pre + "%" + (rng.choice(["[%d]%s" % (w, n), "%s[%d]" % (n, w)]) if w or rng.random() < .2 else n) + "%"
    if rng.random() < .4: t = rng.choice(["|", " end", ")"]); fields.append((t, None, 0)); fs += t
    title = rng.choice([None, None, "My title", "a,b c", "Name   Time"])
    args = [opt(rng, "format", fs)] + ([opt(rng, "title", title)] if title else [])
    if fs.startswith("-"): return
    if q_.where: args.append(opt(rng, "select", ",".join(("-" if n else "") + a + ((op + t) if op else "") for n, a, op, t, _ in q_.where)))
    want = [title] if title else []
    for r in preprocess(ds, q_):
        line = ""
        for pre, n, w in fields:
            s = ""
            for p in r.refs:
                if not s: s = "/".join(to_string(ds.attrs[x].type, v) for x, v in p if x == n)
            for x, v in r.imm:
                if not s and x == n: s = to_string(ds.attrs[x].type, v)
            line += pre + s + " " * min(80, max(0, w - len(s.encode("latin-1"))))
        want.append(line)
    r = call(c, rng, CQ, args, files, None, "format")
    if not r: return
    if r[0]: c.viol("c32:exit-code", "%s: %s %s" % (r[3], r[0], r[2][-500:]), files); return
    if differ(c, "c32:format", r[3], r[1], "".join(l + "\n" for l in want), files, "the format string"): return
    c.stat("formatted_records", len(want)); c.fps.add("f|%d|%s|%d" % (len(fields), bool(title), len(want)))
def listing(c, rng):
    ds, files = data(c, rng, rng.choice([1, 1, 2])); fmt = rng.choice(["json", "expand", "table"])
    if rng.random() < .5:
        st, want = c.query(files, "format " + fmt, "globals")
        if st != "ok": return
        r = call(c, rng, CQ, [rng.choice([["-G"], ["--list-globals"], ["-vG"]]), flag(rng, fmt)], files, None, "globals")
        if not r: return
        if differ(c, "c32:list-globals", r[3], r[1], want, files, "the library"): return
        if fmt == "expand" and len(files) == 1:
            for g in ds.globals:
                for n, v in [e for p in g.refs for e in p] + g.imm:
                    if not n.startswith("g."): continue
                    vs = [to_string(ds.attrs[n].type, v)] if (n, v) in g.imm else [to_string(ds.attrs[n].type, x) for p in g.refs for m, x in p if m == n]
                    if n + "=" + "/".join(vs) not in r[1]: c.viol("c32:global-missing", "%s: no %s=%s in %s" % (r[3], n, vs, r[1][:500]), files); return
        c.stat("globals_listed"); c.fps.add("g|%s|%d" % (fmt, len(r[1]) // 16)); return
    texts = [open(f, encoding="latin-1", newline="").read() for f in files]
    rows = []
    r = call(c, rng, CQ, [["--list-attributes"], flag(rng, "json"), opt(rng, "print-attributes", "cali.attribute.name,cali.attribute.type,cali.attribute.prop")], files, None, "attributes")
    if not r: return
    import json
    try: got = json.loads(r[1]) if r[1].strip() else []
    except ValueError as e: c.viol("c32:list-attributes:json", "%s: %s %s" % (r[3], e, r[1][:500]), files); return
    g = [(x.get("cali.attribute.name"), x.get("cali.attribute.type"), int(x.get("cali.attribute.prop", -1))) for x in got]
    want = [(a.name, a.type, a.props) for t in texts for a in parse(t).attrs.values() if not a.name.startswith("cali.attribute.")]
    if len(files) > 1: g, want = sorted(set(g)), sorted(set(want))
    if sorted(g) != sorted(want):
        c.viol("c32:list-attributes", "%s: missing %s, unexpected %s" % (r[3], [x for x in want if x not in g][:4], [x for x in g if x not in want][:4]), files); return
    c.stat("attributes_listed", len(g)); c.fps.add("l|%d|%d" % (len(files), len(g)))
def stat(c, rng):
    """the counts cali-stat prints, from the text of the files"""
    ds, files = data(c, rng, rng.choice([1, 1, 2, 3])); nodes = snaps = ref = val = tot = aref = 0; ext = []
    reuse = {}                                     # attribute -> [nodes, {data: uses}]
    for f in files:
        par = {}; name = {8: "cali.attribute.name", 9: "cali.attribute.type", 10: "cali.attribute.prop"}
        types = {}; ptype = {}
        for line in open(f, encoding="latin-1", newline="").read().split("\n"):
            if not line: continue
            d = dict(split_rec(line)); kind = d["__rec"][0]
            if kind == "node":
                nodes += 1; i = int(d["id"][0]); a = int(d["attr"][0]); p = int(d["parent"][0]) if "parent" in d else None; v = d["data"][0]
                par[i] = (a, v, p)
                if a == 8:
                    name[i] = v; x = p
                    while x is not None and x in par: x = par[x][2]
                    types[i] = {b: a for a, b in TYPEID.items()}.get(x, "string")
                t = "string" if a in (8,) else "int" if a == 10 else types.get(a, "string")
                v = to_string(t, parseval(t, v)); par[i] = (a, v, p)
                e = reuse.setdefault(name[a], [0, {}]); e[0] += 1; e[1][v] = e[1].get(v, 0) + 1
            elif kind == "ctx":
                snaps += 1; rr = d.get("ref", []); im = d.get("attr", []); ref += len(rr); val += len(im); tot += len(rr) + 2 * len(im); aref += len(im); ext.append(len(rr) + 2 * len(im))
                for x in map(int, rr):
                    while x is not None:
                        a, v, p = par[x]; aref += 1
                        e = reuse[name[a]]; e[1][v] = e[1].get(v, 0) + 1; x = p
    ru = rng.random() < .5
    r = call(c, rng, CS, [rng.choice([["-r"], ["--reuse-statistics"]])] if ru else [], files, None, "stat")
    if not r: return
    L = r[1].split("\n")
    def row(title):
        for k, l in enumerate(L):
            if l == title: return L[k + 2].split()
        return None
    want = {"Number of records": [nodes + snaps, nodes, snaps], "Number of elements": [tot + 4 * nodes, 4 * nodes, ref, 2 * val]}
    if snaps:
        want["Elements/snapshot"] = [min(ext), max(ext), tot / snaps]
        want["Attributes referenced in snapshot records"] = [aref, aref / snaps, aref / (tot + 4 * nodes)]
    for t, w in want.items():
        g = row(t)
        if g is None or len(g) != len(w) or any(abs(float(x) - y) > 1e-4 * abs(y) + 1e-9 for x, y in zip(g, w)):
            c.viol("c32:stat:" + t.split()[0], "%s: %s: %s, expected %s" % (r[3], t, g, w), files); return
    if ru:
        k = next((j for j, l in enumerate(L) if l.startswith("Attribute  ")), None)
        got = {} if k is not None else None
        for l in (L[k + 1:] if k is not None else []):
            if l.strip():
                x = l.rsplit(None, 5)
                if len(x) == 6: got[x[0].strip()] = [float(y) for y in x[1:]]
        w = {}
        for n, (nn, dd) in reuse.items(): u = sum(dd.values()); w[n] = [nn, len(dd), u, u / len(dd), u / nn]
        bad = None if got is None else [n for n in set(got) | set(w) if n not in got or n not in w or any(abs(a - b) > 1e-4 * abs(b) for a, b in zip(got[n], w[n]))]
        if got is None or bad: c.viol("c32:stat:reuse", "%s: %s" % (r[3], [(n, (got or {}).get(n), w.get(n)) for n in (bad or w)][:3]), files); return
        c.stat("reuse_rows", len(w))
    c.stat("stat_runs"); c.fps.add("s|%d|%d|%s" % (len(files), nodes, ru))
def errors(c, rng):
    ds, files = data(c, rng, 1); k = rng.randrange(4)
    if k == 0:
        miss = os.path.join(c.tmp, "no-such-%d.cali" % rng.getrandbits(30)); st, want = c.query(files, "format expand")
        r = call(c, rng, CQ, [flag(rng, "expand")], rng.sample([miss] + files, 2), None, "missing", ())
        if not r or st != "ok": return
        if miss not in r[2]: c.viol("c32:missing-file-not-reported", "%s: %s" % (r[3], r[2][-500:]), files)
        if differ(c, "c32:missing-file", r[3], r[1], want, files, "the file that exists"): return
    else:
        a = {1: [["--" + rng.choice(["no-such-option", "tabel", "q", "select-all"])]], 2: [opt(rng, "query", rng.choice(["select sum(", "format nothing", "group by a where (", "select * order by x format tabel", "let a=nothing(b)"]))], 3: [opt(rng, "query-file", os.path.join(c.tmp, "no-such-query"))]}[k]
        r = call(c, rng, CQ, a, files, None, "error")
        if not r: return
        if r[0] == 0 or r[1].strip() or not r[2].strip(): c.viol("c32:error-not-reported", "%s: rc=%s stdout=%r stderr=%r" % (r[3], r[0], r[1][:300], r[2][-300:]), files); return
    c.stat("error_cases"); c.fps.add("e|%d|%d" % (k, len(ds.recs)))
def main():
    global CQ, CS
    ck = vlib.Check("C32"); CQ, CS = vlib.tool("asan"), vlib.tool("asan", "cali-stat")
    n = ck.n(5000, 60000)
    ck.rule = "random record sets in one to three files; cali-query runs with the options (--select with = < > and negation, --aggregate, --aggregate-key incl. none/path, --print-attributes, --sort-by, -t/-T/-j/-e/-f, --title, -q, -Q, mixtures) in all spellings and orders, files or stdin, stdout or -o, a profiled cali-query and hostile CALI_ variables, compared byte for byte with the library running the query they stand for; -f lines, --list-attributes and cali-stat's numbers against independent models; errors must be reported; distinct = (mode, options, sizes)"
    qlib.run(ck, "c32", "case", n)
    ck.assumptions = ["the meaning of the queries themselves is decided by C07, C08 and C09", "-f pads a value on the right, by at most 80 blanks, whatever the alignment letter"]
    return ck.finish(min_evals=n // 2, min_distinct=n // 10)
