import os, random, re, subprocess
import vlib, qlib
from qlib import *
import c07
BIG = ["0", "1", "11", "12", "18446744073709551615", "18446744073709551614", "4294967295", "9223372036854775807", "99999999999999999999999", "-1", "", "x", "1e9", "0x10", " 5", "00000000000000000000000000012", "1000000"]
JUNK = ["=", ",", "\\", "\\\\", "\n", "\r\n", "\0", "\"", "'", "__rec=node,", "__rec=ctx,", "__rec=globals", "ref=", "attr=", "data=", "id=", "parent=", "ref=12=13", ",,,,", "====", "\xff\xfe", "%s%n", "\t", " ", "__rec", "__rec=", "__rec=foo,id=1", "ref", "A" * 300, "=" * 500]
def damage_line(rng, l):
    k = rng.randrange(9)
    if k == 0: return l[:rng.randint(0, len(l))]
    if k == 1:
        f = l.split(","); i = rng.randrange(len(f)); a = f[i].split("=")
        a[rng.randrange(len(a))] = rng.choice(BIG); f[i] = "=".join(a); return ",".join(f)
    if k == 2: p = rng.randint(0, len(l)); return l[:p] + rng.choice(JUNK) + l[p:]
    if k == 3:
        if not l: return "x"
        p = rng.randrange(len(l)); return l[:p] + chr(rng.randrange(256)) + l[p + 1:]
    if k == 4: f = l.split(","); rng.shuffle(f); return ",".join(f)
    if k == 5: f = l.split(","); del f[rng.randrange(len(f))]; return ",".join(f)
    if k == 6: f = l.split(","); f.insert(rng.randrange(len(f) + 1), rng.choice(f)); return ",".join(f)
    if k == 7:
        nums = list(re.finditer(r"\d+", l))
        if not nums: return l + ","
        m = rng.choice(nums); return l[:m.start()] + str(rng.choice([int(m.group()) + rng.choice([-2, -1, 1, 2, 1000]), rng.randint(0, 60)])) + l[m.end():]
    p, q = sorted((rng.randint(0, len(l)), rng.randint(0, len(l)))); return l[:p] + l[q:]
FORMATS = ["cali", "expand", "json", "json(object)", "json(split)", "json(pretty)", "json(object,quote-all)", "json(separate-nested)", "json(records)", "json-split", "table", "tree", "table(column-width=10)", "table(column-width=-1)", "table(column-width=x)", "tree(column-width=8)", "tree(path-attributes=%s)", "table(print-globals)", "tree(print-globals)", "format(\"%%%s%% x %%[8r]region%%\")"]
def fmt(rng, ds):
    f = rng.choice(FORMATS)
    return f % rng.choice(list(ds.attrs)).replace("\"", "") if "%s" in f else f.replace("%%", "%")
def query(c, rng, ds):
    q_ = c07.gen_query(rng, ds) if rng.random() < .5 else Query()
    qt = q_.text(rng); qt = re.sub(r"(?i)format\s+cali", "", qt)
    return qt + " format " + fmt(rng, ds)
# damaged streams: no crash, and the records before the first damaged line are read as they were
def stream(c, rng, i):
    ds = gen_data(rng, "wide" if rng.random() < .5 else "small", nrec=rng.choice([1, 3, 10, 30])); text = render(ds, rng, dup=.05 if rng.random() < .3 else 0)
    lines = text.split("\n")[:-1]
    if not lines: return
    first = len(lines)
    for _ in range(rng.choice([1, 1, 1, 2, 5])):
        p = rng.randrange(len(lines)); k = rng.random()
        if k < .7: lines[p] = damage_line(rng, lines[p])
        elif k < .75: del lines[p]
        elif k < .8: lines.insert(p, lines[rng.randrange(len(lines))])
        elif k < .85: q = rng.randrange(len(lines)); lines[p], lines[q] = lines[q], lines[p]; p = min(p, q)
        elif k < .9: lines.insert(p, "".join(chr(rng.randrange(256)) for _ in range(rng.randint(0, 200))))
        elif k < .93: # a node that is its own parent, attribute or both
            n = rng.choice(BIG[:6]); lines.insert(p, "__rec=node,id=%s,attr=%s,data=x,parent=%s" % (n, rng.choice([n, "8", "10"]), n))
        elif k < .96: lines = lines[:p]; lines.append(damage_line(rng, text.split("\n")[min(p, len(lines))])) 
        else: lines.insert(p, "__rec=ctx,ref=" + "=".join(rng.choice(BIG) for _ in range(rng.randint(1, 200))) + ",attr=" + "=".join(rng.choice(BIG) for _ in range(rng.randint(0, 5))))
        first = min(first, p)
        if not lines: lines = [""]
    good = text.split("\n")[:first]; new = "\n".join(lines) + ("" if rng.random() < .2 else "\n")
    f = c.file(new); st, out = c.query([f], "", "copy"); c.ev += 1
    if st == "died": return
    # the records before the damage
    want = [l for l in good if l.startswith("__rec=ctx")]
    try: o = parse(re.sub(r"__rec=globals.*\n?", "", out))
    except CaliError: o = None
    if want:
        pre = parse("\n".join(good))
        a = [repr(exact(pre, r)) for r in pre.recs]
        if o is None:       # nodes redefined later make the whole stream ambiguous for the strict parser: judge the undamaged part of the output
            k = 0; keep = []
            for l in out.split("\n"):
                if k >= len(want): break
                keep.append(l); k += l.startswith("__rec=ctx")
            try: o = parse("\n".join(keep))
            except CaliError as e: c.viol("c11:prefix:unreadable", "%s\n%s\n--- damaged input\n%s" % (e, out[:3000], new[:3000]), [f]); return
        b = [repr(exact(o, r)) for r in o.recs[:len(a)]]
        if a != b:
            k = next((j for j, (x, y) in enumerate(zip(a, b)) if x != y), min(len(a), len(b)))
            c.viol("c11:prefix", "record %d of %d before the first damaged line (%d) changed: %s became %s" % (k, len(a), first, a[k:k + 1], b[k:k + 1]), [f]); return
        c.stat("prefix_records", len(a))
    for _ in range(2):
        qt = query(c, rng, ds); st2, o2 = c.query([f] if rng.random() < .7 else [f, c.file(text)], qt, rng.choice(["query", "query", "query", "globals"])); c.ev += 1; c.stat("answer_" + st2)
        if st2 == "died": return
    c.stat("reader_" + st); c.fps.add("s%d|%d|%s|%d" % (len(lines), first, st, len(out)))
    if len(c.samples) < 1: c.samples.append("%d lines damaged from line %d: %s" % (len(lines), first, st))
# damaged queries
TOK = ["select", "aggregate", "group by", "where", "format", "order by", "let", "as", "unit", "not", "if", "*", "path", "(", ")", ",", "=", "<", ">", "!=", "\"", "\\", "'", "count()", "sum(", "scale(x,abc)", "scale(x)", "scale(x,)", "scale(,)", "ratio(a,b,c)", "ratio(a)", "inclusive_ratio(a,b,1e999)", "inclusive_scale(x,nan)", "scale_count(x)", "scale_count()", "scale_count(1e)", "truncate(x,0)", "truncate(x,abc)", "truncate(x,1e-300)", "truncate(x,-2)", "y=truncate(x,0)", "y=scale(x,foo)", "y=scale(x)", "y=ratio(x,x,zz)", "y=ratio(x)", "y=first()", "y=leaf()", "y=leaf(a,b)", "y=sum()", "percent_total()", "variance()", "any()", "histogram(x)", "tree", "json(split,records,object)", "table(column-width=99999999999999999999)", "tree(column-width=-5)", "format(\"%[xx]a%\")", "format(\"%[99999999999999]a%\")", "format(\"%[]a%\")", "format(\"%\")", "format(\"%%%[\",\"t\")", "format()", "expand", "cali", "json-split", "json(pretty)", "asc", "desc", "\xff", "\x00", "#", "a=b", "1", "-1", "9" * 40, "A" * 500, "\n", "\x1d", ";", "{", "}", "[", "]"]
def queries(c, rng, i):
    ds = gen_data(rng, "small", nrec=8); f = c.file(render(ds, rng)); names = [q(n, rng) for n in ds.attrs]
    for _ in range(6):
        k = rng.random()
        if k < .4: qt = " ".join(rng.choice(TOK) if rng.random() < .7 else rng.choice(names) for _ in range(rng.randint(1, 14)))
        elif k < .7:
            v = lambda: rng.choice(names + [q(a.name, rng) for a in ds.val])
            num = lambda: rng.choice(["2", "abc", "", "-1", "0", "nan", "inf", "1e999", "1e-320", "0x10", "9" * 30, "1.5x", "-0", "1e18"])
            op = lambda: rng.choice(["scale(%s,%s)" % (v(), num()), "inclusive_scale(%s,%s)" % (v(), num()), "ratio(%s,%s,%s)" % (v(), v(), num()), "inclusive_ratio(%s,%s,%s)" % (v(), v(), num()), "scale_count(%s)" % num(), "sum(%s)" % v(), "avg(%s)" % v(), "variance(%s)" % v(), "percent_total(%s)" % v(), "inclusive_sum(%s)" % v(), "min(%s)" % v(), "any(%s)" % v(), "max(%s)" % v(), "count()"])
            let = lambda: rng.choice(names + ["new1", "new2"]) + "=" + rng.choice(["scale(%s,%s)" % (v(), num()), "truncate(%s,%s)" % (v(), num()), "ratio(%s,%s,%s)" % (v(), v(), num()), "first(%s,%s)" % (v(), v()), "leaf(%s)" % v(), "leaf()", "sum(%s,%s)" % (v(), v())])
            qt = " ".join(rng.sample(["let " + ",".join(let() for _ in range(rng.randint(1, 3))), "aggregate " + ",".join(op() for _ in range(rng.randint(1, 3))), "where " + rng.choice(["not ", ""]) + v() + rng.choice(["", "<", ">", "=", "<=", ">="]) + num(), "order by " + v(), "group by " + v(), "format " + rng.choice(["format(\"%%[%s]%s%% \")" % (num(), v().replace("\"", "")), "table(column-width=%s)" % num(), "tree(column-width=%s)" % num(), fmt(rng, ds)])], rng.randint(2, 6)))
        else:
            qt = query(c, rng, ds)
            for _ in range(rng.randint(1, 4)):
                p = rng.randint(0, len(qt)); m = rng.randrange(4)
                if m == 0: qt = qt[:p] + rng.choice(TOK) + qt[p:]
                elif m == 1: qt = qt[:p] + qt[p + rng.randint(1, 10):]
                elif m == 2: qt = qt[:p] + chr(rng.randrange(1, 256)) + qt[p:]
                else: qt = qt[:p]
        qt = "".join(x for x in qt if x not in "\x1e\x1f\n\0")
        st, out = c.query([f], qt); c.ev += 1; c.stat("query_" + st)
        if st == "died": return
        if st == "ok":
            st, _ = c.query([f], qt, "parse")
            if st == "died": return
        c.fps.add("q" + st + "|" + str(len(out)) + "|" + str(len(qt)))
# command lines of the tools
OPTS = ["-s", "--select", "--aggregate", "--aggregate-key", "-e", "--expand", "--attributes", "--print-attributes", "-S", "--sort-by", "-f", "--format", "--title", "-t", "--table", "-T", "--tree", "--path-attributes", "-j", "--json", "-q", "--query", "-Q", "--query-file", "-P", "--caliper-config", "-v", "-V", "-o", "-h", "--help", "--list-attributes", "-G", "--list-globals", "--", "-", "--foo", "-x", "-tj", "-qe", "--table=1", "--query=", "-s=", "--select=a=b:-c<5:>3:<"]
ARGS = ["a:b", "-a", "sum(x):count", "sum(:", "count", "a<5:b>c:-d=2", "::", "", "format table", "select *", "select", "%a%", "%[5r]a% %[x]b%", "%", "runtime-report", "nonsense(", "-1", "x" * 400, "\xff", "time.duration", "json", "sum(time.duration,)", "ratio(a)", "scale(x,y)", "scale_count(z)", "tree(column-width=z)"]
def tools(ck, n):
    exe, stat = vlib.tool("asan"), vlib.tool("asan", "cali-stat")
    def one(i):
        rng = random.Random("c11tools-%d-%d" % (ck.seed, i)); d = os.path.join(ck.tmp, "t%d" % i); os.makedirs(d)
        ds = gen_data(rng, "small", nrec=10); text = render(ds, rng)
        if rng.random() < .3: ls = text.split("\n"); p = rng.randrange(len(ls)); ls[p] = damage_line(rng, ls[p]); text = "\n".join(ls)
        with open(d + "/in.cali", "w", encoding="latin-1") as f: f.write(text)
        with open(d + "/q.txt", "w", encoding="latin-1") as f: f.write(rng.choice(["format json", "select", "", "let x=scale(y)", "\xff\xff"]))
        a = []
        for _ in range(rng.randint(0, 6)):
            o = rng.choice(OPTS); a.append(o)
            if rng.random() < .7:
                a.append(rng.choice(ARGS + list(ds.attrs) + ["q.txt"]) if o not in ("-o", "--output") else "out.txt")
        if rng.random() < .05: a = [rng.choice(["-o"]), rng.choice(["nodir/x", "out%x", "."])]
        for _ in range(rng.choice([0, 1, 1, 1, 2])): a.append(rng.choice(["in.cali", "in.cali", "missing.cali", ".", "q.txt", ""]))
        tool = exe if rng.random() < .85 else stat
        a = [x.replace("\0", "") for x in a]
        r = vlib.run2([tool] + [x.encode("latin-1") for x in a], timeout=60, cwd=d, stdin=text.encode("latin-1") if rng.random() < .8 else b"", env={"CALI_LOG_VERBOSITY": "0"})
        ck.ev(); ck.cover("t%s|%s|%d" % (r.rc, sorted(x for x in a if x.startswith("-")), len(r.out)))
        ck.stat("tool_rc_%s" % r.rc)
        if r.timed_out or r.rc < 0 or r.rc in (86, 87) or "ERROR: AddressSanitizer" in r.err or "runtime error:" in r.err:
            ck.crash(r, "%s %r" % (os.path.basename(tool), a), "args %r\ninput:\n%s" % (a, text[:4000]))
        shutil.rmtree(d, ignore_errors=True)
    ck.pmap(one, range(n))
def deep(ck):
    exe = vlib.tool("asan")
    """very deep paths, long lines and many columns"""
    def one(job):
        kind, n = job; d = os.path.join(ck.tmp, "d%s%d" % job); os.makedirs(d); p = d + "/deep.cali"
        with open(p, "w") as f:
            f.write("__rec=node,id=12,attr=10,data=276,parent=3\n__rec=node,id=13,attr=8,data=region,parent=12\n__rec=node,id=14,attr=10,data=1,parent=1\n__rec=node,id=15,attr=8,data=x,parent=14\n")
            if kind == "path":
                for i in range(n): f.write("__rec=node,id=%d,attr=13,data=r%d%s\n" % (100 + i, i, ",parent=%d" % (99 + i) if i else ""))
                f.write("__rec=ctx,ref=%d,attr=15,data=5\n" % (99 + n))
            elif kind == "line": f.write("__rec=node,id=100,attr=13,data=%s\n__rec=ctx,ref=100,attr=15,data=5\n" % ("z" * n))
            elif kind == "entries": f.write("__rec=node,id=100,attr=13,data=z\n__rec=ctx,ref=" + "=".join(["100"] * n) + ",attr=" + "=".join(["15"] * n) + ",data=" + "=".join(["1"] * n) + "\n")
            elif kind == "attrs":
                for i in range(n): f.write("__rec=node,id=%d,attr=8,data=a%d,parent=14\n" % (100 + i, i))
                f.write("__rec=ctx,attr=" + "=".join(str(100 + i) for i in range(n)) + ",data=" + "=".join(["1"] * n) + "\n")
            elif kind == "meta":       # an attribute whose metadata chain is long
                for i in range(n): f.write("__rec=node,id=%d,attr=13,data=m%d,parent=%d\n" % (100 + i, i, 99 + i if i else 3))
                f.write("__rec=node,id=%d,attr=8,data=deepattr,parent=%d\n__rec=ctx,attr=%d,data=v\n" % (100 + n, 99 + n, 100 + n))
            elif kind == "attrchain":  # attributes of attributes of ...
                last = 13
                for i in range(n): f.write("__rec=node,id=%d,attr=%d,data=v,parent=3\n__rec=node,id=%d,attr=8,data=c%d,parent=%d\n" % (100 + 2 * i, last, 101 + 2 * i, i, 100 + 2 * i)); last = 101 + 2 * i
                f.write("__rec=ctx,attr=%d,data=v\n" % last)
            elif kind == "wide":
                for i in range(n): f.write("__rec=node,id=%d,attr=13,data=r%d\n__rec=ctx,ref=%d,attr=15,data=5\n" % (100 + i, i, 100 + i))
        huge = n >= 20000
        for fm in ("cali", "json-split", "tree", "tree order by x") if huge else ("cali", "expand", "json", "json-split", "table", "tree", "json(split)", "tree order by x"):
            for pre in ("",) if huge else ("", "aggregate inclusive_sum(x),count() group by path "):
                r = vlib.run2([exe, "-q", pre + "format " + fm, p], timeout=200, cwd=d)
                ck.ev(); ck.cover("deep%s%d%s" % (kind, n, fm)); ck.stat("deep_queries")
                if r.rc != 0 or r.timed_out: ck.crash(r, "deep:%s %d %s%s" % (kind, n, pre, fm))
        shutil.rmtree(d, ignore_errors=True)
    ck.pmap(one, [("path", 60000), ("wide", 25000), ("path", 3000), ("path", 1200), ("line", 3000000), ("entries", 3000), ("attrs", 1500), ("meta", 1000), ("attrchain", 1000)])
def main():
    ck = vlib.Check("C11")
    n = ck.n(6000, 100000)
    ck.rule = "valid streams with damaged, truncated, duplicated, swapped, inserted lines, forged ids and raw bytes, under all output formats; records before the first damaged line compared with the undamaged stream; token-level and byte-level damaged queries; random command lines of cali-query and cali-stat; very deep or wide inputs; distinct = (lines, damage position, reader verdict, output size)"
    qlib.run(ck, "c11", "stream", n)
    qlib.run(ck, "c11", "queries", n // 2)
    tools(ck, ck.n(800, 8000))
    deep(ck)
    ck.assumptions = ["AddressSanitizer and UndefinedBehaviorSanitizer are the judges of memory errors and undefined behaviour"]
    return ck.finish(min_evals=n, min_distinct=n // 10)
