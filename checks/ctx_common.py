import vlib
def run(pid, mode, quick, thorough, per, rule, more=None):
    ck = vlib.Check(pid)
    exe = vlib.compile_harness("ctx.cpp", "asan")
    n = ck.n(quick, thorough)
    ck.rule = rule
    ck.run_shards(exe, [["--mode", mode, "--seed", ck.seed, "--from", i * per, "--to", (i + 1) * per] for i in range(n)], timeout=300)
    if more: more(ck)
    ck.assumptions = ["the driver's model of nested, unaligned and by-value attributes is the specification", "hidden attributes are generated as by-value attributes only (one probe covers hidden regions)"]
    return ck.finish(min_evals=n * per // 2, min_distinct=n * per // 3)
