import vlib
def run(pid, mode, quick, thorough, per, rule, assumptions, src="chan.cpp", sched=(0, 0)):
    ck = vlib.Check(pid)
    exe = vlib.compile_harness(src, "asan", internal=True)
    n = ck.n(quick, thorough)
    ck.rule = rule
    ck.run_shards(exe, [["--mode", mode, "--seed", ck.seed, "--from", i * per, "--to", (i + 1) * per] for i in range(n)], timeout=300)
    if sched[1]: ck.run_sched(src, [["--mode", mode, "--seed", ck.seed + 5000, "--from", i * sched[0], "--to", (i + 1) * sched[0]] for i in range(ck.n(sched[1], 10 * sched[1]))], timeout=300, internal=True)
    ck.assumptions = assumptions
    return ck.finish(min_evals=n * per // 2, min_distinct=n * per // 3)
