import vlib
def main():
    ck = vlib.Check("C19")
    n = ck.n(10, 150)
    for fl in ("asan", "plain", "tsan"):
        exe = vlib.compile_harness("alloc.cpp", fl)
        jobs = []
        for i in range(n):
            s = ck.seed * 1000 + i + {"asan": 0, "plain": 300, "tsan": 600}[fl]
            if fl != "tsan": jobs.append(["--seed", s, "--n", 25])
            jobs.append(["--seed", s, "--n", 6 if fl == "tsan" else 15, "--multi", 1])
        ck.run_shards(exe, jobs, timeout=300, tsan=(fl == "tsan"))
    ck.rule = "histories of tracked allocations (several dimensions, zero sizes and elements, 2 GiB and more, addresses used again with and without release, unknown and interior addresses released) and lookups at the ends, inside and outside of regions; one thread: every record against an interval-map model, several threads on addresses of their own: active bytes and high-water marks within the bounds of the possible interleavings, exact at rest, every own address resolved exactly; distinct = (configuration, order of addresses, number of addresses, number of threads)"
    ck.assumptions = ["tracked regions do not overlap", "regions are tracked for at most four address attributes in a process", "a snapshot of an allocation or release event may count the allocation or not"]
    return ck.finish(min_evals=n * 60, min_distinct=150)
