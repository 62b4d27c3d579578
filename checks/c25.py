import vlib
def main():
    ck = vlib.Check("C25")
    exe = vlib.compile_harness("profile.cpp", "asan")
    n, m = ck.n(24, 400), ck.n(8, 100)
    ck.run_shards(exe, [["--mode", "exact", "--seed", ck.seed * 1000 + i, "--n", 40] for i in range(n)], timeout=120)
    ck.run_shards(exe, [["--mode", "timed", "--seed", ck.seed * 1000 + i, "--n", 30] for i in range(m)], timeout=120, workers=4)
    ck.rule = "random region trees on 1 to 4 threads (regions of several types, recursive, mixed with non-nested and unaligned entries), start/stop/clear sequences; flat and nested, exclusive and inclusive profiles of a program-provided metric (from aggregation, trace and written file) compared exactly with the model; RegionProfile times compared with bounds from the driver's own clock readings; distinct = (mode, collection, metric type, threads, depth, start/stop/clear counts)"
    ck.assumptions = ["a record whose innermost entry is not of the requested region type belongs to no region's exclusive value, as the existing unit tests specify", "time before a clear() since the last event may be counted after it", "a recursive region's inclusive value counts every execution"]
    return ck.finish(min_evals=n * 30, min_distinct=150)
