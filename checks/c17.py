import vlib
def main():
    ck = vlib.Check("C17")
    n = ck.n(12, 200)
    for fl in ("asan", "plain"):
        exe = vlib.compile_harness("timing.cpp", fl)
        ck.run_shards(exe, [["--seed", ck.seed * 1000 + i + (500 if fl == "plain" else 0), "--n", 30] for i in range(n)], timeout=200, workers=5)
    ck.rule = "sessions of 1 to 4 threads with nested, interleaved (unaligned), by-value and process-scope entries, explicit snapshots and values set, recorded with timers; every trace record's offset, duration and inclusive duration is compared with the driver's clock readings before and after the event and with its neighbours, every aggregated time with the bounds of its region; the channel is switched off and on again between phases; distinct = (activations, collection, inclusive, activated late, threads from before, threads, attributes, number of records)"
    return ck.finish(min_evals=n * 40, min_distinct=100)
