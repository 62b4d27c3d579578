import ctx_common, vlib
def more(ck):
    exe = vlib.compile_harness("procscope.cpp", "asan")
    ck.run_shards(exe, [["--seed", ck.seed * 1000 + i, "--n", 25] for i in range(ck.n(8, 150))], timeout=120, workers=3)
    ck.run_sched("procscope.cpp", [["--seed", ck.seed * 1000 + 500 + i, "--n", 6] for i in range(ck.n(14, 400))])
    ck.run_sched("ctx.cpp", [["--mode", "c02", "--seed", ck.seed + 5000, "--from", 6 * i, "--to", 6 * i + 6] for i in range(ck.n(10, 300))])
def main():
    return ctx_common.run("C02", "c02", 12, 300, 60, "2-6 concurrent threads (plus short-lived ones) running random annotation programs; thread part of each snapshot must equal the thread's own model, process part one of the states between the last completed and last started process-scope update; in a second driver 2-7 threads begin, set and end entries of their own in the process and channel scope at the same time and must always find exactly these; distinct = different operation sequences over all threads", more)
