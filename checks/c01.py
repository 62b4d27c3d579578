import ctx_common, vlib
def more(ck):
    exe = vlib.compile_harness("slots.cpp", "asan")
    ck.run_shards(exe, [["--seed", ck.seed * 1000 + i, "--n", 90] for i in range(ck.n(8, 80))], timeout=200)
def main():
    return ctx_common.run("C01", "c01", 24, 400, 100, "random single-threaded annotation programs through all C/C++ interfaces, snapshot and attribute queries compared with a context model after a third of the operations; begins, sets, exchanges and ends of by-value attributes with colliding storage slots, everything compared after each; distinct = different operation sequences (kinds and attribute classes)", more)
