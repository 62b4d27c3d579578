import vlib
def main():
    ck = vlib.Check("C20")
    exe = vlib.compile_harness("interpose.cpp", "plain", extra=["-fno-builtin", "-U_FORTIFY_SOURCE"])
    n = ck.n(32, 320); per = 36
    ck.run_shards(exe, [["--seed", ck.seed, "--from", i * per, "--to", (i + 1) * per] for i in range(n)], timeout=200)
    ck.rule = ("random sequences of succeeding and failing I/O, allocation and thread-creation calls on 1 to 4 threads, each run in one process without the library and in one with its wrappers active "
               "(9 arrangements: single and several I/O channels, allocation and thread wrappers, configuration manager, channels toggled by another thread, channels deleted and created again, inactive channels); "
               "every result, errno value, buffer content and file left behind is compared, and the recorded I/O regions, byte counts and mount points are compared with what the calls returned; distinct = (arrangement, function, success, errno)")
    ck.assumptions = ["only the functions that the wrappers claim to cover are called", "file descriptor numbers and addresses are compared as valid or invalid only"]
    return ck.finish(min_evals=n * per // 2, min_distinct=200)
