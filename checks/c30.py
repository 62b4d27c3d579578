import vlib
CAP = [{"CALI_CONTEXTTREE_NUM_BLOCKS": "20", "CALI_CONTEXTTREE_NODES_PER_BLOCK": "16"}, {"CALI_CONTEXTTREE_NUM_BLOCKS": "1"},
       {"CALI_CONTEXTTREE_NUM_BLOCKS": "1", "CALI_CONTEXTTREE_NODES_PER_BLOCK": "16"}, {"CALI_CONTEXTTREE_NUM_BLOCKS": "1", "CALI_CONTEXTTREE_NODES_PER_BLOCK": "64"},
       {"CALI_CONTEXTTREE_NUM_BLOCKS": "2", "CALI_CONTEXTTREE_NODES_PER_BLOCK": "64"}, {"CALI_CONTEXTTREE_NUM_BLOCKS": "3"},
       {"CALI_MEMORY_POOL_SIZE": "1000", "CALI_MEMORY_CAN_EXPAND": "false"}, {"CALI_MEMORY_POOL_SIZE": "100000", "CALI_MEMORY_CAN_EXPAND": "false"},
       {"CALI_MEMORY_POOL_SIZE": "10000", "CALI_MEMORY_CAN_EXPAND": "false"}, {"CALI_MEMORY_POOL_SIZE": "300000", "CALI_MEMORY_CAN_EXPAND": "false"},
       {"CALI_CONTEXTTREE_NUM_BLOCKS": "3", "CALI_CONTEXTTREE_NODES_PER_BLOCK": "256"}, {"CALI_MEMORY_POOL_SIZE": "2000"},
       {"CALI_CONTEXTTREE_NODES_PER_BLOCK": "13"}, {"CALI_CONTEXTTREE_NODES_PER_BLOCK": "3"}, {"CALI_CONTEXTTREE_NUM_BLOCKS": "0"}, {"CALI_MEMORY_POOL_SIZE": "0"}]
def main():
    ck = vlib.Check("C30")
    asan = vlib.compile_harness("stress.cpp", "asan")
    plain = vlib.compile_harness("stress.cpp", "plain")
    jobs = {asan: ([], []), plain: ([], [])}
    def add(exe, env, *args):
        jobs[exe][0].append(list(args) + ["--seed", ck.seed]); jobs[exe][1].append(env)
    for i in range(ck.n(40, 600)): add(asan, {}, "--mode", "torture", "--from", i * 2, "--to", i * 2 + 2)
    for i in range(ck.n(22, 300)): add(plain, {}, "--mode", "torture", "--gotcha", 1, "--from", 100000 + i * 3, "--to", 100000 + i * 3 + 3)
    for i in range(ck.n(14, 120)):
        add(asan, {}, "--mode", "churn", "--from", i, "--to", i + 1)
        add(plain, {}, "--mode", "churn", "--gotcha", 1, "--from", 1000 + i, "--to", 1000 + i + 1)
    for k in range(ck.n(2, 12)):
        for j, e in enumerate(CAP):
            i = 1 + k + j * 16
            add(asan, e, "--mode", "capacity", "--from", i, "--to", i + 1)
            add(plain, e, "--mode", "capacity", "--gotcha", 1, "--from", 5000 + i, "--to", 5000 + i + 1)
    for exe, (sh, en) in jobs.items():
        ck.run_shards(exe, sh, timeout=240, env=lambda i: en[i], name="stress-" + ("asan" if exe == asan else "plain"))
    ck.rule = ("whole-library sequences under AddressSanitizer and UndefinedBehaviorSanitizer (and without them where the allocation and I/O wrappers are on): random valid calls with huge, "
               "deep and many-valued contexts on several threads, with channels and configuration managers created, flushed and deleted in between; repeated creation and removal of short-lived objects with "
               "the memory growth per object measured; and exhaustion of the context tree and the memory pool under %d capacity settings; distinct = operation mixes and service combinations run" % len(CAP))
    ck.assumptions = ["a memory error that no sanitizer check and no corrupted result shows is not seen", "memory retained per recorded event in trace and aggregation buffers until they are cleared is by design and not counted as growth"]
    return ck.finish(min_evals=100, min_distinct=30)
