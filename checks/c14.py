import vlib
ENVS = [("none", {}), ("event-trace", {"CALI_SERVICES_ENABLE": "event,trace"}), ("aggregate", {"CALI_SERVICES_ENABLE": "event,aggregate,timer"}), ("small", {"CALI_CONTEXTTREE_NODES_PER_BLOCK": "16", "CALI_CONTEXTTREE_NUM_BLOCKS": "40000", "CALI_SERVICES_ENABLE": "event,trace"})]
def main():
    ck = vlib.Check("C14")
    exe = vlib.compile_harness("race.cpp", "asan"); texe = vlib.compile_harness("race.cpp", "plain")
    n = ck.n(6, 200)
    for flavor, e in (("asan", exe), ("plain", texe)):
        shards, envs = [], []
        for k in range(n):
            for i, (lab, env) in enumerate(ENVS):
                s = ck.seed * 100000 + k * 1000 + i
                shards.append(["--mode", "c14", "--seed", s, "--first", k % 2, "--label", flavor + "/" + lab, "--threads", 2 + s % 7, "--ops", 60 + 60 * (k % 4), "--waves", 2]); envs.append(env)
        ck.run_shards(e, shards, timeout=120, env=lambda i: envs[i])
    m = ck.n(56, 6000)
    sh = [["--mode", "c14", "--seed", ck.seed * 100000 + 50000 + i, "--first", 1 - i % 5 // 4, "--label", "sched/" + ENVS[3 - i % 6 // 3 * (1 + i % 3)][0], "--threads", 2 + i % 7, "--ops", 40 + i % 3 * 50, "--waves", 2] for i in range(m)]
    ck.run_sched("race.cpp", sh, env=lambda i: ENVS[3 - i % 6 // 3 * (1 + i % 3)][1])
    ck.rule = "processes in which 2 to 8 threads, released together, ask for the same new attribute names with differing types, properties and metadata, nest regions and capture contexts; identity, lookup by name and identifier, metadata and the meaning of every captured context node are compared across threads and again at the end; distinct = (build, configuration, number of threads that asked for a name, resulting type and properties, name length class; depth of captured context)"
    ck.assumptions = ["identifiers resolved after writing and reading a stream are covered by C06"]
    return ck.finish(min_evals=n * 4, min_distinct=200)
