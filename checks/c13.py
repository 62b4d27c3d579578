import vlib
ENVS = [
    ("none", {}), ("aggregate", {"CALI_SERVICES_ENABLE": "event,aggregate,timer"}), ("trace", {"CALI_SERVICES_ENABLE": "event,trace,timer,recorder", "CALI_RECORDER_FILENAME": "out.cali"}),
    ("statistics", {"CALI_SERVICES_ENABLE": "event,statistics,validator,trace"}), ("loop", {"CALI_SERVICES_ENABLE": "loop_monitor,loop_statistics,timer,aggregate,event", "CALI_LOOP_MONITOR_ITERATION_INTERVAL": "1"}),
    ("alloc", {"CALI_SERVICES_ENABLE": "alloc,allocstats,event,aggregate", "CALI_ALLOC_RESOLVE_ADDRESSES": "true"}),
    ("wrap", {"CALI_SERVICES_ENABLE": "io,pthread,event,aggregate,recorder", "CALI_RECORDER_FILENAME": "out.cali"}),
    ("monitor", {"CALI_SERVICES_ENABLE": "region_monitor,timer,memstat,cpuinfo,aggregate", "CALI_REGION_MONITOR_TIME_INTERVAL": "0.00001"}),
    ("async", {"CALI_SERVICES_ENABLE": "async_event,event,trace"}), ("debug", {"CALI_SERVICES_ENABLE": "debug,event"}),
    ("runtime-report", {"CALI_CONFIG": "runtime-report(output=rr.txt,calc.inclusive,io.bytes,region.count)"}), ("report", {"CALI_SERVICES_ENABLE": "event,aggregate,report,timer", "CALI_REPORT_FILENAME": "rep.txt"}),
    ("flush-trace", {"CALI_SERVICES_ENABLE": "event,trace,recorder", "CALI_TRACE_BUFFER_POLICY": "flush", "CALI_TRACE_BUFFER_SIZE": "1", "CALI_RECORDER_FILENAME": "out.cali"}),
]
CONFIGS = ["", "runtime-report(output=a.txt)", "event-trace(output=b.cali)", "runtime-profile(output=c.cali,region.stats)", "loop-report(output=d.txt,iteration_interval=1)", "spot(output=e.cali)", "hatchet-region-profile(output=f.json)", "region.count,runtime-report(output=g.txt)"]
def main():
    ck = vlib.Check("C13")
    exe = vlib.compile_harness("race.cpp", "tsan")
    n = ck.n(12, 80); shards, envs = [], []
    for k in range(n):
        for i, (lab, env) in enumerate(ENVS):
            s = ck.seed * 100000 + k * 1000 + i
            shards.append(["--seed", s, "--first", 1, "--label", "first/" + lab, "--threads", 2 + s % 5, "--ops", 25, "--waves", 2]); envs.append(env)
            j = (i + k) % len(CONFIGS)
            shards.append(["--seed", s, "--first", 0, "--label", "steady/" + lab, "--threads", 3 + s % 4, "--ops", 50, "--waves", 2] + (["--config", CONFIGS[j]] if CONFIGS[j] else [])); envs.append(env)
    ck.run_shards(exe, shards, timeout=120, env=lambda i: envs[i], tsan=True)
    ck.ev(len(shards))
    ck.rule = "processes in which 2 to 6 threads use the whole annotation API at once (first use of the library from all threads, or steady use while another thread activates, deactivates and flushes channels), each under one of %d measurement configurations, built with ThreadSanitizer; distinct = (configuration, pair of operations) observed running at the same time" % len(ENVS)
    ck.assumptions = ["the sysalloc service is left out: GOTCHA redirects the allocation calls of threads that ThreadSanitizer has already torn down (C20 and C30 run it without ThreadSanitizer)", "creating and deleting channels while other threads annotate is documented as unsafe and not exercised", "ThreadSanitizer reports races between the accesses that were executed, for the synchronization that was observed"]
    return ck.finish(min_evals=len(shards) * 2 // 3, min_distinct=100)
