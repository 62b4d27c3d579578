import os, time, vlib
def main():
    ck = vlib.Check("C21")
    step = vlib.compile_harness("sigstep.cpp", "plain", extra=("-O1", "-rdynamic"), internal=True)
    exes = {fl: vlib.compile_harness("sampling.cpp", fl) for fl in ("plain", "asan", "tsan")}
    until = int(time.time()) + ck.n(40, 1500); n = ck.n(80, 1600)
    ck.run_shards(step, [["--from", 3 * i, "--to", 3 * i + 3, "--seed", ck.seed, "--until", until] for i in range(n)], timeout=300, name="sigstep")
    until = int(time.time()) + ck.n(40, 900); per = 12
    for fl, n in (("plain", ck.n(24, 300)), ("asan", ck.n(16, 200)), ("tsan", ck.n(12, 150))):
        sh = [["--from", per * i, "--to", per * i + per, "--seed", ck.seed + {"plain": 0, "asan": 1000, "tsan": 2000}[fl], "--log", "sampling.log", "--until", until] + (["--gotcha", 0] if fl == "asan" else []) for i in range(n)]
        ck.run_shards(exes[fl], sh, timeout=240, tsan=fl == "tsan", workers=4, name="sampling-" + fl)
    # the program ends while its threads are being sampled
    def final(i):
        fl = ("plain", "asan")[i % 2]; d = os.path.join(ck.tmp, "final%d" % i); os.makedirs(d, exist_ok=True)
        cmd = [exes[fl], "--final", os.path.join(d, "out.cali"), "--seed", str(ck.seed * 1000 + i), "--log", os.path.join(d, "log"), "--out", os.path.join(d, "out.txt")]
        for t in (60, 200):
            r = vlib.run(cmd, timeout=t, env={}, cwd=d)
            if not r.timed_out: break
        return i, fl, cmd, r, d
    for i, fl, cmd, r, d in ck.pmap(final, range(ck.n(30, 600)), workers=4):
        ck.evals += 1
        if r.timed_out or r.rc != 0: ck.crash(r, "final-" + fl, " ".join(cmd)); continue
        log = open(os.path.join(d, "log"), errors="replace").read() if os.path.exists(os.path.join(d, "log")) else ""
        if log: ck.violation("c21:error-message", "at the end of a sampled program: " + log[:300], " ".join(cmd))
        p = os.path.join(d, "out.cali"); t = open(p, errors="replace").read() if os.path.exists(p) else ""
        recs = [l for l in t.splitlines() if l.startswith("__rec=ctx")]
        if not t.endswith("\n") or any(not l.startswith("__rec=") for l in t.splitlines()): ck.violation("c21:output-broken", "the output of a program that ended while it was sampled is incomplete: " + t[-200:], " ".join(cmd))
        ck.stat("final_records", len(recs)); ck.stat("programs_ended_while_sampled")
        ck.fps.add("final|%s|%d" % (fl, min(len(recs) // 50, 8)))
    ck.rule = ("(1) random programs of library operations (regions, attributes, channels, flushes, threads, allocation, configuration) executed with a signal after every machine instruction, or every few, whose handler takes snapshots, packs "
               "records and pushes samples into trace and aggregation channels with many service combinations and nearly full buffers; (2) the sampler service at up to 10 kHz on threads with a known history, with channels toggled, flushed, and deleted meanwhile, "
               "under ASan/UBSan and TSan too; (3) programs that end while they are sampled; distinct = operations and operation pairs interrupted, services, context depths of samples")
    ck.assumptions = ["signals arrive between instructions of user code; instructions inside of system calls can't be interrupted by single-stepping", "an allocation or a lock in a handler is detected at the interposed libc entry points",
                      "the library does not call functions that block the trap signal while it is stepped, except at thread exit, which is left out"]
    return ck.finish(min_evals=100, min_distinct=40)
