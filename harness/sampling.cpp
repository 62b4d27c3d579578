// C21, part 2: the sampler service at its highest rates, on threads with a known history. Every sample must show a context that
// its thread was in at the sequence number the sample carries; samples may neither be doubled nor taken in an inactive channel.
#include "vh.h"
#include <caliper/Caliper.h>
#include <caliper/SnapshotRecord.h>
#include <caliper/cali.h>
#include <caliper/common/Node.h>
#include <sys/time.h>
#include <sys/resource.h>
#include <time.h>
#include <unistd.h>
#include <algorithm>
#include <chrono>
#include <thread>
using namespace vh;
using cali::Attribute; using cali::Caliper; using cali::Channel; using cali::Entry; using cali::Node; using cali::SnapshotView; using cali::Variant;
typedef std::map<std::string, std::string> KV;
static Attribute a_tid, a_seq, a_fill, a_val, a_region;
static const char* rnames[] = { "main", "foo", "bar", "solve", "io", "x" };
static double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + 1e-9 * t.tv_nsec; }
static double cpu() { timespec t; clock_gettime(CLOCK_THREAD_CPUTIME_ID, &t); return t.tv_sec + 1e-9 * t.tv_nsec; }
static std::string slurp(const std::string& n) { std::string s; if (FILE* f = fopen(n.c_str(), "r")) { char b[4096]; size_t k; while ((k = fread(b, 1, sizeof b, f)) > 0) s.append(b, k); fclose(f); } return s; }
static thread_local volatile uint64_t sink;
static void spin(unsigned n) { uint64_t x = n; for (unsigned i = 0; i < n; ++i) x = x * 6364136223846793005ull + 1; sink = x; }
static std::atomic<unsigned> gen { 0 };          // even: the channel is active, odd: it is not
struct Worker {
    int tid; Rng r; bool sampled; long fill; double t0 = 0, t1 = 0, c = 0; std::vector<std::string> path; std::vector<char> silent; long events = 0; std::vector<uint64_t> vals;
    Worker(int t, uint64_t s, bool sm, long f) : tid(t), r(s), sampled(sm), fill(f) {}
    // a history of operations until the given time; seq i is set after operation i
    void run(double until, long maxops) {
        Caliper c0; c0.set(a_seq, Variant(cali_make_variant_from_uint(0))); c0.set(a_val, Variant(cali_make_variant_from_uint(0))); c0.set(a_tid, Variant(cali_make_variant_from_int(tid))); path.push_back(""); silent.push_back(0); vals.push_back(0);
        std::vector<int> st; std::string p; t0 = now(); double cs = cpu(); uint64_t v = 0;
        for (uint64_t s = 1; (long) s < maxops && now() < until; ++s) {
            unsigned g0 = gen.load();
            int k = (int) r.below(10);
            if (k < 4 && st.size() < 12) { int n = (int) r.below(6); st.push_back(n); cali_begin_region(rnames[n]); p += std::string("/") + rnames[n]; ++events; }
            else if (k < 8 && !st.empty()) { cali_end_region(rnames[st.back()]); st.pop_back(); p.resize(p.rfind('/')); ++events; }
            else if (k == 8) { v = r.next() % 1000000; c0.set(a_val, Variant(cali_make_variant_from_uint(v))); }
            path.push_back(p); vals.push_back(v); silent.push_back(0); c0.set(a_seq, Variant(cali_make_variant_from_uint(s)));
            // the time from before setting number s-1 until after setting number s
            if (s > 1 && (g0 & 1) && gen.load() == g0 && last == g0) silent[s - 1] = 1;
            last = g0;
            if (r.chance(20)) spin((unsigned) r.below(20000));
            if (r.chance(5)) { void* q = malloc(100 + r.below(5000)); sink = (uint64_t) q; free(q); }
        }
        t1 = now(); c = cpu() - cs;
        while (!st.empty()) { cali_end_region(rnames[st.back()]); st.pop_back(); ++events; p.resize(p.rfind('/')); path.push_back(p); vals.push_back(v); silent.push_back(0); c0.set(a_seq, Variant(cali_make_variant_from_uint(path.size() - 1))); }
    }
    unsigned last = 0;
};
static void one_case(uint64_t seed, const std::string& log) {
    Rng r(seed); Caliper c; gen = 0; c.set(a_tid, Variant(cali_make_variant_from_int(-2))); int freq = r.chance(60) ? 10000 : r.chance(50) ? 1000 + (int) r.below(4000) : 1 + (int) r.below(999); if (r.chance(8)) freq = 1;
    static const char* extra[] = { "", ",timer", ",timestamp", ",cpuinfo", ",alloc", ",timer,timestamp", ",pthread", ",statistics", ",memstat" };
    bool events = r.chance(50), toggles = r.chance(35), flushes = r.chance(35), agg = r.chance(25); std::string ex = extra[r.below(9)]; if (iarg("gotcha", 1) == 0 && ex == ",pthread") ex = "";
    int nthreads = (int) r.below(5), early = r.chance(30) ? 1 + (int) r.below(2) : 0; double dur = 0.02 + 0.001 * r.below(freq < 1000 ? 60 : 200); if (freq == 1) dur = 0.05;
    std::string what = ex + (events ? "|event" : "") + (toggles ? "|toggle" : "") + (flushes ? "|flush" : "") + (agg ? "|agg" : "") + "|" + std::to_string(nthreads) + "+" + std::to_string(early) + "|" + std::to_string(freq); kase(what + "/" + std::to_string(seed));
    // threads that used Caliper before the sampling channel existed
    std::atomic<int> ready { 0 }, go { 0 }; std::vector<std::unique_ptr<Worker>> ws; std::vector<std::thread> ts; double until = 0; std::atomic<double> until_a { 0 };
    for (int i = 0; i < early; ++i) { ws.emplace_back(new Worker(100 + i, mix(seed, 100 + i), false, 0)); Worker* w = ws.back().get(); ts.emplace_back([&, w] { Caliper t; t.set(a_tid, Variant(cali_make_variant_from_int(w->tid))); ++ready; while (!go) usleep(100); w->run(until_a, 2000000); }); }
    while (ready < early) usleep(100);
    std::string store = agg ? "aggregate" : "trace";
    KV cfg { { "CALI_SERVICES_ENABLE", "sampler," + store + ex + (events ? ",event" : "") }, { "CALI_SAMPLER_FREQUENCY", std::to_string(freq) }, { "CALI_TRACE_BUFFER_SIZE", "1" }, { "CALI_CHANNEL_FLUSH_ON_EXIT", "false" }, { "CALI_CHANNEL_CONFIG_CHECK", "false" } };
    if (agg) cfg["CALI_AGGREGATE_KEY"] = "vh.tid";
    double created = now(); cali_id_t id = cali::create_channel("sampling", 0, cfg); Channel ch = c.get_channel(id);
    if (!ch) { viol("c21:no-channel", what); return; }
    double start = now(); until = start + dur; until_a = until; go = 1;
    auto fill = [&](long n) { Caliper t; Entry e[1] = { Entry(a_fill, Variant(cali_make_variant_from_int(1))) }; for (long i = 0; i < n; ++i) t.push_snapshot(ch.body(), SnapshotView(1, e)); };
    for (int i = 0; i < nthreads; ++i) { ws.emplace_back(new Worker(i + 1, mix(seed, i + 1), true, !agg && r.chance(40) ? 30000 + (long) r.below(100000) : 0)); Worker* w = ws.back().get(); ts.emplace_back([&, w] { double t = now(); fill(w->fill); w->run(until_a.load() + (now() - t), 2000000); w->t0 = t; }); }
    std::atomic<bool> stop { false }; std::thread ctl; std::atomic<int> nshort { 0 };
    if (toggles) ctl = std::thread([&] { Rng q(mix(seed, 999)); Caliper t; t.set(a_tid, Variant(cali_make_variant_from_int(50))); while (!stop) { usleep(500 + (unsigned) q.below(5000)); t.deactivate_channel(ch); ++gen; usleep(500 + (unsigned) q.below(8000)); ++gen; t.activate_channel(ch); } });
    else if (flushes && !agg) ctl = std::thread([&] { Rng q(mix(seed, 998)); Caliper t; t.set(a_tid, Variant(cali_make_variant_from_int(50))); while (!stop) { usleep(500 + (unsigned) q.below(5000)); t.flush(ch.body(), SnapshotView(), [](cali::CaliperMetadataAccessInterface&, const std::vector<Entry>&) {}); } });
    else if (r.chance(40)) ctl = std::thread([&] { Rng q(mix(seed, 997)); while (!stop) { std::thread t([&] { Caliper u; u.set(a_tid, Variant(cali_make_variant_from_int(60))); cali_begin_region("short"); spin((unsigned) q.below(300000)); cali_end_region("short"); }); t.join(); ++nshort; } });
    ws.emplace_back(new Worker(0, mix(seed, 0), true, 0)); Worker* mainw = ws.back().get(); mainw->run(until, 2000000);
    for (auto& t : ts) t.join();
    stop = true; if (ctl.joinable()) ctl.join();
    if (!ch.is_active()) c.activate_channel(ch);
    mainw->t0 = created; mainw->t1 = now();
    // judge
    std::map<int, Worker*> by; for (auto& w : ws) by[w->tid] = w.get();
    std::map<int, long> nsamp, nev, lastseq, aggcnt; std::map<int, std::set<long>> seqs; long total = 0, fillers = 0; double flushed_at = now();
    Attribute pc = c.get_attribute("cali.sampler.pc"), cnt = c.get_attribute("count");
    c.flush(ch.body(), SnapshotView(), [&](cali::CaliperMetadataAccessInterface&, const std::vector<Entry>& rec) {
        bool sample = false, filler = false; int tid = -1; long seq = -1; uint64_t val = 0; std::string p; long n = 0;
        for (const Entry& e : rec) {
            if (e.is_reference()) { std::string s; for (const Node* q = e.node(); q && q->attribute() != CALI_INV_ID; q = q->parent()) if (q->attribute() == a_region.id()) s = "/" + q->data().to_string() + s; if (!s.empty()) p = s; }
            else if (e.attribute() == pc.id()) { sample = true; if (e.value().to_uint() < 4096) viol("c21:no-address", what); }
            else if (e.attribute() == a_tid.id()) tid = e.value().to_int(); else if (e.attribute() == a_seq.id()) seq = (long) e.value().to_uint(); else if (e.attribute() == a_val.id()) val = e.value().to_uint(); else if (e.attribute() == a_fill.id()) filler = true;
            else if (e.attribute() == cnt.id()) n = (long) e.value().to_uint();
        }
        if (agg) { aggcnt[tid] += n; return; }
        if (filler) { ++fillers; return; }
        if (!sample) { ++nev[tid]; return; }
        ++total; ++nsamp[tid];
        auto it = by.find(tid); if (it == by.end() || seq < 0) { stat("samples_outside_histories"); return; }
        Worker& w = *it->second; std::string where = what + " thread " + std::to_string(tid) + " after operation " + std::to_string(seq);
        if (!w.sampled) { viol("c21:sampled-other-thread", where); return; }
        if ((size_t) seq >= w.path.size()) { viol("c21:sample-from-nowhere", where); return; }
        size_t nx = std::min<size_t>(seq + 1, w.path.size() - 1);
        bool a = p == w.path[seq] && val == w.vals[seq], b = p == w.path[nx] && val == w.vals[nx];
        if (!a && !b) viol("c21:impossible-context-sampled", where + ": a sample shows " + p + " and " + std::to_string(val) + ", the thread was in " + w.path[seq] + " and " + std::to_string(w.vals[seq]) + ", then " + w.path[nx] + " and " + std::to_string(w.vals[nx]));
        if (lastseq.count(tid) && seq < lastseq[tid]) viol("c21:sample-order", where + ": recorded after a sample from operation " + std::to_string(lastseq[tid]));
        lastseq[tid] = seq; if (w.silent[seq]) viol("c21:sampled-while-inactive", where);
        fp((a && !b ? "before" : b && !a ? "after" : "quiet") + ex + (toggles ? "t" : "") + (flushes ? "f" : "") + "|" + std::to_string(std::min<size_t>(w.path[seq].size() / 8, 5)));
    });
    long silent = 0; for (auto& w : ws) for (char s : w->silent) silent += s; stat("intervals_known_inactive", silent);
    for (auto& w : ws) {
        long n = nsamp[w->tid]; double life = (w->tid == 0 ? flushed_at : w->t1) - (w->tid == 0 ? created : w->t0) + 0.002; stat("samples_checked", n); stat("operations", (long long) w->path.size());
        if (n > life * freq * 1.02 + 3) viol("c21:too-many-samples", what + " thread " + std::to_string(w->tid) + ": " + std::to_string(n) + " samples in " + std::to_string(life) + " s at " + std::to_string(freq) + " Hz");
        if (!agg && w->sampled && !toggles && !flushes && w->c > 0.02 && w->c * freq > 100 && n == 0) viol("c21:no-samples", what + " thread " + std::to_string(w->tid) + " has no samples in " + std::to_string(w->c) + " s of CPU time at " + std::to_string(freq) + " Hz");
        if (!agg && events && !toggles && !flushes && nev[w->tid] != w->events) viol("c21:events-lost", what + " thread " + std::to_string(w->tid) + ": " + std::to_string(nev[w->tid]) + " event records, " + std::to_string(w->events) + " events");
        if (agg && !toggles && events && aggcnt[w->tid] < w->events) viol("c21:events-lost", what + " thread " + std::to_string(w->tid) + ": " + std::to_string(aggcnt[w->tid]) + " aggregated records, " + std::to_string(w->events) + " events");
        if (agg && !events && w->sampled && aggcnt[w->tid] > life * freq * 1.02 + 3) viol("c21:too-many-samples", what + " aggregated " + std::to_string(aggcnt[w->tid]));
    }
    long expfill = 0; for (auto& w : ws) expfill += w->fill; if (!agg && !toggles && !flushes && fillers != expfill) viol("c21:events-lost", what + ": " + std::to_string(fillers) + " of " + std::to_string(expfill) + " pushed snapshots recorded");
    stat("samples", total); stat("short_threads", nshort.load()); if (agg) for (auto& x : aggcnt) stat("aggregated", x.second);
    // delete the channel while other threads are being sampled, but aren't using the library otherwise
    std::atomic<bool> stop2 { false }; std::atomic<int> up { 0 }; std::vector<std::thread> bg; int nbg = (int) r.below(4);
    for (int i = 0; i < nbg; ++i) bg.emplace_back([&] { Caliper t; t.set(a_tid, Variant(cali_make_variant_from_int(70))); cali_begin_region("bg"); ++up; while (!stop2) { spin(2000); } cali_end_region("bg"); });
    while (up < nbg) usleep(50);
    usleep((unsigned) r.below(3000)); ch = Channel(); cali_delete_channel(id);
    spin(200000); usleep(500); stop2 = true; for (auto& t : bg) t.join(); stat("deleted_with_sampled_threads", nbg > 0);
    std::string l = slurp(log); if (!l.empty()) { viol("c21:error-message", what + ": " + l.substr(0, 300)); if (FILE* f = fopen(log.c_str(), "w")) fclose(f); }
}
int main(int argc, char** argv) {
    init(argc, argv); std::string log = sarg("log", "/tmp/none"); { FILE* f = fopen(log.c_str(), "w"); if (f) fclose(f); }
    cali_config_set("CALI_CHANNEL_FLUSH_ON_EXIT", "false"); cali_config_set("CALI_LOG_LOGFILE", log.c_str()); cali_config_set("CALI_LOG_VERBOSITY", "0"); cali_init(); Caliper c;
    int p = CALI_ATTR_ASVALUE | CALI_ATTR_SKIP_EVENTS; a_tid = c.create_attribute("vh.tid", CALI_TYPE_INT, p); a_seq = c.create_attribute("vh.seq", CALI_TYPE_UINT, p); a_fill = c.create_attribute("vh.fill", CALI_TYPE_INT, p); a_val = c.create_attribute("vh.val", CALI_TYPE_UINT, p); a_region = c.create_attribute("region", CALI_TYPE_STRING, CALI_ATTR_NESTED);
    if (A().kv.count("final")) {   // the program ends while its threads are sampled
        uint64_t seed = iarg("seed", 1); Rng r(seed); int n = 1 + (int) r.below(4); std::string out = sarg("final", "");
        cali::create_channel("sampling", 0, KV { { "CALI_SERVICES_ENABLE", r.chance(50) ? "sampler,trace,recorder" : "sampler,aggregate,recorder" }, { "CALI_SAMPLER_FREQUENCY", "10000" }, { "CALI_RECORDER_FILENAME", out }, { "CALI_CHANNEL_FLUSH_ON_EXIT", "true" }, { "CALI_CHANNEL_CONFIG_CHECK", "false" } });
        for (int i = 0; i < n; ++i) std::thread([i] { Caliper t; t.set(a_tid, Variant(cali_make_variant_from_int(i + 1))); cali_begin_region("worker"); for (;;) spin(1000); }).detach();
        c.set(a_tid, Variant(cali_make_variant_from_int(0))); cali_begin_region("main"); double t = now() + 0.01 + 0.001 * r.below(40); while (now() < t) spin(1000); cali_end_region("main");
        return 0;
    }
    int from = (int) iarg("from", 0), to = (int) iarg("to", 1); uint64_t seed = iarg("seed", 1);
    if (uint64_t one = iarg("case", 0)) { one_case(one, log); done(); return 0; }
    long long until = iarg("until", 0);
    for (int i = from; i < to && (until == 0 || time(nullptr) < until); ++i) { alarm(120); one_case(mix(seed, i) % 1000000007 + 1, log); alarm(0); }
    done(); return 0;
}
