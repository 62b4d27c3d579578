// C16: a whole program run driven by a script: initialization, finalization, threads and channels in any order.
// Every operation is logged (with the initialization state before and after it) for the offline checker.
#include <caliper/Annotation.h>
#include <caliper/AsyncEvent.h>
#include <caliper/Caliper.h>
#include <caliper/RegionProfile.h>
#include <caliper/ConfigManager.h>
#include <caliper/cali.h>
#include <fcntl.h>
#include <pthread.h>
#include <atomic>
#include <cstring>
#include <unistd.h>
#include <condition_variable>
#include <fstream>
#include <map>
#include <mutex>
#include <sstream>
#include <string>
#include <thread>
#include <vector>
typedef std::vector<std::string> Op;
typedef std::map<std::string, std::string> KV;

static int logfd = -1;
static void logline(const std::string& s) { std::string t = s + "\n"; if (write(logfd, t.data(), t.size()) < 0) _exit(9); }
static int state() { return cali_is_initialized(); }

static void mark(int n) {
    int s0 = state(); cali_id_t a = cali_create_attribute("vh.mark", CALI_TYPE_INT, CALI_ATTR_ASVALUE | CALI_ATTR_SKIP_EVENTS); cali_variant_t v = cali_make_variant_from_int(n);
    int s1 = state(); cali_push_snapshot(CALI_SCOPE_THREAD | CALI_SCOPE_PROCESS, 1, &a, &v);
    logline("mark " + std::to_string(n) + " " + std::to_string(s0) + " " + std::to_string(s1));
}
struct TlsMark { int n = -1; ~TlsMark() { if (n >= 0) { cali_begin_region("in-tls-destructor"); mark(n); cali_end_region("in-tls-destructor"); } } };
static thread_local TlsMark tls1;

struct World {   // never destroyed
    std::mutex m; std::condition_variable cv;
    struct Worker { Op op; bool busy = false, quit = false; std::thread th; };
    std::map<int, Worker*> workers; std::map<int, cali_id_t> chn; std::map<int, cali::ConfigManager*> mgr; std::vector<Op> fini; std::vector<Op> atx;
};
static World* W = nullptr;
struct StaticMgrs { cali::ConfigManager a, b; };
static cali::ConfigManager* static_mgr(int k) { static StaticMgrs s; return k ? &s.b : &s.a; }

// everything a program can call; none of it may have any effect after finalization
static void everything(int t) {
    cali_id_t a = cali_create_attribute(("late." + std::to_string(t)).c_str(), CALI_TYPE_INT, CALI_ATTR_ASVALUE), b = cali_create_attribute("late.s", CALI_TYPE_STRING, CALI_ATTR_DEFAULT);
    cali_find_attribute("late.s"); cali_attribute_name(a); cali_attribute_type(a); cali_attribute_properties(a); cali_attribute_name(0); cali_attribute_type(8); cali_attribute_name(12);
    cali_begin_int(a, 1); cali_begin_string(b, "x"); cali_begin_double(b, 1); cali_begin(a); cali_set_int(a, 2); cali_set_string(b, "y"); cali_set_double(a, 2); cali_end(a); cali_end(b);
    cali_begin_region("late"); cali_end_region("late"); cali_begin_phase("late"); cali_end_phase("late"); cali_begin_comm_region("late"); cali_end_comm_region("late");
    cali_begin_byname("late.b"); cali_begin_int_byname("late.i", 1); cali_begin_double_byname("late.d", 1); cali_begin_string_byname("late.n", "s"); cali_set_int_byname("late.i", 1); cali_set_double_byname("late.d", 1); cali_set_string_byname("late.n", "s"); cali_end_byname("late.b"); cali_end_byname("late.n"); cali_end_byname("never");
    cali_set_global_int_byname("late.gi", 1); cali_set_global_double_byname("late.gd", 1); cali_set_global_string_byname("late.gs", "g"); cali_set_global_uint_byname("late.gu", 1);
    cali_id_t meta[1] = { a }; cali_variant_t mv[1] = { cali_make_variant_from_int(1) }; cali_create_attribute_with_metadata("late.m", CALI_TYPE_INT, CALI_ATTR_DEFAULT, 1, meta, mv);
    cali_id_t la = cali_make_loop_iteration_attribute("late"); cali_begin_int(la, 0); cali_end(la);
    cali_push_snapshot(CALI_SCOPE_THREAD, 1, meta, mv); cali_channel_push_snapshot(0, CALI_SCOPE_THREAD, 1, meta, mv); unsigned char buf[400]; size_t n = cali_channel_pull_snapshot(0, CALI_SCOPE_THREAD | CALI_SCOPE_PROCESS, sizeof buf, buf);
    if (n && n <= sizeof buf) { size_t rd = 0; cali_unpack_snapshot(buf, &rd, [](void*, cali_id_t, cali_variant_t) { return 1; }, nullptr); cali_find_first_in_snapshot(buf, a, &rd); cali_find_all_in_snapshot(buf, a, &rd, [](void*, cali_id_t, cali_variant_t) { return 1; }, nullptr); }
    cali_get(a); cali_channel_get(0, a);
    cali_configset_t cs = cali_create_configset(nullptr); cali_configset_set(cs, "CALI_SERVICES_ENABLE", "event,trace,recorder"); cali_configset_set(cs, "CALI_RECORDER_FILENAME", "late.cali");
    cali_id_t ch = cali_create_channel("late", 0, cs); cali_delete_configset(cs); cali_activate_channel(ch); cali_channel_is_active(ch); cali_begin_region("late2"); cali_end_region("late2"); cali_deactivate_channel(ch); cali_channel_flush(ch, CALI_FLUSH_CLEAR_BUFFERS); cali_delete_channel(ch);
    cali_activate_channel(0); cali_deactivate_channel(0); cali_channel_is_active(0); cali_flush(0); cali_channel_flush(0, 0); { std::ostringstream os; cali::write_report_for_query(0, "select *", 0, os); cali::write_report_for_query(ch, "select *", 0, os); }
    cali_config_preset("CALI_LATE", "1"); cali_config_set("CALI_LATE", "2"); cali_config_allow_read_env(1);
    cali_caliper_version(); cali_init(); cali_is_initialized();
    cali::Annotation("late.a").begin(1).end(); cali::Annotation("late.a").set("x"); { cali::Annotation::Guard g(cali::Annotation("late.g").begin("v")); } { cali::ScopeAnnotation s("late.sa"); } { cali::Function f("late.f"); } { cali::Loop l("late.l"); for (int i = 0; i < 2; ++i) { auto it = l.iteration(i); } } cali_get_current_region_or("none"); { int64_t v = 3; cali_set(a, &v, sizeof v); } cali::RegionProfile rp; rp.start(); cali_begin_region("late.rp"); cali_end_region("late.rp"); rp.stop(); rp.inclusive_region_times(); rp.exclusive_region_times(); rp.clear(); cali::TimedAsyncEvent::begin("late.async").end();
    { cali::ConfigManager m("event-trace(output=late3.cali),runtime-report(output=late4.txt,calc.inclusive)"); m.start(); cali_begin_region("late5"); cali_end_region("late5"); m.stop(); m.flush(); m.get_all_channels(); }
    { cali::ConfigManager m; m.add("nothing like this"); m.check("runtime-report"); m.start(); m.flush(); }
    { auto cc = cali::create_channel("late6", 0, KV { { "CALI_SERVICES_ENABLE", "aggregate,report" }, { "CALI_REPORT_FILENAME", "late6.txt" } }); cali_channel_flush(cc, 0); cali_delete_channel(cc); }
    { cali::Caliper c; if (c) logline("alive"); }
}

static void worker_loop(int id);
static void run_script(int self);
static std::atomic<int> exiter { 0 }; static std::atomic<bool> ever { false };
// wait until the main thread has ended (it is a zombie then)
static void wait_main() { for (;;) { char p[64], b[512]; snprintf(p, sizeof p, "/proc/self/task/%d/stat", (int) getpid()); FILE* f = fopen(p, "r"); size_t n = f ? fread(b, 1, sizeof b - 1, f) : 0; if (f) fclose(f); b[n] = 0; const char* q = strrchr(b, ')'); if (!q || q[2] == 'Z') return; usleep(200); } }
static bool dispatch(int t, const Op& op, bool wait);
static KV kvs(const Op& f, size_t i) { KV kv; for (; i + 1 < f.size(); i += 2) kv[f[i]] = f[i + 1]; return kv; }

static void counters(int k, cali_id_t id, bool early) {   // observe deliveries from inside
    cali::Caliper c; if (!c) return; cali::Channel ch = c.get_channel(id); if (!ch) return; (void) early;
    ch.events().write_output_evt.connect([k](cali::Caliper*, cali::ChannelBody*, cali::SnapshotView) { logline("written " + std::to_string(k)); });
    ch.events().finish_evt.connect([k](cali::Caliper*, cali::Channel*) { logline("finished " + std::to_string(k)); });
}
static void execute(int t, const Op& f) {
    const std::string& o = f[0]; auto I = [&](size_t i) { return atoi(f[i].c_str()); };
    int s0 = state(); if (s0 || o == "release") ever = true;
    if (o == "mark") { mark(I(1)); return; }
    else if (o == "marks") { for (int i = 0; i < I(2); ++i) mark(I(1) + i); return; }
    else if (o == "init") cali_init();
    else if (o == "region") { cali_begin_region(f[1].c_str()); }
    else if (o == "endregion") { cali_end_region(f[1].c_str()); }
    else if (o == "tls") tls1.n = I(1);
    else if (o == "release") cali::Caliper::release();
    else if (o == "state") {}
    else if (o == "everything") { if (s0 == 0 && ever) everything(t); }
    else if (o == "config") cali_config_set(f[1].c_str(), f[2].c_str());
    else if (o == "newchan") { int k = I(1); auto id = cali::create_channel(f[3].c_str(), I(2), kvs(f, 4)); W->chn[k] = id; counters(k, id, true); }
    else if (o == "activate") cali_activate_channel(W->chn[I(1)]);
    else if (o == "deactivate") cali_deactivate_channel(W->chn[I(1)]);
    else if (o == "flush") cali_channel_flush(W->chn[I(1)], I(2));
    else if (o == "clear") { cali::Caliper c; if (c) { auto ch = c.get_channel(W->chn[I(1)]); if (ch) c.clear(&ch); } }
    else if (o == "delete") cali_delete_channel(W->chn[I(1)]);
    else if (o == "defflush") cali_flush(I(1));
    else if (o == "newmgr") { int k = I(1); cali::ConfigManager* m = f[2] == "static" ? static_mgr(k % 2) : new cali::ConfigManager; W->mgr[k] = m; m->add(f[3].c_str()); if (m->error()) logline("mgr-error " + m->error_msg()); }
    else if (o == "startmgr") { W->mgr[I(1)]->start(); if (f.size() > 2) for (auto& c : W->mgr[I(1)]->get_all_channels()) if (c->channel()) counters(1000 + I(1), c->channel().id(), false); }
    else if (o == "stopmgr") W->mgr[I(1)]->stop();
    else if (o == "flushmgr") W->mgr[I(1)]->flush();
    else if (o == "delmgr") { delete W->mgr[I(1)]; W->mgr.erase(I(1)); }
    else if (o == "start") { int k = I(1); auto* w = new World::Worker; W->workers[k] = w; w->th = std::thread(worker_loop, k); }
    else if (o == "join") { int k = I(1); auto* w = W->workers[k]; { std::lock_guard<std::mutex> g(W->m); w->quit = true; } W->cv.notify_all(); w->th.join(); W->workers.erase(k); delete w; }
    else if (o == "par") {   // par first-mark n-threads n-marks: free-running threads that come and go
        std::vector<std::thread> ts; int first = I(1), nt = I(2), nm = I(3);
        cali_create_attribute("vh.mark", CALI_TYPE_INT, CALI_ATTR_ASVALUE | CALI_ATTR_SKIP_EVENTS);   // aggregation keys must exist before several threads use them
        for (int i = 0; i < nt; ++i) ts.emplace_back([=] { for (int j = 0; j < nm; ++j) { cali_begin_region("par"); mark(first + i * nm + j); cali_end_region("par"); } });
        for (auto& x : ts) x.join();
    }
    else if (o == "atexit") { W->atx.push_back(Op(f.begin() + 1, f.end())); atexit([] { Op x = W->atx.back(); W->atx.pop_back(); execute(-1, x); }); }
    else if (o == "fini") { W->fini.push_back(Op(f.begin() + 1, f.end())); }
    else if (o == "exit") { exiter = t; logline("exiting " + std::to_string(t)); exit(0); }
    else if (o == "_exit") { logline("exiting " + std::to_string(t)); _exit(0); }
    else if (o == "drive") { wait_main(); logline("main-ended " + std::to_string(state())); run_script(t); logline("driver-ended"); exiter = t; exit(0); }
    else if (o == "pthread_exit") { logline("exiting " + std::to_string(t)); dispatch(I(1), Op { "drive" }, false); pthread_exit(nullptr); }
    else { logline("unknown op " + o); _exit(8); }
    std::string s; for (auto& x : f) s += (s.empty() ? "" : "\t") + x; logline("op " + std::to_string(t) + " " + std::to_string(s0) + " " + std::to_string(state()) + " " + s);
}
static void worker_loop(int id) {
    for (;;) {
        Op op; { std::unique_lock<std::mutex> g(W->m); auto* w = W->workers[id]; W->cv.wait(g, [&] { return w->busy || w->quit; }); if (!w->busy) break; op = w->op; }
        execute(id, op);
        { std::lock_guard<std::mutex> g(W->m); W->workers[id]->busy = false; } W->cv.notify_all();
    }
}
static std::vector<std::pair<int, Op>> script; static size_t pos = 0;
static bool dispatch(int t, const Op& op, bool wait) {
    World::Worker* w; { std::lock_guard<std::mutex> g(W->m); auto it = W->workers.find(t); if (it == W->workers.end()) return false; w = it->second; w->op = op; w->busy = true; }
    W->cv.notify_all(); if (wait) { std::unique_lock<std::mutex> g(W->m); W->cv.wait(g, [&] { return !w->busy; }); } return true;
}
static bool isend(const Op& o) { return o[0] == "exit" || o[0] == "_exit" || o[0] == "pthread_exit"; }
static void run_script(int self) {
    for (; pos < script.size(); ++pos) {
        auto& p = script[pos];
        if (p.first == self) { if (isend(p.second)) ++pos; execute(self, p.second); if (isend(p.second)) return; }
        else if (isend(p.second)) { ++pos; dispatch(p.first, p.second, false); for (;;) pause(); }
        else dispatch(p.first, p.second, true);
    }
}
static void run_fini(const char* where) { for (auto& op : W->fini) { if (op[0] != where) continue; int t = atoi(op[1].c_str()); Op o(op.begin() + 2, op.end()); if (t == 0 || t == exiter) execute(-1, o); else dispatch(t, o, true); } }
struct Static {
    Static() {
        logfd = open("log.txt", O_WRONLY | O_CREAT | O_APPEND, 0644); W = new World; std::ifstream is("script.txt");
        for (std::string l; std::getline(is, l);) { if (l.empty()) continue; Op f; size_t p = 0; for (;;) { size_t q = l.find('\t', p); f.push_back(l.substr(p, q == std::string::npos ? q : q - p)); if (q == std::string::npos) break; p = q + 1; } int t = atoi(f[0].c_str()); f.erase(f.begin()); if (t == -2) execute(0, f); else script.emplace_back(t, f); }
    }
    ~Static() { run_fini("static"); }
};
static Static st;
__attribute__((destructor)) static void last() { run_fini("library"); logline("end " + std::to_string(state())); }
int main() { run_script(0); logline("returning"); return 0; }
