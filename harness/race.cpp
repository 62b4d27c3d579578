// Concurrent use of the whole annotation API (for ThreadSanitizer), and identity of attributes and nodes
#include "val.h"
#include <caliper/cali.h>
#include <caliper/cali_datatracker.h>
#include <caliper/Annotation.h>
#include <caliper/AsyncEvent.h>
#include <caliper/Caliper.h>
#include <caliper/cali_macros.h>
#include <caliper/ConfigManager.h>
#include <fcntl.h>
#include <pthread.h>
#include <thread>
#include <unistd.h>
#include <x86intrin.h>
using namespace vh;

enum Kind { K_REGION, K_PHASE, K_BYNAME, K_ANNOT, K_FUNC, K_LOOP, K_SET, K_SETPROC, K_GLOBAL, K_MKATTR, K_MKMETA, K_LOOKUP, K_PULL, K_PUSH, K_GET, K_TRACK, K_ASYNC, K_ALLOC, K_IO, K_PTHREAD, K_START, K_EXIT, K_ACT, K_QUERY, K_NODES, K_RING, K_FLUSH, NK };
static const char* kname[NK] = { "region", "phase", "byname", "annotation", "function", "loop", "set", "set-process", "global", "create-attribute", "create-with-metadata", "lookup", "pull", "push", "get", "track", "async", "alloc", "io", "pthread", "first-use", "exit", "activate", "query-channel", "nodes", "macros", "flush" };
struct Span { uint64_t a, b; int k; };
struct Made { std::string name; cali_id_t id; cali_attr_type type; int prop; std::string meta = std::string(); };
struct Log { std::vector<Span> s; std::vector<Made> made; std::map<std::string, std::vector<cali_id_t>> nodes; };
struct Timed { Log& l; int k; uint64_t a; Timed(Log& l, int k) : l(l), k(k), a(__rdtsc()) {} ~Timed() { l.s.push_back({ a, __rdtsc(), k }); } };

static const char* names[] = { "main", "foo", "bar", "work", "io", "solve", "assemble", "a/b", "x,y" };
static std::vector<cali_id_t> chans;
static std::atomic<int> ready { 0 }; static std::atomic<bool> stop { false };
static int g_scope = CALI_ATTR_DEFAULT;

static void fn_marked(Rng& r, int d) { CALI_CXX_MARK_FUNCTION; if (d > 0 && r.chance(50)) fn_marked(r, d - 1); }
static void macros(Rng& r) { CALI_MARK_FUNCTION_BEGIN; CALI_MARK_BEGIN("macro region"); CALI_MARK_LOOP_BEGIN(lp, "macro loop"); for (int i = 0; i < (int) r.below(3); ++i) { CALI_MARK_ITERATION_BEGIN(lp, i); CALI_MARK_ITERATION_END(lp); } CALI_MARK_LOOP_END(lp); CALI_WRAP_STATEMENT("stmt", (void) r.next()); CALI_MARK_END("macro region"); CALI_MARK_FUNCTION_END; }
static void ptdummy(Rng& r) { pthread_t t; if (pthread_create(&t, nullptr, [](void* p) -> void* { cali_begin_region("in pthread"); cali_end_region("in pthread"); return p; }, &r) == 0) { void* x = nullptr; pthread_join(t, &x); if (x != &r) viol("c13:pthread-result", "the start routine's argument or result changed"); } }

static void op(Rng& r, Log& l, int tid, int k, int depth);
static void some(Rng& r, Log& l, int tid, int n, int depth) { for (int i = 0; i < n; ++i) op(r, l, tid, (int) r.below(K_START), depth); }
static void op(Rng& r, Log& l, int tid, int k, int depth) {
    if (depth > 4) return;
    switch (k) {
    case K_REGION: { const char* n = names[r.below(9)]; { Timed t(l, k); if (r.chance(30)) cali_begin_comm_region(n); else { cali_begin_region(n); if (r.chance(50)) some(r, l, tid, 2, depth + 1); cali_end_region(n); return; } } some(r, l, tid, 1, depth + 1); cali_end_comm_region(n); break; }
    case K_PHASE: { Timed t(l, k); cali_begin_phase("phase"); cali_end_phase("phase"); break; }
    case K_BYNAME: { Timed t(l, k); std::string n = fmt("byname.%d", (int) r.below(6)); cali_begin_int_byname(n.c_str(), 42); cali_set_int_byname(n.c_str(), 17); cali_end_byname(n.c_str()); cali_begin_string_byname((n + "s").c_str(), "v"); cali_end_byname((n + "s").c_str()); break; }
    case K_ANNOT: { Timed t(l, k); Annotation a(fmt("annot.%d", (int) r.below(5)).c_str(), r.chance(40) ? CALI_ATTR_ASVALUE : CALI_ATTR_DEFAULT); a.begin(r.range(0, 5)); a.set(3); Annotation b(a); b.end(); static Annotation shared("shared.annotation"); shared.begin("x"); shared.end(); Annotation::Guard g(Annotation("guard").begin(4.2)); break; }
    case K_FUNC: { Timed t(l, k); fn_marked(r, 2); break; }
    case K_RING: { Timed t(l, k); macros(r); break; }
    case K_LOOP: { Timed t(l, k); cali::Loop lp(r.chance(50) ? "loop a" : "loop b"); int n = (int) r.below(4); for (int i = 0; i < n; ++i) { cali::Loop::Iteration it(lp.iteration(i)); if (r.chance(30)) { cali_begin_region("in loop"); cali_end_region("in loop"); } } break; }
    case K_SET: { Timed t(l, k); cali_id_t a = cali_create_attribute(fmt("set.%d", (int) r.below(4)).c_str(), CALI_TYPE_INT, CALI_ATTR_ASVALUE | CALI_ATTR_UNALIGNED); cali_set_int(a, (int) r.below(10)); break; }
    case K_SETPROC: { Timed t(l, k); cali_id_t a = cali_create_attribute("proc.str", CALI_TYPE_STRING, CALI_ATTR_SCOPE_PROCESS | CALI_ATTR_UNALIGNED); cali_set_string(a, names[r.below(9)]); cali_id_t b = cali_create_attribute("proc.val", CALI_TYPE_INT, CALI_ATTR_SCOPE_PROCESS | CALI_ATTR_ASVALUE | CALI_ATTR_UNALIGNED); cali_set_int(b, tid);
        if (!chans.empty() && r.chance(50)) { // entries of one channel only
            Caliper c; Channel ch = c.get_channel(r.pick(chans)); if (!ch) break; ChannelBody* cb = ch.body(); Attribute ca = c.create_attribute(fmt("chan.%d", tid), CALI_TYPE_STRING, CALI_ATTR_UNALIGNED), cv = c.create_attribute("chan.val", CALI_TYPE_INT, CALI_ATTR_ASVALUE | CALI_ATTR_UNALIGNED);
            c.begin(cb, ca, Variant(names[r.below(9)])); c.set(cb, cv, Variant(tid)); c.get(cb, ca); if (r.chance(30)) c.push_snapshot(cb, SnapshotView()); c.end(cb, ca); } break; }
    case K_GLOBAL: { Timed t(l, k); std::string n = fmt("glob.%d", (int) r.below(4)); if (r.chance(50)) cali_set_global_int_byname(n.c_str(), (int) r.below(100)); else cali_set_global_string_byname((n + "s").c_str(), names[r.below(9)]); cali_set_global_uint_byname("glob.u", r.next()); cali_set_global_double_byname("glob.d", 1.5); break; }
    case K_MKATTR: { Timed t(l, k); int j = (int) r.below(60); static const cali_attr_type ty[] = { CALI_TYPE_INT, CALI_TYPE_UINT, CALI_TYPE_STRING, CALI_TYPE_DOUBLE, CALI_TYPE_BOOL }; static const int pr[] = { CALI_ATTR_DEFAULT, CALI_ATTR_ASVALUE, CALI_ATTR_NESTED, CALI_ATTR_UNALIGNED, CALI_ATTR_SCOPE_PROCESS, CALI_ATTR_HIDDEN };
        // the same name may be requested with different properties: the first one counts for all
        std::string n = r.chance(15) ? fmt("own.%d.%llx", tid, (unsigned long long) r.next()) : fmt("attr.%d", j); cali_attr_type t2 = ty[r.below(5)]; int p2 = pr[r.below(6)];
        cali_id_t id = cali_create_attribute(n.c_str(), t2, p2); l.made.push_back({ n, id, cali_attribute_type(id), cali_attribute_properties(id) }); break; }
    case K_MKMETA: { Timed t(l, k); Caliper c; Attribute m = c.create_attribute("meta.int", CALI_TYPE_INT, CALI_ATTR_SKIP_EVENTS), m2 = c.create_attribute("meta.str", CALI_TYPE_STRING, CALI_ATTR_SKIP_EVENTS); Attribute ma[2] = { m, m2 }; Variant mv[2] = { Variant((int) r.below(3)), Variant("meta value") };
        std::string n = fmt("withmeta.%d", (int) r.below(20)); Attribute a = c.create_attribute(n, CALI_TYPE_INT, CALI_ATTR_ASVALUE, 2, ma, mv); l.made.push_back({ n, a.id(), a.type(), a.properties() }); if (a.get(m).empty()) viol("c14:metadata", "metadata of " + n + " is missing"); break; }
    case K_LOOKUP: { Timed t(l, k); cali_id_t id = cali_find_attribute(fmt("attr.%d", (int) r.below(60)).c_str()); if (id != CALI_INV_ID) { const char* n = cali_attribute_name(id); if (!n || strncmp(n, "attr.", 5)) viol("c14:name", "attribute found by name has another name"); cali_attribute_type(id); cali_attribute_properties(id); }
        Caliper c; if (r.chance(20)) for (auto& a : c.get_all_attributes()) if (!a || !a.name_c_str()) viol("c14:list", "invalid attribute in the list of attributes"); 
        cali_attribute_name(r.below(60)); Node* nd = c.node(r.below(60)); if (nd && nd->attribute() != CALI_INV_ID) { Attribute a = c.get_attribute(nd->attribute()); if (!a) viol("c14:dangling", "node of an unknown attribute"); } break; }
    case K_PULL: { Timed t(l, k); std::vector<unsigned char> b(8000); size_t n = cali_channel_pull_snapshot(chans.empty() ? 0 : r.pick(chans), CALI_SCOPE_PROCESS | CALI_SCOPE_THREAD, b.size(), b.data()); if (n && n <= b.size()) { size_t rd = 0; cali_unpack_snapshot(b.data(), &rd, [](void*, cali_id_t a, cali_variant_t) { cali_attribute_name(a); return 1; }, nullptr); } break; }
    case K_PUSH: { Timed t(l, k); cali_id_t a = cali_create_attribute("push.attr", CALI_TYPE_INT, CALI_ATTR_ASVALUE); cali_variant_t v = cali_make_variant_from_int(tid); if (r.chance(50) || chans.empty()) cali_push_snapshot(CALI_SCOPE_PROCESS | CALI_SCOPE_THREAD, 1, &a, &v); else cali_channel_push_snapshot(r.pick(chans), CALI_SCOPE_PROCESS | CALI_SCOPE_THREAD, 1, &a, &v); break; }
    case K_GET: { Timed t(l, k); cali_id_t a = cali_find_attribute("proc.val"); if (a != CALI_INV_ID) cali_get(a); a = cali_find_attribute("set.1"); if (a != CALI_INV_ID) { cali_get(a); if (!chans.empty()) cali_channel_get(r.pick(chans), a); } cali_get_current_region_or("none"); break; }
    case K_TRACK: { Timed t(l, k); char* p = new char[256]; if (r.chance(50)) cali_datatracker_track(p, "arr", 256); else { size_t d[2] = { 8, 8 }; cali_datatracker_track_dimensional(p, "arr2", 4, d, 2); } cali_begin_region("touch"); cali_end_region("touch"); cali_datatracker_untrack(p); delete[] p; break; }
    case K_ASYNC: { Timed t(l, k); TimedAsyncEvent e(TimedAsyncEvent::begin(names[r.below(9)])); if (r.chance(30)) cali_push_snapshot(CALI_SCOPE_THREAD, 0, nullptr, nullptr); e.end(); break; }
    case K_ALLOC: { Timed t(l, k); void* p = malloc(16 + r.below(5000)); p = realloc(p, 32 + r.below(9000)); void* q = calloc(r.below(50), 8); free(p); free(q); break; }
    case K_IO: { Timed t(l, k); std::string n = fmt("io.%d.%d", tid, (int) r.below(2)); int fd = open(n.c_str(), O_CREAT | O_RDWR | O_TRUNC, 0644); if (fd >= 0) { char b[300]; memset(b, 'x', sizeof b); if (write(fd, b, sizeof b) != sizeof b) viol("c13:write", "short write"); lseek(fd, 0, SEEK_SET); if (read(fd, b, sizeof b) != sizeof b || b[7] != 'x') viol("c13:read", "short read"); close(fd); } unlink(n.c_str()); break; }
    case K_PTHREAD: { if (!r.chance(30)) return; Timed t(l, k); ptdummy(r); break; }
    case K_NODES: { Timed t(l, k); Caliper c; break; }
    default: { Timed t(l, K_NODES); Caliper c; Attribute a = c.create_attribute("node.attr", CALI_TYPE_STRING, CALI_ATTR_DEFAULT); Node* n = nullptr; std::string s; for (int i = 0; i < 3; ++i) { std::string v = fmt("v%d", (int) r.below(3)); s += "/" + v; n = c.make_tree_entry(a, Variant(v.c_str()), n); if (!n || n->data().to_string() != v || n->attribute() != a.id() || c.node(n->id()) != n) { viol("c14:node", "node for " + s + " is wrong"); return; } } l.nodes[s].push_back(n->id()); break; }
    }
}
static void worker(uint64_t seed, int tid, int nops, bool first, Log* l, int nth) {
    Rng r(mix(seed, tid + 100));
    if (first) { ready.fetch_add(1, std::memory_order_relaxed); while (ready.load(std::memory_order_relaxed) < nth) {} Timed t(*l, K_START); op(r, *l, tid, (int) r.below(K_START), 0); }
    for (int i = 0; i < nops; ++i) op(r, *l, tid, (int) r.below(K_START + 4), 0);
    if (r.chance(30)) { // a thread of its own started and ended by this one
        Log l2; std::thread t([&] { Rng r2(mix(seed, tid + 1000)); for (int i = 0; i < 5; ++i) op(r2, l2, tid + 50, (int) r2.below(K_START), 0); }); t.join();
        for (auto& s : l2.s) l->s.push_back(s); for (auto& m : l2.made) l->made.push_back(m);
    }
    l->s.push_back({ __rdtsc(), __rdtsc() + 200000, K_EXIT });
}
// Identity under contention: all threads ask for the same new names at the same moment; contexts
// captured at any time keep their meaning
struct Seen { std::vector<std::pair<cali_id_t, std::string>> path; cali_id_t id; };
static std::atomic<long> turn { 0 };
static void barrier(long n, int nth) { turn.fetch_add(1); while (turn.load() < n * nth) {} }
static std::string pathof(Caliper& c, Node* n) { std::string s; for (; n && n->attribute() != CALI_INV_ID; n = n->parent()) s = fmt("/%llu=", (unsigned long long) n->attribute()) + n->data().to_string() + s; return s; }
static void ident(uint64_t seed, int wave, int tid, int nth, int rounds, Log* l, std::vector<std::pair<cali_id_t, std::string>>* seen) {
    Rng r(mix(seed, tid + 100)); Caliper* cp = nullptr; std::vector<std::string> open; Rng shared(mix(seed, 5));
    static const cali_attr_type ty[] = { CALI_TYPE_INT, CALI_TYPE_UINT, CALI_TYPE_STRING, CALI_TYPE_DOUBLE, CALI_TYPE_BOOL, CALI_TYPE_ADDR };
    static const int pr[] = { CALI_ATTR_DEFAULT, CALI_ATTR_ASVALUE, CALI_ATTR_NESTED, CALI_ATTR_UNALIGNED, CALI_ATTR_SCOPE_PROCESS, CALI_ATTR_HIDDEN, CALI_ATTR_SKIP_EVENTS, CALI_ATTR_GLOBAL };
    cali_id_t reg = CALI_INV_ID;
    for (int i = 0; i < rounds; ++i) {
        // what is asked for: the same name for all threads, everything else each thread's own idea
        int burst = 1 + (int) shared.below(4); std::vector<std::string> names;
        for (int j = 0; j < burst; ++j) names.push_back(shared.chance(25) ? fmt("%d:%d:%s", wave, i, shared.chance(50) ? "" : std::string(shared.below(300), 'n').c_str()) : shared.chance(30) ? fmt("old.%d", (int) shared.below(20)) : fmt("new.%d.%d.%d", wave, i, j));
        barrier(i + 1, nth);
        if (r.chance(30)) for (int k = (int) r.below(2000); k > 0; --k) asm volatile("");
        if (!cp) cp = new Caliper; Caliper& c = *cp;
        if (r.chance(30)) std::reverse(names.begin(), names.end());
        for (auto& n : names) {
            cali_attr_type t = ty[r.below(6)]; int p = pr[r.below(8)]; Attribute a; Timed tm(*l, K_MKATTR);
            int how = (int) r.below(4);
            if (how == 0) a = c.get_attribute(cali_create_attribute(n.c_str(), t, p));
            else if (how == 1) { Attribute m = c.create_attribute("identity.meta", CALI_TYPE_INT, CALI_ATTR_DEFAULT); Variant v(tid); a = c.create_attribute(n, t, p, 1, &m, &v); }
            else if (how == 2) { cali_id_t m = cali_create_attribute("identity.meta", CALI_TYPE_INT, CALI_ATTR_DEFAULT); cali_variant_t v = cali_make_variant_from_int(tid); a = c.get_attribute(cali_create_attribute_with_metadata(n.c_str(), t, p, 1, &m, &v)); }
            else a = c.create_attribute(n, t, p);
            if (!a) { viol("c14:invalid", n + " could not be created or not be found by its identifier"); continue; }
            if (a.name() != n) viol("c14:name", "asked for " + n + ", got " + a.name());
            if (cali_find_attribute(n.c_str()) != a.id()) viol("c14:lookup", n + " found by name is another attribute");
            Attribute m = c.get_attribute("identity.meta"); std::string mv = m ? a.get(m).to_string() : "";
            l->made.push_back({ n, a.id(), a.type(), a.properties(), mv });
        }
        // context: nest, capture, remember what it meant
        if (reg == CALI_INV_ID) reg = cali_create_attribute("identity.region", CALI_TYPE_STRING, CALI_ATTR_NESTED);
        std::string v = shared.chance(60) ? fmt("r%d", (int) shared.below(4)) : fmt("t%d.%d", tid, i);
        if (open.size() < 12) { cali_begin_string(reg, v.c_str()); open.push_back(v); }
        if (r.chance(30)) { cali_end(reg); open.pop_back(); }
        FixedSizeSnapshotRecord<60> rec; c.pull_context(rec.builder());
        std::string want; for (auto& s : open) want += "/" + s;
        for (const Entry& e : rec.view()) if (e.is_reference()) {
            Node* n = e.node(); std::string got; for (Node* q = n; q && q->attribute() != CALI_INV_ID; q = q->parent()) if (q->attribute() == reg) got = "/" + q->data().to_string() + got;
            if (!got.empty() || open.empty()) { if (got != want) viol("c14:context", "open regions " + want + " captured as " + got); }
            if (c.node(n->id()) != n) viol("c14:node-id", fmt("node %llu is not found by its identifier", (unsigned long long) n->id()));
            seen->push_back({ n->id(), pathof(c, n) });
        }
    }
    while (!open.empty()) { cali_end(reg); open.pop_back(); }
    delete cp;
}
static std::unique_ptr<ConfigManager> mgr;
static void controller(uint64_t seed, Log* l) {
    Rng r(mix(seed, 77)); Caliper c;
    while (!stop.load(std::memory_order_relaxed)) {
        if (!chans.empty()) {
            cali_id_t id = r.pick(chans);
            { Timed t(*l, K_ACT); if (r.chance(50)) cali_activate_channel(id); else cali_deactivate_channel(id); }
            { Timed t(*l, K_QUERY); cali_channel_is_active(r.pick(chans)); for (auto& ch : c.get_all_channels()) if (ch.is_active() && ch.name().empty()) viol("c13:channel", "nameless channel"); c.get_channel(id); }
        }
        // output while the other threads record
        if (r.chance(25)) { Timed t(*l, K_FLUSH); int o = r.chance(40) ? CALI_FLUSH_CLEAR_BUFFERS : 0; if (chans.empty() || r.chance(40)) cali_flush(o); else if (mgr && r.chance(40)) mgr->flush(); else cali_channel_flush(r.pick(chans), o); }
        usleep(r.below(300));
    }
    for (auto id : chans) cali_activate_channel(id);
}
static const std::vector<config_map_t> configs() {
    return { { { "CALI_SERVICES_ENABLE", "event,aggregate,timer" } }, { { "CALI_SERVICES_ENABLE", "event,trace" }, { "CALI_TRACE_BUFFER_POLICY", "flush" }, { "CALI_TRACE_BUFFER_SIZE", "1" } },
             { { "CALI_SERVICES_ENABLE", "event,trace,timer" } }, { { "CALI_SERVICES_ENABLE", "event,aggregate,loop_statistics,timer" } },
             { { "CALI_SERVICES_ENABLE", "loop_monitor,aggregate" }, { "CALI_LOOP_MONITOR_ITERATION_INTERVAL", "1" } }, { { "CALI_SERVICES_ENABLE", "event,statistics,validator" } },
             { { "CALI_SERVICES_ENABLE", "alloc,allocstats,event,aggregate" }, { "CALI_ALLOC_RESOLVE_ADDRESSES", "true" } }, { { "CALI_SERVICES_ENABLE", "event,memstat,cpuinfo,aggregate" } },
             { { "CALI_SERVICES_ENABLE", "async_event,aggregate,event" } }, { { "CALI_SERVICES_ENABLE", "region_monitor,timer,aggregate" }, { "CALI_REGION_MONITOR_TIME_INTERVAL", "0.00001" } },
             { { "CALI_SERVICES_ENABLE", "event,aggregate" }, { "CALI_EVENT_INCLUDE_REGIONS", "startswith(m,f)" } } };
}
int main(int argc, char** argv) {
    init(argc, argv);
    uint64_t seed = iarg("seed", 1); std::string mode = sarg("mode", "c13"); bool first = iarg("first", 0); std::string label = sarg("label", "");
    int nth = (int) iarg("threads", 4), nops = (int) iarg("ops", 60), waves = (int) iarg("waves", 2);
    Rng r(mix(seed, 1)); std::map<std::string, Made> byname; std::vector<std::unique_ptr<Log>> logs;
    if (!first) {
        cali_init(); auto cf = configs(); int n = (int) r.below(4);
        for (int i = 0; i < n; ++i) chans.push_back(create_channel(fmt("ch%d", i).c_str(), r.chance(50) ? CALI_CHANNEL_LEAVE_INACTIVE : 0, r.pick(cf)));
        std::string s = sarg("config", ""); if (!s.empty()) { mgr.reset(new ConfigManager(s.c_str())); if (mgr->error()) error(mgr->error_msg()); mgr->start(); }
    }
    std::vector<std::unique_ptr<std::vector<std::pair<cali_id_t, std::string>>>> seen;
    for (int w = 0; w < waves; ++w) {
        ready = 0; stop = false; std::vector<std::thread> ts; Log* cl = nullptr; std::thread ct;
        turn = 0; for (int t = 0; t < nth; ++t) if (mode == "c14") { logs.emplace_back(new Log); seen.emplace_back(new std::vector<std::pair<cali_id_t, std::string>>); ts.emplace_back(ident, mix(seed, w), w, w * 100 + t, nth, nops, logs.back().get(), seen.back().get()); }
        else { logs.emplace_back(new Log); ts.emplace_back(worker, mix(seed, w), w * 100 + t, nops, first && w == 0, logs.back().get(), nth); }
        if (!first && mode != "c14") { logs.emplace_back(new Log); cl = logs.back().get(); ct = std::thread(controller, mix(seed, w), cl); }
        for (auto& t : ts) t.join();
        stop = true; if (ct.joinable()) ct.join();
        // every kind of operation seen running at the same time as another one
        std::vector<std::pair<Span, int>> all; for (size_t i = logs.size() - ts.size() - (cl ? 1 : 0); i < logs.size(); ++i) for (auto& s : logs[i]->s) all.push_back({ s, (int) i });
        std::sort(all.begin(), all.end(), [](auto& a, auto& b) { return a.first.a < b.first.a; });
        std::set<std::pair<int, int>> ov; long nov = 0;
        for (size_t i = 0; i < all.size(); ++i) for (size_t j = i + 1; j < all.size() && all[j].first.a < all[i].first.b; ++j) if (all[i].second != all[j].second) { ++nov; ov.insert({ std::min(all[i].first.k, all[j].first.k), std::max(all[i].first.k, all[j].first.k) }); }
        if (mode != "c14") for (auto& p : ov) fp(label + " " + kname[p.first] + "|" + kname[p.second]);
        vh::stat("operations", all.size()); vh::stat("overlapping_operation_pairs", nov); vh::stat("threads", nth);
    }
    // identity of attributes: whoever created them
    Caliper c; std::map<cali_id_t, std::string> byid; std::map<std::string, std::set<cali_id_t>> nodes;
    for (auto& l : logs) {
        for (auto& m : l->made) {
            vh::stat("attributes_created_or_found");
            if (m.id == CALI_INV_ID) { viol("c14:invalid", m.name + " could not be created"); continue; }
            auto it = byname.emplace(m.name, m).first; if (it->second.id != m.id) viol("c14:two-identities", m.name + fmt(" is %llu and %llu", (unsigned long long) it->second.id, (unsigned long long) m.id));
            if (it->second.type != m.type || it->second.prop != m.prop) viol("c14:changed", m.name + " changed its type or properties");
            if (mode == "c14" && it->second.meta != m.meta) viol("c14:metadata", m.name + " has metadata '" + m.meta + "' and '" + it->second.meta + "'");
            auto jt = byid.emplace(m.id, m.name).first; if (jt->second != m.name) viol("c14:shared-identity", m.name + " and " + jt->second + " are the same attribute");
        }
        for (auto& p : l->nodes) for (auto id : p.second) nodes[p.first].insert(id);
    }
    if (mode == "c14") {
        std::map<std::string, std::string> who; std::map<cali_id_t, std::string> means; std::map<std::string, int> raced;
        for (size_t t = 0; t < logs.size(); ++t) { std::set<std::string> once; for (auto& m : logs[t]->made) if (once.insert(m.name).second) ++raced[m.name]; }
        for (auto& p : raced) { const Made& m = byname[p.first]; fp(label + fmt(" threads=%d type=%d prop=%x meta=%d len=%d", p.second, (int) m.type, m.prop, m.meta.empty() ? 0 : 1, (int) std::min<size_t>(p.first.size() / 64, 3))); }
        for (auto& v : seen) for (auto& p : *v) { vh::stat("captured_contexts"); auto it = means.emplace(p.first, p.second).first; if (it->second != p.second) viol("c14:node-meaning", fmt("node %llu meant ", (unsigned long long) p.first) + it->second + " and " + p.second); }
        for (auto& p : means) { std::string now = pathof(c, c.node(p.first)); if (now != p.second) viol("c14:node-meaning", fmt("node %llu meant ", (unsigned long long) p.first) + p.second + " when captured and means " + now + " later"); fp(label + fmt(" depth=%d", (int) std::count(now.begin(), now.end(), '/'))); vh::stat("nodes_resolved_later"); }
    }
    for (auto& p : byname) {
        const Made& m = p.second; Attribute a = c.get_attribute(p.first), b = c.get_attribute(m.id);
        if (cali_find_attribute(p.first.c_str()) != m.id || !a || !b || a.id() != m.id || b.id() != m.id || b.name() != p.first || std::string(cali_attribute_name(m.id)) != p.first || cali_attribute_type(m.id) != m.type || a.type() != m.type || b.properties() != m.prop || cali_attribute_properties(m.id) != m.prop || cali_create_attribute(p.first.c_str(), CALI_TYPE_USR, CALI_ATTR_HIDDEN) != m.id) viol("c14:lookup", p.first + " is not found as it was created");
        vh::stat("attributes_checked");
    }
    for (auto& p : nodes) for (auto id : p.second) { Node* n = c.node(id); std::string s; for (; n && n->attribute() != CALI_INV_ID; n = n->parent()) s = "/" + n->data().to_string() + s; if (s != p.first) viol("c14:node-path", "node of " + p.first + " stands for " + s); vh::stat("nodes_checked"); }
    if (mgr) { mgr->flush(); mgr.reset(); }
    line("EV 1"); done(); return 0;
}
