// C21, part 1: a signal after every single machine instruction. The trap flag makes the processor raise SIGTRAP after each
// instruction of the operations under test; the handler does what a sampling signal handler does, and records what it saw.
#include "vh.h"
#include <caliper/Annotation.h>
#include <caliper/Caliper.h>
#include <caliper/SnapshotRecord.h>
#include <caliper/cali.h>
#include <caliper/common/Node.h>
#include <execinfo.h>
#include <signal.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <ucontext.h>
#include <unistd.h>
#include <dlfcn.h>
#include <pthread.h>
#include <algorithm>
#include <thread>
#include <type_traits>
using namespace vh;
using cali::Attribute; using cali::Caliper; using cali::Channel; using cali::Entry; using cali::Node; using cali::SnapshotBuilder; using cali::SnapshotView; using cali::Variant;

// ---- what happens inside of the signal handler
static __thread volatile int in_handler = 0;
static std::atomic<long> handler_allocs { 0 }; static void* alloc_bt[24]; static int alloc_bt_n = 0;
static void note_alloc() { if (handler_allocs++ == 0) alloc_bt_n = backtrace(alloc_bt, 24); }
extern "C" {
void* __libc_malloc(size_t); void __libc_free(void*); void* __libc_calloc(size_t, size_t); void* __libc_realloc(void*, size_t);
void* malloc(size_t n) { if (in_handler) note_alloc(); return __libc_malloc(n); }
void free(void* p) { if (in_handler && p) note_alloc(); __libc_free(p); }
void* calloc(size_t a, size_t b) { if (in_handler) note_alloc(); return __libc_calloc(a, b); }
void* realloc(void* p, size_t n) { if (in_handler) note_alloc(); return __libc_realloc(p, n); }
}
typedef int (*lockfn)(pthread_mutex_t*);
static lockfn real_lock = nullptr; static volatile sig_atomic_t self_deadlock = 0; static void* dl_bt[24]; static int dl_bt_n = 0;
extern "C" int pthread_mutex_lock(pthread_mutex_t* m) {
    if (!real_lock) real_lock = (lockfn) dlsym(RTLD_NEXT, "pthread_mutex_lock");
    if (in_handler && m->__data.__kind == 0 && m->__data.__owner == (int) syscall(SYS_gettid)) { self_deadlock = 1; dl_bt_n = backtrace(dl_bt, 24); }
    return real_lock(m);
}
// ---- observations
struct Obs { uint32_t op; uint16_t kind, len; uint32_t at; };      // kind 0: pull, 1: C pull, 2: get, 3: region name
static Entry arena[1 << 15]; static unsigned char bytes[1 << 19]; static Obs obs[1 << 14];
static_assert(std::is_trivially_copyable<Entry>::value, "");
struct Lane {                      // one thread under test
    std::atomic<uint32_t> op { 0 }; uint64_t steps = 0, taken = 0, dropped = 0, pushes = 0; uint64_t rng = 1; int stride = 1, skip = 0;
    uint32_t n = 0, arena_n = 0, bytes_n = 0; uint32_t last[2] = { ~0u, ~0u };
};
static Lane L;
static const char* opname[1 << 14]; static uint32_t pushop[1 << 22]; static uint32_t next_id = 0, max_id = 1 << 22;
static cali_id_t pullchn = CALI_INV_ID, getattr = CALI_INV_ID; static Channel push_t, push_a; static Attribute id_attr, one_attr, wide_attr[100]; static int wide = 0;
static volatile int stepping = 0; static volatile bool full = false;
static std::vector<std::string>* region_names;
static void act() {
    in_handler = 1; int saved = errno; Lane& l = L; uint32_t op = l.op.load(std::memory_order_relaxed);
    l.rng ^= l.rng << 13; l.rng ^= l.rng >> 7; l.rng ^= l.rng << 17; unsigned what = (l.rng >> 20) % 16;
    if (l.n + 2 > sizeof obs / sizeof obs[0] || l.arena_n + 260 > sizeof arena / sizeof arena[0] || l.bytes_n + 4000 > sizeof bytes || next_id + 2 > max_id) full = true;
    else if (what < 6) {               // a snapshot query
        Caliper c = Caliper::sigsafe_instance();
        if (!c) ++l.dropped;
        else {
            Channel ch = c.get_channel(pullchn);
            if (ch) {
                Entry* e = arena + l.arena_n; SnapshotBuilder rec(250, e); c.pull_snapshot(ch.body(), SnapshotView(), rec); ++l.taken; uint16_t n = uint16_t(rec.size());
                uint32_t p = l.last[0]; bool same = p != ~0u && obs[p].op == op && obs[p].len == n && memcmp(arena + obs[p].at, e, n * sizeof(Entry)) == 0;
                if (!same) { l.last[0] = l.n; obs[l.n++] = Obs { op, 0, n, l.arena_n }; l.arena_n += n; }
            }
        }
    } else if (what < 8) {             // the C interface
        unsigned char* b = bytes + l.bytes_n; size_t n = cali_channel_pull_snapshot(pullchn, CALI_SCOPE_THREAD | CALI_SCOPE_PROCESS, 4000, b);
        if (n == 0) ++l.dropped;
        else {
            ++l.taken; uint32_t p = l.last[1]; bool same = p != ~0u && obs[p].op == op && obs[p].len == n && memcmp(bytes + obs[p].at, b, n) == 0;
            if (!same) { l.last[1] = l.n; obs[l.n++] = Obs { op, 1, uint16_t(n), l.bytes_n }; l.bytes_n += n; }
        }
    } else if (what < 14) {            // a sample, as the sampler service takes it
        Caliper c = Caliper::sigsafe_instance(); Channel& ch = what < 11 ? push_t : push_a;
        if (!c) ++l.dropped;
        else if (ch && ch.is_active()) {
            uint32_t id = next_id++; pushop[id] = op; Entry e[102] = { Entry(id_attr, Variant(cali_make_variant_from_uint(id))), Entry(one_attr, Variant(cali_make_variant_from_int(1))) }; int n = 2;
            if (wide && what < 11) for (int i = 0; i < wide; ++i) e[n++] = Entry(wide_attr[i], Variant(cali_make_variant_from_uint(0xFFFFFFFFFFFF0000ull + i)));
            c.push_snapshot(ch.body(), SnapshotView(n, e)); ++l.pushes;
        }
    } else if (what < 15) { cali_variant_t v = cali_get(getattr); if (!cali_variant_is_empty(v) && l.n < sizeof obs / sizeof obs[0]) { if (l.bytes_n + 16 <= sizeof bytes) { memcpy(bytes + l.bytes_n, &v, sizeof v); obs[l.n++] = Obs { op, 2, 16, l.bytes_n }; l.bytes_n += 16; } } }
    else { const char* s = cali_get_current_region_or(""); size_t k = strnlen(s, 200); if (k && l.bytes_n + 200 <= sizeof bytes) { memcpy(bytes + l.bytes_n, s, k); obs[l.n++] = Obs { op, 3, uint16_t(k), l.bytes_n }; l.bytes_n += k; } }
    errno = saved; in_handler = 0;
}
// long operations are stepped through in windows at random times
static __thread timer_t my_timer; static __thread int have_timer = 0; static long window = 0; static const long WINDOW = 15000;
static void arm(long us) { itimerspec t; memset(&t, 0, sizeof t); t.it_value.tv_nsec = us * 1000; timer_settime(my_timer, 0, &t, nullptr); }
static void on_trap(int, siginfo_t*, void* u) {
    auto& fl = ((ucontext_t*) u)->uc_mcontext.gregs[REG_EFL];
    if (!stepping) { fl &= ~0x100ll; return; }
    ++L.steps;
    if (++window > WINDOW && have_timer) { window = 0; fl &= ~0x100ll; L.rng ^= L.rng << 13; L.rng ^= L.rng >> 7; L.rng ^= L.rng << 17; arm(5 + (L.rng >> 33) % 400); return; }
    fl |= 0x100;
    if (--L.skip > 0) return;
    L.rng ^= L.rng << 13; L.rng ^= L.rng >> 7; L.rng ^= L.rng << 17; L.skip = L.stride == 1 ? 1 : 1 + (L.rng >> 33) % (2 * L.stride);
    act();
}
static const char* hang_mode = ""; static uint64_t cur_case = 0;
static void on_alarm(int) {
    char b[600]; int n = snprintf(b, sizeof b, "VIOL c21:hang-in-handler the program does not advance: case %llu, operation %s, in handler %d\n", (unsigned long long) cur_case, opname[L.op.load()] ? opname[L.op.load()] : "?", (int) in_handler);
    if (write(fileno(A().out), b, n)) {}
    _exit(0);
}
static std::string symbols(void** bt, int n) {
    std::string s; char** x = backtrace_symbols(bt, n); for (int i = 0; i < n; ++i) { std::string t = x ? x[i] : ""; size_t p = t.find('('), q = t.find('+', p); if (p != std::string::npos && q > p + 1) s += t.substr(p + 1, q - p - 1).substr(0, 60) + " < "; }
    return s;
}
// ---- canonical text of contexts
static std::set<cali_id_t> own;
static std::string text(Caliper& c, const Entry* e, size_t n, bool samples = false) {
    std::vector<std::string> v;
    for (size_t i = 0; i < n; ++i) {
        if (e[i].is_reference()) { std::string s; for (const Node* p = e[i].node(); p && p->attribute() != CALI_INV_ID; p = p->parent()) { if (own.count(p->attribute())) s = std::to_string(p->attribute()) + "=" + p->data().to_string() + "/" + s; } if (!s.empty()) v.push_back(s); }
        else if (e[i].is_immediate() && own.count(e[i].attribute())) v.push_back(std::to_string(e[i].attribute()) + ":" + e[i].value().to_string());
    }
    std::sort(v.begin(), v.end()); std::string r; for (auto& s : v) r += s + " "; return r;
}
static std::string quiet(Caliper& c) { cali::FixedSizeSnapshotRecord<250> r; Channel ch = c.get_channel(pullchn); c.pull_snapshot(ch.body(), SnapshotView(), r.builder()); return text(c, r.view().data(), r.view().size()); }
struct Unpacked { std::map<cali_id_t, std::vector<std::string>> refs; std::vector<std::string> imm; Caliper* c; };
static int unpack(void* p, cali_id_t id, cali_variant_t v) { auto* u = (Unpacked*) p; if (own.count(id)) u->refs[id].push_back(Variant(v).to_string()); return 1; }
static std::string unpacked(Caliper& c, const std::vector<std::pair<cali_id_t, std::string>>& l) { std::vector<std::string> v; for (auto& x : l) v.push_back(std::to_string(x.first) + "=" + x.second); std::sort(v.begin(), v.end()); std::string r; for (auto& s : v) r += s + " "; return r; }
static std::string flat(const std::string& t) {   // the multiset of values in a context, for comparison with the unpacked form
    std::vector<std::string> v; std::string cur; for (char ch : t) { if (ch == ' ' || ch == '/') { if (!cur.empty()) v.push_back(cur); cur.clear(); } else cur += ch == ':' ? '=' : ch; }
    std::sort(v.begin(), v.end()); std::string r; for (auto& s : v) r += s + " "; return r;
}
// ---- programs
typedef std::map<std::string, std::string> KV;
struct Model { std::vector<std::string> regions; };
static std::vector<std::string> state;              // state[i]: the context before operation i
static std::vector<std::string> kept_names;
struct Ctx { Rng r; uint64_t seed; Caliper c; std::vector<Attribute> at; std::vector<std::vector<int>> open; std::vector<int> aux; int naux = 0; bool threads; std::vector<Channel> stores; std::vector<int> path[2]; };
static void __attribute__((noinline)) step_on(Lane& l, Rng& r) { l.stride = r.chance(30) ? 1 : 1 + (int) r.below(r.chance(70) ? 8 : 60); l.skip = 1; l.last[0] = l.last[1] = ~0u; window = 0;
    sigevent ev; memset(&ev, 0, sizeof ev); ev.sigev_notify = SIGEV_THREAD_ID; ev._sigev_un._tid = (int) syscall(SYS_gettid); ev.sigev_signo = SIGTRAP; have_timer = timer_create(CLOCK_MONOTONIC, &ev, &my_timer) == 0;
    stepping = 1; raise(SIGTRAP);
}
static void step_off() { stepping = 0; if (have_timer) { timer_delete(my_timer); have_timer = 0; } }
// glibc exits threads with all signals blocked: a thread stops stepping after its thread-specific objects have been destroyed
struct Stopper { int x = 0; ~Stopper() { step_off(); } }; static thread_local Stopper stopper;
static const char* rnames[] = { "main", "foo", "bar", "solve", "io", "x" };
// an operation on this thread; returns its name
static const char* oneop(Ctx& x, Rng& r, bool run) {
    (void) run; int k = (int) r.below(100); size_t a = r.below(x.at.size());
    auto value = [&](int v) { return x.at[a].type() == CALI_TYPE_STRING ? Variant(kept_names[v % kept_names.size()].c_str()) : x.at[a].type() == CALI_TYPE_DOUBLE ? Variant(double(v) / 4) : Variant(cali_make_variant_from_int(v)); };
    // aligned reference attributes share a path for each scope: only the innermost one may be closed or replaced
    auto aligned = [&](size_t i) { int p = x.at[i].properties(); return !(p & (CALI_ATTR_ASVALUE | CALI_ATTR_UNALIGNED)); };
    auto path = [&](size_t i) -> std::vector<int>& { return x.path[(x.at[i].properties() & CALI_ATTR_SCOPE_MASK) == CALI_ATTR_SCOPE_PROCESS]; };
    auto close = [&](size_t i) { x.open[i].pop_back(); if (aligned(i)) path(i).pop_back(); };
    auto isopen = [&](size_t i) { if (x.open[i].empty() || !x.at[i].store_as_value()) x.open[i].push_back(1); if (aligned(i)) path(i).push_back((int) i); };
    if (k < 16) { int n = (int) r.below(6); x.path[0].push_back(-1 - n); if (r.chance(60)) cali_begin_region(rnames[n]); else cali::Annotation("region", CALI_ATTR_NESTED).begin(rnames[n]); return "begin-region"; }
    if (k < 30) { if (x.path[0].empty()) return nullptr; int t = x.path[0].back(); if (t < 0) { cali_end_region(rnames[-1 - t]); x.path[0].pop_back(); return "end-region"; } x.c.end(x.at[t]); close(t); return "end"; }
    if (k < 42) { isopen(a); x.c.begin(x.at[a], value((int) r.below(1000))); return "begin"; }
    if (k < 50) { if (x.open[a].empty() || (aligned(a) && path(a).back() != (int) a)) return nullptr; x.c.end(x.at[a]); close(a); return "end"; }
    if (k < 62) { if (aligned(a) && !x.open[a].empty() && path(a).back() != (int) a) return nullptr; if (x.open[a].empty()) isopen(a); x.c.set(x.at[a], value((int) r.below(1000))); return "set"; }
    if (k < 66) { std::string n = "new." + std::to_string(r.below(40)); cali_create_attribute(n.c_str(), CALI_TYPE_INT, CALI_ATTR_ASVALUE); return "create-attribute"; }
    if (k < 69) { cali_find_attribute("region"); cali_attribute_type(x.at[a].id()); x.c.get(x.at[a]); return "lookup"; }
    if (k < 72) { for (auto& ch : x.stores) if (ch.is_active()) x.c.push_snapshot(ch.body(), SnapshotView()); return "push-snapshot"; }
    if (k < 75) { void* p[8]; for (auto& q : p) q = malloc(1 + r.below(3000)); for (auto& q : p) free(q); return "malloc"; }
    if (k < 77) { char b[200]; snprintf(b, sizeof b, "%s %f %d", "text", 1. / (1 + r.below(99)), (int) r.below(99)); std::string s(b); s += s; return "stdio"; }
    if (k < 80) { Channel& ch = r.chance(50) ? push_t : push_a; if (!ch) return nullptr; if (ch.is_active()) x.c.deactivate_channel(ch); else x.c.activate_channel(ch); return "activate"; }
    if (k < 83) { Channel& ch = r.chance(50) ? push_t : push_a; if (!ch) return nullptr; size_t n = 0; x.c.flush(ch.body(), SnapshotView(), [&n](cali::CaliperMetadataAccessInterface&, const std::vector<Entry>& rec) { n += rec.size(); }); return "flush"; }
    if (k < 87) {
        if (x.aux.size() > 2 || x.naux > 6) return nullptr; static const char* sv[] = { "event,trace", "event,aggregate,timer", "trace,timestamp", "timer,statistics,event", "alloc,event,trace" };
        x.aux.push_back((int) cali::create_channel("aux", 0, KV { { "CALI_SERVICES_ENABLE", sv[r.below(5)] }, { "CALI_CHANNEL_FLUSH_ON_EXIT", "false" }, { "CALI_CHANNEL_CONFIG_CHECK", "false" } })); ++x.naux; return "create-channel";
    }
    if (k < 90) { if (x.aux.empty()) return nullptr; cali_delete_channel(x.aux.back()); x.aux.pop_back(); return "delete-channel"; }
    if (k < 92) { int g = (int) r.below(5); cali_set_global_int_byname(("glob." + std::to_string(g)).c_str(), (int) r.below(99)); return "global"; }
    if (k < 94) { if (x.naux) return nullptr; ++x.naux; std::string v = cali_caliper_version(); cali_config_set("VH_NOTHING", "x"); return "config"; }
    if (!x.threads) return nullptr;
    return "thread";
}
static void run_case(uint64_t seed, bool ref) {
    Rng r(mix(seed, 21)); cur_case = seed; Caliper c; Ctx x { Rng(seed), seed, c, {}, {}, {}, 0, r.chance(40), {}, { {}, {} } }; (void) ref;
    std::string tag = "s" + std::to_string(seed) + "."; own.clear(); state.clear(); std::string mix_; L.n = L.arena_n = L.bytes_n = 0; full = false; next_id = 0; L.rng = mix(seed, 77) | 1; handler_allocs = 0; wide = r.chance(40) ? (int) r.below(100) : 0;
    static const int props[] = { CALI_ATTR_DEFAULT, CALI_ATTR_ASVALUE, CALI_ATTR_NESTED, CALI_ATTR_UNALIGNED, CALI_ATTR_ASVALUE | CALI_ATTR_SKIP_EVENTS, CALI_ATTR_SCOPE_PROCESS, CALI_ATTR_SCOPE_PROCESS | CALI_ATTR_ASVALUE };
    static const cali_attr_type types[] = { CALI_TYPE_INT, CALI_TYPE_STRING, CALI_TYPE_DOUBLE };
    static const char* snapsv[] = { "", "", ",timer", ",timestamp", ",alloc", ",cpuinfo", ",memstat", ",statistics", ",timer,timestamp,cpuinfo", ",loop_statistics", ",pthread", ",timeseries" };
    std::string sp = snapsv[r.below(12)], st = snapsv[r.below(12)], sa = snapsv[r.below(12)];
    if (r.chance(50)) for (int i = 0; i < 3; ++i) cali_create_attribute(("pre." + std::to_string(r.below(9))).c_str(), CALI_TYPE_INT, 0);
    auto mkat = [&](int n) { for (int i = 0; i < n; ++i) { auto t = types[r.below(3)]; int p = props[r.below(7)]; Attribute a = c.create_attribute(tag + std::to_string(x.at.size()), t, p); x.at.push_back(a); x.open.emplace_back(); own.insert(a.id()); } };
    mkat(2 + (int) r.below(5)); own.insert(c.create_attribute("region", CALI_TYPE_STRING, CALI_ATTR_NESTED).id());
    // contexts of operations in other threads are not the main thread's
    cali_id_t ip = cali::create_channel("pull", 0, KV { { "CALI_SERVICES_ENABLE", "event" + sp }, { "CALI_CHANNEL_CONFIG_CHECK", "false" }, { "CALI_CHANNEL_FLUSH_ON_EXIT", "false" } }); pullchn = ip;
    cali_id_t ie = cali::create_channel("events", 0, KV { { "CALI_SERVICES_ENABLE", "event,trace" + st }, { "CALI_CHANNEL_FLUSH_ON_EXIT", "false" } });
    std::string policy = r.chance(60) ? "grow" : r.chance(50) ? "stop" : "flush";
    cali_id_t it = cali::create_channel("traced", 0, KV { { "CALI_SERVICES_ENABLE", "event,trace" + st }, { "CALI_TRACE_BUFFER_POLICY", policy }, { "CALI_TRACE_BUFFER_SIZE", "1" }, { "CALI_CHANNEL_FLUSH_ON_EXIT", "false" } });
    cali_id_t ia = cali::create_channel("aggregated", 0, KV { { "CALI_SERVICES_ENABLE", "event,aggregate" + sa }, { "CALI_CHANNEL_FLUSH_ON_EXIT", "false" } }); 
    cali_id_t ig = cali::create_channel("agg-events", 0, KV { { "CALI_SERVICES_ENABLE", "event,aggregate" + (sa == ",timeseries" ? std::string() : sa) }, { "CALI_CHANNEL_FLUSH_ON_EXIT", "false" } });
    push_t = c.get_channel(it); push_a = c.get_channel(ia); for (cali_id_t k : { it, ie, ia, ig }) x.stores.push_back(c.get_channel(k)); getattr = x.at[0].id(); mix_ = sp + "|" + st + "|" + sa + "|" + policy;
    int fill = r.chance(45) ? 1 : 0; long filled = 0;
    if (fill) {   // leave little room in the trace buffer
        cali_deactivate_channel(ie); cali_deactivate_channel(ia); cali_deactivate_channel(ig); Entry e[1] = { Entry(one_attr, Variant(cali_make_variant_from_int(1))) };
        c.push_snapshot(push_t.body(), SnapshotView(1, e)); long n = 95000 + (long) r.below(60000); if (st.size() > 2) n /= 3; if (policy != "grow") n = std::min(n, 60000l); for (long i = 0; i < n; ++i) c.push_snapshot(push_t.body(), SnapshotView(1, e)); filled = n + 1;
        cali_activate_channel(ie); cali_activate_channel(ia); cali_activate_channel(ig);
    }
    int nops = 8 + (int) r.below(20); std::vector<int> ranin; std::vector<std::string> names; std::string last; uint64_t steps0 = L.steps, taken0 = L.taken, dropped0 = L.dropped, push0 = L.pushes;
    bool act_t = true, act_a = true; (void) act_t; (void) act_a; std::map<uint32_t, bool> threadop; bool toggled_t = false, toggled_a = false;
    for (int i = 0; i < nops && !full; ++i) {
        state.push_back(quiet(c)); uint32_t op = (uint32_t) state.size() - 1; uint64_t opseed = r.next(); bool go = r.chance(85); Rng ro(opseed); L.op = op; opname[op] = "?"; alarm(60);
        if (go) step_on(L, r);
        const char* nm = oneop(x, ro, true);
        step_off(); alarm(0);
        if (nm && !strcmp(nm, "thread")) {   // a thread that is interrupted from its first to its last instruction
            opname[op] = "thread"; threadop[op] = true; uint64_t s2 = r.next(); alarm(120);
            std::thread t([&] { Rng q(s2); stopper.x = 1; L.op = op; step_on(L, q); for (int j = 0; j < 3; ++j) { cali_begin_region("in-thread"); cali_end_region("in-thread"); } if (q.chance(50) && (x.at[0].properties() & CALI_ATTR_SCOPE_MASK) != CALI_ATTR_SCOPE_PROCESS) Caliper().begin(x.at[0], x.at[0].type() == CALI_TYPE_STRING ? Variant("t") : Variant(1)); });
            t.join(); alarm(0);
        }
        if (nm) { opname[op] = nm; if (!strcmp(nm, "activate")) { toggled_t = toggled_a = true; } names.push_back(nm); if (go) fp(std::string(nm) + "|" + sp); if (go && names.size() > 1) fp(names[names.size() - 2] + ">" + nm); }
    }
    state.push_back(quiet(c)); kase(mix_ + "/" + std::to_string(seed)); stat("instructions_stepped", L.steps - steps0); stat("snapshots_in_handlers", L.taken - taken0); stat("refused_in_library", L.dropped - dropped0); stat("samples_pushed", L.pushes - push0);
    if (handler_allocs) viol("c21:alloc-in-handler", std::to_string(handler_allocs.load()) + " memory allocations or releases inside of signal handlers: " + symbols(alloc_bt, alloc_bt_n) + " case " + std::to_string(seed));
    if (self_deadlock) viol("c21:self-deadlock", symbols(dl_bt, dl_bt_n));
    // what the handlers saw
    int phase = 0; uint32_t lastop = ~0u;
    auto judge = [&](uint32_t op, const std::string& got, const char* how, bool fl) {
        if (threadop.count(op)) { stat("observations_in_threads"); return; }
        std::string b = fl ? flat(state[op]) : state[op], a = fl ? flat(state[op + 1]) : state[op + 1];
        if (op != lastop) { phase = 0; lastop = op; }
        if (got != b && got != a) { viol(std::string("c21:impossible-context-") + how, "case " + std::to_string(seed) + " operation " + opname[op] + ": a handler saw " + got + " -- before: " + b + " -- after: " + a); return; }
        if (b != a && !fl) { int p = got == a; if (p < phase) viol("c21:context-went-back", "case " + std::to_string(seed) + " operation " + opname[op] + ": " + got + " after " + a); phase = std::max(phase, p); stat(p ? "saw_after" : "saw_before"); }
    };
    for (uint32_t i = 0; i < L.n; ++i) {
        Obs& o = obs[i];
        if (o.kind == 0) judge(o.op, text(c, arena + o.at, o.len), "query", false);
        if (o.kind == 1) {
            std::vector<std::pair<cali_id_t, std::string>> l; size_t rd = 0;
            cali_unpack_snapshot(bytes + o.at, &rd, [](void* p, cali_id_t id, cali_variant_t v) { if (own.count(id)) ((std::vector<std::pair<cali_id_t, std::string>>*) p)->emplace_back(id, Variant(v).to_string()); return 1; }, &l);
            if (rd != o.len) viol("c21:partial-record", "case " + std::to_string(seed) + ": the packed snapshot has " + std::to_string(o.len) + " bytes, " + std::to_string(rd) + " were read");
            judge(o.op, unpacked(c, l), "packed", true);
        }
        if (o.kind == 2 && !threadop.count(o.op)) { cali_variant_t cv; memcpy(&cv, bytes + o.at, sizeof cv); std::string s = std::to_string(getattr) + "=" + Variant(cv).to_string() + " "; if ((" " + flat(state[o.op])).find(" " + s) == std::string::npos && (" " + flat(state[o.op + 1])).find(" " + s) == std::string::npos) viol("c21:impossible-value", "case " + std::to_string(seed) + " operation " + opname[o.op] + ": cali_get returned " + s + " -- before: " + state[o.op] + " after: " + state[o.op + 1]); stat("values_read"); }
        if (o.kind == 3 && !threadop.count(o.op)) { std::string s((char*) bytes + o.at, o.len); if (state[o.op].find("=" + s + "/") == std::string::npos && state[o.op + 1].find("=" + s + "/") == std::string::npos) viol("c21:impossible-region", "case " + std::to_string(seed) + " operation " + opname[o.op] + ": the current region is " + s + " -- before: " + state[o.op] + " -- after: " + state[o.op + 1]); }
    }
    // what was recorded
    struct Rec { std::string ctx; int64_t id; int wide; bool torn; };
    auto collect = [&](cali_id_t id) { std::vector<Rec> v; Channel ch = c.get_channel(id); c.flush(ch.body(), SnapshotView(), [&](cali::CaliperMetadataAccessInterface&, const std::vector<Entry>& rec) {
        Rec q { text(c, rec.data(), rec.size()), -1, 0, false }; bool one = false; for (auto& e : rec) { if (e.is_immediate() && e.attribute() == id_attr.id()) q.id = e.value().to_int(); if (e.is_immediate() && e.attribute() == one_attr.id()) one = true; for (int i = 0; i < wide; ++i) if (e.attribute() == wide_attr[i].id()) { ++q.wide; if (e.value().to_uint() != 0xFFFFFFFFFFFF0000ull + i) q.torn = true; } }
        if (one && q.id < 0) return; v.push_back(q); }); return v; };
    auto rt = collect(it), re = collect(ie); std::vector<std::string> evt, eve; int64_t prev = -1;
    for (auto& q : rt) {
        if (q.id < 0) { evt.push_back(q.ctx); continue; }
        stat("samples_recorded"); uint32_t op = pushop[q.id];
        if (threadop.count(op)) continue;
        if (q.id <= prev) viol("c21:sample-order", "case " + std::to_string(seed) + ": sample " + std::to_string(q.id) + " after " + std::to_string(prev));
        prev = q.id;
        if (q.wide != wide || q.torn) viol("c21:partial-record", "case " + std::to_string(seed) + ": a sample has " + std::to_string(q.wide) + " of its " + std::to_string(wide) + " entries");
        if (q.ctx != state[op] && q.ctx != state[op + 1]) viol("c21:impossible-context-sample", "case " + std::to_string(seed) + " operation " + opname[op] + ": a sample shows " + q.ctx + " -- before: " + state[op] + " -- after: " + state[op + 1]);
    }
    for (auto& q : re) eve.push_back(q.ctx);
    if (!toggled_t && policy == "grow" && st != ",timeseries" && evt != eve) viol("c21:events-changed", "case " + std::to_string(seed) + ": the channel with samples recorded " + std::to_string(evt.size()) + " event records, the one without " + std::to_string(eve.size()));
    stat("event_records", evt.size());
    auto groups = [&](cali_id_t id) { std::map<std::string, std::pair<double, double>> m; Channel ch = c.get_channel(id); Attribute ac = c.get_attribute("count"), so = c.get_attribute("sum#vh.one");
        c.flush(ch.body(), SnapshotView(), [&](cali::CaliperMetadataAccessInterface&, const std::vector<Entry>& rec) { std::string k; double n = 0, s = 0; std::vector<Entry> keys; for (auto& e : rec) { if (e.is_reference()) keys.push_back(e); else if (e.attribute() == ac.id()) n = e.value().to_double(); else if (so && e.attribute() == so.id()) s = e.value().to_double(); } k = text(c, keys.data(), keys.size()); m[k].first += n; m[k].second += s; }); return m; };
    auto ga = groups(ia), gg = groups(ig);
    if (!toggled_a && sa != ",timeseries") {
        double tot = 0; for (auto& g : ga) { tot += g.second.second; double ev = gg.count(g.first) ? gg[g.first].first : 0; if (g.second.first != ev + g.second.second) viol("c21:aggregate-not-conserved", "case " + std::to_string(seed) + ": key " + g.first + ": count " + std::to_string(g.second.first) + ", events " + std::to_string(ev) + ", samples " + std::to_string(g.second.second)); }
        for (auto& g : gg) if (!ga.count(g.first)) viol("c21:aggregate-not-conserved", "case " + std::to_string(seed) + ": key " + g.first + " is missing");
        stat("samples_aggregated", (long long) tot);
    }
    push_t = Channel(); push_a = Channel(); x.stores.clear();
    for (auto& p : x.path) for (; !p.empty(); p.pop_back()) { int t = p.back(); if (t < 0) cali_end_region(rnames[-1 - t]); else { c.end(x.at[t]); x.open[t].pop_back(); } }
    for (size_t i = 0; i < x.at.size(); ++i) for (; !x.open[i].empty(); x.open[i].pop_back()) c.end(x.at[i]);
    if (std::string left = quiet(c); left != "") viol("c21:context-left", "case " + std::to_string(seed) + ": everything has been closed, the context is " + left);
    pullchn = CALI_INV_ID; for (int k : x.aux) cali_delete_channel(k);
    for (cali_id_t k : { ip, ie, it, ia, ig }) cali_delete_channel(k);
    if (x.threads) stat("cases_with_threads"); if (filled) stat("cases_with_full_buffers");
}
int main(int argc, char** argv) {
    init(argc, argv); { void* b[4]; backtrace(b, 4); } cali_config_set("CALI_CHANNEL_FLUSH_ON_EXIT", "false"); cali_init(); for (int i = 0; i < 9; ++i) kept_names.push_back("str" + std::to_string(i));
    Caliper c; Variant yes(true); Attribute agg = Attribute(); (void) agg; (void) yes;
    id_attr = c.create_attribute("vh.id", CALI_TYPE_UINT, CALI_ATTR_ASVALUE | CALI_ATTR_SKIP_EVENTS); one_attr = c.create_attribute("vh.one", CALI_TYPE_INT, CALI_ATTR_ASVALUE | CALI_ATTR_SKIP_EVENTS | CALI_ATTR_AGGREGATABLE);
    for (int i = 0; i < 100; ++i) wide_attr[i] = c.create_attribute("vh.w" + std::to_string(i), CALI_TYPE_UINT, CALI_ATTR_ASVALUE | CALI_ATTR_SKIP_EVENTS);
    struct sigaction a; memset(&a, 0, sizeof a); a.sa_sigaction = on_trap; a.sa_flags = SA_SIGINFO; sigaction(SIGTRAP, &a, nullptr); signal(SIGALRM, on_alarm);
    int from = (int) iarg("from", 0), to = (int) iarg("to", 1); uint64_t seed = iarg("seed", 1);
    if (uint64_t one = iarg("case", 0)) { std::thread t([&] { run_case(one, false); }); t.join(); done(); return 0; }
    long long until = iarg("until", 0);
    for (int i = from; i < to && (until == 0 || time(nullptr) < until); ++i) {   // every case starts with a thread of its own: the thread's context must be empty
        std::thread t([&] { run_case(mix(seed, i) % 1000000007, false); }); t.join();
    }
    done(); return 0;
}
