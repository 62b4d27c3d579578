// C30: hostile valid programs under ASan/UBSan; growth over repeated use of short-lived objects; capacity limits
#include "prog.h"
#include <caliper/cali.h>
#include <caliper/cali_datatracker.h>
#include <caliper/Annotation.h>
#include <caliper/AsyncEvent.h>
#include <caliper/cali_macros.h>
#include <caliper/ConfigManager.h>
#include <unistd.h>
#if defined(__SANITIZE_ADDRESS__) || (defined(__has_feature) && __has_feature(address_sanitizer))
#include <sanitizer/allocator_interface.h>
static size_t heap() { return __sanitizer_get_current_allocated_bytes(); }
#else
#include <malloc.h>
static size_t heap() { auto m = mallinfo2(); return m.uordblks + m.hblkhd; }
#endif
using namespace vh;
static const char* svcs[] = { "aggregate", "alloc", "allocstats", "async_event", "cpuinfo", "event", "loop_monitor", "loop_statistics", "memstat", "recorder", "region_monitor", "report", "statistics", "symbollookup", "timer", "timeseries", "timestamp", "trace", "validator", "debug", "kokkostime", "kokkoslookup", "measurement_template" };
static const char* cfgs[] = { "runtime-report(output=%s)", "event-trace(output=%s)", "hatchet-region-profile(output=%s)", "spot(output=%s)", "runtime-profile(output=%s)", "loop-report(output=%s)", "runtime-report(output=%s,calc.inclusive,region.count,region.stats)", "spot(output=%s,region.stats,timeseries)", "event-trace(output=%s,trace.io=false)", "runtime-report(output=%s,aggregate_across_ranks=false,print.metadata)", "hatchet-region-profile(output=%s,output.format=json)", "sample-report(output=%s)" };
static const char* gotcha_cfgs[] = { "runtime-report(output=%s,calc.inclusive,mem.highwatermark)", "runtime-report(output=%s,io.bytes)", "event-trace(output=%s,trace.io)", "spot(output=%s,mem.highwatermark,io.bytes)", "event-trace(output=%s,trace.io,time.inclusive)" };
static const char* config_spec(Rng& r) { return sarg("gotcha", "") == "1" && r.chance(50) ? gotcha_cfgs[r.below(5)] : cfgs[r.below(11)]; }
static std::string big(Rng& r) {
    static const size_t ls[] = { 0, 1, 3, 7, 8, 9, 15, 16, 127, 255, 256, 1000, 4095, 4096, 70000, 300000, 1 << 20 };
    size_t n = ls[r.below(r.chance(95) ? 12 : 17)]; std::string s(n, 'x'); for (size_t i = 0; i < n && i < 64; ++i) s[i] = (char) (r.chance(80) ? 'a' + r.below(26) : 1 + r.below(255)); return s;
}
static std::string shortname(Rng& r) { static const char* n[] = { "main", "foo", "bar", "solve", "a=b", "x,y", "p/q", "\\", "\"", " ", "" }; return n[r.below(11)]; }
static Variant any_value(Rng& r, cali_attr_type t, bool byval) {
    switch (t) {
    case CALI_TYPE_INT: return Variant(cali_make_variant_from_int64(r.chance(20) ? INT64_MIN : (int64_t) r.next() >> r.below(64)));
    case CALI_TYPE_UINT: return Variant(cali_make_variant_from_uint(r.next() >> r.below(64)));
    case CALI_TYPE_DOUBLE: { static const double d[] = { 0., -0., 1e300, -1e-300, 1. / 0., -1. / 0., 0. / 0. }; return Variant(r.chance(30) ? d[r.below(7)] : (double) r.next() / 7); }
    case CALI_TYPE_BOOL: return Variant(cali_make_variant_from_bool(r.chance(50)));
    case CALI_TYPE_ADDR: { uint64_t a = r.next(); return Variant(cali_make_variant(CALI_TYPE_ADDR, &a, sizeof a)); }
    case CALI_TYPE_TYPE: return Variant((cali_attr_type) (1 + r.below(8)));
    case CALI_TYPE_USR: case CALI_TYPE_STRING: default: { std::string s = r.chance(70) ? shortname(r) : big(r); Variant k = kept_string(s); (void) byval; return Variant(t, k.data(), k.size()); }
    }
}
struct At { Attribute a; cali_attr_type t; int prop; };
static std::vector<At> g_at; static std::mutex g_at_lock; static std::atomic<int> n_proc { 0 };
static void new_attr(Rng& r, const std::string& tag) {
    static const cali_attr_type ty[] = { CALI_TYPE_INT, CALI_TYPE_UINT, CALI_TYPE_STRING, CALI_TYPE_STRING, CALI_TYPE_DOUBLE, CALI_TYPE_BOOL, CALI_TYPE_ADDR, CALI_TYPE_USR, CALI_TYPE_TYPE };
    cali_attr_type t = ty[r.below(9)]; int p = 0;
    if (r.chance(35)) p |= CALI_ATTR_ASVALUE; if (r.chance(25)) p |= CALI_ATTR_NESTED; if (r.chance(15)) p |= CALI_ATTR_UNALIGNED; if (r.chance(15)) p |= CALI_ATTR_HIDDEN; if (r.chance(15)) p |= CALI_ATTR_SKIP_EVENTS; if (r.chance(15)) p |= CALI_ATTR_AGGREGATABLE; if (r.chance(5)) p |= CALI_ATTR_GLOBAL;
    if (r.chance(12)) { p |= CALI_ATTR_SCOPE_PROCESS; ++n_proc; } else p |= CALI_ATTR_SCOPE_THREAD;
    std::string n = r.chance(10) ? big(r).substr(0, 5000) + tag : fmt("%s.%llx", tag.c_str(), (unsigned long long) r.below(1 << 20));
    Caliper c; Attribute a;
    if (r.chance(30)) { Attribute m[3]; Variant v[3]; int k = 1 + (int) r.below(3); for (int i = 0; i < k; ++i) { cali_attr_type mt = ty[r.below(8)]; m[i] = c.create_attribute(fmt("meta.%d.%d", i, (int) mt), mt, CALI_ATTR_SKIP_EVENTS); v[i] = any_value(r, mt, true); } a = c.create_attribute(n, t, p, k, m, v); }
    else a = c.create_attribute(n, t, p);
    if (!a) return;
    std::lock_guard<std::mutex> g(g_at_lock); g_at.push_back({ a, a.type(), a.properties() });
}
static At pick_attr(Rng& r) { std::lock_guard<std::mutex> g(g_at_lock); return r.pick(g_at); }
static std::vector<cali_id_t> g_ch; static std::mutex g_ch_lock;
static std::atomic<bool> g_long { true };
static void recurse(Rng& r, int d) { CALI_CXX_MARK_FUNCTION; if (d) recurse(r, d - 1); }
static long body(Rng& r, const std::string& tag, int ops, int depth);
static long one(Rng& r, const std::string& tag, int depth) {
    Caliper c;
    switch ((int) r.below(26)) {
    case 0: case 1: case 2: { std::string n = r.chance(85) ? shortname(r) : big(r); cali_begin_region(n.c_str()); long k = depth < 30 ? body(r, tag, (int) r.below(6), depth + 1) : 0; cali_end_region(n.c_str()); return k; }
    case 3: case 4: case 5: { At a = pick_attr(r); if (a.prop & CALI_ATTR_SCOPE_PROCESS) { c.set(a.a, any_value(r, a.t, true)); break; } if ((a.prop & CALI_ATTR_ASVALUE) && !c.get(a.a).empty()) { c.set(a.a, any_value(r, a.t, true)); break; } c.begin(a.a, any_value(r, a.t, true)); long k = depth < 30 ? body(r, tag, (int) r.below(5), depth + 1) : 0; c.end(a.a); return k; }
    case 6: case 7: { At a = pick_attr(r); if (!(a.prop & CALI_ATTR_NESTED) || (a.prop & CALI_ATTR_ASVALUE)) c.set(a.a, any_value(r, a.t, true)); break; }
    case 8: if (r.chance(30)) new_attr(r, tag); break;
    case 9: { // deep nesting
        if (!r.chance(8)) break; int d = r.chance(60) ? 100 + (int) r.below(300) : 1000 + (int) r.below(2000); int how = (int) r.below(3); stat("deep_nestings"); smax("deepest_nesting", d);
        if (how == 0) recurse(r, std::min(d, 800)); else { for (int i = 0; i < d; ++i) cali_begin_region(how == 1 ? "deep" : fmt("deep %d", i).c_str()); for (int i = d; i-- > 0; ) cali_end_region(how == 1 ? "deep" : fmt("deep %d", i).c_str()); } return d; }
    case 10: { cali::Loop lp(shortname(r).c_str()); int n = (int) r.below(6); for (int i = 0; i < n; ++i) { auto it = lp.iteration(r.chance(20) ? (int) r.next() : i); if (depth < 20) body(r, tag, (int) r.below(3), depth + 20); } break; }
    case 11: { std::vector<unsigned char> b(1 + r.below(r.chance(50) ? 40 : 9000)); cali_id_t ch = CALI_INV_ID; { std::lock_guard<std::mutex> g(g_ch_lock); if (!g_ch.empty()) ch = r.pick(g_ch); } size_t n = cali_channel_pull_snapshot(ch, CALI_SCOPE_PROCESS | CALI_SCOPE_THREAD | (r.chance(20) ? CALI_SCOPE_CHANNEL : 0), b.size(), b.data()); if (n && n <= b.size()) { size_t rd = 0; cali_unpack_snapshot(b.data(), &rd, [](void*, cali_id_t a, cali_variant_t v) { cali_attribute_name(a); Variant(v).to_string(); return 1; }, nullptr); } stat("pulled_snapshots"); break; }
    case 12: { int n = r.chance(80) ? (int) r.below(8) : (int) r.below(300); std::vector<cali_id_t> ids; std::vector<cali_variant_t> vs; for (int i = 0; i < n; ++i) { At a = pick_attr(r); ids.push_back(a.a.id()); vs.push_back(any_value(r, a.t, true).c_variant()); } smax("snapshot_entries_requested", n); stat("pushed_snapshots"); cali_push_snapshot(CALI_SCOPE_PROCESS | CALI_SCOPE_THREAD, n, ids.data(), vs.data()); break; }
    case 13: { if (r.chance(30)) { std::string s = big(r); cali_set_global_string_byname(fmt("g.%d", (int) r.below(20)).c_str(), s.c_str()); } else cali_set_global_double_byname(fmt("gd.%d", (int) r.below(20)).c_str(), 1.5); break; }
    case 14: { Annotation a(fmt("an.%s.%d", tag.c_str(), (int) r.below(9)).c_str(), r.chance(50) ? CALI_ATTR_ASVALUE : 0); if (r.chance(50)) { a.begin(42); if (depth < 20) body(r, tag, 2, depth + 10); a.end(); } else { Annotation::Guard g(a.begin(any_value(r, CALI_TYPE_INT, true))); } break; }
    case 15: { if (!r.chance(40)) break; int n = 1 + (int) r.below(5); std::vector<cali::TimedAsyncEvent> ev; for (int i = 0; i < n; ++i) { ev.push_back(cali::TimedAsyncEvent::begin(fmt("async %d", (int) r.below(4)).c_str())); } if (depth < 20) body(r, tag, 2, depth + 10); for (auto& e : ev) if (r.chance(90)) e.end(); stat("async_events", n); break; }
    case 16: { std::vector<std::vector<char>> mem; int n = (int) r.below(12); for (int i = 0; i < n; ++i) { mem.emplace_back(1 + r.below(500)); size_t d[3] = { 1 + r.below(5), 1 + r.below(5), 1 + r.below(5) }; if (r.chance(50)) cali_datatracker_track(mem.back().data(), shortname(r).c_str(), mem.back().size()); else cali_datatracker_track_dimensional(mem.back().data(), "d", 1, d, 1 + r.below(3)); } if (depth < 20) body(r, tag, 2, depth + 10); for (auto& m : mem) if (r.chance(95)) cali_datatracker_untrack(m.data()); break; }
    case 17: { std::string n = fmt("bn.%s.%d", tag.c_str(), (int) r.below(5)); cali_begin_int_byname(n.c_str(), 1); cali_set_int_byname(n.c_str(), 2); cali_end_byname(n.c_str()); std::string s = big(r); n += "s"; cali_begin_string_byname(n.c_str(), s.c_str()); cali_set_string_byname(n.c_str(), "y"); cali_end_byname(n.c_str()); break; }
    case 18: { std::lock_guard<std::mutex> g(g_ch_lock); if (g_ch.empty()) break; cali_id_t ch = r.pick(g_ch); if (r.chance(50)) cali_deactivate_channel(ch); else cali_activate_channel(ch); break; }
    case 19: { cali_begin_comm_region("comm"); cali_end_comm_region("comm"); cali_begin_phase("phase"); cali_end_phase("phase"); break; }
    case 20: { At a = pick_attr(r); Variant v = c.get(a.a).value(); (void) v.to_string(); cali_attribute_name(a.a.id()); cali_get(a.a.id()); cali_get_current_region_or("x"); break; }
    case 21: { At a = pick_attr(r); cali_id_t ch = CALI_INV_ID; { std::lock_guard<std::mutex> g(g_ch_lock); if (!g_ch.empty()) ch = r.pick(g_ch); } Channel cn = c.get_channel(ch); if (!cn) break; if (a.prop & CALI_ATTR_ASVALUE) c.set(cn.body(), a.a, any_value(r, a.t, true)); c.get(cn.body(), a.a); break; }
    case 22: { if (!r.chance(5)) break; std::string s; for (int i = 0; i < 200; ++i) s += fmt("many.%d,", i); for (int i = 0; i < 200; ++i) { Attribute a = c.create_attribute(fmt("many.%s.%d", tag.c_str(), i), CALI_TYPE_INT, CALI_ATTR_ASVALUE | CALI_ATTR_UNALIGNED); c.set(a, Variant(i)); } cali_push_snapshot(CALI_SCOPE_THREAD | CALI_SCOPE_PROCESS, 0, nullptr, nullptr); break; }
    case 23: { cali_find_attribute(big(r).c_str()); cali_find_attribute(shortname(r).c_str()); cali_attribute_type(r.below(5000)); cali_attribute_name(r.chance(10) ? CALI_INV_ID : r.below(5000)); cali_attribute_properties(r.next()); break; }
    case 24: { if (!r.chance(3)) break; cali_id_t ch = CALI_INV_ID; { std::lock_guard<std::mutex> g(g_ch_lock); if (!g_ch.empty()) ch = r.pick(g_ch); } cali_channel_flush(ch, r.chance(50) ? CALI_FLUSH_CLEAR_BUFFERS : 0); stat("flushes_while_recording"); break; }
    default: { CALI_MARK_BEGIN("m"); CALI_WRAP_STATEMENT("stmt", (void) 0); CALI_MARK_END("m"); }
    }
    return 1;
}
static long body(Rng& r, const std::string& tag, int ops, int depth) { long k = 0; for (int i = 0; i < ops; ++i) k += 1 + one(r, tag, depth); return k; }
static std::string outname(int i) { static const char* n[] = { "/dev/null", "out%d.cali", "stdout", "sub/x%d" }; return fmt(n[i % 4 == 2 ? 0 : i % 4], i); }
static config_map_t rand_cfg(Rng& r, std::string& desc, int no, bool tracecap = true) {
    std::string s; int n = 1 + (int) r.below(7); std::set<std::string> seen; if (r.chance(60)) s = "event"; seen.insert("event"); if (r.chance(50)) { s += s.empty() ? "trace" : ",trace"; seen.insert("trace"); }
    for (int i = 0; i < n; ++i) { std::string x = svcs[r.below(23)]; if (seen.insert(x).second) s += (s.empty() ? "" : ",") + x; }
    desc = s; config_map_t m { { "CALI_SERVICES_ENABLE", s }, { "CALI_CHANNEL_FLUSH_ON_EXIT", r.chance(50) ? "true" : "false" }, { "CALI_RECORDER_FILENAME", outname(no) }, { "CALI_REPORT_FILENAME", "/dev/null" } };
    if (r.chance(40)) m["CALI_TRACE_BUFFER_SIZE"] = tracecap ? "1" : "2"; if (r.chance(50)) { static const char* p[] = { "grow", "stop", "flush" }; m["CALI_TRACE_BUFFER_POLICY"] = p[r.below(3)]; }
    if (r.chance(30)) m["CALI_EVENT_ENABLE_SNAPSHOT_INFO"] = "false"; if (r.chance(30)) m["CALI_EVENT_INCLUDE_REGIONS"] = r.chance(50) ? "startswith(d)" : "main,foo"; if (r.chance(20)) m["CALI_EVENT_EXCLUDE_BRANCHES"] = "bar"; if (r.chance(40)) m["CALI_AGGREGATE_KEY"] = r.chance(50) ? "*" : "loop,path,many.0.1"; if (r.chance(30)) m["CALI_LOOP_MONITOR_ITERATION_INTERVAL"] = "2"; if (r.chance(40)) { m["CALI_ALLOC_RESOLVE_ADDRESSES"] = "true"; m["CALI_ALLOC_RECORD_ACTIVE_MEM"] = "true"; m["CALI_ALLOC_RECORD_HIGHWATERMARK"] = "true"; } if (r.chance(30)) m["CALI_TIMER_INCLUSIVE_DURATION"] = "true"; if (r.chance(30)) m["CALI_TIMER_SNAPSHOT_DURATION"] = "true"; if (r.chance(20)) m["CALI_RECORDER_DIRECTORY"] = "."; if (r.chance(30)) m["CALI_REPORT_CONFIG"] = "select * format json"; if (r.chance(20)) m["CALI_TIMESTAMP_OFFSET"] = "true"; if (r.chance(20)) m["CALI_CHANNEL_SNAPSHOT_SCOPES"] = "process,thread,channel"; if (r.chance(25)) m["CALI_SYMBOLLOOKUP_ATTRIBUTES"] = "an.0"; if (r.chance(20)) m["CALI_LOOP_MONITOR_TIME_INTERVAL"] = "0.000001"; if (r.chance(20)) m["CALI_REGION_MONITOR_TIME_INTERVAL"] = "0.000001";
    return m;
}
// A thread that starts now must be recorded exactly, whatever happened before
static void probe(const std::string& why, bool tolerant, bool reported) {
    static int no = 0; int me = no++; Caliper c;
    cali_id_t id = cali::create_channel(fmt("probe.%d", me).c_str(), 0, { { "CALI_SERVICES_ENABLE", "trace" }, { "CALI_CHANNEL_FLUSH_ON_EXIT", "false" } });
    std::vector<std::string> want; std::string ra;
    std::thread([&] {
        std::vector<std::string> st; Rng r(mix(77, me));
        for (int i = 0; i < 60; ++i) { if (st.size() < 6 && (st.empty() || r.chance(55))) { st.push_back(fmt("pr %d.%d", me, (int) r.below(4))); cali_begin_region(st.back().c_str()); } else { cali_end_region(st.back().c_str()); st.pop_back(); } std::string p; for (auto& s : st) p += "/" + s; want.push_back(p); cali_channel_push_snapshot(id, CALI_SCOPE_THREAD, 0, nullptr, nullptr); }
        while (!st.empty()) { cali_end_region(st.back().c_str()); st.pop_back(); }
    }).join();
    std::vector<std::string> got; Attribute reg = c.get_attribute("region");
    Channel ch = c.get_channel(id);
    if (ch) c.flush(ch.body(), SnapshotView(), [&](CaliperMetadataAccessInterface&, const std::vector<Entry>& rec) { std::string p; for (const Entry& e : rec) if (e.is_reference()) for (const Node* n = e.node(); n && n->attribute() != CALI_INV_ID; n = n->parent()) if (n->attribute() == reg.id()) p = "/" + n->data().to_string() + p; got.push_back(p); });
    stat("probes"); stat("probe_records", got.size());
    if (got != want) {
        if (tolerant && reported) { stat("reported_losses"); } else { size_t i = 0; while (i < got.size() && i < want.size() && got[i] == want[i]) ++i; viol(tolerant ? "c30:unreported-loss" : "c30:data-wrong-afterwards", why + fmt(": %zu records, %zu expected; first difference at %zu: got %s, expected %s", got.size(), want.size(), i, i < got.size() ? got[i].c_str() : "-", i < want.size() ? want[i].c_str() : "-")); }
    }
    cali_delete_channel(id);
}
static bool log_has(const char* what) { const char* ev = getenv("CALI_LOG_LOGFILE"); std::string f = ev ? ev : ""; FILE* fp = f.empty() ? nullptr : fopen(f.c_str(), "r"); if (!fp) return false; std::string s; char b[65536]; size_t n; while ((n = fread(b, 1, sizeof b, fp)) > 0) s.append(b, n); fclose(fp); return s.find(what) != std::string::npos; }
static void torture(uint64_t seed, uint64_t idx, bool tolerant) {
    Rng r(mix(seed, idx)); Caliper c; std::string desc; for (int i = 0; i < 12; ++i) new_attr(r, fmt("a%d", (int) idx));
    if (g_at.empty()) { kase(fmt("no attributes")); return; }
    int nch = 1 + (int) r.below(4); std::vector<cali_id_t> mine; std::string d1;
    for (int i = 0; i < nch; ++i) { auto m = rand_cfg(r, d1, i); cali_id_t id = cali::create_channel(fmt("t%d.%d", (int) idx, i).c_str(), r.chance(15) ? CALI_CHANNEL_LEAVE_INACTIVE : 0, m); if (id != CALI_INV_ID) mine.push_back(id); desc += "[" + d1 + "]"; }
    { std::lock_guard<std::mutex> g(g_ch_lock); for (auto i : mine) g_ch.push_back(i); }
    std::vector<std::unique_ptr<ConfigManager>> mgrs; 
    if (r.chance(50)) { const char* cf = config_spec(r); mgrs.emplace_back(new ConfigManager); std::string spec = fmt(cf, r.chance(50) ? "/dev/null" : fmt("cm%d.out", (int) idx).c_str()); mgrs.back()->add(spec.c_str()); if (mgrs.back()->error()) viol("c30:config-refused", spec + ": " + mgrs.back()->error_msg()); mgrs.back()->start(); desc += cf; }
    int nt = 1 + (int) r.below(8), ops = 100 + (int) r.below(400); std::vector<std::thread> th; std::atomic<long> total { 0 };
    for (int t = 1; t < nt; ++t) { uint64_t s = r.next(); th.emplace_back([s, t, ops, idx, &total, &c] { Rng q(s); total += body(q, fmt("t%d", t), ops, 0); }); }
    total += body(r, "main", ops, 0);
    for (int i = 0; i < 3; ++i) { if (!mine.empty() && r.chance(60)) cali_channel_flush(r.pick(mine), r.chance(50) ? CALI_FLUSH_CLEAR_BUFFERS : 0); total += body(r, "main", 20, 0); }
    for (auto& t : th) t.join();
    for (auto& m : mgrs) { m->flush(); if (r.chance(50)) m->stop(); } 
    for (auto id : mine) { if (r.chance(40)) cali_channel_flush(id, 0); if (r.chance(20)) { Channel ch = c.get_channel(id); std::ostringstream os; c.flush(ch.body(), SnapshotView(), [&](CaliperMetadataAccessInterface& db, const std::vector<Entry>& rec) { for (const Entry& e : rec) os << e.value().to_string(); }); } }
    probe(desc, tolerant, tolerant && (log_has("full") || log_has("too") || log_has("Ceasing")));
    for (auto id : mine) if (r.chance(70)) { std::lock_guard<std::mutex> g(g_ch_lock); cali_delete_channel(id); for (size_t i = 0; i < g_ch.size(); ++i) if (g_ch[i] == id) g_ch.erase(g_ch.begin() + i--); }
    stat("operations", total); stat("threads", nt); stat("channels", nch); kase(fmt("%s|%d threads", desc.c_str(), nt)); fp(desc);
}
// Heap growth per object over repeated use
static void churn(uint64_t seed, uint64_t idx) {
    Rng r(mix(seed, idx)); Caliper c; int kind = (int) iarg("kind", idx % 6); std::string desc; size_t limit = 0; int n = 0; std::function<void(int)> f; size_t after = 0; (void) after;
    static const char* bases[] = { "event,aggregate,timer", "event,trace,timer", "event,aggregate,timer,loop_monitor,statistics", "timestamp,event,trace", "event,validator", "async_event,timer,trace,event", "alloc,event,aggregate", "allocstats,event,trace", "event,region_monitor,timer", "loop_statistics,event,aggregate", "event,aggregate,recorder", "event,aggregate,report" };
    std::string base = bases[kind == 2 ? 5 : r.below(12)]; config_map_t m { { "CALI_SERVICES_ENABLE", base }, { "CALI_CHANNEL_FLUSH_ON_EXIT", "false" }, { "CALI_RECORDER_FILENAME", "/dev/null" }, { "CALI_REPORT_FILENAME", "/dev/null" } };
    auto work = [] { for (int i = 0; i < 3; ++i) { cali_begin_region("w"); { cali::Loop l("wl"); for (int k = 0; k < 2; ++k) auto it = l.iteration(k); } cali_end_region("w"); } };
    const char* spec = config_spec(r);
    cali_id_t keep = CALI_INV_ID; auto channel = [&] { keep = cali::create_channel(fmt("churn.%d", (int) idx).c_str(), 0, m); };
    switch (kind) {
    case 0: desc = "channels"; n = 600; limit = 2000; f = [&](int i) { cali_id_t id = cali::create_channel(fmt("ch%d.%d", (int) idx, i % (i % 2 ? 100000 : 7)).c_str(), 0, m); work(); if (i % 3 == 0) cali_channel_flush(id, 0); cali_delete_channel(id); }; break;
    case 1: desc = "threads"; n = 400; limit = 1000; channel(); f = [&](int i) { std::thread(work).join(); if (i % 5 == 0) { std::vector<std::thread> t; std::atomic<int> up { 0 }; for (int k = 0; k < 6; ++k) t.emplace_back([&] { work(); ++up; while (up < 6) std::this_thread::yield(); }); for (auto& x : t) x.join(); } if (i % 10 == 9) cali_channel_flush(keep, CALI_FLUSH_CLEAR_BUFFERS); }; break;
    case 2: desc = "asynchronous events"; n = 3000; limit = 40; channel(); f = [&](int i) { auto e = cali::TimedAsyncEvent::begin(i % 2 ? "e1" : "e2"); work(); e.end(); if (i % 100 == 99) cali_channel_flush(keep, CALI_FLUSH_CLEAR_BUFFERS); }; break;
    case 3: desc = "flush and clear"; n = 400; limit = 100; channel(); f = [&](int i) { for (int k = 0; k < 20; ++k) work(); cali_channel_flush(keep, CALI_FLUSH_CLEAR_BUFFERS); }; break;
    case 4: desc = "config managers"; n = 60; limit = 4000; f = [&](int i) { ConfigManager mgr; mgr.add(fmt(spec, "/dev/null").c_str()); mgr.start(); work(); mgr.flush(); mgr.stop(); }; break;
    default: desc = "regions, pulls, tracked memory and attribute lookups"; n = 1500; limit = 40; channel(); f = [&](int i) { work(); int x[4]; cali_datatracker_track(x, "x", sizeof x); unsigned char b[800]; cali_channel_pull_snapshot(keep, CALI_SCOPE_THREAD, sizeof b, b); cali_datatracker_untrack(x); Annotation a("churn.annot", CALI_ATTR_ASVALUE); a.begin(i); a.end(); cali_set_global_int_byname("churn.g", i); cali_find_attribute("churn.annot"); cali_get_current_region_or("x"); if (i % 50 == 49) cali_channel_flush(keep, CALI_FLUSH_CLEAR_BUFFERS); }; }
    int w = n / 3, i = 0; size_t h0, h1, h2; for (; i < w; ++i) f(i);
    if (keep != CALI_INV_ID) cali_channel_flush(keep, CALI_FLUSH_CLEAR_BUFFERS);
    h0 = heap(); for (; i < w + n; ++i) f(i); if (keep != CALI_INV_ID) cali_channel_flush(keep, CALI_FLUSH_CLEAR_BUFFERS);
    h1 = heap(); for (; i < w + 2 * n; ++i) f(i); if (keep != CALI_INV_ID) cali_channel_flush(keep, CALI_FLUSH_CLEAR_BUFFERS);
    h2 = heap();
    // growth by amortized doubling shows in at most one of the two halves
    double g1 = h1 > h0 ? (double) (h1 - h0) / n : 0, g2 = h2 > h1 ? (double) (h2 - h1) / n : 0, g = std::min(g1, g2);
    stat("objects", w + 2 * n); std::string key = desc; for (auto& ch : key) if (ch == ' ' || ch == ',') ch = '_'; smax("growth_per_object_of_" + key, (long long) g); 
    if (sarg("verbose", "") == "1") fprintf(stderr, "%s [%s]: %.1f, %.1f bytes per object\n", desc.c_str(), base.c_str(), g1, g2);
    if (g > limit) viol("c30:growth-" + key, fmt("%s (services %s): memory grows by %.0f and %.0f bytes per object over %d objects each (bound %zu)", desc.c_str(), base.c_str(), g1, g2, n, limit));
    probe("after churning " + desc, false, false);
    if (keep != CALI_INV_ID) cali_delete_channel(keep);
    kase(desc + "|" + base); fp(desc + "|" + base);
}
int main(int argc, char** argv) {
    init(argc, argv); std::string mode = sarg("mode", "torture"); uint64_t seed = iarg("seed", 1); long from = iarg("from", 0), to = iarg("to", 1);
    for (long i = from; i < to; ++i) { if (mode == "churn") churn(seed, i); else torture(seed, i, mode == "capacity"); }
    done(); return 0;
}
