// C19: allocation tracking against an interval-map model (one thread: every record; several threads: bounds, and exactness at rest)
#include "prog.h"
#include "caliper/cali_datatracker.h"
#include <unistd.h>
using namespace vh;
extern "C" cali_id_t cali_class_memoryaddress_attr_id;
typedef unsigned long long ull;
static std::vector<std::pair<Attribute, bool>> g_addr; // attribute, resolvable
static std::mutex g_addr_lock;
static void new_addr_attr() { std::lock_guard<std::mutex> g(g_addr_lock); if (g_addr.size() >= 4) return; cali_variant_t t = cali_make_variant_from_bool(true); Caliper c; cali_id_t id = cali_create_attribute_with_metadata(fmt("ma19.%zu", g_addr.size()).c_str(), g_addr.size() == 1 ? CALI_TYPE_UINT : CALI_TYPE_ADDR, CALI_ATTR_ASVALUE, 1, &cali_class_memoryaddress_attr_id, &t); g_addr.push_back({ c.get_attribute(id), true }); }
static Variant addr_val(const Attribute& a, uint64_t p) { void* v = (void*) p; return a.type() == CALI_TYPE_UINT ? Variant(cali_make_variant_from_uint(p)) : Variant(CALI_TYPE_ADDR, &v, sizeof v); }
struct Live { uint64_t start, size, elem; std::string label, extra; int path = -1; uint64_t uid = 0; };
struct Res { bool hit = false; std::string label, extra; uint64_t uid = 0, idx = 0; bool has_idx = false, has_uid = false; };
struct Row { int tid = -1; int64_t seq = -1; char kind = 'p'; std::string label, extra; uint64_t uid = 0, addr = 0, active = 0, hwm = 0, rs_hwm = 0; int64_t size = 0; bool has_active = false, has_hwm = false, has_rs_hwm = false, has_size = false; std::map<std::string, Res> res; };
struct Tally { uint64_t tally = 0, count = 0, max = 0, avg = 0; };
static Attribute seq_attr, tid_attr, extra_attr, reg_attr;
static void read_channel(Channel& chn, std::vector<Row>& rows, std::map<std::string, Tally>& tallies, long& dup) {
    Caliper c; rows.clear(); tallies.clear(); dup = 0;
    c.flush(chn.body(), SnapshotView(), [&](CaliperMetadataAccessInterface& db, const std::vector<Entry>& rec) {
        Row row; std::string rpath; bool tally = false; Tally ty;
        for (const Entry& e : rec) {
            if (e.is_reference()) {
                std::string en = db.get_attribute(e.node()->attribute()).name(), ex; for (const Node* n = e.node(); n && n->attribute() != CALI_INV_ID; n = n->parent()) { if (n->attribute() == extra_attr.id()) ex = n->data().to_string(); if (n->attribute() == reg_attr.id()) rpath = "/" + n->data().to_string() + rpath; }
                std::string d = e.node()->data().to_string();
                if (en == "mem.alloc" || en == "mem.free") { row.kind = en == "mem.alloc" ? 'a' : 'f'; row.label = d; row.extra = ex; }
                else if (en.compare(0, 12, "alloc.label#") == 0) { auto& r = row.res[en.substr(12)]; if (r.hit) viol("c19:two-labels", "two labels for one address"); r.hit = true; r.label = d; r.extra = ex; }
                continue;
            }
            std::string n = db.get_attribute(e.attribute()).name(); uint64_t u = e.value().to_uint();
            if (n == "seq19") row.seq = e.value().to_int64(); else if (n == "tid19") row.tid = e.value().to_int(); else if (n == "alloc.uid") row.uid = u; else if (n == "alloc.address") { const void* p = e.value().get_ptr(); row.addr = p ? (uint64_t) p : u; }
            else if (n == "alloc.total_size") { row.size = e.value().to_int64(); row.has_size = true; } else if (n == "mem.active") { row.active = u; row.has_active = true; if (e.value().type() != CALI_TYPE_UINT) viol("c19:type", "active memory is no unsigned integer"); }
            else if (n == "alloc.region.highwatermark") { row.hwm = u; row.has_hwm = true; if (e.value().type() != CALI_TYPE_UINT) viol("c19:type", "high-water mark is no unsigned integer"); }
            else if (n.compare(0, 10, "alloc.uid#") == 0) { auto& r = row.res[n.substr(10)]; r.uid = u; r.has_uid = true; } else if (n.compare(0, 12, "alloc.index#") == 0) { auto& r = row.res[n.substr(12)]; r.idx = u; r.has_idx = true; }
            else if (n == "alloc.tally") { tally = true; ty.tally = u; } else if (n == "alloc.count") ty.count = u; else if (n == "max#alloc.size") ty.max = u; else if (n == "avg#alloc.size") ty.avg = u;
        }
        if (tally) { if (tallies.count(rpath)) ++dup; tallies[rpath] = ty; } else rows.push_back(row);
    });
}
static void track(Caliper& c, Rng& r, const Live& l, std::vector<size_t> dims, size_t elem) {
    int how = (int) r.below(3); void* p = (void*) l.start;
    if (!l.extra.empty()) { Variant v = kept_string(l.extra); c.memory_region_begin(p, l.label.c_str(), elem, dims.size(), dims.data(), 1, &extra_attr, &v); }
    else if (elem == 1 && dims.size() == 1 && how) cali_datatracker_track(p, l.label.c_str(), dims[0]);
    else cali_datatracker_track_dimensional(p, l.label.c_str(), elem, dims.data(), dims.size());
}
// random extents whose product stays below `limit`
static uint64_t extents(Rng& r, uint64_t limit, std::vector<size_t>& dims, size_t& elem) {
    static const size_t es[] = { 1, 1, 2, 3, 4, 7, 8, 16, 24, 100, 0 }; elem = r.chance(50) ? 1 : es[r.below(11)]; if (r.chance(3)) elem = limit > 5000 ? 4097 : 3; dims.clear(); if (elem > limit) elem = 1; uint64_t tot = elem; int nd = elem == 1 ? 1 : r.chance(5) ? 0 : 1 + (int) r.below(3);
    if (r.chance(25)) nd = 1 + (int) r.below(4);
    for (int i = 0; i < nd; ++i) { uint64_t m = tot ? limit / tot : limit; size_t d = i + 1 == nd ? (r.chance(4) ? 0 : r.chance(50) ? r.below(m + 1) : r.below(std::min<uint64_t>(m, 64) + 1)) : 1 + r.below(std::min<uint64_t>(std::max<uint64_t>(m, 1), 12)); if (tot && d * tot > limit) d = 1; dims.push_back(d); tot *= d; }
    return tot;
}
static int serial = 0;
struct Mem { uint64_t active = 0, mx = 0; void add(uint64_t s) { active += s; mx = std::max(mx, active); } uint64_t snap() { uint64_t m = mx; mx = active; return m; } };
static void single(uint64_t seed, uint64_t idx) {
    Rng r(mix(seed, idx)); Caliper c; int me = serial++; if (me == 0) { new_addr_attr(); new_addr_attr(); }
    bool trk = r.chance(60), res = r.chance(80), act = r.chance(70), hwm = r.chance(70), big = r.chance(15), shwm = r.chance(60), both = r.chance(70);
    config_map_t ca { { "CALI_SERVICES_ENABLE", "alloc,trace" }, { "CALI_ALLOC_TRACK_ALLOCATIONS", trk ? "true" : "false" }, { "CALI_ALLOC_RESOLVE_ADDRESSES", res ? "true" : "false" }, { "CALI_ALLOC_RECORD_ACTIVE_MEM", act ? "true" : "false" }, { "CALI_ALLOC_RECORD_HIGHWATERMARK", hwm ? "true" : "false" }, { "CALI_CHANNEL_FLUSH_ON_EXIT", "false" } };
    config_map_t cs { { "CALI_SERVICES_ENABLE", "allocstats,trace" }, { "CALI_ALLOCSTATS_RECORD_HIGHWATERMARK", shwm ? "true" : "false" }, { "CALI_CHANNEL_FLUSH_ON_EXIT", "false" } };
    cali_id_t ia = cali::create_channel(fmt("c19a.%d", me).c_str(), 0, ca), is = both ? cali::create_channel(fmt("c19s.%d", me).c_str(), 0, cs) : CALI_INV_ID;
    Channel cha = c.get_channel(ia), chs; if (both) chs = c.get_channel(is);
    int ns = 1 + (int) (r.chance(20) ? r.below(1500) : r.chance(50) ? r.below(200) : r.below(20)); uint64_t base = 0x7f0000000000ull + (r.below(1000) << 24), gap = big ? 1ull << 34 : 4096ull + r.below(60000); int order = (int) r.below(5); // random, up, down, both ends, blocks
    std::map<uint64_t, Live> live; std::map<uint64_t, Live> slive; std::map<std::string, uint64_t> scur; std::map<std::string, std::array<uint64_t, 4>> sreg; // tally, count, total, max
    Mem mb, ma, ms; std::vector<std::string> path; uint64_t uids = 0; (void) uids; std::map<uint64_t, uint64_t> model_uid; // model number -> recorded uid
    struct Want { char kind; int64_t seq; std::string label, extra; uint64_t num, addr, act_b, act_a, hwm_b, hwm_a; int64_t size; std::map<std::string, std::array<std::string, 2>> res; std::map<std::string, std::pair<uint64_t, uint64_t>> hit; };
    std::vector<Want> want, wants; uint64_t num = 0; std::map<uint64_t, uint64_t> num_of; int64_t seq = 0; long lookups = 0, hits = 0, replaced = 0, maxlive = 0; int cursor = 0;
    auto regname = [&] { std::string s; for (auto& x : path) s += "/" + x; return s; };
    std::string what = fmt("session %d (track %d, resolve %d, active %d, hwm %d, %d slots, order %d): ", me, trk, res, act, hwm, ns, order);
    auto slot = [&]() -> int { int k; switch (order) { case 1: k = cursor++ % ns; break; case 2: k = ns - 1 - cursor++ % ns; break; case 3: { int q = cursor++ % ns; k = q % 2 ? ns - 1 - q / 2 : q / 2; break; } case 4: k = (cursor++ / 7 * 13 + cursor % 7) % ns; break; default: k = (int) r.below(ns); } return k; };
    auto free_slot = [&](uint64_t key) {
        Live l = live[key]; Want w { 'f', -1, l.label, l.extra, num_of[key], l.start, ma.active, ma.active - l.size, 0, 0, -(int64_t) l.size, {}, {} };
        cali_datatracker_untrack((void*) l.start);
        if (trk) { w.hwm_b = mb.snap(); } mb.active -= l.size; ma.active -= l.size; if (trk) w.hwm_a = ma.snap();
        live.erase(key); num_of.erase(key); if (trk) want.push_back(w);
        if (slive.count(key)) { scur[std::to_string(slive[key].path)] += 0; }
    };
    std::vector<std::string> spaths; auto sfree = [&](uint64_t key) { auto it = slive.find(key); if (it == slive.end()) return; scur[spaths[it->second.path]] -= it->second.size; ms.active -= it->second.size; slive.erase(it); };
    auto snap = [&](std::vector<uint64_t> as) {
        std::vector<cali_id_t> ids { seq_attr.id() }; std::vector<cali_variant_t> vs { Variant(cali_make_variant_from_int64(++seq)).c_variant() }; Want w { 'p', seq, "", "", 0, 0, ma.active, ma.active, 0, 0, 0, {}, {} };
        std::vector<int> which; for (size_t i = 0; i < g_addr.size(); ++i) which.push_back((int) i);
        for (size_t i = 0; i < as.size() && !which.empty(); ++i) {
            size_t x = r.below(which.size()); Attribute a = g_addr[which[x]].first; which.erase(which.begin() + x); ids.push_back(a.id()); vs.push_back(addr_val(a, as[i]).c_variant()); ++lookups;
            auto it = live.upper_bound(as[i]); if (it != live.begin()) { --it; if (as[i] < it->second.start + it->second.size) { ++hits; w.res[a.name()] = { it->second.label, it->second.extra }; w.hit[a.name()] = { num_of[it->first], it->second.elem ? (as[i] - it->second.start) / it->second.elem : 0 }; } }
        }
        cali_push_snapshot(CALI_SCOPE_THREAD | CALI_SCOPE_PROCESS, (int) ids.size(), ids.data(), vs.data()); w.hwm_b = mb.snap(); w.hwm_a = ma.snap(); want.push_back(w); Want s = w; s.hwm_a = s.hwm_b = ms.snap(); wants.push_back(s);
    };
    auto verify = [&] {
        std::vector<Row> rows; std::map<std::string, Tally> ty; long dup;
        read_channel(cha, rows, ty, dup); if (!ty.empty()) viol("c19:stray", what + "allocation statistics without the service");
        if (rows.size() != want.size()) { viol("c19:records", what + fmt("%zu records of %zu events", rows.size(), want.size())); return; }
        std::set<uint64_t> used;
        for (size_t i = 0; i < rows.size(); ++i) {
            const Row& x = rows[i]; const Want& w = want[i]; std::string ev = what + fmt("record %zu (%c): ", i, w.kind);
            if (x.kind != w.kind || (w.kind == 'p' && x.seq != w.seq)) { viol("c19:event", ev + fmt("is of kind %c, snapshot %lld instead of %lld", x.kind, (long long) x.seq, (long long) w.seq)); return; }
            if (w.kind != 'p') {
                if (x.label != w.label || x.extra != w.extra) viol("c19:label", ev + "'" + x.label + "' '" + x.extra + "' instead of '" + w.label + "' '" + w.extra + "'");
                if (x.addr != w.addr) viol("c19:address", ev + fmt("%llx instead of %llx", (ull) x.addr, (ull) w.addr));
                if (!x.has_size || x.size != w.size) viol("c19:size", ev + fmt("size %lld instead of %lld", (long long) x.size, (long long) w.size));
                if (w.kind == 'a') { if (model_uid.count(w.num) && model_uid[w.num] != x.uid) viol("c19:uid", ev + "identity changed between reads"); model_uid[w.num] = x.uid; if (!used.insert(x.uid).second) viol("c19:uid", ev + fmt("identity %llu used twice", (ull) x.uid)); }
                else if (model_uid.count(w.num) ? model_uid[w.num] != x.uid : false) viol("c19:uid", ev + fmt("released with identity %llu, tracked with %llu", (ull) x.uid, (ull) model_uid[w.num]));
            }
            if (x.has_active != act) viol("c19:active-presence", ev + (act ? "no active memory" : "active memory not asked for"));
            if (act && x.active != w.act_b && x.active != w.act_a) viol("c19:active", ev + fmt("%llu bytes active, tracked and not released are %llu", (ull) x.active, (ull) w.act_b));
            if (x.has_hwm != hwm) viol("c19:hwm-presence", ev + (hwm ? "no high-water mark" : "high-water mark not asked for"));
            if (hwm && x.hwm != w.hwm_b && x.hwm != w.hwm_a) viol("c19:hwm", ev + fmt("high-water mark %llu instead of %llu", (ull) x.hwm, (ull) w.hwm_b));
            if (w.kind != 'p') continue;
            for (auto& a : g_addr) {
                auto wi = w.res.find(a.first.name()); auto xi = x.res.find(a.first.name()); bool wh = res && wi != w.res.end(), xh = xi != x.res.end();
                if (wh != xh) { viol(wh ? "c19:unresolved" : "c19:false-resolve", ev + (wh ? "no allocation found, expected '" + wi->second[0] + "'" : "resolved to '" + xi->second.label + "'")); continue; }
                if (!wh) continue;
                auto& h = w.hit.at(a.first.name());
                if (!xi->second.hit || xi->second.label != wi->second[0] || xi->second.extra != wi->second[1]) viol("c19:resolve-label", ev + "resolved to '" + xi->second.label + "' '" + xi->second.extra + "' instead of '" + wi->second[0] + "' '" + wi->second[1] + "'");
                if (!xi->second.has_idx || xi->second.idx != h.second) viol("c19:resolve-index", ev + fmt("element %llu instead of %llu", (ull) xi->second.idx, (ull) h.second));
                if (model_uid.count(h.first) ? model_uid[h.first] != xi->second.uid : (model_uid[h.first] = xi->second.uid, false)) viol("c19:resolve-uid", ev + fmt("resolved to allocation %llu instead of %llu", (ull) xi->second.uid, (ull) model_uid[h.first]));
            }
            vh::stat("records_compared");
        }
        if (!both) return;
        read_channel(chs, rows, ty, dup); if (dup) viol("c19:duplicate-statistics", what + "several statistics of one region");
        if (rows.size() != wants.size()) { viol("c19:stats-records", what + fmt("%zu records of %zu snapshots", rows.size(), wants.size())); return; }
        for (size_t i = 0; i < rows.size(); ++i) { if (rows[i].seq != wants[i].seq) { viol("c19:stats-event", what + fmt("snapshot %lld instead of %lld", (long long) rows[i].seq, (long long) wants[i].seq)); return; } if (rows[i].has_hwm != shwm) viol("c19:stats-hwm-presence", what + "presence of the high-water mark"); if (shwm && rows[i].hwm != wants[i].hwm_b) viol("c19:stats-hwm", what + fmt("statistics, snapshot %zu: high-water mark %llu instead of %llu", i, (ull) rows[i].hwm, (ull) wants[i].hwm_b)); vh::stat("high_water_marks_compared"); }
        for (auto& p : sreg) {
            auto it = ty.find(p.first); auto& m = p.second; if (it == ty.end()) { if (m[1] || m[0]) viol("c19:stats-missing", what + "no statistics for " + p.first); continue; }
            if (it->second.tally != m[0] || it->second.count != m[1] || it->second.max != m[3] || it->second.avg != (m[1] ? m[2] / m[1] : 0)) viol("c19:stats", what + fmt("%s: tally %llu, count %llu, max %llu, avg %llu instead of %llu, %llu, %llu, %llu", p.first.c_str(), (ull) it->second.tally, (ull) it->second.count, (ull) it->second.max, (ull) it->second.avg, (ull) m[0], (ull) m[1], (ull) m[3], (ull) (m[1] ? m[2] / m[1] : 0)));
            ty.erase(it); vh::stat("region_statistics_compared");
        }
        for (auto& p : ty) if (p.second.tally || p.second.count) viol("c19:stats-extra", what + "statistics for " + p.first);
    };
    int steps = 50 + (int) r.below(r.chance(20) ? 4000 : 500), grow = 30 + (int) r.below(50); long nclear = 0;
    int pre = r.chance(25) ? ns : 0; if (pre > 20) steps += pre;
    for (int s = 0; s < steps; ++s) {
        int k = s < pre ? 0 : (int) r.below(100); if (s < pre) grow = 100; else if (s == pre) grow = 30 + (int) r.below(50); maxlive = std::max<long>(maxlive, live.size()); if (r.chance(1)) grow = 20 + (int) r.below(70);
        if (k < 45) {
            uint64_t key = base + slot() * gap; bool is_live = live.count(key);
            if (is_live ? r.chance(s < pre ? 10 : 92) : r.chance(100 - grow) && !live.empty()) { // release: this one, the first, the last or a random one
                if (!is_live) { auto it = r.chance(30) ? live.begin() : r.chance(30) ? std::prev(live.end()) : live.lower_bound(base + r.below(ns) * gap); if (it == live.end()) it = live.begin(); key = it->first; }
                free_slot(key); sfree(key); continue;
            }
            Live l; l.start = key; size_t elem; std::vector<size_t> dims; l.size = extents(r, gap, dims, elem); if (r.chance(10)) { dims = { (size_t) gap }; elem = 1; l.size = gap; } l.elem = elem; l.label = r.chance(30) ? fmt("dup%d", (int) r.below(3)) : fmt("L%llu", (ull) num); if (r.chance(20)) l.extra = fmt("x%d", (int) r.below(3));
            Want w { 'a', -1, l.label, l.extra, num, key, ma.active, 0, 0, 0, (int64_t) l.size, {}, {} };
            track(c, r, l, dims, elem);
            if (trk) w.hwm_b = mb.snap();
            if (is_live) { ++replaced; mb.active -= live[key].size; ma.active -= live[key].size; } mb.add(l.size); ma.add(l.size); w.act_a = ma.active; if (trk) { w.hwm_a = ma.snap(); want.push_back(w); }
            live[key] = l; num_of[key] = num++;
            sfree(key); if (!path.empty()) { std::string p = regname(); size_t pi = std::find(spaths.begin(), spaths.end(), p) - spaths.begin(); if (pi == spaths.size()) spaths.push_back(p); Live sl = l; sl.path = (int) pi; slive[key] = sl; auto& m = sreg[p]; uint64_t& cu = scur[p]; cu += l.size; m[0] = std::max(m[0], cu); ++m[1]; m[2] += l.size; m[3] = std::max<uint64_t>(m[3], l.size); ms.add(l.size); }
        } else if (k < 50) { uint64_t a = r.chance(50) ? base + r.below(ns) * gap + 1 + r.below(gap - 1) : base - 1 - r.below(1000); cali_datatracker_untrack((void*) a); } // not tracked
        else if (k < 80) {
            std::vector<uint64_t> as; int na = 1 + (int) r.below(4);
            for (int i = 0; i < na; ++i) { uint64_t a = base + r.below(ns) * gap; if (!live.empty() && r.chance(85)) { auto it = live.lower_bound(a); if (it == live.end()) --it; const Live& l = it->second; a = l.start; switch (r.below(6)) { case 0: break; case 1: a += l.size - 1; break; case 2: a += l.size; break; case 3: a -= 1; break; default: a += l.size ? r.below(l.size) : 0; } } else if (r.chance(50)) a += r.below(gap); else if (r.chance(20)) a = r.chance(50) ? 0 : ~0ull; as.push_back(a); }
            snap(as);
        } else if (k < 86) snap({});
        else if (k < 92) { if (path.size() < 4) { std::string v = fmt("r%d", (int) r.below(4)); c.begin(reg_attr, Variant(v.c_str())); path.push_back(v); } }
        else if (k < 96) { if (!path.empty()) { c.end(reg_attr); path.pop_back(); } }
        else if (k == 96 && r.chance(10)) verify();
        else if (k == 97 && both && r.chance(10)) { ++nclear; c.clear(&chs); wants.clear(); for (auto& p : sreg) p.second = { scur[p.first], 0, 0, 0 }; }
        else if (k == 98 && r.chance(10)) new_addr_attr();
        else if (k == 99 && r.chance(10)) { c.clear(&cha); want.clear(); }
    }
    while (!path.empty()) { c.end(reg_attr); path.pop_back(); }
    while (!live.empty() && r.chance(99)) { auto it = order == 2 ? std::prev(live.end()) : live.begin(); uint64_t k = it->first; free_slot(k); sfree(k); }
    snap({}); snap({}); verify();
    cali_delete_channel(ia); if (both) cali_delete_channel(is);
    smax("live_at_once", maxlive); vh::stat("lookups", lookups); vh::stat("lookups_inside", hits); vh::stat("replaced_without_release", replaced); vh::stat("clears", nclear);
    kase(fmt("single trk=%d res=%d act=%d hwm=%d shwm=%d order=%d slots=%d big=%d attrs=%zu", trk, res, act, hwm, both ? shwm : 2, order, ns < 20 ? 0 : ns < 200 ? 1 : 2, big, g_addr.size()));
}
// several threads on their own addresses
struct MEv { uint64_t s0, s1; int64_t size; int tid; char kind; int64_t id; uint64_t own_hit; };
static void multi(uint64_t seed, uint64_t idx) {
    Rng r(mix(seed, idx) ^ 0x77); Caliper c; int me = serial++; if (me == 0) { new_addr_attr(); new_addr_attr(); }
    int nt = 2 + (int) r.below(6), per = 1 + (int) r.below(60), steps = 100 + (int) r.below(400); bool trk = r.chance(30), st = r.chance(50), inter = r.chance(60);
    config_map_t ca { { "CALI_SERVICES_ENABLE", "alloc,trace" }, { "CALI_ALLOC_TRACK_ALLOCATIONS", trk ? "true" : "false" }, { "CALI_ALLOC_RESOLVE_ADDRESSES", "true" }, { "CALI_ALLOC_RECORD_ACTIVE_MEM", "true" }, { "CALI_ALLOC_RECORD_HIGHWATERMARK", "true" }, { "CALI_CHANNEL_FLUSH_ON_EXIT", "false" } };
    config_map_t cs { { "CALI_SERVICES_ENABLE", "allocstats,trace" }, { "CALI_ALLOCSTATS_RECORD_HIGHWATERMARK", "true" }, { "CALI_CHANNEL_FLUSH_ON_EXIT", "false" } };
    cali_id_t ia = cali::create_channel(fmt("c19m.%d", me).c_str(), 0, st ? cs : ca); Channel ch = c.get_channel(ia);
    uint64_t base = 0x7e0000000000ull, gap = 8192; std::atomic<uint64_t> clk { 1 }; std::atomic<int> go { 0 };
    auto addr = [&](int t, int i) { return base + (inter ? (uint64_t) (i * nt + t) : (uint64_t) (t * per + i)) * gap; };
    std::vector<std::vector<MEv>> logs(nt); std::vector<std::map<int, Live>> owned(nt); std::vector<std::map<int64_t, Live>> wantres(nt); std::vector<long> cnt(nt), mxsz(nt), tot(nt); std::vector<std::string> regs(nt); std::vector<uint64_t> cur(nt), tal(nt);
    std::vector<std::thread> ts; std::vector<Attribute> at; for (auto& a : g_addr) at.push_back(a.first);
    for (int t = 0; t < nt; ++t) ts.emplace_back([&, t] {
        Rng q(mix(mix(seed, idx), t + 1)); Caliper cc; cc.set(tid_attr, Variant(t)); std::string rg = fmt("m%d", t); cc.begin(reg_attr, Variant(rg.c_str())); regs[t] = "/" + rg; ++go; while (go < nt) ; int64_t id = 0;
        for (int s = 0; s < steps; ++s) {
            int k = (int) q.below(100), i = (int) q.below(per); uint64_t ad = addr(t, i); auto& mine = owned[t];
            if (k < 60) {
                if (mine.count(i)) { uint64_t s0 = clk++; cali_datatracker_untrack((void*) ad); logs[t].push_back({ s0, clk++, -(int64_t) mine[i].size, t, 'f', 0, 0 }); cur[t] -= mine[i].size; mine.erase(i); }
                else { Live l; l.start = ad; size_t elem; std::vector<size_t> dims; l.size = extents(q, gap, dims, elem); l.elem = elem; l.label = fmt("T%d.%d", t, i); uint64_t s0 = clk++; track(cc, q, l, dims, elem); logs[t].push_back({ s0, clk++, (int64_t) l.size, t, 'a', 0, 0 }); mine[i] = l; ++cnt[t]; tot[t] += l.size; mxsz[t] = std::max<long>(mxsz[t], l.size); cur[t] += l.size; tal[t] = std::max(tal[t], cur[t]); }
            } else if (k < 98) {
                int ot = q.chance(50) ? t : (int) q.below(nt), oi = q.chance(50) && !mine.empty() ? mine.begin()->first : (int) q.below(per); uint64_t off = q.chance(30) ? 0 : q.below(gap), a = addr(ot, oi) + off;
                cali_id_t ids[2] = { seq_attr.id(), at[q.below(at.size())].id() }; cali_variant_t vs[2] = { Variant(cali_make_variant_from_int64(++id)).c_variant(), addr_val(Caliper::instance().get_attribute(ids[1]), a).c_variant() };
                Live w; w.start = a; w.elem = 0; w.path = ot; w.size = 0; if (ot == t && mine.count(oi) && off < mine[oi].size) { w = mine[oi]; w.path = t; w.uid = w.elem ? off / w.elem : 0; } else { w.uid = off; w.label = ""; w.extra = fmt("T%d.%d", ot, oi); }
                wantres[t][id] = w; uint64_t s0 = clk++; cali_push_snapshot(CALI_SCOPE_THREAD | CALI_SCOPE_PROCESS, 2, ids, vs); logs[t].push_back({ s0, clk++, 0, t, 'p', id, 0 });
            } else if (q.chance(10)) new_addr_attr();
        }
        if (q.chance(70)) { while (!owned[t].empty()) { uint64_t s0 = clk++; cali_datatracker_untrack((void*) owned[t].begin()->second.start); logs[t].push_back({ s0, clk++, -(int64_t) owned[t].begin()->second.size, t, 'f', 0, 0 }); cur[t] -= owned[t].begin()->second.size; owned[t].erase(owned[t].begin()); } }
        cc.end(reg_attr);
    });
    for (auto& t : ts) t.join();
    cali_id_t sid = seq_attr.id(); cali_variant_t m1 = Variant(cali_make_variant_from_int64(-7)).c_variant(); cali_push_snapshot(CALI_SCOPE_PROCESS, 1, &sid, &m1); m1 = Variant(cali_make_variant_from_int64(-8)).c_variant(); cali_push_snapshot(CALI_SCOPE_PROCESS, 1, &sid, &m1);
    uint64_t rest = 0; for (auto& o : owned) for (auto& p : o) rest += p.second.size;
    std::vector<Row> rows; std::map<std::string, Tally> ty; long dup; read_channel(ch, rows, ty, dup); std::string what = fmt("session %d (%d threads, %d addresses each%s): ", me, nt, per, st ? ", statistics" : trk ? ", tracking" : "");
    // bounds of the active bytes over time
    struct Step { uint64_t s; int64_t lo, hi; }; std::vector<Step> steps2; for (auto& l : logs) for (auto& e : l) if (e.kind != 'p') { if (e.size > 0) { steps2.push_back({ e.s0, 0, e.size }); steps2.push_back({ e.s1, e.size, 0 }); } else { steps2.push_back({ e.s0, e.size, 0 }); steps2.push_back({ e.s1, 0, e.size }); } }
    std::sort(steps2.begin(), steps2.end(), [](const Step& a, const Step& b) { return a.s < b.s; }); std::vector<std::array<int64_t, 2>> pre; int64_t lo = 0, hi = 0, peak_lo = 0, peak_hi = 0; pre.push_back({ 0, 0 }); for (auto& s : steps2) { lo += s.lo; hi += s.hi; pre.push_back({ lo, hi }); peak_lo = std::max(peak_lo, lo); peak_hi = std::max(peak_hi, hi); }
    auto range = [&](uint64_t s0, uint64_t s1, int64_t& mn, int64_t& mx) { size_t i = std::upper_bound(steps2.begin(), steps2.end(), s0, [](uint64_t v, const Step& x) { return v < x.s; }) - steps2.begin(), j = std::upper_bound(steps2.begin(), steps2.end(), s1, [](uint64_t v, const Step& x) { return v < x.s; }) - steps2.begin(); mn = pre[i][0]; mx = pre[i][1]; for (; i <= j; ++i) { mn = std::min(mn, pre[i][0]); mx = std::max(mx, pre[i][1]); } };
    std::map<std::pair<int, int64_t>, const MEv*> byid; long npush = 0; for (auto& l : logs) for (auto& e : l) if (e.kind == 'p') { byid[{ e.tid, e.id }] = &e; ++npush; }
    uint64_t maxh = 0; long seen = 0, allocs = 0, frees = 0; int64_t balance = 0; std::map<uint64_t, int64_t> uids;
    for (auto& x : rows) {
        if (x.has_hwm) { maxh = std::max(maxh, x.hwm); if ((int64_t) x.hwm > peak_hi) viol("c19:mt-hwm-high", what + fmt("high-water mark %llu, never more than %lld were tracked", (ull) x.hwm, (long long) peak_hi)); }
        if (x.kind != 'p') { (x.kind == 'a' ? allocs : frees)++; balance += x.size; uids[x.uid] += x.size; continue; }
        if (x.seq == -8) { if (!x.has_hwm || x.hwm != rest) viol("c19:mt-hwm-rest", what + fmt("high-water mark %llu at rest, %llu are tracked", (ull) x.hwm, (ull) rest)); if (!st && x.active != rest) viol("c19:mt-active-rest", what + fmt("%llu bytes active, tracked and not released are %llu", (ull) x.active, (ull) rest)); continue; }
        if (x.seq < 0) continue;
        auto it = byid.find({ x.tid, x.seq }); if (it == byid.end()) { viol("c19:mt-stray", what + "a record of no snapshot"); continue; } ++seen; int64_t mn, mx; range(it->second->s0, it->second->s1, mn, mx);
        if (x.has_hwm && (int64_t) x.hwm < mn) viol("c19:mt-hwm-low", what + fmt("high-water mark %llu while at least %lld were tracked", (ull) x.hwm, (long long) mn));
        if (st) continue;
        if ((int64_t) x.active < mn || (int64_t) x.active > mx) viol("c19:mt-active", what + fmt("%llu bytes active, between %lld and %lld were tracked", (ull) x.active, (long long) mn, (long long) mx));
        const Live& w = wantres[x.tid][x.seq]; bool own = !w.label.empty();
        if (own) { if (x.res.size() != 1) viol("c19:mt-unresolved", what + "thread's own address in " + w.label + " not resolved"); else { auto& q = x.res.begin()->second; if (q.label != w.label || q.idx != w.uid) viol("c19:mt-resolve", what + fmt("%s element %llu resolved to %s element %llu", w.label.c_str(), (ull) w.uid, q.label.c_str(), (ull) q.idx)); vh::stat("own_addresses_resolved"); } }
        else if (w.path == x.tid) { if (!x.res.empty()) viol("c19:mt-false-resolve", what + "an address of nothing tracked resolved to " + x.res.begin()->second.label); }
        else if (!x.res.empty()) { auto& q = x.res.begin()->second; if (q.label != w.extra || q.idx > w.uid) viol("c19:mt-resolve-other", what + "an address of " + w.extra + " resolved to " + q.label); vh::stat("other_addresses_resolved"); }
    }
    if (seen != npush) viol("c19:mt-records", what + fmt("%ld records of %ld snapshots", seen, npush));
    if ((int64_t) maxh < peak_lo) viol("c19:mt-hwm-lost", what + fmt("largest high-water mark %llu, %lld were tracked at once", (ull) maxh, (long long) peak_lo));
    if (!st && trk) { if (balance != (int64_t) rest) viol("c19:mt-balance", what + fmt("recorded sizes add up to %lld, tracked are %llu", (long long) balance, (ull) rest)); long n = 0; for (long x : cnt) n += x; if (allocs != n || (long) uids.size() != n) viol("c19:mt-allocs", what + fmt("%ld records and %zu identities of %ld allocations", allocs, uids.size(), n)); for (auto& p : uids) if (p.second < 0) viol("c19:mt-uid", what + "an identity was released twice"); }
    if (st) for (int t = 0; t < nt; ++t) { auto it = ty.find(regs[t]); if (it == ty.end()) { if (cnt[t]) viol("c19:mt-stats-missing", what + "no statistics for " + regs[t]); continue; } if (it->second.tally != tal[t] || (long) it->second.count != cnt[t] || (long) it->second.max != mxsz[t] || it->second.avg != (cnt[t] ? (uint64_t) (tot[t] / cnt[t]) : 0)) viol("c19:mt-stats", what + fmt("%s: tally %llu, count %llu, max %llu instead of %llu, %ld, %ld", regs[t].c_str(), (ull) it->second.tally, (ull) it->second.count, (ull) it->second.max, (ull) tal[t], cnt[t], mxsz[t])); vh::stat("thread_statistics_compared"); }
    cali_delete_channel(ia); vh::stat("threads_run", nt); vh::stat("concurrent_snapshots_checked", npush);
    kase(fmt("multi threads=%d slots=%d trk=%d st=%d inter=%d", nt, per / 6, trk, st, inter));
}
int main(int argc, char** argv) {
    init(argc, argv); cali_init(); uint64_t seed = (uint64_t) iarg("seed", 1); int n = (int) iarg("n", 10); Caliper c; bool m = iarg("multi", 0);
    seq_attr = c.create_attribute("seq19", CALI_TYPE_INT, CALI_ATTR_ASVALUE | CALI_ATTR_SKIP_EVENTS); tid_attr = c.create_attribute("tid19", CALI_TYPE_INT, CALI_ATTR_ASVALUE | CALI_ATTR_SKIP_EVENTS);
    extra_attr = c.create_attribute("x19", CALI_TYPE_STRING, CALI_ATTR_SKIP_EVENTS); reg_attr = c.create_attribute("reg19", CALI_TYPE_STRING, CALI_ATTR_NESTED);
    for (int i = 0; i < n; ++i) if (m) multi(seed, i); else single(seed, i);
    done(); return 0;
}
