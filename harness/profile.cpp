// C25: in-memory region profiles against a model of the executed region tree
#include "prog.h"
#include <caliper/RegionProfile.h>
#include <caliper/reader/CaliReader.h>
#include <caliper/reader/CaliperMetadataDB.h>
#include <caliper/reader/FlatExclusiveRegionProfile.h>
#include <caliper/reader/FlatInclusiveRegionProfile.h>
#include <caliper/reader/NestedExclusiveRegionProfile.h>
#include <caliper/reader/NestedInclusiveRegionProfile.h>
#include <chrono>
#include <cmath>
#include <unistd.h>
using namespace vh;
typedef std::map<std::string, double> M;
typedef std::tuple<M, double, double> Prof;
static std::string show(const M& m) { std::string s; for (auto& p : m) s += fmt(" %s=%.17g", p.first.c_str(), p.second); return s.substr(0, 1500); }
static uint64_t now() { return std::chrono::duration_cast<std::chrono::nanoseconds>(std::chrono::steady_clock::now().time_since_epoch()).count(); }

// --- exact profiles of a metric the program itself provides
struct Ctx { std::vector<std::pair<std::string, std::string>> al, un; }; // attribute name, value: aligned path, unaligned path
struct Charge { Ctx c; double v; };
static std::set<std::string> nested_names;
static bool target(const std::string& type, const std::string& attr) { return type.empty() ? nested_names.count(attr) > 0 : type == attr; }
static Prof model(int kind, const std::string& type, const std::vector<Charge>& cs) {
    M m; double tr = 0, tot = 0;
    for (auto& ch : cs) {
        tot += ch.v; bool any = false;
        for (auto* path : { &ch.c.al, &ch.c.un }) {
            if (path->empty()) continue;
            std::vector<std::string> hit; for (auto& p : *path) if (target(type, p.first)) hit.push_back(p.second);
            bool inner = target(type, path->back().first); std::string s; bool done = false;
            switch (kind) {
            case 0: if (inner) { m[path->back().second] += ch.v; done = true; } break;
            case 1: for (auto& h : hit) m[h] += ch.v; if (!hit.empty()) any = true; break;
            case 2: if (inner) { for (auto& h : hit) s += (s.empty() ? "" : "/") + h; m[s] += ch.v; done = true; } break;
            case 3: for (auto& h : hit) { s += (s.empty() ? "" : "/") + h; m[s] += ch.v; } if (!hit.empty()) done = true; break;
            }
            if (done) { any = true; break; }
        }
        if (any) tr += ch.v;
    }
    return Prof(m, tr, tot);
}
static const char* KN[] = { "flat exclusive", "flat inclusive", "nested exclusive", "nested inclusive" };
template <class F> static Prof reduce(int kind, CaliperMetadataAccessInterface& db, const char* metric, const std::string& type, F&& feed) {
    switch (kind) {
    case 0: { FlatExclusiveRegionProfile p(db, metric, type.c_str()); feed([&](CaliperMetadataAccessInterface& d, const std::vector<Entry>& e) { p(d, e); }); return p.result(); }
    case 1: { FlatInclusiveRegionProfile p(db, metric, type.c_str()); feed([&](CaliperMetadataAccessInterface& d, const std::vector<Entry>& e) { p(d, e); }); return p.result(); }
    case 2: { NestedExclusiveRegionProfile p(db, metric, type.c_str()); feed([&](CaliperMetadataAccessInterface& d, const std::vector<Entry>& e) { p(d, e); }); return p.result(); }
    default: { NestedInclusiveRegionProfile p(db, metric, type.c_str()); feed([&](CaliperMetadataAccessInterface& d, const std::vector<Entry>& e) { p(d, e); }); return p.result(); }
    }
}
static void judge(const std::string& what, int kind, const std::string& type, const Prof& got, const Prof& want) {
    vh::stat("profiles_compared"); vh::stat("profile_entries_compared", std::get<0>(want).size());
    if (std::get<0>(got) != std::get<0>(want)) viol(fmt("c25:%s", kind < 2 ? "flat" : "nested"), what + " " + KN[kind] + " of '" + type + "' is" + show(std::get<0>(got)) + "\nexpected" + show(std::get<0>(want)));
    else if (std::get<1>(got) != std::get<1>(want)) viol("c25:region-total", what + " " + KN[kind] + " of '" + type + fmt("': total of the regions is %.17g, expected %.17g", std::get<1>(got), std::get<1>(want)));
    else if (std::get<2>(got) != std::get<2>(want)) viol("c25:total", what + " " + KN[kind] + " of '" + type + fmt("': total is %.17g, expected %.17g", std::get<2>(got), std::get<2>(want)));
}
struct Th { Rng r; Ctx c; std::vector<std::pair<Attribute, bool>> open; std::vector<Charge> log; Th(uint64_t s) : r(s) {} };
static void exact(uint64_t seed, uint64_t idx, const std::string& dir) {
    Rng r(mix(seed, idx)); Caliper c;
    nested_names.clear(); for (auto& a : c.get_all_attributes()) if (a.is_nested()) nested_names.insert(a.name());
    cali_attr_type mt = r.chance(50) ? CALI_TYPE_INT : r.chance(50) ? CALI_TYPE_UINT : CALI_TYPE_DOUBLE;
    std::string mname = fmt("m25.%d", (int) mt); cali_id_t metric = cali_create_attribute(mname.c_str(), mt, CALI_ATTR_ASVALUE | CALI_ATTR_SKIP_EVENTS | CALI_ATTR_AGGREGATABLE);
    bool agg = r.chance(70); std::string file = dir + fmt("/p%llu.cali", (unsigned long long) idx);
    config_map_t cfg { { "CALI_SERVICES_ENABLE", (agg ? std::string("event,aggregate") : std::string("trace")) + ",recorder" }, { "CALI_RECORDER_FILENAME", file }, { "CALI_CHANNEL_FLUSH_ON_EXIT", "false" } };
    cali_id_t chid = cali::create_channel(fmt("c25.%llu", (unsigned long long) idx).c_str(), CALI_CHANNEL_LEAVE_INACTIVE, cfg); Channel chn = c.get_channel(chid);
    std::vector<Attribute> at { c.get_attribute("function"), c.get_attribute("region"), c.get_attribute("phase"), c.get_attribute("loop"), c.create_attribute("c25.nest", CALI_TYPE_STRING, CALI_ATTR_NESTED), c.create_attribute("c25.int", CALI_TYPE_INT, CALI_ATTR_NESTED), c.create_attribute("c25.ref", CALI_TYPE_STRING, CALI_ATTR_DEFAULT), c.create_attribute("c25.un", CALI_TYPE_STRING, CALI_ATTR_UNALIGNED) };
    for (auto& a : at) if (a && a.is_nested()) nested_names.insert(a.name());
    int nt = r.chance(60) ? 1 : 2 + (int) r.below(3), nv = 1 + (int) r.below(4); std::deque<Th> th; std::deque<Worker> w; for (int i = 0; i < nt; ++i) { th.emplace_back(mix(mix(seed, idx), i + 10)); w.emplace_back(i); }
    bool active = false, mixed = r.chance(50), slash = r.chance(20); int rounds = 1 + (int) r.below(5), maxdepth = r.chance(10) ? 120 : 2 + (int) r.below(10); long nact = 0, nclear = 0, npush = 0; int deepest = 0;
    std::vector<Charge> kept;
    for (int q = 0; q < rounds; ++q) {
        if (r.chance(75)) { if (r.chance(75) || q + 1 == rounds) { cali_activate_channel(chid); active = true; } else { cali_deactivate_channel(chid); active = false; } ++nact; }
        if (r.chance(20)) { c.clear(&chn); kept.clear(); ++nclear; }
        int steps = (int) r.below(maxdepth > 20 ? 300 : 60);
        for (int i = 0; i < nt; ++i) w[i].start([&, i] {
            Th& t = th[i];
            for (int s = 0; s < steps; ++s) {
                int k = (int) t.r.below(10);
                if (k < 4 && (int) t.open.size() < maxdepth) {
                    Attribute a = at[t.r.below(mixed ? at.size() : 2)]; if (!a) continue;
                    std::string v = a.type() == CALI_TYPE_INT ? std::to_string(t.r.below(nv)) : slash && t.r.chance(40) ? "r0/r1" : fmt("r%d", (int) t.r.below(nv + 1));
                    Variant val = a.type() == CALI_TYPE_INT ? Variant(atoi(v.c_str())) : Variant(v.c_str());
                    Caliper cc; cc.begin(a, val); bool un = (a.properties() & CALI_ATTR_UNALIGNED) != 0; t.open.push_back({ a, un }); (un ? t.c.un : t.c.al).push_back({ a.name(), v });
                } else if (k < 7 && !t.open.empty()) { Caliper cc; cc.end(t.open.back().first); (t.open.back().second ? t.c.un : t.c.al).pop_back(); t.open.pop_back(); }
                else {
                    double v = mt == CALI_TYPE_INT ? (double) t.r.range(-1000, 1000) : mt == CALI_TYPE_UINT ? (double) t.r.below(100000) : (double) t.r.range(-100000, 100000) / 64.0;
                    cali_variant_t cv = mt == CALI_TYPE_INT ? cali_make_variant_from_int((int) v) : mt == CALI_TYPE_UINT ? cali_make_variant_from_uint((uint64_t) v) : cali_make_variant_from_double(v);
                    cali_push_snapshot(CALI_SCOPE_THREAD | CALI_SCOPE_PROCESS, 1, &metric, &cv); if (active) t.log.push_back({ t.c, v });
                }
            }
        });
        for (auto& x : w) x.wait();
        for (auto& t : th) { npush += t.log.size(); deepest = std::max(deepest, (int) t.open.size()); kept.insert(kept.end(), t.log.begin(), t.log.end()); t.log.clear(); }
        if (q + 1 < rounds && !r.chance(40)) continue;
        std::string sm = agg ? "sum#" + mname : mname;
        std::vector<std::string> types { "", "function", "region", "c25.nest", "c25.int", "c25.ref", "c25.un", "c25.not.there", "loop" };
        if (!c.get_attribute(sm)) continue;
        for (int k = 0; k < 4; ++k) for (auto& ty : types) if (r.chance(60))
            judge("case " + std::to_string(idx), k, ty, reduce(k, c, sm.c_str(), ty, [&](auto fn) { c.flush(chn.body(), SnapshotView(), fn); }), model(k, ty, kept));
        if (r.chance(30)) { // the same, from the written profile
            c.flush_and_write(chn.body(), SnapshotView()); CaliperMetadataDB db; std::vector<std::vector<Entry>> recs; CaliReader rd;
            rd.read(file, db, [](CaliperMetadataAccessInterface&, const Node*) {}, [&](CaliperMetadataAccessInterface&, const std::vector<Entry>& e) { recs.push_back(e); });
            if (!rd.error() && db.get_attribute(sm)) for (int k = 0; k < 4; ++k) for (auto& ty : types) if (r.chance(30))
                judge("case " + std::to_string(idx) + " from the file", k, ty, reduce(k, db, sm.c_str(), ty, [&](auto fn) { for (auto& e : recs) fn(db, e); }), model(k, ty, kept));
            unlink(file.c_str());
        }
    }
    for (auto& t : th) { (void) t; }
    for (int i = 0; i < nt; ++i) { w[i].start([&, i] { Caliper cc; while (!th[i].open.empty()) { cc.end(th[i].open.back().first); th[i].open.pop_back(); } }); w[i].wait(); }
    cali_delete_channel(chid);
    kase(fmt("exact agg=%d type=%d threads=%d mixed=%d values=%d depth=%d activations=%ld clears=%ld pushes=%d slash=%d", agg, (int) mt, nt, mixed, nv, deepest / 4, nact, nclear, npush > 30 ? 2 : npush > 0, slash));
    vh::stat("metric_snapshots", npush);
}

// --- RegionProfile: times between bounds measured here
struct Iv { double lo = 0, hi = 0; void add(double a, double b) { lo += std::max(0.0, a); hi += std::max(0.0, b); } };
struct Tm { std::map<std::string, Iv> excl, incl; Iv reg, tot; };
struct TT { Rng r; std::vector<std::pair<int, std::string>> open; bool fresh = true; uint64_t plo = 0, phi = 0; std::map<std::string, Tm> t; TT(uint64_t s) : r(s) {} };
static void spin(Rng& r) { uint64_t e = now() + (r.chance(10) ? 400000 : r.below(40000)); while (now() < e) ; }
static void timed(uint64_t seed, uint64_t idx) {
    Rng r(mix(seed, idx)); Caliper c; std::deque<TT> th; std::deque<Worker> w; std::vector<std::string> types { "", "function", "region", "c25.not.there" };
    auto addthread = [&] { th.emplace_back(mix(mix(seed, idx), th.size() + 10)); w.emplace_back((int) th.size()); };
    addthread(); if (r.chance(40)) addthread();
    if (r.chance(70)) { w[0].start([&] { cali_begin_region("warm up"); cali_end_region("warm up"); }); w[0].wait(); th[0].fresh = false; }
    RegionProfile rp; bool active = false; uint64_t alo = 0, ahi = 0, clear_hi = 0; int rounds = 2 + (int) r.below(6); int nstart = 0, nstop = 0, nclear = 0, nlate = 0; long nev = 0;
    for (int q = 0; q < rounds; ++q) {
        int k = (int) r.below(10);
        if (k < 5 || q == 0) { uint64_t b = now(); rp.start(); if (!active) { alo = b; ahi = now(); } active = true; ++nstart; }
        else if (k < 7) { rp.stop(); active = false; ++nstop; }
        else if (k < 8) { rp.clear(); clear_hi = now(); for (auto& t : th) t.t.clear(); ++nclear; }
        if (rp.is_active() != active) viol("c25:active", "RegionProfile is not in the state it was put in");
        if (r.chance(30)) { usleep(r.below(500)); if (r.chance(50)) { addthread(); ++nlate; } }
        for (size_t i = 0; i < th.size(); ++i) w[i].start([&, i] {
            TT& t = th[i]; int steps = (int) t.r.below(25);
            for (int s = 0; s < steps; ++s) {
                if (t.r.chance(60)) spin(t.r);
                bool beg = t.open.empty() ? true : t.open.size() > 6 ? false : t.r.chance(50);
                std::vector<std::pair<int, std::string>> ctx = t.open; std::string name = fmt("t%d", (int) t.r.below(4)); int kind = (int) t.r.below(2);
                uint64_t b = now();
                if (beg) { if (kind) cali_begin_region(name.c_str()); else { static cali_id_t fa = cali_create_attribute("function", CALI_TYPE_STRING, CALI_ATTR_NESTED); cali_begin_string(fa, name.c_str()); } }
                else if (t.open.back().first) cali_end_region(t.open.back().second.c_str()); else { static cali_id_t fa = cali_create_attribute("function", CALI_TYPE_STRING, CALI_ATTR_NESTED); cali_end(fa); }
                uint64_t a = now();
                if (beg) t.open.push_back({ kind, name }); else t.open.pop_back();
                if (t.fresh) { t.fresh = false; t.plo = b; t.phi = a; }
                if (!active) continue;
                double lo = (double) b - (double) std::max(std::max(t.phi, ahi), clear_hi), hi = (double) a - (double) std::max(t.plo, alo);
                t.plo = b; t.phi = a; if (hi < lo) lo = hi;
                for (auto& ty : types) {
                    Tm& m = t.t[ty]; m.tot.add(lo, hi); bool any = false;
                    auto hit = [&](int kd) { return ty.empty() || (ty == "function" && !kd) || (ty == "region" && kd); };
                    if (!ctx.empty() && hit(ctx.back().first)) m.excl[ctx.back().second].add(lo, hi);
                    for (auto& x : ctx) if (hit(x.first)) { m.incl[x.second].add(lo, hi); any = true; }
                    (void) any;
                }
            }
        });
        for (auto& x : w) x.wait();
        if (q + 1 < rounds && !r.chance(40)) continue;
        for (auto& ty : types) for (int incl = 0; incl < 2; ++incl) {
            auto res = incl ? rp.inclusive_region_times(ty) : rp.exclusive_region_times(ty); std::map<std::string, Iv> want; Iv tot; double sum = 0;
            for (auto& t : th) { Tm& m = t.t[ty]; for (auto& p : incl ? m.incl : m.excl) { want[p.first].lo += p.second.lo; want[p.first].hi += p.second.hi; } tot.lo += m.tot.lo; tot.hi += m.tot.hi; }
            std::string what = fmt("case %llu, %s times of '%s' after %d starts, %d stops, %d clears: ", (unsigned long long) idx, incl ? "inclusive" : "exclusive", ty.c_str(), nstart, nstop, nclear);
            for (auto& p : std::get<0>(res)) {
                sum += p.second; auto it = want.find(p.first); vh::stat("region_times_compared");
                if (it == want.end()) { viol("c25:time-region", what + "'" + p.first + "' was not executed"); continue; }
                double v = p.second * 1e9, eps = 1 + it->second.hi * 1e-9;
                if (!(v >= it->second.lo - eps && v <= it->second.hi + eps)) viol("c25:time", what + "'" + p.first + fmt("' is %.0f ns, elapsed were %.0f to %.0f ns", v, it->second.lo, it->second.hi));
                want.erase(it);
            }
            for (auto& p : want) viol("c25:time-region", what + "'" + p.first + "' is missing");
            double t2 = std::get<2>(res) * 1e9; if (!(t2 >= tot.lo - 1 && t2 <= tot.hi + 1 + tot.hi * 1e-9)) viol("c25:time-total", what + fmt("total is %.0f ns, elapsed were %.0f to %.0f", t2, tot.lo, tot.hi));
            if (!incl && std::fabs(sum - std::get<1>(res)) > 1e-12 + 1e-9 * sum) viol("c25:time-sum", what + fmt("regions add up to %.12g, not to %.12g", sum, std::get<1>(res)));
            vh::stat("profiles_compared");
        }
    }
    for (size_t i = 0; i < th.size(); ++i) { w[i].start([&, i] { auto& o = th[i].open; while (!o.empty()) { if (o.back().first) cali_end_region(o.back().second.c_str()); else cali_end(cali_create_attribute("function", CALI_TYPE_STRING, CALI_ATTR_NESTED)); o.pop_back(); } }); w[i].wait(); }
    (void) nev; kase(fmt("time threads=%zu late=%d starts=%d stops=%d clears=%d rounds=%d", th.size(), nlate, nstart, nstop, nclear, rounds));
}
int main(int argc, char** argv) {
    init(argc, argv); cali_init();
    uint64_t seed = (uint64_t) iarg("seed", 1); int n = (int) iarg("n", 10); std::string mode = sarg("mode", "exact"), dir = sarg("dir", ".");
    for (int i = 0; i < n; ++i) if (mode == "exact") exact(seed, i, dir); else timed(seed, i);
    done(); return 0;
}
