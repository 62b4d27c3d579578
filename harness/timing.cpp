// C17: recorded offsets, exclusive and inclusive durations against the driver's own clock readings
#include "prog.h"
#include <chrono>
#include <unistd.h>
using namespace vh;
static uint64_t now() { return std::chrono::duration_cast<std::chrono::nanoseconds>(std::chrono::steady_clock::now().time_since_epoch()).count(); }
static void spin(Rng& r) { int k = (int) r.below(10); if (k < 6) return; if (k == 6) { usleep(r.below(300)); return; } uint64_t e = now() + r.below(20000); while (now() < e) ; }
struct Ev { char what; int attr; uint64_t b, a; int match; std::string path; size_t phase; };
struct Th { Rng r; int tid; bool born = false; uint64_t cb = 0, ca = 0; std::vector<std::pair<int, std::string>> al; std::map<int, std::vector<std::string>> un; std::map<int, std::vector<int>> begun; std::vector<Ev> log; Th(uint64_t s, int t) : r(s), tid(t) {} };
struct At { Attribute a; int kind; }; // 0 nested, 1 reference, 2 by value, 3 unaligned, 4 process scope
struct Row { std::string evt; uint64_t off = 0, dur = 0, inc = 0; bool hasinc = false, hasdur = false; };
static void session(uint64_t seed, uint64_t idx) {
    Rng r(mix(seed, idx)); Caliper c; static int serial = 0; int me = serial++;
    Attribute tida = c.create_attribute("tid17", CALI_TYPE_INT, CALI_ATTR_ASVALUE | CALI_ATTR_SKIP_EVENTS);
    std::vector<At> at; int na = 2 + (int) r.below(5), nt = 1 + (int) r.below(4);
    for (int i = 0; i < na; ++i) { int k = i == 0 ? 0 : (int) r.below(4); static const int pr[] = { CALI_ATTR_NESTED, CALI_ATTR_DEFAULT, CALI_ATTR_ASVALUE | CALI_ATTR_UNALIGNED, CALI_ATTR_UNALIGNED }; at.push_back({ c.create_attribute(fmt("t17.%d.%d", k, i), k == 2 ? CALI_TYPE_INT : CALI_TYPE_STRING, pr[k]), k }); }
    for (int i = 0; i < nt; ++i) at.push_back({ c.create_attribute(fmt("t17.p.%d", i), CALI_TYPE_STRING, CALI_ATTR_SCOPE_PROCESS | CALI_ATTR_UNALIGNED), 4 });
    bool incl = r.chance(75), late = r.chance(30), agg = r.chance(50); bool before = r.chance(30);
    std::deque<Th> th; std::deque<Worker> w; for (int i = 0; i < nt; ++i) { th.emplace_back(mix(mix(seed, idx), i + 10), i); w.emplace_back(i); }
    std::vector<std::pair<double, double>> acts { { 0, 0 } }; bool off_on = r.chance(50); // the channel's activations after the first
    auto run1 = [&](Th& t, int steps, bool seen) {
        if (!t.born) { t.cb = now(); Caliper cc; cc.set(tida, Variant(t.tid)); t.ca = now(); t.born = true; }
        std::string pushed;
        for (int s = 0; s < steps; ++s) {
            spin(t.r); int k = (int) t.r.below(10); size_t ai = t.r.below(at.size()); if (at[ai].kind == 4) ai = at.size() - nt + t.tid;
            Attribute a = at[ai].a; int kd = at[ai].kind; std::string path; for (auto& p : t.al) path += "/" + p.second;
            if (t.r.chance(15)) k = 9;
            if (k < 5 || (k < 8 && t.al.empty() && kd < 2)) {
                std::string v = fmt("v%d", (int) t.r.below(3)); Variant val = kd == 2 ? Variant((int) t.r.below(100)) : Variant(v.c_str()); Caliper cc;
                if (kd < 2 && t.al.size() > 12) continue; if (kd == 2 && !t.un[ai].empty()) continue;
                uint64_t b = now(); cc.begin(a, val); uint64_t e = now();
                if (kd < 2) t.al.push_back({ (int) ai, v }); else t.un[ai].push_back(v);
                if (seen) t.log.push_back({ 'b', (int) ai, b, e, -1, path, acts.size() - 1 });
                t.begun[ai].push_back(seen ? (int) t.log.size() - 1 : -1);
            } else if (k < 8) {
                if (kd < 2) { if (t.al.empty()) continue; ai = t.al.back().first; a = at[ai].a; } else if (t.un[ai].empty()) continue;
                Caliper cc; uint64_t b = now(); cc.end(a); uint64_t e = now();
                if (kd < 2) t.al.pop_back(); else t.un[ai].pop_back();
                int m = t.begun[ai].back(); t.begun[ai].pop_back(); if (seen) t.log.push_back({ 'e', (int) ai, b, e, m, path, acts.size() - 1 });
            } else if (k < 9 && kd == 2) { Caliper cc; uint64_t b = now(); cc.set(a, Variant((int) t.r.below(5))); uint64_t e = now(); if (t.un[ai].empty()) { t.un[ai].push_back("s"); t.begun[ai].push_back(-1); } if (seen) t.log.push_back({ 's', (int) ai, b, e, -1, path, acts.size() - 1 }); }
            else { uint64_t b = now(); cali_push_snapshot(CALI_SCOPE_THREAD | CALI_SCOPE_PROCESS, 0, nullptr, nullptr); uint64_t e = now(); if (seen) t.log.push_back({ 'p', 0, b, e, -1, path, acts.size() - 1 }); }
        }
    };
    auto all = [&](int steps, bool seen) { for (int i = 0; i < nt; ++i) if (!(r.chance(20))) w[i].start([&, i] { run1(th[i], (int) (steps ? th[i].r.below(steps) : 0), seen); }); for (auto& x : w) x.wait(); };
    if (before) all(20, false);
    std::vector<bool> old(nt); for (int i = 0; i < nt; ++i) old[i] = th[i].born;
    config_map_t cfg { { "CALI_SERVICES_ENABLE", agg ? "event,aggregate,timer" : "event,trace,timer" }, { "CALI_TIMER_INCLUSIVE_DURATION", incl ? "true" : "false" }, { "CALI_AGGREGATE_KEY", "tid17" }, { "CALI_CHANNEL_FLUSH_ON_EXIT", "false" } };
    uint64_t c0 = now(); cali_id_t chid = cali::create_channel(fmt("c17.%d", me).c_str(), late ? CALI_CHANNEL_LEAVE_INACTIVE : 0, cfg); uint64_t c1 = now(), a0 = c0, a1 = c1;
    if (late) { all(20, false); a0 = now(); cali_activate_channel(chid); a1 = now(); }
    std::vector<bool> bc(nt); (void) bc;
    int rounds = 1 + (int) r.below(3); for (int q = 0; q < rounds; ++q) { all(80, true); if (q + 1 < rounds && r.chance(40)) {
            if (off_on) { // an inactive phase: what goes on there is not recorded, and no region spans it
                cali_deactivate_channel(chid); all(20, false); uint64_t lo = now(); cali_activate_channel(chid); acts.push_back({ lo, now() });
                for (auto& t : th) for (auto& x : t.begun) for (int& m : x.second) m = -1;
            } else cali_activate_channel(chid);
        } }
    if (r.chance(50)) w.clear(); // threads end before the data is read
    Channel chn = c.get_channel(chid); std::string what = fmt("session %d (%d threads%s%s%s): ", me, nt, incl ? ", inclusive" : "", late ? ", activated late" : "", before ? ", threads from before" : "");
    std::map<int, std::vector<Row>> rows; Attribute off = c.get_attribute("time.offset.ns"), dur = c.get_attribute("time.duration.ns"), inc = c.get_attribute("time.inclusive.duration.ns");
    std::map<std::pair<int, std::string>, std::array<double, 3>> sums; Attribute sd = c.get_attribute("sum#time.duration.ns"), si = c.get_attribute("sum#time.inclusive.duration.ns"), md = c.get_attribute("min#time.duration.ns"); long foreign = 0;
    c.flush(chn.body(), SnapshotView(), [&](CaliperMetadataAccessInterface& db, const std::vector<Entry>& rec) {
        Row row; int tid = -1; std::string path; double d = 0, i = 0; bool hd = false, hi = false;
        for (const Entry& e : rec) {
            if (e.is_reference()) { std::string p; std::string en = db.get_attribute(e.node()->attribute()).name(); if (en.compare(0, 6, "event.") == 0) row.evt = en; for (const Node* n = e.node(); n && n->attribute() != CALI_INV_ID; n = n->parent()) for (auto& x : at) if (x.kind < 2 && x.a.id() == n->attribute()) p = "/" + n->data().to_string() + p; if (!p.empty()) path = p; continue; }
            cali_id_t id = e.attribute(); std::string n = db.get_attribute(id).name();
            if (id == tida.id()) tid = e.value().to_int(); else if (id == off.id()) row.off = e.value().to_uint();
            else if (id == dur.id()) { row.dur = e.value().to_uint(); row.hasdur = true; if (e.value().type() != CALI_TYPE_UINT) viol("c17:type", "time is no unsigned integer"); } else if (id == inc.id()) { row.inc = e.value().to_uint(); row.hasinc = true; }
            else if (sd && id == sd.id()) { d = e.value().to_double(); hd = true; } else if (si && id == si.id()) { i = e.value().to_double(); hi = true; }
            else if (n.compare(0, 6, "event.") == 0) row.evt = n;
        }
        if (tid < 0) { ++foreign; return; }
        if (agg) { auto& s = sums[{ tid, path }]; s[0] += d; s[1] += i; (void) hd; (void) hi; } else rows[tid].push_back(row);
    });
    if (foreign) viol("c17:foreign", what + fmt("%ld records of no thread", foreign));
    long nrec = 0, ninc = 0, maxn = 0;
    for (int ti = 0; ti < nt; ++ti) {
        Th& t = th[ti]; nrec += t.log.size(); maxn = std::max<long>(maxn, t.log.size());
        // bounds of the start of this thread's time
        double slo = old[ti] ? a0 : std::max(t.cb, a0), shi = old[ti] ? a1 : std::max(t.ca, a1); if (!t.born) continue;
        if (agg) {
            std::map<std::string, std::array<double, 4>> want; double plo = slo, phi = shi;
            for (auto& e : t.log) {
                auto& x = want[e.path]; plo = std::max(plo, acts[e.phase].first); phi = std::max(phi, acts[e.phase].second); x[0] += std::max(0.0, (double) e.b - phi); x[1] += std::max(0.0, (double) e.a - plo); plo = e.b; phi = e.a;
                if (incl && e.what == 'e' && e.match >= 0) { x[2] += (double) e.b - t.log[e.match].a; x[3] += (double) e.a - t.log[e.match].b; ++ninc; }
            }
            for (auto& p : want) {
                auto it = sums.find({ ti, p.first }); if (it == sums.end()) { viol("c17:missing", what + "no time for " + p.first); continue; }
                double d = it->second[0], i = it->second[1];
                if (!(d >= p.second[0] && d <= p.second[1])) viol("c17:exclusive", what + fmt("thread %d spent %.0f ns in '%s', elapsed were %.0f to %.0f", ti, d, p.first.c_str(), p.second[0], p.second[1]));
                if (!(i >= p.second[2] && i <= p.second[3])) viol("c17:inclusive", what + fmt("thread %d spent %.0f ns inclusive in '%s', elapsed were %.0f to %.0f", ti, i, p.first.c_str(), p.second[2], p.second[3]));
                vh::stat("region_times_compared");
                sums.erase(it);
            }
            continue;
        }
        auto& rw = rows[ti];
        if (rw.size() != t.log.size()) { viol("c17:records", what + fmt("thread %d: %zu records of %zu events", ti, rw.size(), t.log.size())); continue; }
        uint64_t poff = 0; uint64_t sum = 0; bool gaps = false;
        for (size_t i = 0; i < rw.size(); ++i) {
            const Ev& e = t.log[i]; const Row& x = rw[i]; std::string ev = what + fmt("thread %d, event %zu (%c %s): ", ti, i, e.what, e.what == 'p' ? "" : at[e.attr].a.name_c_str());
            std::string want = e.what == 'p' ? "" : std::string(e.what == 'b' ? "event.begin#" : e.what == 'e' ? "event.end#" : "event.set#") + at[e.attr].a.name();
            if (x.evt != want) { viol("c17:event", ev + "recorded as '" + x.evt + "'"); break; }
            if (!((double) x.off >= (double) e.b - c1 && (double) x.off <= (double) e.a - c0)) viol("c17:offset", ev + fmt("offset %llu, expected %.0f to %.0f", (unsigned long long) x.off, (double) e.b - c1, (double) e.a - c0));
            if (!x.hasdur) viol("c17:no-duration", ev + "has no duration");
            if (i && x.off < poff) viol("c17:backwards", ev + fmt("offset %llu after %llu", (unsigned long long) x.off, (unsigned long long) poff));
            bool gap = i && e.phase != t.log[i - 1].phase; if (gap) gaps = true;
            if (gap && !((double) x.dur >= (double) e.b - acts[e.phase].second && (double) x.dur <= (double) e.a - acts[e.phase].first)) viol("c17:duration", ev + fmt("duration %llu, expected %.0f to %.0f since the channel became active again", (unsigned long long) x.dur, (double) e.b - acts[e.phase].second, (double) e.a - acts[e.phase].first));
            if (i && !gap && x.dur != x.off - poff) viol("c17:duration", ev + fmt("duration %llu between offsets %llu and %llu", (unsigned long long) x.dur, (unsigned long long) poff, (unsigned long long) x.off));
            double lo = std::max(slo, acts[e.phase].first), hi = std::max(shi, acts[e.phase].second); if (!i && !((double) x.dur >= (double) e.b - hi && (double) x.dur <= (double) e.a - lo)) viol("c17:first-duration", ev + fmt("duration %llu, expected %.0f to %.0f", (unsigned long long) x.dur, (double) e.b - hi, (double) e.a - lo));
            bool wi = incl && e.what == 'e' && e.match >= 0;
            if (wi != x.hasinc) { if (!(x.hasinc && e.what == 'e' && e.match < 0)) viol("c17:inclusive-presence", ev + (wi ? "has no inclusive time" : "has an inclusive time")); else viol("c17:inclusive-stale", ev + "has the inclusive time of another region"); }
            else if (wi) { ++ninc; if (x.inc != x.off - rw[e.match].off) viol("c17:inclusive", ev + fmt("inclusive time %llu, began at %llu, ended at %llu", (unsigned long long) x.inc, (unsigned long long) rw[e.match].off, (unsigned long long) x.off)); }
            poff = x.off; if (i) sum += x.dur; vh::stat("records_compared");
        }
        if (!gaps && !rw.empty() && sum != rw.back().off - rw.front().off) viol("c17:sum", what + fmt("thread %d: durations add up to %llu of %llu ns", ti, (unsigned long long) sum, (unsigned long long) (rw.back().off - rw.front().off)));
    }
    for (auto& p : sums) viol("c17:extra", what + fmt("time of thread %d in '%s', where it was not", p.first.first, p.first.second.c_str()));
    if (!w.empty()) for (int i = 0; i < nt; ++i) { w[i].start([&, i] { Caliper cc; while (!th[i].al.empty()) { cc.end(at[th[i].al.back().first].a); th[i].al.pop_back(); } for (auto& p : th[i].un) while (!p.second.empty()) { cc.end(at[p.first].a); p.second.pop_back(); } }); w[i].wait(); }
    else { Caliper cc; for (int i = 0; i < nt; ++i) for (auto& p : th[i].un) if (at[p.first].kind == 4) while (!p.second.empty()) { cc.end(at[p.first].a); p.second.pop_back(); } }
    cali_delete_channel(chid);
    kase(fmt("phases=%d agg=%d incl=%d late=%d before=%d threads=%d attrs=%d records=%d inclusive=%d", (int) acts.size(), agg, incl, late, before, nt, na, (int) std::min(nrec / 20, 12l), (int) std::min(ninc / 10, 8l)));
}
int main(int argc, char** argv) {
    init(argc, argv); cali_init(); uint64_t seed = (uint64_t) iarg("seed", 1); int n = (int) iarg("n", 10);
    for (int i = 0; i < n; ++i) session(seed, i);
    done(); return 0;
}
