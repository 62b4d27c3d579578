// Mode c26: loop statistics, loop monitor, region monitor against the executed loops
#include "prog.h"
#include <caliper/cali.h>
#include <chrono>
#include <optional>
using namespace vh;
typedef std::chrono::steady_clock Clk;
static uint64_t now() { return std::chrono::duration_cast<std::chrono::nanoseconds>(Clk::now().time_since_epoch()).count(); }

struct LChan { cali_id_t id; Channel chn; std::map<int, std::vector<LRec>> log; std::mutex m; int interval = 0; std::vector<std::string> targets; bool has_targets = false; std::string cfg; };
static void attach(LChan* ch) {
    Caliper c; ch->chn = c.get_channel(ch->id);
    ch->chn.events().process_snapshot.connect([ch](Caliper*, SnapshotView, SnapshotView rec) {
        std::vector<LRec>* l; { std::lock_guard<std::mutex> g(ch->m); l = &ch->log[my_tid()]; }
        l->push_back(log_rec(rec));
    });
}
struct ExpStat { std::string path; bool is_count; uint64_t count, lo, hi; int iter; };        // loop_statistics
struct ExpMon { std::string path; int iters; int start; };                                    // loop_monitor
struct Run {
    Rng r; int tid; long budget; std::vector<std::string> path; // open loops and regions
    std::vector<ExpStat> stat; long iterations = 0, loops = 0, early = 0; uint64_t h = 5; bool active = true; int act_at = -1; long steps = 0;
    std::vector<LChan*> mons; std::vector<std::vector<ExpMon>> mexp; struct M { int level = 0, target = -1, iters = 0, start = -1; }; std::vector<M> ms;
    std::vector<char> counted; // per open loop: seen by the (activated) channels
    std::map<std::string, std::map<std::string, uint64_t>> agg;
    explicit Run(uint64_t s, int t) : r(s), tid(t) {}
    std::string pstr(size_t drop = 0) const { std::string s; for (size_t i = 0; i + drop < path.size(); ++i) s += "/" + path[i]; return s; }
};
static void msnap(Run& x, size_t m, const std::string& p) { auto& s = x.ms[m]; x.mexp[m].push_back({ p, s.iters, s.start }); s.iters = 0; s.start = -1; }
static bool target(LChan* ch, const std::string& n) { if (!ch->has_targets) return true; for (auto& t : ch->targets) if (t == n) return true; return false; }
static std::function<void(Run&)> g_activate;
static void loop_begun(Run& x, const std::string& name) {
    if (!x.active) { x.counted.push_back(0); x.path.push_back("L:" + name); return; }
    for (size_t m = 0; m < x.mons.size(); ++m) { auto& s = x.ms[m]; if (s.target < 0 && target(x.mons[m], name)) { s.target = s.level + 1; msnap(x, m, x.pstr()); } ++s.level; }
    x.counted.push_back(1); x.path.push_back("L:" + name);
}
static void loop_ended(Run& x, uint64_t iters) {
    bool c = x.counted.back(); x.counted.pop_back();
    if (c) {
        x.stat.push_back({ x.pstr(), true, iters, 0, 0, 0 });
        for (size_t m = 0; m < x.mons.size(); ++m) { auto& s = x.ms[m]; if (s.level == s.target) { msnap(x, m, x.pstr()); s.target = -1; } --s.level; }
    }
    x.path.pop_back();
}
static void iter_begun(Run& x, int i) { if (!x.counted.back()) return; for (auto& s : x.ms) if (s.level == s.target) { ++s.iters; if (s.start < 0) s.start = i; } }
static void iter_ended(Run& x, int i, uint64_t lo, uint64_t hi) {
    if (!x.counted.back()) return;
    x.stat.push_back({ x.pstr(), false, 0, lo, hi, i });
    for (size_t m = 0; m < x.mons.size(); ++m) { auto& s = x.ms[m]; if (s.level == s.target && x.mons[m]->interval > 0 && s.iters % x.mons[m]->interval == 0) msnap(x, m, x.pstr()); }
}
static const char* LN[] = { "main", "inner", "a", "ab", "loop with space", "mainloop", "foo" };
static void body(Run& x, int depth);
static void do_loop(Run& x, int depth) {
    Rng& r = x.r; std::string name = LN[r.below(7)]; 
    // iterations of a loop inside an iteration of a loop of the same name are a known finding, shown by recursion()
    for (auto& p : x.path) if (p == "L:" + name) return;
    int api = (int) r.below(3), n = r.chance(10) ? 0 : (int) r.below(depth > 1 ? 4 : 9), i0 = r.chance(70) ? 0 : (int) r.below(100), step = r.chance(80) ? 1 : 1 + (int) r.below(5);
    bool instr = r.chance(85); int brk = r.chance(25) && n ? (int) r.below(n) : -1;
    ++x.loops; x.h = x.h * 31 + n * 7 + api; uint64_t done = 0;
    auto spin = [&] { volatile unsigned v = 0; for (unsigned k = 0, e = (unsigned) r.below(200); k < e; ++k) v = v + k; };
    if (api == 0) {
        loop_begun(x, name); // the model only depends on the order of events on this thread
        std::optional<Loop> l; l.emplace(name.c_str());
        for (int k = 0; k < n; ++k) {
            int it = i0 + k * step; x.steps++;
            if (!instr) { body(x, depth + 1); continue; }
            uint64_t t0 = now(); bool cnt = x.counted.back(); iter_begun(x, it);
            { Loop::Iteration iter(l->iteration(it)); uint64_t t1 = now(); spin(); if (cnt) ++done; ++x.iterations; body(x, depth + 1); uint64_t t2 = now();
              x.stat.reserve(x.stat.size() + 1); iter_ended(x, it, t2 - t1, t0); }
            if (cnt) { uint64_t t3 = now(); for (size_t q = x.stat.size(); q-- > 0;) if (!x.stat[q].is_count) { x.stat[q].hi = t3 - x.stat[q].hi; break; } }
            if (k == brk) { ++x.early; break; }
        }
        if (r.chance(50)) { Loop copy(*l); if (r.chance(50)) { l->end(); loop_ended(x, done); l.reset(); return; } }
        l.reset(); loop_ended(x, done);
    } else {
        cali_id_t ia;
        loop_begun(x, name);
        if (api == 1) { cali_begin_string(cali_loop_attr_id, name.c_str()); ia = cali_make_loop_iteration_attribute(name.c_str()); }
        else { cali_begin_string_byname("loop", name.c_str()); ia = cali_make_loop_iteration_attribute(name.c_str()); }
        for (int k = 0; k < n; ++k) {
            int it = i0 + k * step; x.steps++;
            if (!instr) { body(x, depth + 1); continue; }
            uint64_t t0 = now(); bool cnt = x.counted.back(); iter_begun(x, it);
            cali_begin_int(ia, it); uint64_t t1 = now(); spin(); if (cnt) ++done; ++x.iterations; body(x, depth + 1); uint64_t t2 = now();
            iter_ended(x, it, t2 - t1, t0); cali_end(ia);
            if (cnt) { uint64_t t3 = now(); for (size_t q = x.stat.size(); q-- > 0;) if (!x.stat[q].is_count) { x.stat[q].hi = t3 - x.stat[q].hi; break; } }
            if (k == brk) { ++x.early; break; }
        }
        cali_end(cali_loop_attr_id); loop_ended(x, done);
    }
}
static void body(Run& x, int depth) {
    if (--x.budget < 0) return;
    if (!x.active && x.r.chance(15)) g_activate(x);
    int n = depth == 0 ? 7 : x.r.chance(60) ? 1 + (int) x.r.below(2) : 0;
    for (int i = 0; i < n; ++i) {
        if (x.r.chance(60) && depth < 5) do_loop(x, depth);
        else { std::string nm = fmt("r%d", (int) x.r.below(4)); cali_begin_region(nm.c_str()); x.path.push_back("R:" + nm); if (depth < 5) body(x, depth + 1); x.path.pop_back(); cali_end_region(nm.c_str()); }
    }
}
static void run_c26(uint64_t seed, long idx) {
    Caliper c; Rng r(mix(seed, idx * 2 + 21)); std::string pfx = fmt("l%ld", idx);
    int nth = (int) r.below(4); bool late = nth == 0 && r.chance(40); int fl = late ? CALI_CHANNEL_LEAVE_INACTIVE : 0;
    LChan st, rm; std::deque<LChan> mons; std::vector<LChan*> mp;
    st.id = create_channel((pfx + ".ls").c_str(), fl, { { "CALI_SERVICES_ENABLE", "loop_statistics" } }); attach(&st);
    cali_id_t ag = create_channel((pfx + ".la").c_str(), fl, { { "CALI_SERVICES_ENABLE", "aggregate,loop_statistics" } });
    rm.id = create_channel((pfx + ".rm").c_str(), fl, { { "CALI_SERVICES_ENABLE", "region_monitor" }, { "CALI_REGION_MONITOR_TIME_INTERVAL", r.chance(50) ? "0.0" : "0.00002" } }); attach(&rm);
    for (int i = 0, n = 1 + (int) r.below(3); i < n; ++i) {
        mons.emplace_back(); LChan& m = mons.back(); config_map_t cfg { { "CALI_SERVICES_ENABLE", "loop_monitor" } };
        if (r.chance(75)) { m.interval = 1 + (int) r.below(5); cfg["CALI_LOOP_MONITOR_ITERATION_INTERVAL"] = std::to_string(m.interval); }
        if (r.chance(60)) { m.has_targets = true; std::string t; for (int j = 0, k = 1 + (int) r.below(3); j < k; ++j) { m.targets.push_back(LN[r.below(7)]); bool sp = m.targets.back().find(' ') != std::string::npos; t += (j ? "," : "") + (sp ? "\"" + m.targets.back() + "\"" : m.targets.back()); } cfg["CALI_LOOP_MONITOR_TARGET_LOOPS"] = t; m.cfg += "targets=" + t; }
        m.cfg += fmt(" interval=%d", m.interval);
        m.id = create_channel(fmt("%s.lm%d", pfx.c_str(), i).c_str(), fl, cfg); attach(&m); mp.push_back(&m);
    }
    g_activate = [&](Run& x) { cali_activate_channel(st.id); cali_activate_channel(ag); cali_activate_channel(rm.id); for (auto& m : mons) cali_activate_channel(m.id); x.active = true; stat("activated_inside_a_loop_or_region"); };
    std::map<int, std::unique_ptr<Worker>> ws; std::map<int, Run> runs;
    for (int t = 0; t <= nth; ++t) {
        auto& x = runs.emplace(t, Run(mix(seed ^ 91, idx * 64 + t), t)).first->second; x.budget = 400 + (long) r.below(800); x.mons = mp; x.mexp.resize(mp.size()); x.ms.resize(mp.size()); x.active = !late;
        if (t) ws[t].reset(new Worker(t));
    }
    my_tid() = 0;
    for (auto& w : ws) { Run* x = &runs.at(w.first); w.second->start([x] { body(*x, 0); }); }
    body(runs.at(0), 0);
    for (auto& w : ws) w.second->wait();
    if (r.chance(50)) ws.clear();
    Attribute a_cnt = c.get_attribute("iter.count"), a_dur = c.get_attribute("iter.duration.ns"), a_it = c.get_attribute("loop.iterations"), a_st = c.get_attribute("loop.start_iteration"), a_loop = c.get_attribute("loop");
    auto path = [&](const LRec& l) { std::string s; for (auto& e : l.e) if (!e.imm) for (auto& el : e.p) { if (el.first == a_loop.id()) s += "/L:" + el.second.substr(2); else if (c.get_attribute(el.first).is_nested()) s += "/R:" + el.second.substr(2); } return s; };
    auto num = [&](const LRec& l, const Attribute& a, bool& has) { has = false; uint64_t v = 0; for (auto& e : l.e) if (e.imm && e.p[0].first == a.id()) { has = true; v = strtoull(e.p[0].second.c_str() + 2, 0, 10); } return v; };
    struct Agg { uint64_t n = 0, sum_lo = 0, sum_hi = 0, mn_lo = UINT64_MAX, mn_hi = UINT64_MAX, mx_lo = 0, mx_hi = 0, cn = 0, cmax = 0, csum = 0; };
    std::map<std::string, Agg> want; long total = 0;
    for (auto& p : runs) {
        Run& x = p.second; auto& log = st.log[p.first]; std::string who = fmt("thread %d of %d: ", p.first, nth + 1);
        size_t nc = 0, ni = 0, ec = 0, ei = 0; bool bad = false;
        for (auto& e : x.stat) {
            (e.is_count ? ec : ei)++; 
            if (e.is_count) { Agg& a = want[fmt("%d ", p.first) + e.path]; a.cn++; a.cmax = std::max(a.cmax, e.count); a.csum += e.count; }
            else { Agg& a = want[fmt("%d ", p.first) + e.path]; a.n++; a.sum_lo += e.lo; a.sum_hi += e.hi; a.mn_lo = std::min(a.mn_lo, e.lo); a.mn_hi = std::min(a.mn_hi, e.hi); a.mx_lo = std::max(a.mx_lo, e.lo); a.mx_hi = std::max(a.mx_hi, e.hi); }
        }
        for (size_t i = 0; i < std::max(log.size(), x.stat.size()) && !bad; ++i) {
            if (i >= log.size()) { viol("c26:stat-missing", who + fmt("%zu records, %zu loop and iteration ends; first missing ", log.size(), x.stat.size()) + (x.stat[i].is_count ? "loop " : "iteration of ") + x.stat[i].path); bad = true; break; }
            bool hc, hd, hi; uint64_t cv = num(log[i], a_cnt, hc), dv = num(log[i], a_dur, hd); std::string pt = path(log[i]); hc ? ++nc : ++ni; (void) hi;
            if (i >= x.stat.size()) { viol("c26:stat-extra", who + "record beyond the executed loops: " + pt); bad = true; break; }
            auto& e = x.stat[i]; bad = true;
            if (hc == hd || hc != e.is_count) viol("c26:stat-kind", who + fmt("record %zu ", i) + pt + " is not that of " + (e.is_count ? "the loop " : "the iteration of ") + e.path);
            else if (pt != e.path) viol("c26:wrong-loop", who + fmt("record %zu attributed to ", i) + pt + " instead of " + e.path);
            else if (hc && cv != e.count) viol("c26:iteration-count", who + fmt("%llu iterations reported, %llu executed in ", (unsigned long long) cv, (unsigned long long) e.count) + e.path);
            else if (hd && (dv < e.lo || dv > e.hi)) viol("c26:iteration-time", who + fmt("iteration took %llu ns, measured between %llu and %llu in ", (unsigned long long) dv, (unsigned long long) e.lo, (unsigned long long) e.hi) + e.path);
            else { bad = false;
                if (hd) { // the iteration number is visible in the record
                    std::string want_i = fmt("i:%d", e.iter); bool f = false; size_t cut = e.path.rfind("/L:"); std::string ln = "iteration#" + e.path.substr(cut + 3);
                    for (auto& en : log[i].e) if (en.imm && en.p[0].second == want_i && c.get_attribute(en.p[0].first).name() == ln) f = true;
                    if (!f && e.path.find("/R:", cut) == std::string::npos) { viol("c26:iteration-number", who + "record does not show " + ln + "=" + want_i); bad = true; }
                }
            }
        }
        for (size_t m = 0; m < mp.size(); ++m) {
            auto& ml = mp[m]->log[p.first]; auto& me = x.mexp[m]; uint64_t sum = 0;
            for (size_t i = 0; i < std::max(ml.size(), me.size()); ++i) {
                std::string w = who + mp[m]->cfg + fmt(" snapshot %zu: ", i);
                if (i >= ml.size()) { viol("c26:monitor-missing", w + "missing at " + me[i].path + fmt(" after %d iterations", me[i].iters)); break; }
                bool hi, hs; int iv = (int) num(ml[i], a_it, hi), sv = (int) num(ml[i], a_st, hs); std::string pt = path(ml[i]); sum += iv;
                if (i >= me.size()) { viol("c26:monitor-extra", w + "extra at " + pt); break; }
                if (!hi || iv != me[i].iters) { viol("c26:monitor-iterations", w + fmt("reports %d iterations, %d executed since the last one at ", iv, me[i].iters) + me[i].path); break; }
                if (hs != (me[i].start >= 0) || (hs && sv != me[i].start)) { viol("c26:monitor-start", w + fmt("start iteration %d (%d), expected %d", sv, (int) hs, me[i].start)); break; }
                if (pt != me[i].path) { viol("c26:monitor-wrong-loop", w + pt + " instead of " + me[i].path); break; }
            }
            stat("monitor_snapshots", me.size()); stat("monitored_iterations", sum);
        }
        for (auto& l : rm.log[p.first]) { std::string pt = path(l); if (pt.empty()) { viol("c26:region-monitor", who + "snapshot outside of any region"); break; } stat("region_monitor_snapshots"); }
        stat("loops", x.loops); stat("iterations", x.iterations); stat("loops_left_early", x.early); total += x.iterations;
        kase(fmt("c26 %llx.%zu.%d", (unsigned long long) x.h, x.stat.size(), nth));
    }
    for (int i = nth + 1; i < nth + 3; ++i) if (st.log.count(i)) viol("c26:unknown-thread", "records of an unknown thread");
    // the aggregated results per loop
    {
        std::map<std::string, Agg> tot; // over threads
        for (auto& p : want) { Agg& a = tot[p.first.substr(p.first.find(' ') + 1)]; const Agg& b = p.second; a.n += b.n; a.sum_lo += b.sum_lo; a.sum_hi += b.sum_hi; a.mn_lo = std::min(a.mn_lo, b.mn_lo); a.mn_hi = std::min(a.mn_hi, b.mn_hi); a.mx_lo = std::max(a.mx_lo, b.mx_lo); a.mx_hi = std::max(a.mx_hi, b.mx_hi); a.cn += b.cn; a.cmax = std::max(a.cmax, b.cmax); a.csum += b.csum; }
        struct G { uint64_t sum = 0, mn = UINT64_MAX, mx = 0, n = 0, csum = 0, cmax = 0; }; std::map<std::string, G> got;
        Channel chn = c.get_channel(ag);
        c.flush(chn.body(), SnapshotView(), [&](CaliperMetadataAccessInterface&, const std::vector<Entry>& rec) {
            std::string s; std::map<std::string, uint64_t> v;
            for (auto& e : rec) { if (e.is_immediate()) { v[c.get_attribute(e.attribute()).name()] = e.value().to_uint(); continue; } for (auto& el : path_of(e)) { if (el.first == a_loop.id()) s += "/L:" + el.second.substr(2); else if (c.get_attribute(el.first).is_nested()) s += "/R:" + el.second.substr(2); } }
            G& g = got[s];
            if (v.count("sum#iter.duration.ns")) { g.sum += v["sum#iter.duration.ns"]; g.mn = std::min(g.mn, v["min#iter.duration.ns"]); g.mx = std::max(g.mx, v["max#iter.duration.ns"]); }
            if (v.count("sum#iter.count")) { g.csum += v["sum#iter.count"]; g.cmax = std::max(g.cmax, v["max#iter.count"]); }
            g.n += v["count"];
        });
        for (auto& p : tot) {
            auto it = got.find(p.first); const Agg& a = p.second;
            if (it == got.end()) { viol("c26:aggregate-missing", "no aggregated record for loop " + p.first); break; }
            G& g = it->second;
            if (g.n != a.n + a.cn || g.csum != a.csum || g.cmax != a.cmax) { viol("c26:aggregate-count", p.first + fmt(": count %llu/%llu iterations %llu/%llu max %llu/%llu", (unsigned long long) g.n, (unsigned long long) (a.n + a.cn), (unsigned long long) g.csum, (unsigned long long) a.csum, (unsigned long long) g.cmax, (unsigned long long) a.cmax)); break; }
            // this channel reads the clock separately: its bounds hold as well
            if (a.n && (g.sum < a.sum_lo || g.sum > a.sum_hi || g.mn < a.mn_lo || g.mn > a.mn_hi || g.mx < a.mx_lo || g.mx > a.mx_hi)) { viol("c26:aggregate-time", p.first + fmt(": min %llu in [%llu,%llu] max %llu in [%llu,%llu] total %llu in [%llu,%llu]", (unsigned long long) g.mn, (unsigned long long) a.mn_lo, (unsigned long long) a.mn_hi, (unsigned long long) g.mx, (unsigned long long) a.mx_lo, (unsigned long long) a.mx_hi, (unsigned long long) g.sum, (unsigned long long) a.sum_lo, (unsigned long long) a.sum_hi)); break; }
        }
        stat("aggregated_loops", tot.size());
    }
    ws.clear();
    cali_delete_channel(st.id); cali_delete_channel(ag); cali_delete_channel(rm.id); for (auto& m : mons) cali_delete_channel(m.id);
}
// a loop entered recursively
static void recursion() {
    Caliper c; LChan st; st.id = create_channel("recursion", 0, { { "CALI_SERVICES_ENABLE", "loop_statistics" } }); attach(&st);
    size_t want = 0;
    std::thread([&] {
        my_tid() = 99; Caliper c;
        std::function<void(int)> f = [&](int d) { Loop l("rec"); for (int i = 0; i < 3; ++i) { Loop::Iteration it(l.iteration(i)); if (d < 2 && i == 1) f(d + 1); ++want; } };
        f(0); want += 3;
    }).join();
    if (st.log[99].size() != want) viol("c26:recursive-loop", fmt("%zu loop and iteration ends in a recursively entered loop, %zu recorded", want, st.log[99].size()));
    cali_delete_channel(st.id);
}
int main(int argc, char** argv) {
    init(argc, argv); cali_init();
    uint64_t seed = iarg("seed", 1);
    for (long i = iarg("from", 0); i < iarg("to", 10); ++i) { run_c26(seed, i); if (violated()) break; }
    recursion();
    done(); return 0;
}
