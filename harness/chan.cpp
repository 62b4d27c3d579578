// Channel data against the log of processed snapshots. Modes: c04 (aggregation), c05 (trace)
#include "chan.h"
// ---------------------------------------------------------------- c04
struct Stat1 { unsigned n = 0; cali_attr_type t; int64_t imin, imax, isum; uint64_t umin, umax, usum; double dmin, dmax, dsum;
    void add(const Variant& v) {
        t = v.type();
        int64_t i = v.to_int64(); uint64_t u = t == CALI_TYPE_UINT ? v.to_uint() : 0; double d = t == CALI_TYPE_DOUBLE ? v.to_double() : 0;
        if (t != CALI_TYPE_INT) i = 0;
        if (n++ == 0) { imin = imax = isum = i; umin = umax = usum = u; dmin = dmax = dsum = d; return; }
        imin = std::min(imin, i); imax = std::max(imax, i); isum += i; umin = std::min(umin, u); umax = std::max(umax, u); usum += u; dmin = std::min(dmin, d); dmax = std::max(dmax, d); dsum += d;
    }
    std::string str() const {
        if (t == CALI_TYPE_INT) return fmt("%lld/%lld/%lld/%lld", (long long) imin, (long long) imax, (long long) isum, (long long) (isum / (int64_t) n));
        if (t == CALI_TYPE_UINT) return fmt("%llu/%llu/%llu/%llu", (unsigned long long) umin, (unsigned long long) umax, (unsigned long long) usum, (unsigned long long) (usum / n));
        return fmt("%.17g/%.17g/%.17g/%.17g", dmin, dmax, dsum, dsum / n);
    }
};
struct Group { unsigned long long n = 0; std::map<std::string, Stat1> st; };

// by_node: distinguish keys by the identity of their context nodes rather than by their paths
static bool check_c04(Case& k, Chan& ch, const std::string& what, bool by_node = false) {
    Caliper c;
    std::vector<std::string> want, got;
    std::map<std::string, unsigned long long> wk, gk;
    std::map<std::string, std::string> human;
    unsigned long long total = 0;
    for (auto& tl : ch.log) {
        std::map<std::string, Group> groups;
        for (auto& l : tl.second) {
            Rec key; std::set<cali_id_t> seen; std::string nodes;
            for (auto& e : l.e) {
                if (!e.imm) { key.add(e.p); if (by_node) nodes += std::to_string(e.node) + ","; continue; }
                if (ch.keys.count(e.p[0].first) && seen.insert(e.p[0].first).second) key.add(e.p);
            }
            key.norm();
            std::string ks = rec_key(key) + nodes; human[ks] = show(c, key);
            Group& g = groups[ks]; ++g.n; ++total;
            std::set<cali_id_t> s2;
            for (auto& e : l.e) if (e.imm && !e.v.empty()) {
                Attribute a = c.get_attribute(e.p[0].first);
                if (((a.properties() & CALI_ATTR_AGGREGATABLE) || class_aggr().count(a.id())) && s2.insert(a.id()).second) g.st[a.name()].add(e.v);
            }
        }
        for (auto& g : groups) {
            std::string s = human[g.first] + fmt(" count=%llu", g.second.n);
            for (auto& st : g.second.st) s += " " + st.first + "=" + st.second.str();
            want.push_back(s); wk[human[g.first]] += g.second.n;
        }
    }
    auto recs = flush_raw(ch);
    std::set<uint64_t> slots;
    for (auto& rec : recs) {
        Rec key; std::string cnt = "?"; std::map<std::string, std::map<std::string, Variant>> st; unsigned long long cn = 0;
        for (const Entry& e : rec) {
            if (e.is_reference()) { key.add(path_of(e)); continue; }
            std::string n = c.get_attribute(e.attribute()).name();
            if (n == "count") { cn = e.value().to_uint(); continue; }
            if (n == "aggregate.slot") continue;
            if (n.size() > 4 && n[3] == '#') { if (!st[n.substr(4)].emplace(n.substr(0, 3), e.value()).second) viol(mode + ":result-twice", n); continue; }
            key.add(path_of(e));
        }
        key.norm();
        std::string hk = show(c, key), s = hk + fmt(" count=%llu", cn);
        for (auto& p : st) {
            auto f = [&](const char* w) -> std::string { auto it = p.second.find(w); if (it == p.second.end()) return "-"; const Variant& v = it->second; return v.type() == CALI_TYPE_DOUBLE ? fmt("%.17g", v.to_double()) : v.to_string(); };
            s += " " + p.first + "=" + f("min") + "/" + f("max") + "/" + f("sum") + "/" + f("avg");
        }
        got.push_back(s); gk[hk] += cn;
    }
    std::sort(want.begin(), want.end()); std::sort(got.begin(), got.end());
    stat("snapshots_aggregated", total); stat("result_records", recs.size()); stat("flushes");
    smax("keys_in_one_flush", recs.size());
    if (want == got) return true;
    if (by_node) return false;
    if (check_c04(k, ch, what, true)) { viol(mode + ":duplicate-context-nodes", what + ": several records for one key, whose paths consist of different nodes"); return false; }
    std::vector<std::string> missing, extra;
    std::set_difference(want.begin(), want.end(), got.begin(), got.end(), std::back_inserter(missing));
    std::set_difference(got.begin(), got.end(), want.begin(), want.end(), std::back_inserter(extra));
    std::string kind = "values";
    if (wk != gk) { kind = "counts"; std::set<std::string> a, b; for (auto& p : wk) a.insert(p.first); for (auto& p : gk) b.insert(p.first); if (a != b) kind = "keys"; }
    else if (want.size() != got.size()) kind = "split-or-merged-records";
    std::string t = what + fmt(": %zu expected records, %zu got; ", want.size(), got.size());
    for (size_t i = 0; i < 3 && i < missing.size(); ++i) t += "\n missing: " + missing[i].substr(0, 900);
    for (size_t i = 0; i < 3 && i < extra.size(); ++i) t += "\n extra: " + extra[i].substr(0, 900);
    viol(mode + ":" + kind, t + "\n config: " + ch.cfg);
    return false;
}

static void run_c04(uint64_t seed, long idx) {
    Case k(mix(seed, (uint64_t) idx * 2 + 1)); k.pfx = fmt("a%ld", idx);
    Caliper c; Rng& r = k.r;
    setup_attrs(k, (int) r.below(5));
    int style = (int) r.below(10); // 0: many keys, 1: many key attributes, 2: many metrics
    if (style == 1) for (int i = 0; i < 22; ++i) more_val(k);
    if (style == 2) for (int i = 0; i < 30; ++i) more_aggr(k);
    int nch = r.chance(30) ? 2 : 1;
    std::deque<Chan> chans(nch); std::vector<Chan*> cp;
    bool ev = r.chance(40);
    for (auto& ch : chans) {
        std::string keys; int nk = style == 1 ? 22 : (int) r.below(4);
        for (int i = 0; i < nk; ++i) { std::string n = nm(k, "v", style == 1 ? i : (int) r.below(8)); if (!ch.keynames.insert(n).second) continue; keys += (keys.empty() ? "" : ",") + n; }
        if (r.chance(10) && !k.aggr.empty()) { std::string n = k.aggr[0].name; ch.keynames.insert(n); keys += (keys.empty() ? "" : ",") + n; }
        std::string svc = "aggregate"; if (ev) svc += ",event"; if (r.chance(25)) svc += ",timer";
        if (r.chance(20)) svc = ev ? "event,aggregate" : "timer,aggregate";
        bool info = r.chance(60);
        ch.name = fmt("%s.ch%zu", k.pfx.c_str(), cp.size()); ch.cfg = svc + " key=" + keys + (info ? " +info" : "");
        ch.id = create_channel(ch.name.c_str(), 0, { { "CALI_SERVICES_ENABLE", svc }, { "CALI_AGGREGATE_KEY", keys }, { "CALI_EVENT_ENABLE_SNAPSHOT_INFO", info ? "true" : "false" }, { "CALI_TIMER_SNAPSHOT_DURATION", "true" } });
        attach(&ch); cp.push_back(&ch);
        k.h = k.h * 31 + nk * 7 + (svc.size() << 4);
    }
    auto sync_keys = [&] { for (auto& ch : chans) { ch.keys.clear(); for (auto& n : ch.keynames) { Attribute a = c.get_attribute(n); if (a && a.store_as_value()) ch.keys.insert(a.id()); } } };
    std::map<int, PThread> ts; std::map<int, std::unique_ptr<Worker>> ws; int next = 1;
    auto mk = [&](int tid) { ts.emplace(tid, PThread(mix(seed ^ 77, idx * 64 + tid))).first->second.tag = "t" + std::to_string(tid) + "."; };
    my_tid() = 0; mk(0);
    std::map<Chan*, std::map<int, size_t>> expect;
    long ops = style == 0 ? 6000 : 120 + (long) r.below(400); int spread = style == 0 ? 4000 : 2 + (int) r.below(12);
    int rounds = 1 + (int) r.below(4);
    for (int rd = 0; rd < rounds; ++rd) {
        // threads come and go
        while (ws.size() < 4 && r.chance(40)) { int id = next++; mk(id); ws[id].reset(new Worker(id)); }
        if (!ws.empty() && r.chance(30)) ws.erase(ws.begin());
        if (rd && r.chance(50)) { more_aggr(k); stat("late_metrics"); }
        if (rd && r.chance(40)) { more_val(k); stat("late_values"); }
        sync_keys();
        auto body = [&](int tid) { PThread& t = ts.at(tid); for (long i = 0; i < ops; ++i) op(k, t, spread, 12, false, cp); if (rd == rounds - 1 || t.r.chance(30)) close_all(t); };
        for (auto& w : ws) { int id = w.first; w.second->start([&, id] { body(id); }); }
        body(0);
        for (auto& w : ws) w.second->wait();
        bool exit_before = r.chance(20); if (exit_before) ws.clear();
        for (auto& ch : chans) {
            // the log itself must hold what the program did
            for (auto& t : ts) {
                size_t e = (ev ? t.second.events : 0) + t.second.pushes, g = ch.log[t.first].size() + expect[&ch][t.first];
                if (e != g) viol(mode + ":snapshot-count", fmt("thread %d made %zu snapshots, channel %s processed %zu", t.first, e, ch.cfg.c_str(), g));
            }
            check_c04(k, ch, fmt("round %d", rd));
            if (r.chance(25)) check_c04(k, ch, fmt("round %d again", rd)); // flushing does not consume
            if (r.chance(50)) {
                for (auto& l : ch.log) { expect[&ch][l.first] += l.second.size(); l.second.clear(); }
                c.clear(&ch.chn); stat("clears");
                if (r.chance(40)) check_c04(k, ch, fmt("round %d cleared", rd));
            }
        }
        kase(fmt("c04 %d.%d.%llx.%zu", style, rd, (unsigned long long) (k.h ^ ts.at(0).h), ws.size()));
    }
    ws.clear();
    for (auto& ch : chans) { cali_delete_channel(ch.id); }
    smax("threads", next);
}


// ---------------------------------------------------------------- c05
// every operation of the program carries (thread, sequence number) so that records identify themselves
static std::string id_of(Case& k, const Rec& r, int& tid, uint64_t& seq) {
    tid = -1; seq = 0;
    for (auto& p : r.entries) if (p.size() == 1) {
        if (p[0].first == k.tid.a.id()) tid = atoi(p[0].second.c_str() + 2);
        else if (p[0].first == k.seq.a.id()) seq = strtoull(p[0].second.c_str() + 2, 0, 10);
    }
    return fmt("(thread %d, op %llu)", tid, (unsigned long long) seq);
}
static void check_c05(Case& k, Chan& ch, const std::string& policy, const std::vector<Rec>& got, const std::string& what, size_t cap) {
    Caliper c;
    std::map<int, std::vector<const Rec*>> by;
    for (auto& r : got) { int t; uint64_t q; id_of(k, r, t, q); by[t].push_back(&r); }
    size_t total = 0;
    for (auto& tl : ch.log) {
        auto& g = by[tl.first]; size_t n = tl.second.size(); total += n; size_t worst = 0;
        std::string who = what + fmt(" %s thread %d: ", policy.c_str(), tl.first);
        for (size_t i = 0; i < std::max(n, g.size()); ++i) {
            if (i >= g.size()) {
                if (policy == "stop" && worst + 10 + tl.second[i].e.size() * Entry::MAX_PACKED_SIZE + 64 >= cap) { stat("stopped_early"); break; }
                int t; uint64_t q; std::string id = id_of(k, to_rec(tl.second[i]), t, q);
                viol(mode + ":lost-" + policy, who + fmt("record %zu of %zu ", i, n) + id + " is missing"); break;
            }
            int t; uint64_t q; std::string id = id_of(k, *g[i], t, q);
            if (i >= n) { viol(mode + ":extra-" + policy, who + fmt("extra record %zu ", i) + id); break; }
            Rec w = to_rec(tl.second[i]); worst += 10 + tl.second[i].e.size() * Entry::MAX_PACKED_SIZE;
            if (!(w == *g[i])) {
                int t2; uint64_t q2; std::string id2 = id_of(k, w, t2, q2); Rec a = w, b = *g[i];
                viol(mode + (q != q2 ? ":order-" : ":contents-") + policy, who + fmt("record %zu is ", i) + id + ", expected " + id2 + "\n got " + show(c, *g[i]).substr(0, 700) + "\n expected " + show(c, w).substr(0, 700)); break;
            }
        }
    }
    for (auto& g : by) if (!ch.log.count(g.first) && !g.second.empty()) viol(mode + ":unknown-thread", what + fmt(" records of thread %d", g.first));
    stat("trace_records", got.size()); stat("trace_snapshots", total); smax("records_in_one_flush", got.size());
}
static std::vector<Rec> flush_recs(Chan& ch) { std::vector<Rec> o; for (auto& r : flush_raw(ch)) o.push_back(rec_of(r.begin(), r.end())); return o; }

static void run_c05(uint64_t seed, long idx) {
    Case k(mix(seed, (uint64_t) idx * 2 + 5)); k.pfx = fmt("b%ld", idx);
    Caliper c; Rng& r = k.r;
    setup_attrs(k, (int) r.below(5));
    for (int i = 0, n = r.chance(40) ? 60 : 0; i < n; ++i) more_aggr(k);
    k.seq = make_attr(k.pfx + ".seq", CALI_TYPE_UINT, CALI_ATTR_ASVALUE | CALI_ATTR_SKIP_EVENTS);
    k.tid = make_attr(k.pfx + ".tid", CALI_TYPE_INT, CALI_ATTR_ASVALUE | CALI_ATTR_SKIP_EVENTS);
    static const char* pols[] = { "grow", "stop", "flush" };
    std::string policy = pols[r.below(3)];
    int mib = r.chance(10) ? 0 : r.chance(85) ? 1 : 2;
    bool ev = r.chance(60);
    Chan ch; ch.name = k.pfx + ".ch";
    std::string svc = ev ? "trace,event" : "trace"; if (r.chance(20)) svc += ",timer"; if (r.chance(15)) svc += ",aggregate"; 
    if (policy == "flush" || svc.find("aggregate") != std::string::npos) svc = ev ? "event,trace" : "trace";
    ch.id = create_channel(ch.name.c_str(), 0, { { "CALI_SERVICES_ENABLE", svc }, { "CALI_TRACE_BUFFER_POLICY", policy }, { "CALI_TRACE_BUFFER_SIZE", std::to_string(mib) } });
    attach(&ch, true);
    size_t cap = (size_t) std::max(mib, 1) << 20;
    bool big = r.chance(50);
    std::map<int, PThread> ts; std::map<int, std::unique_ptr<Worker>> ws; int next = 1; std::mutex serial;
    auto mk = [&](int tid) { ts.emplace(tid, PThread(mix(seed ^ 78, idx * 64 + tid))).first->second.tag = "t" + std::to_string(tid) + (tid % 3 == 1 ? std::string(200, 'x') : "."); };
    my_tid() = 0; mk(0);
    std::vector<Chan*> cp { &ch };
    int rounds = 1 + (int) r.below(3);
    for (int rd = 0; rd < rounds; ++rd) {
        while (ws.size() < 3 && r.chance(35)) { int id = next++; mk(id); ws[id].reset(new Worker(id)); }
        if (!ws.empty() && r.chance(30)) ws.erase(ws.begin());
        long ops = big ? 15000 / (long) (1 + ws.size()) : 50 + (long) r.below(400);
        auto body = [&](int tid) {
            PThread& t = ts.at(tid); Caliper c; c.set(k.tid.a, Variant(tid));
            for (long i = 0; i < ops; ++i) {
                std::unique_lock<std::mutex> g(serial, std::defer_lock); if (policy == "flush") g.lock();
                if (big && t.r.chance(40)) { // wide records
                    c.set(k.seq.a, Variant(cali_make_variant_from_uint(++t.seq)));
                    std::vector<Entry> tr; for (auto& a : k.aggr) tr.push_back(Entry(a.a, Variant(cali_make_variant_from_int64((int64_t) t.r.next()))));
                    c.push_snapshot(ch.chn.body(), SnapshotView(tr.size(), tr.data())); ++t.pushes; t.note(9);
                } else op(k, t, 6, 12, true, cp);
            }
            // the thread's own markers stay open; regions are closed in the last round
            if (rd == rounds - 1) { std::unique_lock<std::mutex> g(serial, std::defer_lock); if (policy == "flush") g.lock(); while (!t.open.empty()) { c.set(k.seq.a, Variant(cali_make_variant_from_uint(++t.seq))); auto o = t.open.back(); t.open.pop_back(); c.end(o.first->a); } for (auto& p : t.refs) for (; p.second > 0; --p.second) { c.set(k.seq.a, Variant(cali_make_variant_from_uint(++t.seq))); c.end(p.first->a); } }
        };
        for (auto& w : ws) { int id = w.first; w.second->start([&, id] { body(id); }); }
        body(0);
        for (auto& w : ws) w.second->wait();
        bool exited = r.chance(25) && !ws.empty(); if (exited) ws.clear();
        std::string what = fmt("round %d (%s, %d MiB)", rd, svc.c_str(), mib);
        if (policy == "flush") {
            auto rest = flush_recs(ch); std::vector<Rec> all = ch.written; all.insert(all.end(), rest.begin(), rest.end());
            if (!ch.written.empty()) stat("overflow_flushed_records", ch.written.size());
            check_c05(k, ch, policy, all, what, cap);
        } else {
            check_c05(k, ch, policy, flush_recs(ch), what, cap);
            if (r.chance(30)) check_c05(k, ch, policy, flush_recs(ch), what + " again", cap);
        }
        if (r.chance(40)) { c.clear(&ch.chn); for (auto& l : ch.log) l.second.clear(); ch.written.clear(); stat("clears"); if (r.chance(30)) check_c05(k, ch, policy, flush_recs(ch), what + " cleared", cap); }
        kase(fmt("c05 %s %d %d %d.%llx.%zu%d", policy.c_str(), mib, (int) big, rd, (unsigned long long) (ts.at(0).h), ws.size(), (int) exited));
    }
    c.end(k.tid.a); c.end(k.seq.a);
    ws.clear();
    cali_delete_channel(ch.id);
    smax("threads", next);
}
int main(int argc, char** argv) {
    init(argc, argv);
    mode = sarg("mode", "c04");
    cali_init();
    uint64_t seed = iarg("seed", 1);
    for (long i = iarg("from", 0); i < iarg("to", 10); ++i) {
        if (mode == "c04") run_c04(seed, i);
        if (mode == "c05") run_c05(seed, i);
        if (A().vcount.size() > A().vcount.count("c04:duplicate-context-nodes")) break;
    }
    done();
    return 0;
}
