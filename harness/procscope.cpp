// C02: threads begin, set and end their own process- and channel-scope entries at the same time: none may get lost or stay behind
#include "prog.h"
#include <unistd.h>
using namespace vh;
struct Own { Attribute a; int kind; bool chan; std::vector<std::string> open; };
int main(int argc, char** argv) {
    init(argc, argv); cali_init(); uint64_t seed = (uint64_t) iarg("seed", 1); int n = (int) iarg("n", 10);
    for (int idx = 0; idx < n; ++idx) {
        Rng r(mix(seed, idx)); Caliper c; int nt = 2 + (int) r.below(6), per = 1 + (int) r.below(4), ops = 40 + (int) r.below(200); bool slow = r.chance(50), cb = r.chance(60);
        config_map_t cfg; if (r.chance(60)) cfg["CALI_SERVICES_ENABLE"] = r.chance(50) ? "event,trace" : "event,aggregate,timer"; cfg["CALI_CHANNEL_FLUSH_ON_EXIT"] = "false";
        cali_id_t chid = cali::create_channel(fmt("c02p.%d", idx).c_str(), 0, cfg); Channel chn = c.get_channel(chid);
        if (cb) { // widen the window between an operation's parts
            auto f = [slow](Caliper*, ChannelBody*, const Attribute& a, const Variant&) { if (a.name().compare(0, 5, "c02p.") == 0) { if (slow) usleep(20); else for (int i = 0; i < 200; ++i) asm volatile(""); } };
            chn.events().pre_end_evt.connect(f); chn.events().pre_begin_evt.connect(f); chn.events().pre_set_evt.connect(f);
        }
        std::atomic<int> go { 0 }; std::atomic<long> pulls { 0 }, total { 0 }, errs { 0 }; std::vector<std::thread> ts; std::deque<std::deque<Own>> own(nt);
        for (int t = 0; t < nt; ++t) for (int i = 0; i < per; ++i) {
            int k = (int) r.below(3); bool ch = r.chance(25); static const int pr[] = { CALI_ATTR_UNALIGNED, CALI_ATTR_ASVALUE | CALI_ATTR_UNALIGNED, CALI_ATTR_UNALIGNED | CALI_ATTR_SKIP_EVENTS };
            own[t].push_back({ c.create_attribute(fmt("c02p.%d.%d.%d.%d", t, i, k, ch), k == 1 ? CALI_TYPE_INT : CALI_TYPE_STRING, CALI_ATTR_SCOPE_PROCESS | pr[k]), k, ch, {} });
        }
        for (int t = 0; t < nt; ++t) ts.emplace_back([&, t] {
            Rng q(mix(mix(seed, idx), t + 100)); ++go; while (go < nt) {} Caliper cc;
            auto check = [&](const char* when) {
                ++pulls; FixedSizeSnapshotRecord<120> rec; cc.pull_context(rec.builder());
                for (auto& x : own[t]) {
                    std::vector<std::string> got;
                    if (x.chan) { Entry e = cc.get(chn.body(), x.a); if (e.is_immediate()) got.push_back(e.value().to_string()); else for (const Node* nd = e.node(); nd && nd->attribute() != CALI_INV_ID; nd = nd->parent()) if (nd->attribute() == x.a.id()) got.insert(got.begin(), nd->data().to_string()); }
                    else for (const Entry& e : rec.view()) { if (e.is_immediate()) { if (e.attribute() == x.a.id()) got.push_back(e.value().to_string()); } else for (const Node* nd = e.node(); nd && nd->attribute() != CALI_INV_ID; nd = nd->parent()) if (nd->attribute() == x.a.id()) got.insert(got.begin(), nd->data().to_string()); }
                    if (got != x.open) { std::string g, w; for (auto& s : got) g += "/" + s; for (auto& s : x.open) w += "/" + s; viol(x.chan ? "c02:channel-entry" : "c02:process-entry", fmt("case %d, %d threads, %s: thread %d's %s entries of %s are '%s', expected '%s'", idx, nt, when, t, x.chan ? "channel" : "process-scope", x.a.name_c_str(), g.c_str(), w.c_str())); ++errs; return; }
                }
            };
            for (int o = 0; o < ops && !errs; ++o) {
                Own& x = own[t][q.below(own[t].size())]; ChannelBody* cb2 = chn.body(); int k = (int) q.below(10); ++total;
                std::string v = x.kind == 1 ? std::to_string(q.below(1000)) : fmt("v%d", (int) q.below(9)); Variant val = x.kind == 1 ? Variant(atoi(v.c_str())) : Variant(v.c_str());
                if (k < 4 && (x.kind != 1 || x.open.empty()) && x.open.size() < 4) { if (x.chan) cc.begin(cb2, x.a, val); else cc.begin(x.a, val); x.open.push_back(v); check("after begin"); }
                else if (k < 8) { if (x.open.empty()) continue; if (x.chan) cc.end(cb2, x.a); else if (q.chance(50) && x.kind != 1) cc.end_with_value_check(x.a, Variant(x.open.back().c_str())); else cc.end(x.a); x.open.pop_back(); check("after end"); }
                else if (!x.open.empty() || x.kind == 1) { if (x.chan) cc.set(cb2, x.a, val); else cc.set(x.a, val); if (x.open.empty()) x.open.push_back(v); else x.open.back() = v; check("after set"); }
            }
            check("before cleanup");
            if (!errs) for (auto& x : own[t]) while (!x.open.empty()) { if (x.chan) cc.end(chn.body(), x.a); else cc.end(x.a); x.open.pop_back(); }
        });
        for (auto& t : ts) t.join();
        if (!errs) {
            FixedSizeSnapshotRecord<120> rec; c.pull_context(rec.builder()); for (const Entry& e : rec.view()) { for (const Node* nd = e.is_reference() ? e.node() : nullptr; nd && nd->attribute() != CALI_INV_ID; nd = nd->parent()) if (c.get_attribute(nd->attribute()).name().compare(0, 5, "c02p.") == 0) viol("c02:left-behind", fmt("case %d: %s=%s is still open after all threads ended theirs", idx, c.get_attribute(nd->attribute()).name_c_str(), nd->data().to_string().c_str())); if (e.is_immediate() && c.get_attribute(e.attribute()).name().compare(0, 5, "c02p.") == 0) viol("c02:left-behind", "a value is still set"); }
        }
        // freshness: once a value is published, snapshots of every thread show it or a later one
        if (!errs) {
            std::atomic<long> epoch { 0 }; std::atomic<bool> stop { false }; std::atomic<long> seen { 0 }; std::vector<std::thread> rd; bool byref = r.chance(40); std::string an = fmt("c02p.fresh.%d", idx % 4) + (byref ? "r" : "v");
            Attribute fa = c.create_attribute(an, CALI_TYPE_INT, CALI_ATTR_SCOPE_PROCESS | CALI_ATTR_UNALIGNED | CALI_ATTR_SKIP_EVENTS | (byref ? 0 : CALI_ATTR_ASVALUE)); int K = 300;
            c.set(fa, Variant(0)); epoch = 0; std::atomic<int> ready { 0 };
            for (int t = 0; t < nt; ++t) rd.emplace_back([&, t] {
                Caliper cc; ++ready; Rng q(mix(mix(seed, idx), t + 900));
                while (!stop) {
                    long e = epoch.load(); FixedSizeSnapshotRecord<120> rec; cc.pull_context(rec.builder()); Entry x = rec.view().get(fa); ++seen;
                    if (x.empty() || x.value().to_int() < e) { if (errs++ == 0) viol("c02:stale-process-value", fmt("case %d, %d threads: a snapshot shows '%s' after the value had been set to %ld", idx, nt, x.value().to_string().c_str(), e)); return; }
                    if (q.chance(10)) std::this_thread::yield();
                }
            });
            while (ready < nt) std::this_thread::yield();
            for (int k = 1; k <= K && !errs; ++k) { c.set(fa, Variant(k)); epoch = k; long target = seen + nt; for (int i = 0; i < 20000 && seen < target && !errs; ++i) if (i % 64 == 63) std::this_thread::yield(); }
            stop = true; for (auto& t : rd) t.join(); c.end(fa); vh::stat("freshness_snapshots", seen);
        }
        cali_delete_channel(chid);
        kase(fmt("process scope threads=%d entries=%d ops=%d window=%d channel=%s seed=%d", nt, per, ops / 20, cb ? 1 + slow : 0, cfg.count("CALI_SERVICES_ENABLE") ? cfg["CALI_SERVICES_ENABLE"].c_str() : "", (int) r.below(50)));
        vh::stat("concurrent_shared_scope_operations", total); vh::stat("own_entries_checked", pulls);
        if (errs) break;
    }
    done(); return 0;
}
