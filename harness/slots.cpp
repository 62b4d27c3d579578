// C01: by-value entries of attributes chosen so that their storage slots collide, also around the end of the table:
// every value set, exchanged, overwritten and ended must be the one that queries and snapshots show
#include "prog.h"
#include <thread>
using namespace vh;
struct Sl { Attribute a; bool proc, hidden; };
int main(int argc, char** argv) {
    init(argc, argv); cali_init(); uint64_t seed = (uint64_t) iarg("seed", 1); int n = (int) iarg("n", 10); Caliper c;
    std::vector<Sl> all; Rng q(mix(seed, 77));
    for (int i = 0; i < 5200; ++i) { bool p = q.chance(40), h = q.chance(15); all.push_back({ c.create_attribute(fmt("c01s.%d", i), CALI_TYPE_INT, CALI_ATTR_ASVALUE | CALI_ATTR_UNALIGNED | (p ? CALI_ATTR_SCOPE_PROCESS : CALI_ATTR_SCOPE_THREAD) | (h ? CALI_ATTR_HIDDEN : 0) | CALI_ATTR_SKIP_EVENTS), p, h }); }
    for (int idx = 0; idx < n; ++idx) {
        // attributes whose ids are close to each other modulo m
        Rng r(mix(seed, idx)); cali_id_t m = r.chance(85) ? 1021 : 64 + r.below(2000), base = r.chance(50) ? m - 1 - r.below(8) : r.below(m), span = 1 + r.below(6); std::vector<Sl> s; bool onlyproc = r.chance(35), onlythr = !onlyproc && r.chance(50);
        for (auto& x : all) if ((x.a.id() + m - base) % m < span && !(onlyproc && !x.proc) && !(onlythr && x.proc)) s.push_back(x);
        for (size_t i = s.size(); i > 1; --i) std::swap(s[i - 1], s[r.below(i)]);
        if (s.size() > 40) s.resize(40); if (s.size() < 2) { vh::stat("small"); continue; }
        std::map<cali_id_t, int> now; int ops = 30 + (int) r.below(120), kinds[4] = { 0, 0, 0, 0 }; std::string last; bool bad = false; long steps = 0;
        auto check = [&](Caliper& cc, const char* who) {
            FixedSizeSnapshotRecord<120> rec; cc.pull_context(rec.builder()); std::map<cali_id_t, int> seen, cnt; ++steps;
            for (const Entry& e : rec.view()) if (e.is_immediate()) { seen[e.attribute()] = e.value().to_int(); ++cnt[e.attribute()]; }
            for (auto& x : s) {
                auto it = now.find(x.a.id()); bool other = strcmp(who, "this thread") && !x.proc; bool want = it != now.end() && !other, shown = want && !x.hidden; Entry e = cc.get(x.a);
                std::string w = fmt("case %d after %s: %s: attribute %llu (slot %llu%s): ", idx, last.c_str(), who, (unsigned long long) x.a.id(), (unsigned long long) (x.a.id() % 1021), x.proc ? ", process" : "");
                if (want != !e.empty() || (want && e.value().to_int() != it->second)) { viol("c01:slot-get", w + fmt("get gives '%s', expected '%s'", e.value().to_string().c_str(), want ? std::to_string(it->second).c_str() : "")); bad = true; return; }
                if (cnt[x.a.id()] != (shown ? 1 : 0) || (shown && seen[x.a.id()] != it->second)) { viol("c01:slot-snapshot", w + fmt("%d times in the snapshot with value %d, expected %s", cnt[x.a.id()], seen[x.a.id()], shown ? std::to_string(it->second).c_str() : "none")); bad = true; return; }
            }
        };
        for (int o = 0; o < ops && !bad; ++o) {
            Sl& x = s[r.below(s.size())]; int v = (int) r.below(1000), k = (int) r.below(10); auto it = now.find(x.a.id());
            if (k < 4 || (it == now.end() && k > 6)) { int w = (int) r.below(3); last = fmt("%s of %llu", w == 0 ? "begin" : w == 1 ? "set" : "exchange", (unsigned long long) x.a.id()); ++kinds[w];
                if (w == 0) c.begin(x.a, Variant(v)); else if (w == 1) c.set(x.a, Variant(v)); else { Variant old = c.exchange(x.a, Variant(v)); if ((it == now.end()) != old.empty() || (it != now.end() && old.to_int() != it->second)) { viol("c01:slot-exchange", fmt("case %d: exchange returned '%s'", idx, old.to_string().c_str())); bad = true; } }
                now[x.a.id()] = v;
            } else if (it != now.end()) { last = fmt("end of %llu", (unsigned long long) x.a.id()); ++kinds[3]; c.end(x.a); now.erase(it); }
            check(c, "this thread"); if (r.chance(3)) std::thread([&] { Caliper cc; check(cc, "another thread"); }).join();
        }
        last = "cleanup"; for (auto& x : s) if (now.count(x.a.id())) { c.end(x.a); now.erase(x.a.id()); if (!bad) check(c, "this thread"); }
        vh::stat("slot_states_compared", steps); kase(fmt("slots base=%d span=%d n=%d begin=%d end=%d exch=%d", (int) base / 100, (int) span, (int) s.size(), kinds[0] / 8, kinds[3] / 8, kinds[2] / 8));
    }
    done(); return 0;
}
