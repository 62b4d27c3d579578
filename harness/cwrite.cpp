// C06: annotation programs with values of every kind; the records in memory (as flushed) next to the written file
#include "prog.h"
#include <fstream>
using namespace vh;
static std::string hex(const std::string& s) { static const char* H = "0123456789abcdef"; std::string r; for (unsigned char c : s) { r += H[c >> 4]; r += H[c & 15]; } return r; }
static std::set<cali_id_t> seen;
static void attr_line(Caliper& c, std::ostream& o, cali_id_t id) {
    if (!seen.insert(id).second) return;
    Attribute a = c.get_attribute(id); std::string m;
    for (const Node* n = a.node()->parent(); n && n->id() != CALI_INV_ID && n->id() >= 12; n = n->parent())
        if (n->attribute() >= 12) { attr_line(c, o, n->attribute()); m = " " + hex(c.get_attribute(n->attribute()).name()) + "=" + hex(vstr(n->data())) + m; }
    o << "A " << hex(a.name()) << ' ' << cali_type2string(a.type()) << ' ' << a.properties() << m << '\n';
}
static void rec_line(Caliper& c, std::ostream& o, const char* k, const std::vector<Entry>& rec) {
    for (auto& e : rec) for (auto& p : path_of(e)) attr_line(c, o, p.first);
    o << k;
    for (auto& e : rec) {
        Path p = path_of(e); o << (e.is_immediate() ? " i" : " r");
        for (auto& x : p) o << ':' << hex(c.get_attribute(x.first).name()) << '=' << hex(x.second);
    }
    o << '\n';
}
static void one(uint64_t seed, long idx, const std::string& dir) {
    Rng r(mix(seed, (uint64_t) idx)); Caliper c;
    std::string base = dir + "/c" + std::to_string(idx);
    static const cali_attr_type T[] = { CALI_TYPE_STRING, CALI_TYPE_STRING, CALI_TYPE_INT, CALI_TYPE_UINT, CALI_TYPE_DOUBLE, CALI_TYPE_BOOL, CALI_TYPE_ADDR, CALI_TYPE_TYPE };
    static std::deque<Attribute> metas;
    if (metas.empty()) for (int i = 0; i < 6; ++i) metas.push_back(c.create_attribute("c06.meta." + std::to_string(i), T[i + 1], CALI_ATTR_SKIP_EVENTS));
    struct At { Attribute a; cali_attr_type t; bool val; }; std::vector<At> at;
    int na = 2 + (int) r.below(6);
    for (int i = 0; i < na; ++i) {
        cali_attr_type t = T[r.below(8)]; int p = CALI_ATTR_DEFAULT; bool val = r.chance(40);
        if (val) p |= CALI_ATTR_ASVALUE; else if (t == CALI_TYPE_STRING && r.chance(60)) p |= CALI_ATTR_NESTED;
        if (!val && r.chance(20)) p |= CALI_ATTR_UNALIGNED;
        if (r.chance(20)) p |= CALI_ATTR_SCOPE_PROCESS;
        if (r.chance(30)) p |= CALI_ATTR_SKIP_EVENTS;
        if (val && r.chance(30)) p |= CALI_ATTR_AGGREGATABLE;
        std::string name = (r.chance(30) ? rnd_string(r, 8) : "at") + "." + std::to_string(idx) + "." + std::to_string(i);
        for (auto& ch : name) if ((unsigned char) ch < 0x20) ch = '_';
        int nm = r.chance(30) ? 1 + (int) r.below(2) : 0; Attribute ma[2]; Variant mv[2]; static std::deque<Val> keep;
        for (int k = 0; k < nm; ++k) { ma[k] = metas[r.below(metas.size())]; keep.push_back(rnd_val(r, ma[k].type())); for (auto& ch : keep.back().s) if ((unsigned char) ch < 0x20) ch = '_'; mv[k] = keep.back().var(); }
        at.push_back({ c.create_attribute(name, t, p, nm, ma, mv), t, val });
    }
    config_map_t cfg { { "CALI_SERVICES_ENABLE", r.chance(70) ? "trace,recorder" : "event,trace,recorder,timer" }, { "CALI_RECORDER_FILENAME", base + ".cali" } };
    Channel ch = c.get_channel(cali::create_channel(("c06." + std::to_string(idx)).c_str(), 0, cfg));
    static std::deque<Val> keep; // immediate string values are stored by reference
    std::deque<Worker> w; int nt = r.chance(25) ? 2 : 1; for (int i = 0; i < nt; ++i) w.emplace_back(i);
    // aligned attributes of one thread close in LIFO order; unaligned ones and values in any order
    struct St { std::vector<Attribute> st; std::vector<Attribute> un; }; std::vector<St> st(nt);
    int nops = 5 + (int) r.below(60); size_t nsnap = 0;
    auto plain = [&](Attribute a) { return (a.properties() & CALI_ATTR_SCOPE_MASK) != CALI_ATTR_SCOPE_PROCESS; };
    for (int o = 0; o < nops; ++o) {
        int t = (int) r.below(nt); St& s = st[t]; uint64_t k = r.below(10); Rng q = r.fork();
        w[t].start([&, k, q]() mutable {
            Caliper cc; At& a = at[q.below(at.size())];
            if (k < 4) {
                if (!plain(a.a)) { keep.push_back(rnd_val(q, a.t)); cc.set(a.a, keep.back().var()); return; }
                if (a.val) { keep.push_back(rnd_val(q, a.t)); cc.set(a.a, keep.back().var()); return; }
                if ((a.a.properties() & CALI_ATTR_UNALIGNED)) { keep.push_back(rnd_val(q, a.t)); cc.begin(a.a, keep.back().var()); s.un.push_back(a.a); return; }
                keep.push_back(rnd_val(q, a.t)); cc.begin(a.a, keep.back().var()); s.st.push_back(a.a);
            } else if (k < 6) {
                if (!s.st.empty()) { cc.end(s.st.back()); s.st.pop_back(); }
            } else if (k == 6) {
                if (!s.un.empty()) { size_t j = q.below(s.un.size()); cc.end(s.un[j]); s.un.erase(s.un.begin() + j); }
            } else {
                // trigger info with immediate entries and a path of its own
                std::vector<Entry> inf; int n = (int) q.below(3);
                for (int j = 0; j < n; ++j) { At& b = at[q.below(at.size())]; keep.push_back(rnd_val(q, b.t)); if (b.val) inf.emplace_back(b.a, keep.back().var()); else inf.emplace_back(cc.make_tree_entry(b.a, keep.back().var())); }
                cc.push_snapshot(ch.body(), SnapshotView(inf.size(), inf.data())); ++nsnap;
            }
        });
        w[t].wait();
    }
    if (r.chance(60)) for (int i = 0, n = 1 + (int) r.below(3); i < n; ++i) {
        static const cali_attr_type G[] = { CALI_TYPE_STRING, CALI_TYPE_INT, CALI_TYPE_UINT, CALI_TYPE_DOUBLE };
        static std::map<int, Attribute> ga; int g = (int) r.below(8); auto it = ga.find(g);
        if (it == ga.end()) it = ga.emplace(g, c.create_attribute("c06.global." + std::to_string(g), G[g & 3], CALI_ATTR_GLOBAL | CALI_ATTR_SKIP_EVENTS | (g & 4 ? CALI_ATTR_ASVALUE : 0))).first;
        static std::deque<Val> gk; gk.push_back(rnd_val(r, it->second.type())); c.set(it->second, gk.back().var());
    }
    std::ofstream o(base + ".mem"); seen.clear();
    c.flush(ch.body(), SnapshotView(), [&](CaliperMetadataAccessInterface&, const std::vector<Entry>& rec) { rec_line(c, o, "R", rec); });
    rec_line(c, o, "G", c.get_globals(ch.body()));
    o.close();
    c.flush_and_write(ch.body(), SnapshotView());
    stat("snapshots", (long long) nsnap);
    for (int t = 0; t < nt; ++t) { w[t].start([&, t] { Caliper cc; St& s = st[t]; while (!s.st.empty()) { cc.end(s.st.back()); s.st.pop_back(); } while (!s.un.empty()) { cc.end(s.un.back()); s.un.pop_back(); } }); w[t].wait(); }
    w.clear();
    c.delete_channel(ch);
    kase(base.substr(base.rfind('/') + 1) + "|" + std::to_string(nsnap));
}
int main(int argc, char** argv) {
    init(argc, argv); std::string dir = sarg("dir", ".");
    for (long i = iarg("from", 0); i < iarg("to", 10); ++i) one((uint64_t) iarg("seed", 1), i, dir);
    done(); return 0;
}
