// C24: programs that set run metadata in every way, from several threads, with several channels writing every format
#include "prog.h"
#include <caliper/ConfigManager.h>
#include <fstream>
using namespace vh;
static std::string hex(const std::string& s) { static const char* H = "0123456789abcdef"; std::string r; for (unsigned char c : s) { r += H[c >> 4]; r += H[c & 15]; } return r.empty() ? "-" : r; }
struct G { std::string name; cali_attr_type t; int how; Attribute a; int chan; }; // how: 0 byname, 1 reference, 2 by value; chan: -1 process
struct Chan { int kind; std::string fmt, file; Channel ch; std::unique_ptr<ConfigManager> mgr; bool prof; };
static int seqno = 0;
static Val gval(Rng& r, cali_attr_type t, bool byname) {
    Val v = rnd_val(r, t);
    for (auto& c : v.s) if ((unsigned char) c < 0x20) c = '_';
    if (byname && t == CALI_TYPE_INT) v.i = (int32_t) v.i;
    return v;
}
int main(int argc, char** argv) {
    init(argc, argv);
    std::string dir = sarg("dir", "."); uint64_t seed = (uint64_t) iarg("seed", 1); bool many = iarg("many", 0);
    std::ofstream mem(dir + "/mem");
    Rng r(mix(seed, 24)); Caliper c;
    std::deque<G> gs; static std::deque<Val> keep;
    static const cali_attr_type T[] = { CALI_TYPE_STRING, CALI_TYPE_STRING, CALI_TYPE_INT, CALI_TYPE_UINT, CALI_TYPE_DOUBLE, CALI_TYPE_BOOL, CALI_TYPE_ADDR, CALI_TYPE_TYPE };
    std::map<std::string, Val> cur[8]; // per channel index + 1; 0: process
    auto newglobal = [&](int chan) {
        G g; g.how = chan >= 0 ? 1 + (int) r.below(2) : many && r.chance(70) ? 2 : (int) r.below(3); g.chan = chan;
        g.t = g.how == 0 ? T[1 + r.below(4)] : T[r.below(8)];
        static const char* nm[] = { "", "some name.", "a.very.long.attribute.name.that.is.clamped.", "q\"uo,te=.", "\xc3\xa9." };
        g.name = "g24." + std::string(nm[r.below(r.chance(40) ? 5 : 1)]) + std::to_string(gs.size());
        if (g.how) g.a = c.create_attribute(g.name, g.t, CALI_ATTR_GLOBAL | (r.chance(80) ? CALI_ATTR_SKIP_EVENTS : 0) | (g.how == 2 ? CALI_ATTR_ASVALUE : 0) | (r.chance(25) ? CALI_ATTR_SCOPE_THREAD : r.chance(20) ? CALI_ATTR_SCOPE_PROCESS : 0));
        gs.push_back(g);
    };
    int n0 = many ? 130 + (int) r.below(200) : 1 + (int) r.below(20);
    for (int i = 0; i < n0; ++i) newglobal(-1);
    // channels
    std::deque<Chan> ch; int nc = 1 + (int) r.below(4);
    for (int i = 0; i < nc; ++i) {
        ch.emplace_back(); Chan& x = ch.back(); x.kind = (int) r.below(3); x.file = dir + "/out." + std::to_string(i); x.prof = true;
        std::string col = r.chance(50) ? "event,trace" : r.chance(80) ? "event,aggregate" : "trace"; x.prof = col.find("aggregate") != std::string::npos;
        if (x.kind == 0) { // recorder
            x.fmt = "cali"; config_map_t cfg { { "CALI_SERVICES_ENABLE", col + ",recorder" }, { "CALI_RECORDER_FILENAME", x.file } };
            
            x.ch = c.get_channel(cali::create_channel(("g24." + std::to_string(i)).c_str(), r.chance(20) ? CALI_CHANNEL_LEAVE_INACTIVE : 0, cfg));
        } else if (x.kind == 1) { // report
            static const char* F[] = { "json(object)", "json(object,pretty)", "json-split", "table(print-globals)", "tree(print-globals)", "cali", "json", "table", "tree", "expand" };
            x.fmt = F[r.below(r.chance(75) ? 6 : 10)];
            std::string q = r.chance(50) ? "select * " : r.chance(50) ? "group by path aggregate count() " : ""; if (x.fmt.find("tree") == 0 && q[0] == 's') q = ""; // in a tree, an explicit * shows everything 
            x.ch = c.get_channel(cali::create_channel(("g24." + std::to_string(i)).c_str(), r.chance(20) ? CALI_CHANNEL_LEAVE_INACTIVE : 0, { { "CALI_SERVICES_ENABLE", col + ",report" }, { "CALI_REPORT_FILENAME", x.file }, { "CALI_REPORT_CONFIG", q + "format " + x.fmt } }));
        } else {
            static const char* F[][2] = { { "hatchet-region-profile(output=%,output.format=cali)", "cali" }, { "hatchet-region-profile(output=%,output.format=json)", "json(object)" }, { "hatchet-region-profile(output=%,output.format=json-split)", "json-split" },
                { "spot(output=%)", "cali" }, { "event-trace(output=%)", "cali" }, { "runtime-report(output=%,print.metadata)", "table(print-globals)" }, { "hatchet-sample-profile(output=%)", "" }, { "region-statistics", "" } };
            auto& f = F[r.below(6)]; std::string s = f[0]; s.replace(s.find('%'), 1, x.file); x.fmt = f[1];
            if (s.find("runtime-report") == 0) x.fmt = "table-cols";
            x.mgr.reset(new ConfigManager(s.c_str())); if (x.mgr->error()) { error(s + ": " + x.mgr->error_msg()); return 0; }
            x.mgr->start();
            auto cp = x.mgr->get_all_channels(); if (cp.empty()) { error("no channel"); return 0; }
            x.ch = cp.front()->channel();
        }
        if (!x.mgr && r.chance(40)) { int k = 1 + (int) r.below(3); for (int j = 0; j < k; ++j) newglobal(i); }
    }
    int nt = 1 + (int) r.below(3); std::deque<Worker> w; for (int i = 0; i < nt; ++i) w.emplace_back(i);
    auto setg = [&](G& g, Rng q) {
        Caliper cc; Val v = gval(q, g.t, g.how == 0); std::map<std::string, Val>& m = cur[g.chan + 1];
        if (g.how == 0) {
            switch (g.t) {
            case CALI_TYPE_STRING: for (auto& z : v.s) if (!z) z = '0'; cali_set_global_string_byname(g.name.c_str(), v.s.c_str()); break;
            case CALI_TYPE_INT: cali_set_global_int_byname(g.name.c_str(), (int) v.i); break;
            case CALI_TYPE_UINT: cali_set_global_uint_byname(g.name.c_str(), v.u); break;
            default: cali_set_global_double_byname(g.name.c_str(), v.d);
            }
        } else {
            keep.push_back(v); Variant x = keep.back().var();
            if (g.chan >= 0) cc.set(ch[g.chan].ch.body(), g.a, x);
            else if (q.chance(25)) cali_set(g.a.id(), x.data(), x.size());
            else if (q.chance(10) && !m.count(g.name)) { cc.begin(g.a, x); }
            else cc.set(g.a, x);
        }
        m[g.name] = v;
    };
    Attribute region = c.get_attribute("region");
    int nops = (many ? n0 : 0) + 5 + (int) r.below(60); int k = 0; size_t first = 0;
    for (int o = 0; o < nops; ++o) {
        int t = (int) r.below(nt); Rng q = r.fork(); int kind = (int) r.below(12);
        if (many && first < gs.size()) kind = 0;
        if (kind < 6) { G& g = many && first < gs.size() ? gs[first++] : gs[r.below(gs.size())]; w[t].start([&, q] { setg(g, q); }); w[t].wait(); ++k; }
        else if (kind == 6) { // a global that ends again
            G& g = gs[r.below(gs.size())];
            if (g.how && g.chan < 0 && !cur[0].count(g.name)) { Val v = gval(q, g.t, false); keep.push_back(v); w[t].start([&] { Caliper cc; cc.begin(g.a, keep.back().var()); }); w[t].wait(); int t2 = (int) r.below(nt); w[t2].start([&] { Caliper cc; cc.end(g.a); }); w[t2].wait(); stat("begin_end"); }
        } else if (kind < 10) { static const char* R[] = { "main", "foo", "bar", "solve" }; const char* nm = R[q.below(4)]; w[t].start([&] { cali_begin_region(nm); Caliper cc; if (q.chance(30)) for (auto& x : ch) if (x.ch.is_active()) cc.push_snapshot(x.ch.body(), SnapshotView()); cali_end_region(nm); }); w[t].wait(); }
        else if (kind == 10 || o + 1 == nops) {
            int i = (int) r.below(ch.size()); Chan& x = ch[i];
            w[t].start([&] { Caliper cc; if (x.mgr) x.mgr->flush(); else if (q.chance(50)) cali_channel_flush(x.ch.id(), 0); else cc.flush_and_write(x.ch.body(), SnapshotView()); }); w[t].wait();
            std::string f = dir + "/f" + std::to_string(seqno++);
            if (rename(x.file.c_str(), f.c_str()) && rename((x.file + ".json").c_str(), f.c_str()) && rename((x.file + ".cali").c_str(), f.c_str())) f = "none";
            mem << "F " << f << ' ' << x.fmt << '\n';
            for (int j : { 0, i + 1 }) for (auto& p : cur[j]) { for (auto& g : gs) if (g.name == p.first) mem << "G " << hex(p.first) << ' ' << cali_type2string(g.t) << ' ' << hex(p.second.str()) << ' ' << g.how << '\n'; }
            mem.flush(); stat("flushes"); smax("globals_in_a_flush", (long long) (cur[0].size() + cur[i + 1].size()));
        } else { Chan& x = ch[r.below(ch.size())]; if (!x.mgr) { if (x.ch.is_active()) c.deactivate_channel(x.ch); else c.activate_channel(x.ch); } }
    }
    mem << "END\n"; mem.close();
    stat("sets", k);
    for (auto& x : ch) x.mgr.reset();
    kase(std::to_string(seed) + "|" + std::to_string(nc) + "|" + std::to_string(k));
    done(); return 0;
}
