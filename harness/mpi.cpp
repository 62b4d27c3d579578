// C22: cross-rank aggregation in real MPI programs. Ranks 0..m-1 of the world run a job; its combined output must be what one
// process computes from the files of all ranks.
#include <mpi.h>
#include "vh.h"
#include <caliper/Caliper.h>
#include <caliper/ChannelController.h>
#include <caliper/CollectiveOutputChannel.h>
#include <caliper/ConfigManager.h>
#include <caliper/MpiChannelManager.h>
#include <caliper/SnapshotRecord.h>
#include <caliper/cali-mpi.h>
#include <caliper/cali.h>
#include <caliper/common/OutputStream.h>
#include <caliper/reader/Aggregator.h>
#include <caliper/reader/CaliReader.h>
#include <caliper/reader/CaliperMetadataDB.h>
#include <caliper/reader/CalQLParser.h>
#include <caliper/reader/FormatProcessor.h>
#include <caliper/reader/Preprocessor.h>
#include <caliper/reader/RecordProcessor.h>
#include <caliper/reader/RecordSelector.h>
#include <unistd.h>
#include <algorithm>
#include <fstream>
#include <sstream>
using namespace vh; using namespace cali;
typedef std::map<std::string, std::string> KV;
static int wrank = 0, wsize = 1;
static std::string slurp(const std::string& n) { std::ifstream f(n, std::ios::binary); std::ostringstream o; o << f.rdbuf(); return o.str(); }
static std::vector<std::string> split(const std::string& s, char d) { std::vector<std::string> v; std::string c; for (char x : s) if (x == d) { v.push_back(c); c.clear(); } else c += x; v.push_back(c); return v; }
static QuerySpec spec_of(const std::string& q) { CalQLParser p(q.c_str()); if (p.error()) { fprintf(stderr, "bad query %s: %s\n", q.c_str(), p.error_msg().c_str()); MPI_Abort(MPI_COMM_WORLD, 3); } return p.spec(); }
static void rest(CaliperMetadataAccessInterface&, const Node*) {}
// what one process computes from the files
static std::string serial(const std::vector<std::string>& files, const QuerySpec& local, const QuerySpec& cross) {
    CaliperMetadataDB db; db.add_attribute_aliases(cross.aliases); db.add_attribute_units(cross.units); Aggregator all(cross); Preprocessor xp(cross), lp(local); RecordSelector xs(cross), ls(local);
    for (auto& f : files) {
        Aggregator one(local); CaliReader r;
        r.read(f, db, rest, [&](CaliperMetadataAccessInterface& m, const EntryList& e) { EntryList x = lp.process(m, e); if (ls.pass(m, x)) one.add(m, x); });
        if (r.error()) fprintf(stderr, "read error %s: %s\n", f.c_str(), r.error_msg().c_str());
        one.flush(db, [&](CaliperMetadataAccessInterface& m, const std::vector<Entry>& e) { EntryList x = xp.process(m, e); if (xs.pass(m, x)) all.add(m, x); });
    }
    std::ostringstream os; OutputStream s; s.set_stream(&os); { FormatProcessor fp(cross, s); all.flush(db, fp); fp.flush(db); } return os.str();
}
static std::string canon(const std::string& t, bool expand) {
    std::vector<std::string> v; for (auto& l : split(t, '\n')) if (!l.empty()) { std::string x = l; if (expand) { auto p = split(l, ','); std::sort(p.begin(), p.end()); x.clear(); for (auto& y : p) x += y + ","; } while (!x.empty() && (x.back() == ',' || x.back() == ' ')) x.pop_back(); v.push_back(x); }
    std::sort(v.begin(), v.end()); std::string r; for (auto& x : v) r += x + "\n"; return r;
}
// a job of the list: "agg <m> <rotate> <out> <query> <files...>": what the mpi-caliquery tool does
static void agg_job(const std::vector<std::string>& f, MPI_Comm comm, int rank) {
    QuerySpec spec = spec_of(f[4]); CaliperMetadataDB db; Aggregator a(spec); SnapshotProcessFn fn = a;
    db.add_attribute_aliases(spec.aliases); db.add_attribute_units(spec.units);
    if (spec.filter.selection == QuerySpec::FilterSelection::List) { RecordSelector sel(spec); SnapshotProcessFn next = fn; fn = [sel, next](CaliperMetadataAccessInterface& m, const EntryList& e) mutable { if (sel.pass(m, e)) next(m, e); }; }
    if (!spec.preprocess_ops.empty()) { Preprocessor pp(spec); SnapshotProcessFn next = fn; fn = [pp, next](CaliperMetadataAccessInterface& m, const EntryList& e) mutable { next(m, pp.process(m, e)); }; }
    CaliReader r; r.read(f[5 + rank], db, rest, fn); if (r.error()) fprintf(stderr, "read error %s\n", r.error_msg().c_str());
    aggregate_over_mpi(db, a, comm);
    if (rank == 0) { OutputStream s; s.set_filename(f[3].c_str()); FormatProcessor fp(spec, s); a.flush(db, fp); fp.flush(db); }
}
// "app <m> <rotate> <dir> <seed>": a program that measures itself
static const char* names[] = { "main", "foo", "bar", "solve", "io", "x", "y", "z" };
static void program(Rng& r, int rank, int nops, int tag) {
    Caliper c; Attribute x = c.create_attribute("vh.x", CALI_TYPE_INT, CALI_ATTR_ASVALUE | CALI_ATTR_AGGREGATABLE), y = c.create_attribute("vh.y", CALI_TYPE_DOUBLE, CALI_ATTR_ASVALUE | CALI_ATTR_AGGREGATABLE | CALI_ATTR_SKIP_EVENTS), k = c.create_attribute("vh.k", CALI_TYPE_INT, CALI_ATTR_DEFAULT), u = c.create_attribute("vh.u", CALI_TYPE_STRING, CALI_ATTR_UNALIGNED), rk = c.create_attribute("vh.rank", CALI_TYPE_INT, CALI_ATTR_UNALIGNED | CALI_ATTR_SKIP_EVENTS), s = c.create_attribute("vh.s", CALI_TYPE_STRING, CALI_ATTR_ASVALUE | CALI_ATTR_SKIP_EVENTS), mine = c.create_attribute("vh.only" + std::to_string(rank % 3), CALI_TYPE_INT, CALI_ATTR_ASVALUE | CALI_ATTR_AGGREGATABLE | CALI_ATTR_SKIP_EVENTS);
    if (r.chance(50)) c.begin(rk, Variant(rank)); else rk = Attribute();
    std::vector<int> st; int sub = 2 + (int) r.below(6), base = (int) r.below(3);          // ranks see different, overlapping sets of regions
    for (int i = 0; i < nops; ++i) {
        int q = (int) r.below(12);
        if (q < 4 && st.size() < 6) { int n = (base + (int) r.below(sub)) % 8; st.push_back(n); cali_begin_region(names[n]); }
        else if (q < 7) { if (!st.empty() && st.back() >= 0) { cali_end_region(names[st.back()]); st.pop_back(); } else if (!st.empty()) { c.end(k); st.pop_back(); } }
        else if (q < 8) { c.begin(k, Variant((int) r.below(4))); st.push_back(-1); }
        else if (q < 9) { if (r.chance(50)) c.begin(u, Variant(names[r.below(8)])), c.end(u); }
        else if (q < 10) c.set(x, Variant((int) r.below(1000) - 300)); else if (q < 11) c.set(y, Variant(double((int) r.below(4000) - 500) / 4)); else if (r.chance(70)) c.set(mine, Variant((int) r.below(50))); else c.set(s, Variant(names[r.below(8)]));
    }
    while (!st.empty()) { if (st.back() >= 0) cali_end_region(names[st.back()]); else c.end(k); st.pop_back(); }
    c.set(x, Variant(0)); c.end(x); c.set(y, Variant(0.)); c.end(y); c.set(mine, Variant(0)); c.end(mine); c.set(s, Variant("")); c.end(s); if (rk) c.end(rk); (void) tag;
}
static void queries(Rng& r, bool aggr, std::string& local, std::string& cross, bool& expand, int fmt) {
    // columns of the local result and how they are combined
    std::string X = aggr ? "sum#vh.x" : "vh.x", Y = aggr ? "sum#vh.y" : "vh.y", O = aggr ? "sum#vh.only1" : "vh.only1", N = aggr ? "sum(count)" : "count()", n = aggr ? "sum#count" : "count";
    std::vector<std::pair<std::string, std::string>> cols; cols.push_back({ N, "sum(" + n + ")" }); if (r.chance(40)) cols.push_back({ N, "max(" + n + ")" });
    auto add = [&](const std::string& op, const std::string& a, const std::string& op2) { cols.push_back({ op + "(" + a + ")", op2 + "(" + op + "#" + a + ")" }); };
    if (r.chance(70)) add("sum", X, "sum"); if (r.chance(40)) add("max", X, "max"); if (r.chance(40)) add("min", Y, "min"); if (r.chance(40)) add("sum", Y, r.chance(50) ? "sum" : "avg"); if (r.chance(30)) add("sum", O, "sum"); if (r.chance(20)) add("sum", X, "variance"); if (r.chance(25)) add("sum", X, "inclusive_sum"); if (r.chance(25)) add("sum", X, "percent_total");
    static const char* keys[] = { "region", "region,vh.k", "vh.k", "vh.rank", "path", "vh.u,region", "region,vh.rank,vh.u", "vh.s", "region,vh.s" }; int nk = aggr ? 7 : 9; std::string lk = keys[r.below(nk)], ck = r.chance(60) ? lk : keys[r.below(nk)]; if (r.chance(10)) ck = "";
    std::string la, ca; std::set<std::string> have; for (auto& c : cols) { if (have.insert(c.first).second) la += (la.empty() ? "" : ",") + c.first; if (have.insert("c" + c.second).second) ca += (ca.empty() ? "" : ",") + c.second; }
    local = (r.chance(20) ? "let vh.d=scale(" + X + ",2) " : std::string()) + "aggregate " + la + " group by " + lk + (r.chance(20) ? " where not vh.u=foo" : r.chance(15) ? " where vh.nothing" : "");
    cross = "aggregate " + ca + (ck.empty() ? "" : " group by " + ck) + (r.chance(15) ? " where region" : r.chance(10) ? std::string(" where ") + (aggr ? "sum#count" : "count") + ">2" : "");
    expand = fmt < 7; if (expand) cross += " format expand"; else cross += " format " + std::string(fmt == 7 ? "table" : fmt == 8 ? "tree" : "json-split");
    if (fmt == 7) { std::string s = ck.empty() ? "" : ck == "path" ? "path" : ck; for (auto& c : cols) { std::string o = c.second; size_t p = o.find('('); std::string col = o.substr(0, p) + "#" + o.substr(p + 1, o.size() - p - 2); if (s.find(col) == std::string::npos && col.find("histogram") != 0 && col.find("percent") != 0 && col.find("inclusive") != 0) s += (s.empty() ? "" : ",") + col; } cross = "select " + s + " " + cross; }
    if (fmt >= 8) { expand = true; cross.replace(cross.find(" format "), std::string::npos, " format expand"); }
}
static void app_job(const std::vector<std::string>& f, MPI_Comm comm, int rank, int m) {
    uint64_t seed = strtoull(f[4].c_str(), 0, 10); Rng shared(seed); Caliper c; bool aggr = shared.chance(50), expand = true; int how = (int) shared.below(4); bool world = m == wsize; if (world && shared.chance(40)) how = 4 + (int) shared.below(2);
    std::string local, cross; queries(shared, aggr, local, cross, expand, (int) shared.below(10)); std::string base = f[3] + "/" + f[4];
    std::string svc = aggr ? "event,aggregate" : "event,trace", out = base + ".out", mine = base + "." + std::to_string(rank) + ".cali"; std::ostringstream os;
    cali_id_t ref = cali::create_channel("ref", 0, KV { { "CALI_SERVICES_ENABLE", svc + ",recorder" }, { "CALI_RECORDER_FILENAME", mine }, { "CALI_CHANNEL_FLUSH_ON_EXIT", "false" } });
    KV mpicfg { { "CALI_SERVICES_ENABLE", svc + ",mpireport" }, { "CALI_MPIREPORT_FILENAME", out }, { "CALI_MPIREPORT_CONFIG", cross }, { "CALI_MPIREPORT_LOCAL_CONFIG", local }, { "CALI_CHANNEL_FLUSH_ON_EXIT", "false" }, { "CALI_CHANNEL_CONFIG_CHECK", "false" } };
    if (how >= 4) mpicfg["CALI_MPIREPORT_WRITE_ON_FINALIZE"] = "false";
    cali_id_t chn = CALI_INV_ID; std::shared_ptr<ChannelController> cc; std::shared_ptr<CollectiveOutputChannel> coll; std::shared_ptr<MpiChannelManager> mm;
    struct Ctl : ChannelController { Ctl(const KV& cfg) : ChannelController("mpi", 0, cfg) {} };
    if (how == 0) { KV k = mpicfg; k["CALI_SERVICES_ENABLE"] = svc; chn = cali::create_channel("coll", 0, k); }
    else if (how == 4) chn = cali::create_channel("coll", 0, mpicfg);
    else { cc = std::make_shared<Ctl>(mpicfg); if (how == 1) { coll = CollectiveOutputChannel::from(cc); coll->start(); } if (how == 2) { coll = CollectiveOutputChannel::from(cc); coll->start(); } if (how == 3) { mm = std::make_shared<MpiChannelManager>(comm); mm->add(cc); mm->start(); } if (how == 5) cc->start(); }
    Rng own(mix(seed, 1000 + rank)); int nops = own.chance(25) ? 0 : (int) own.below(own.chance(20) ? 2000 : 120); program(own, rank, nops, 0);
    std::string what = "how " + std::to_string(how) + " ranks " + std::to_string(m) + " seed " + f[4] + " local: " + local + " cross: " + cross;
    int flushes = how != 3 && shared.chance(25) ? 2 : 1;      // the result does not change when it is written again
    for (int i = 0; i < flushes; ++i) {
        if (i) { os.str(""); if (rank == 0) unlink(out.c_str()); MPI_Barrier(comm); }
        if (how == 0) { OutputStream s; s.set_stream(&os); collective_flush(s, c, c.get_channel(chn).body(), SnapshotView(), spec_of(local), spec_of(cross), comm); }
        if (how == 1) { OutputStream s; s.set_stream(&os); coll->collective_flush(s, comm); }
        if (how == 2) coll->collective_flush(comm);
        if (how == 3) mm->collective_flush();
        if (how == 4) c.flush_and_write(c.get_channel(chn).body(), SnapshotView());
        if (how == 5) { Channel t = cc->channel(); c.flush_and_write(t.body(), SnapshotView()); }
        MPI_Barrier(comm);       // the world's rank 0 may be another one
    }
    if (rank == 0 && how != 0 && how != 1) os << slurp(out);
    if (rank != 0 && !os.str().empty()) viol("c22:output-on-other-rank", what + ": rank " + std::to_string(rank) + " wrote " + os.str().substr(0, 300));
    c.flush_and_write(c.get_channel(ref).body(), SnapshotView()); cali_delete_channel(ref); if (chn != CALI_INV_ID) cali_delete_channel(chn);
    mm.reset(); coll.reset(); cc.reset();
    long long nrec = 0; { std::string t = slurp(mine); for (size_t p = 0; (p = t.find("__rec=ctx", p)) != std::string::npos; ++p) ++nrec; } std::vector<long long> counts(m); MPI_Gather(&nrec, 1, MPI_LONG_LONG, counts.data(), 1, MPI_LONG_LONG, 0, comm);
    MPI_Barrier(comm);
    if (rank == 0) {
        std::vector<std::string> files; int empty = 0; for (int i = 0; i < m; ++i) { files.push_back(base + "." + std::to_string(i) + ".cali"); if (counts[i] <= 1) ++empty; stat("records", counts[i]); }
        std::string want = serial(files, spec_of(local), spec_of(cross)), got = os.str(), a = canon(got, expand), b = canon(want, expand);
        kase(what); stat("app_jobs"); stat("ranks_without_data", empty); stat("how_" + std::to_string(how)); fp("app" + std::to_string(how) + "|" + std::to_string(m) + "|" + (aggr ? "a" : "t") + "|" + std::to_string(std::min(empty, 3)) + "|" + std::to_string(std::min<size_t>(b.size() / 200, 20)));
        if (a != b) { auto l = split(a, '\n'), k = split(b, '\n'); std::string d; for (auto& x : l) if (std::find(k.begin(), k.end(), x) == k.end()) { d += " only in the combined output: " + x.substr(0, 250); break; } for (auto& x : k) if (std::find(l.begin(), l.end(), x) == l.end()) { d += " only in the serial result: " + x.substr(0, 250); break; }
            viol("c22:combined-output-differs", what + ": " + std::to_string(l.size() - 1) + " records, serially " + std::to_string(k.size() - 1) + d); }
        for (auto& x : files) unlink(x.c_str()); unlink(out.c_str());
    }
    MPI_Barrier(comm);
}
// "cfg <m> <rotate> <dir> <seed>": built-in configurations write combined output for region counts that the check knows
static void cfg_job(const std::vector<std::string>& f, MPI_Comm comm, int rank, int m, int rot) {
    uint64_t seed = strtoull(f[4].c_str(), 0, 10); Rng sh(seed); bool world = m == wsize && rot == 0; std::string base = f[3] + "/" + f[4];
    int how = (int) sh.below(world ? 4 : 3); bool again = sh.chance(30); bool app = sh.chance(50); std::string append = !app ? ",output.append=false" : sh.chance(50) ? ",output.append" : "", extra = sh.chance(30) ? ",region.stats" : "";
    int kinds = 1 + (int) sh.below(7); std::string cfg;
    if (kinds & 1) cfg += ",runtime-report(region.count" + append + extra + ",output=" + base + ".rr)"; if (kinds & 2) cfg += ",spot(time.exclusive=false" + std::string(extra.empty() ? "" : ",time.variance") + ",output=" + base + ".spot.cali)"; if (kinds & 4) cfg += ",runtime-profile(output.format=cali,region.count,output=" + base + ".prof.cali)";
    bool marked = (kinds & 1) && sh.chance(50);
    cfg.erase(0, 1); bool member = comm != MPI_COMM_NULL;
    if (!member && how != 2) return;
    ConfigManager mgr; mgr.add(cfg.c_str()); if (mgr.error()) { viol("c22:config-error", cfg + ": " + mgr.error_msg()); return; }
    std::vector<std::shared_ptr<CollectiveOutputChannel>> outs; std::unique_ptr<MpiChannelManager> mm;
    if (how == 0) for (auto& p : mgr.get_all_channels()) { auto o = CollectiveOutputChannel::from(p); if (o) { o->start(); outs.push_back(o); } }
    if (how == 1) { size_t p = 0; int d = 0; cfg += ","; for (size_t i = 0; i < cfg.size(); ++i) { d += cfg[i] == '(' ? 1 : cfg[i] == ')' ? -1 : 0; if (cfg[i] == ',' && d == 0) { auto o = make_collective_output_channel(cfg.substr(p, i - p).c_str()); if (o.first) { o.first->start(); outs.push_back(o.first); } else viol("c22:config-error", cfg.substr(p, i - p) + ": " + o.second); p = i + 1; } } }
    if (how == 2) { mm.reset(new MpiChannelManager(comm)); mm->add(mgr); mm->start(); }
    if (how == 3) mgr.start();
    if (!member) { mm->collective_flush(); return; }
    if (marked && rank == 0) { std::ofstream o(base + ".rr"); o << "earlier output\n"; } MPI_Barrier(comm);
    std::map<std::string, int> count; Rng own(mix(seed, 2000 + rank)); int n = own.chance(20) ? 0 : 1 + (int) own.below(own.chance(20) ? 2000 : 60); std::vector<std::string> st; static const char* nm[] = { "main", "foo", "bar two", "solve", "io", "x.1", "y", "zz" }; int sub = 2 + (int) own.below(6), b = (int) own.below(3);
    auto end = [&] { std::string p; for (auto& x : st) p += (p.empty() ? "" : "/") + x; ++count[p]; cali_end_region(st.back().substr(0).c_str()); st.pop_back(); };
    auto go = [&](int k) { for (int i = 0; i < k; ++i) if (st.size() < 5 && own.chance(50)) { st.push_back(nm[(b + (int) own.below(sub)) % 8]); cali_begin_region(st.back().c_str()); } else if (!st.empty()) end(); while (!st.empty()) end(); };
    go(n);
    auto flush = [&] { for (auto& o : outs) o->collective_flush(comm); if (mm) mm->collective_flush(); if (how == 3) mgr.flush(); MPI_Barrier(comm); };
    flush();
    if (again && !app) { if (rank == 0) { unlink((base + ".rr").c_str()); unlink((base + ".spot.cali").c_str()); unlink((base + ".prof.cali").c_str()); } MPI_Barrier(comm); go(n / 2); flush(); }
    std::ofstream o(base + ".exp." + std::to_string(rank)); for (auto& p : count) o << p.second << " " << p.first << "\n"; o.close();
    if (rank == 0) { std::ofstream i(base + ".info"); i << kinds << " " << how << " " << m << " " << (marked ? !app ? 1 : 2 : 0) << "\n" << cfg << "\n"; kase("cfg " + std::to_string(how) + cfg.substr(0, 60)); stat("cfg_how_" + std::to_string(how)); }
    if (how == 3) mgr.stop(); outs.clear(); mm.reset(); MPI_Barrier(comm);
}
int main(int argc, char** argv) {
    for (int i = 1; i + 1 < argc; ++i) if (!strcmp(argv[i], "--serial")) {       // --serial LOCAL CROSS FILES...
        std::vector<std::string> fs(argv + i + 3, argv + argc); std::string s = serial(fs, spec_of(argv[i + 1]), spec_of(argv[i + 2])); fwrite(s.data(), 1, s.size(), stdout); return 0;
    }
    cali_mpi_init();
    cali_config_preset("CALI_CHANNEL_FLUSH_ON_EXIT", "false");
    MPI_Init(&argc, &argv); MPI_Comm_rank(MPI_COMM_WORLD, &wrank); MPI_Comm_size(MPI_COMM_WORLD, &wsize);
    std::vector<char*> av(argv, argv + argc); std::vector<std::string> keep; for (size_t i = 0; i + 1 < av.size(); ++i) if (!strcmp(av[i], "--out")) { keep.push_back(std::string(av[i + 1]) + "." + std::to_string(wrank)); av[i + 1] = &keep.back()[0]; break; }
    init((int) av.size(), av.data());
    if (A().kv.count("finalize")) {            // the combined output is written by MPI_Finalize
        Rng own(mix(iarg("seed", 1), 1000 + wrank)); int nops = own.chance(25) ? 0 : (int) own.below(300); program(own, wrank, nops, 0);
        MPI_Finalize(); done(); return 0;
    }
    std::ifstream jobs(sarg("jobs", "")); std::string line; alarm((unsigned) iarg("alarm", 600));
    while (std::getline(jobs, line)) {
        auto f = split(line, '\t'); int m = std::min(atoi(f[1].c_str()), wsize), rot = atoi(f[2].c_str()); int pos = (wrank + rot) % wsize; MPI_Comm comm;
        MPI_Comm_split(MPI_COMM_WORLD, pos < m ? 0 : MPI_UNDEFINED, pos, &comm);
        if (comm != MPI_COMM_NULL) { int rank; MPI_Comm_rank(comm, &rank); if (f[0] == "agg") agg_job(f, comm, rank); else if (f[0] == "app") app_job(f, comm, rank, m); else cfg_job(f, comm, rank, m, rot); MPI_Comm_free(&comm); }
        else if (f[0] == "cfg") cfg_job(f, comm, -1, m, rot);
        if (rot % 3 == 0) MPI_Barrier(MPI_COMM_WORLD);
    }
    MPI_Finalize(); done(); return 0;
}
