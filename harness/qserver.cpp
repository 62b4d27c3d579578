// Runs queries in-process, as cali-query does, on request (see lib/qlib.py).
// Request (one line, fields separated by 0x1f): cmd, files joined by 0x1e, query
// Response: "S <status> <len>\n" + len bytes
#include <caliper/reader/Aggregator.h>
#include <caliper/reader/CaliReader.h>
#include <caliper/reader/CaliWriter.h>
#include <caliper/reader/CalQLParser.h>
#include <caliper/reader/CaliperMetadataDB.h>
#include <caliper/reader/FormatProcessor.h>
#include <caliper/reader/QueryProcessor.h>
#include <caliper/common/Node.h>
#include <caliper/common/OutputStream.h>
#include <caliper/caliper-config.h>
#include <iostream>
#include <sstream>
#include <thread>
#include <vector>
#include <memory>
#include <atomic>
using namespace cali;
static std::vector<std::string> split(const std::string& s, char c) { std::vector<std::string> r; size_t p = 0; for (;;) { size_t q = s.find(c, p); r.push_back(s.substr(p, q == std::string::npos ? q : q - p)); if (q == std::string::npos) return r; p = q + 1; } }
static void reply(const std::string& st, const std::string& o) { std::cout << "S " << st << ' ' << o.size() << '\n' << o; std::cout.flush(); }
int main() {
    std::ios::sync_with_stdio(false);
    std::string line;
    while (std::getline(std::cin, line)) {
        auto f = split(line, '\x1f');
        if (f.size() < 3) { reply("bad", ""); continue; }
        std::vector<std::string> files = split(f[1], '\x1e');
        for (auto& c : f[2]) if (c == '\x1d') c = '\n';
        std::ostringstream os;
        if (f[0] == "copy") { // reads and writes through CaliWriter, one stream
            OutputStream s; s.set_stream(&os); CaliperMetadataDB db; CaliWriter w(s); bool err = false;
            for (auto& x : files) { CaliReader r; r.read(x, db, [](CaliperMetadataAccessInterface&, const Node*) {}, [&](CaliperMetadataAccessInterface& d, const EntryList& rec) { w.write_snapshot(d, rec); }); err |= r.error(); }
            w.write_globals(db, db.get_globals());
            reply(err ? "readerr" : "ok", os.str()); continue;
        }
        CalQLParser p(f[2].c_str());
        if (p.error()) { reply("parseerr", p.error_msg()); continue; }
        QuerySpec spec = p.spec();
        if (f[0] == "parse") { std::ostringstream o; o << spec; reply("ok", o.str()); continue; }
        OutputStream s; s.set_stream(&os);
        std::atomic<bool> err { false };
        if (f[0].compare(0, 7, "partial") == 0) { // one aggregator per file, merged in a chain, a binary tree or a star, in one database
            CaliperMetadataDB db; std::vector<std::unique_ptr<Aggregator>> a; int how = f[0].size() > 7 ? f[0][7] - '0' : 0;
            std::vector<std::thread> t;
            for (size_t i = 0; i < files.size(); ++i) a.emplace_back(new Aggregator(spec));
            auto one = [&](size_t i) { CaliReader r; r.read(files[i], db, [](CaliperMetadataAccessInterface&, const Node*) {}, *a[i]); if (r.error()) err = true; };
            if (how >= 3) { for (size_t i = 0; i < files.size(); ++i) t.emplace_back([&, i] { one(i); }); for (auto& x : t) x.join(); }
            else for (size_t i = 0; i < files.size(); ++i) one(i);
            auto into = [&](size_t from, size_t to) { Aggregator* d = a[to].get(); a[from]->flush(db, [d](CaliperMetadataAccessInterface& m, const EntryList& l) { d->add(m, l); }); };
            size_t n = files.size();
            if (how % 3 == 0) for (size_t i = n; i-- > 1;) into(i, i - 1);
            else if (how % 3 == 1) for (size_t st = 1; st < n; st *= 2) for (size_t i = 0; i + st < n; i += 2 * st) into(i + st, i);
            else for (size_t i = 1; i < n; ++i) into(i, 0);
            FormatProcessor fp(spec, s); a[0]->flush(db, fp); fp.flush(db);
            reply(err ? "readerr" : "ok", os.str()); continue;
        }
        {
            QueryProcessor proc(spec, s);
            CaliperMetadataDB db; db.add_attribute_aliases(spec.aliases); db.add_attribute_units(spec.units);
            auto one = [&](const std::string& x) { CaliReader r; if (f[0] == "globals") r.read(x, db, [](CaliperMetadataAccessInterface&, const Node*) {}, [](CaliperMetadataAccessInterface&, const EntryList&) {}); else r.read(x, db, [](CaliperMetadataAccessInterface&, const Node*) {}, proc); if (r.error()) err = true; };
            if (f[0] == "par") { std::vector<std::thread> t; for (auto& x : files) t.emplace_back([&, x] { one(x); }); for (auto& x : t) x.join(); }
            else for (auto& x : files) one(x);
            if (f[0] == "globals") {
                spec.select.selection = QuerySpec::AttributeSelection::List;
                for (const Attribute& a : db.get_all_attributes()) if (a.is_global()) spec.select.list.push_back(a.name());
                FormatProcessor gf(spec, s); gf.process_record(db, db.get_globals()); gf.flush(db);
            } else proc.flush(db);
        }
        reply(err ? "readerr" : "ok", os.str());
    }
    return 0;
}
