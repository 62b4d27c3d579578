// C31: a program that writes reports and recordings to many destinations, driven by a script. Every operation is logged.
#include <caliper/Annotation.h>
#include <caliper/Caliper.h>
#include <caliper/ConfigManager.h>
#include <caliper/cali.h>
#include <caliper/common/OutputStream.h>
#include <fcntl.h>
#include <signal.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <unistd.h>
#include <atomic>
#include <cstring>
#include <fstream>
#include <iostream>
#include <map>
#include <mutex>
#include <sstream>
#include <string>
#include <thread>
#include <vector>
typedef std::vector<std::string> Op;
typedef std::map<std::string, std::string> KV;
static int logfd = -1; static bool limited = false; static std::string held;   // nothing can be logged while the file size is limited
static void logline(const std::string& s) { std::string t = held + s + "\n"; held.clear(); if (limited) { held = t; return; } if (write(logfd, t.data(), t.size()) < 0) _exit(9); }
static std::map<int, cali_id_t> chn; static std::map<int, cali::ConfigManager*> mgr; static int opno = 0;
static std::vector<int> hogs;
static cali_id_t mark_attr() { return cali_create_attribute("vh.mark", CALI_TYPE_INT, CALI_ATTR_ASVALUE | CALI_ATTR_SKIP_EVENTS); }
static std::vector<std::string> split(const std::string& l, char d) { Op f; size_t p = 0; for (;;) { size_t q = l.find(d, p); f.push_back(l.substr(p, q == std::string::npos ? q : q - p)); if (q == std::string::npos) break; p = q + 1; } return f; }
static cali::Variant value(const std::string& type, const std::string& s) { return type == "int" ? cali::Variant(atoi(s.c_str())) : type == "double" ? cali::Variant(atof(s.c_str())) : cali::Variant(CALI_TYPE_STRING, (new std::string(s))->data(), s.size()); }
// several threads reach their operation at the same time
template<class F> static void parallel(int n, F f) {
    std::atomic<int> ready { 0 }; std::vector<std::thread> ts;
    for (int i = 0; i < n; ++i) ts.emplace_back([&, i] { cali_get(0); ++ready; while (ready < n) {} f(i); });
    for (auto& t : ts) t.join();
}
static void execute(const Op& f) {
    const std::string& o = f[0]; auto I = [&](size_t i) { return atoi(f[i].c_str()); };
    if (o == "mark") for (int i = 0; i < I(2); ++i) { cali_id_t a = mark_attr(); cali_variant_t v = cali_make_variant_from_int(I(1) + i); cali_push_snapshot(CALI_SCOPE_THREAD | CALI_SCOPE_PROCESS, 1, &a, &v); }
    else if (o == "cmark") { cali_id_t a = mark_attr(); for (int i = 0; i < I(3); ++i) { cali_variant_t v = cali_make_variant_from_int(I(2) + i); cali_channel_push_snapshot(chn[I(1)], CALI_SCOPE_THREAD | CALI_SCOPE_PROCESS, 1, &a, &v); } }
    else if (o == "newchan") { KV kv; for (size_t i = 4; i + 1 < f.size(); i += 2) kv[f[i]] = f[i + 1]; chn[I(1)] = cali::create_channel(f[3].c_str(), I(2), kv); }
    else if (o == "delete") cali_delete_channel(chn[I(1)]);
    else if (o == "attr") cali_create_attribute(f[1].c_str(), f[2] == "int" ? CALI_TYPE_INT : f[2] == "double" ? CALI_TYPE_DOUBLE : CALI_TYPE_STRING, I(3) | CALI_ATTR_SKIP_EVENTS);
    else if (o == "begin") { cali::Caliper c; c.begin(c.get_attribute(f[1]), value(f[2], f[3])); }
    else if (o == "set") { cali::Caliper c; c.set(c.get_attribute(f[1]), value(f[2], f[3])); }
    else if (o == "end") { cali::Caliper c; c.end(c.get_attribute(f[1])); }
    else if (o == "chset") { cali::Caliper c; auto ch = c.get_channel(chn[I(1)]); c.set(ch.body(), c.get_attribute(f[2]), value(f[3], f[4])); }
    else if (o == "chbegin") { cali::Caliper c; auto ch = c.get_channel(chn[I(1)]); c.begin(ch.body(), c.get_attribute(f[2]), value(f[3], f[4])); }
    else if (o == "flush") cali_channel_flush(chn[I(1)], I(2));
    else if (o == "flushinfo") { cali::Caliper c; auto ch = c.get_channel(chn[I(1)]); cali::Entry e[1] = { cali::Entry(c.get_attribute(f[2]), value(f[3], f[4])) }; c.flush_and_write(ch.body(), cali::SnapshotView(1, e)); }
    else if (o == "defflush") cali_flush(I(1));
    else if (o == "parflush") { auto ks = split(f[1], ','); parallel(int(ks.size()), [&](int i) { const std::string& k = ks[i]; if (k[0] == 'm') mgr[atoi(k.c_str() + 1)]->flush(); else cali_channel_flush(chn[atoi(k.c_str())], 0); }); }
    else if (o == "query") { std::ostringstream os; os << "before\n"; cali::write_report_for_query(chn[I(1)], f[3].c_str(), 0, os); os << "after\n"; std::ofstream(f[2]) << os.str(); }
    else if (o == "parquery") { auto ks = split(f[1], ','); parallel(int(ks.size()), [&](int i) { std::ostringstream os; os << "before\n"; cali::write_report_for_query(chn[atoi(ks[i].c_str())], f[3].c_str(), 0, os); os << "after\n"; std::ofstream(f[2] + std::to_string(i)) << os.str(); }); }
    else if (o == "say") std::cout << "SAY " << f[1] << std::endl;
    else if (o == "newmgr") { auto* m = mgr[I(1)] = new cali::ConfigManager; m->add(f[2].c_str()); if (m->error()) logline("mgr-error " + m->error_msg()); m->start(); }
    else if (o == "flushmgr") mgr[I(1)]->flush();
    else if (o == "stopmgr") mgr[I(1)]->stop();
    else if (o == "region") { cali_begin_region(f[1].c_str()); cali_end_region(f[1].c_str()); }
    else if (o == "loop") { cali::Loop l(f[1].c_str()); for (int i = 0; i < I(2); ++i) { auto it = l.iteration(i); cali_begin_region("body"); cali_end_region("body"); } }
    else if (o == "global") cali_set_global_string_byname(f[1].c_str(), f[2].c_str());
    else if (o == "fsize") { signal(SIGXFSZ, SIG_IGN); rlimit r; getrlimit(RLIMIT_FSIZE, &r); r.rlim_cur = f[1] == "max" ? r.rlim_max : rlim_t(I(1)); setrlimit(RLIMIT_FSIZE, &r); limited = f[1] != "max"; }
    else if (o == "hogfds") { rlimit r; getrlimit(RLIMIT_NOFILE, &r); r.rlim_cur = 64; setrlimit(RLIMIT_NOFILE, &r); for (int d; (d = open("/dev/null", O_RDONLY)) >= 0;) hogs.push_back(d); }
    else if (o == "freefds") { for (int d : hogs) close(d); hogs.clear(); }
    else if (o == "mkdir") mkdir(f[1].c_str(), 0755);
    else if (o == "rmfile") unlink(f[1].c_str());
    else if (o == "mkfile") std::ofstream(f[1]) << f[2];
    else if (o == "symlink") { if (symlink(f[1].c_str(), f[2].c_str())) {} }
    else if (o == "stream") {   // an OutputStream object shared by threads that all use it first
        cali::OutputStream s; std::ostringstream user; std::mutex m; if (f[3] == "user") s.set_stream(&user); else if (f[3] == "stdout" ) s.set_stream(cali::OutputStream::StdOut); else s.set_filename(f[3].c_str());
        if (f[4] == "append") s.set_mode(cali::OutputStream::Append);
        int n = I(1), lines = I(2); std::atomic<int> wrong { 0 }; std::atomic<std::ostream*> first { nullptr };
        auto copy = [&](int i) { cali::OutputStream mine(s); for (int j = 0; j < lines; ++j) { std::ostream* os = mine.stream(); std::ostream* e = nullptr; if (!first.compare_exchange_strong(e, os) && e != os) ++wrong; std::lock_guard<std::mutex> g(m); *os << "line " << i << " " << j << "\n"; } };
        parallel(n, copy); if (f[3] == "stdout") std::cout << std::flush;
        if (f[3] == "user") std::ofstream(f[5]) << user.str();
        if (wrong) logline("wrong-stream " + std::to_string(wrong));
    }
    else { logline("unknown op " + o); _exit(8); }
    std::string s; for (auto& x : f) s += (s.empty() ? "" : "\t") + x; logline("op " + std::to_string(opno++) + " " + s);
}
int main() {
    logfd = open("log.txt", O_WRONLY | O_CREAT | O_APPEND, 0644); std::ifstream is("script.txt"); cali_init(); std::vector<Op> ops;
    for (std::string l; std::getline(is, l);) if (!l.empty()) ops.push_back(split(l, '\t'));
    is.close(); for (auto& o : ops) execute(o);
    logline("returning"); return 0;
}
