// C27: precedence of runtime settings.
//   --mode unit   random sources (API, environment, files with profiles) against an independent model
//   --mode prog   a deterministic annotated program driven by a script, for whole-process comparisons
#include <caliper/Caliper.h>
#include <caliper/ConfigManager.h>
#include <caliper/cali.h>
#include "RuntimeConfig.h"
#include "StringConverter.h"
#include "vh.h"
#include <sys/stat.h>
#include <unistd.h>
#include <algorithm>
#include <fstream>
#include <iostream>
#include <thread>
using vh::Rng; using vh::mix;
typedef std::map<std::string, std::string> KV;

static std::string upper(std::string s) { for (auto& c : s) c = (char) toupper(c); return s; }

// a random value as written in a configuration file, and the value it denotes
static std::string word(Rng& r) { static const char cs[] = "abcxyzABC0123456789_.,:;/=%#()[]{}+-*<>|&!'"; std::string s; int n = r.range(0, 12); for (int i = 0; i < n; ++i) s += cs[r.below(sizeof cs - 1)]; return s; }
static void filevalue(Rng& r, std::string& text, std::string& val) {
    text.clear(); val.clear(); int parts = r.range(1, 3);
    if (r.chance(15)) text += std::string((size_t) r.range(1, 3), ' ');
    for (int i = 0; i < parts; ++i) {
        std::string w = word(r);
        switch (r.below(4)) {
        case 0: case 1: text += w; val += w; break;
        case 2: { std::string q = w + (r.chance(50) ? " " + word(r) + "  x" : ""); text += '"' + q + '"'; val += q; break; }
        case 3: { char c = "\" \\#a"[r.below(5)]; text += std::string("\\") + c; val += c; break; }
        }
    }
    if (text.find_first_not_of(" ") != std::string::npos && r.chance(15)) text += "   trailing words";
}

struct FileModel { std::map<std::string, KV>& prof; };
static void unit(uint64_t seed, long long from, long long to) {
    static const char* SETS[] = { "alpha", "Beta", "services", "x_y" }; static const char* KEYS[] = { "enable", "one", "Two_three", "k4", "k5" };
    for (long long i = from; i < to; ++i) {
        Rng r(mix(seed, (uint64_t) i)); std::vector<std::string> vars; for (auto s : SETS) for (auto k : KEYS) vars.push_back("CALI_" + upper(s) + "_" + upper(k));
        std::map<std::string, KV> prof; KV preset, top, env; std::vector<std::string> files; int nf = r.range(0, 3); bool deffile = r.chance(40); std::string pname[] = { "default", "p1", "my profile", "p3", "q-4" };
        std::string desc; std::vector<std::string> tounset;
        std::vector<std::string> fn; if (deffile) fn.push_back("caliper.config"); for (int k = 0; k < nf; ++k) fn.push_back(vh::fmt("f%d.conf", k));
        unlink("caliper.config"); std::string cfgprofile; // CALI_CONFIG_PROFILE given in a file's default profile
        bool use_default_file = true; std::vector<std::string> read;
        int filesrc = nf == 0 ? 0 : (int) r.below(4); // 0 default, 1 environment, 2 set, 3 preset
        bool env_ok = !r.chance(20);
        std::string flist; for (int k = 0; k < nf; ++k) { if (k) flist += ","; flist += vh::fmt("f%d.conf", k); } if (r.chance(20) && nf) flist += ",missing.conf"; if (nf && deffile && r.chance(30)) flist += ",caliper.config";
        if (filesrc == 1 && env_ok) use_default_file = false; if (filesrc >= 2) use_default_file = false;
        for (auto& f : fn) {
            std::ofstream os(f); std::string cur = "default"; int n = r.range(0, 14);
            std::map<std::string, KV> local; std::string pf;
            for (int k = 0; k < n; ++k) {
                switch (r.below(8)) {
                case 0: cur = pname[r.below(5)]; os << (r.chance(50) ? "# [" : "#[") << cur << "]" << (r.chance(20) ? " comment" : "") << "\n"; break;
                case 1: os << (r.chance(50) ? "# just a comment" : r.chance(50) ? "" : "a line without an assignment") << "\n"; break;
                case 2: if (r.chance(30)) os << "=novar\n"; else os << "# CALI_ALPHA_ONE commented out\n"; break;
                default: { std::string t, v; filevalue(r, t, v); auto& var = vars[r.below(vars.size())]; os << var << "=" << t << "\n"; local[cur + "\n" + var]["v"] = v; }
                }
            }
            if (!r.chance(20)) os << "#end\n";
            os.close(); KV all; for (auto& p : local) { size_t x = p.first.find('\n'); prof[f + "\n" + p.first.substr(0, x)][p.first.substr(x + 1)] = p.second["v"]; }
        }
        if (use_default_file) { if (deffile) read = { "caliper.config" }; }
        else { for (size_t p = 0; p < flist.size();) { size_t q = flist.find(',', p); if (q == std::string::npos) q = flist.size(); std::string f = flist.substr(p, q - p); if (std::find(fn.begin(), fn.end(), f) != fn.end()) read.push_back(f); p = q + 1; } }
        std::map<std::string, KV> P; for (auto& f : read) for (auto& p : pname) for (auto& kv : prof[f + "\n" + p]) P[p][kv.first] = kv.second;
        cali::RuntimeConfig cfg; cfg.allow_read_env(env_ok);
        // sources
        std::string sel; int selsrc = r.chance(60) ? (int) r.below(3) : 3;
        if (selsrc < 3) { int n = r.range(1, 3); for (int k = 0; k < n; ++k) { std::string p = pname[r.below(5)]; if (k) sel += ","; sel += p.find(' ') == std::string::npos ? p : "\"" + p + "\""; } if (r.chance(15)) sel += ",undefined-profile"; }
        auto setenvv = [&](const std::string& k, const std::string& v) { setenv(k.c_str(), v.c_str(), 1); tounset.push_back(k); };
        if (filesrc == 1) setenvv("CALI_CONFIG_FILE", flist); if (filesrc == 2) cfg.set("CALI_CONFIG_FILE", flist); if (filesrc == 3) cfg.preset("CALI_CONFIG_FILE", flist);
        if (selsrc == 0) setenvv("CALI_CONFIG_PROFILE", sel); if (selsrc == 1) cfg.set("CALI_CONFIG_PROFILE", sel); if (selsrc == 2) cfg.preset("CALI_CONFIG_PROFILE", sel);
        if (selsrc == 0 && !env_ok) sel.clear();
        for (auto& v : vars) {
            if (r.chance(25)) { std::string x = word(r); env[v] = x; setenvv(v, x); }
            if (r.chance(20)) { std::string x = word(r); preset[v] = x; cfg.preset(v.c_str(), x); if (r.chance(20)) { x = word(r); preset[v] = x; cfg.preset(v.c_str(), x); } }
            if (r.chance(15)) { std::string x = word(r); top[v] = x; if (r.chance(50)) cfg.set(v.c_str(), x); else cfg.import(KV { { v, x } }); }
        }
        // model
        KV base = preset; for (auto& p : P["default"]) base[p.first] = p.second;
        std::vector<std::string> sl; for (size_t p = 0; p < sel.size();) { size_t q = sel.find(',', p); if (q == std::string::npos) q = sel.size(); std::string f = sel.substr(p, q - p); if (f[0] == '"') f = f.substr(1, f.size() - 2); sl.push_back(f); p = q + 1; }
        int undefined = 0; for (auto& p : sl) { if (!P.count(p) || (P[p].empty() && p != "default")) ++undefined; for (auto& kv : P[p]) base[kv.first] = kv.second; }
        // the library reports undefined profiles on stderr
        std::ostringstream cerr_; auto* old = std::cerr.rdbuf(cerr_.rdbuf());
        std::vector<std::string> defs; bool bad = false;
        for (int rep = 0; rep < 2; ++rep) for (auto s : SETS) {
            if (rep == 0 && r.chance(20)) continue;
            cali::RuntimeConfig::config_entry_list_t l; for (auto k : KEYS) l.push_back({ k, vh::fmt("dflt-%s-%s", s, k) });
            cali::ConfigSet cs = cfg.init(s, l);
            for (auto k : KEYS) {
                std::string v = "CALI_" + upper(s) + "_" + upper(k), want = vh::fmt("dflt-%s-%s", s, k); const char* src = "default";
                if (base.count(v)) { want = base[v]; src = "file-or-preset"; } if (env_ok && env.count(v)) { want = env[v]; src = "environment"; } if (top.count(v)) { want = top[v]; src = "api"; }
                std::string got = cs.get(k).to_string(), got2 = cfg.get(s, k).to_string();
                vh::stat("settings_judged"); vh::stat(std::string("from_") + src);
                vh::fp(vh::fmt("%s/%d%d%d%d%d/%d%d", src, (int) preset.count(v), (int) P["default"].count(v), (int) env.count(v), (int) top.count(v), (int) env_ok, (int) read.size(), (int) sl.size()));
                if (got != want || got2 != want) { bad = true; std::cerr.rdbuf(old); vh::viol(std::string("precedence:") + src, vh::fmt("case %lld: %s is \"%s\" / \"%s\", expected \"%s\" (from %s)", i, v.c_str(), got.c_str(), got2.c_str(), want.c_str(), src)); old = std::cerr.rdbuf(cerr_.rdbuf()); }
            }
        }
        std::cerr.rdbuf(old);
        int reported = 0; { std::string e = cerr_.str(); for (size_t p = 0; (p = e.find("not defined", p)) != std::string::npos; ++p) ++reported; }
        if (!bad && reported != undefined) vh::viol("undefined-profile", vh::fmt("case %lld: %d selected profiles are not defined, %d reported: %s", i, undefined, reported, cerr_.str().c_str()));
        vh::stat("undefined_profiles_selected", undefined);
        for (auto& k : tounset) unsetenv(k.c_str());
        for (auto& f : fn) unlink(f.c_str());
        // typed access
        for (int k = 0; k < 30; ++k) {
            std::string s; bool ok; std::string want; int w = (int) r.below(4);
            if (w == 0) { static const char* b[] = { "true", "false", "1", "0", "True", "FALSE", "t", "f", "TRUE" }; int j = (int) r.below(9); s = b[j]; bool e = j == 0 || j == 2 || j == 4 || j == 6 || j == 8; ok = false; bool g = cali::StringConverter(s).to_bool(&ok); if (!ok || g != e) vh::viol("typed:bool", "\"" + s + "\" read as " + (g ? "true" : "false") + (ok ? "" : " and rejected")); }
            else if (w == 1) { int64_t v = (int64_t) r.next() >> r.below(63); s = std::to_string(v); ok = false; int64_t g = cali::StringConverter(s).to_int64(&ok); if (!ok || g != v) vh::viol("typed:int", "\"" + s + "\" read as " + std::to_string(g)); }
            else if (w == 2) { uint64_t v = r.next() >> r.below(63); s = std::to_string(v); ok = false; uint64_t g = cali::StringConverter(s).to_uint(&ok); if (!ok || g != v) vh::viol("typed:uint", "\"" + s + "\" read as " + std::to_string(g)); }
            else { static const char* b[] = { "", "abc", "maybe", "yes please", "--1", "one", "+-3", "nope1", ".", "-", "truee", "e5" }; s = b[r.below(12)]; bool o1 = true, o2 = true, o3 = true, o4 = true, o5 = true; cali::StringConverter c(s); c.to_bool(&o1); c.to_int(&o2); c.to_uint(&o3); c.to_double(&o4); c.to_int64(&o5);
                vh::stat("malformed_values"); if (o1 || o2 || o3 || o4 || o5) vh::viol("typed:malformed", vh::fmt("\"%s\" accepted as %s%s%s%s%s", s.c_str(), o1 ? "bool " : "", o2 ? "int " : "", o3 ? "uint " : "", o4 ? "double " : "", o5 ? "int64" : "")); }
        }
        vh::kase(vh::fmt("unit %lld", i));
    }
}

static void annotate(int rounds) {
    cali_id_t x = cali_create_attribute("vh.x", CALI_TYPE_INT, CALI_ATTR_DEFAULT), w = cali_create_attribute("vh.w", CALI_TYPE_INT, CALI_ATTR_SCOPE_THREAD), y = cali_create_attribute("vh.y", CALI_TYPE_STRING, CALI_ATTR_UNALIGNED), z = cali_create_attribute("vh.z", CALI_TYPE_DOUBLE, CALI_ATTR_ASVALUE | CALI_ATTR_AGGREGATABLE);
    cali_id_t it = cali_make_loop_iteration_attribute("main");
    for (int k = 0; k < rounds; ++k) {
        cali_begin_region("foo"); cali_begin_int(x, k); cali_begin_region("bar"); cali_set_string(y, k % 2 ? "odd" : "even"); cali_set_double(z, k * 0.5); cali_end_region("bar");
        cali_begin_byname("function"); cali_end_byname("function");
        cali_begin_string(cali_find_attribute("loop"), "main"); for (int j = 0; j < 3; ++j) { cali_begin_int(it, j); cali_begin_string_byname("phase", "p"); cali_end_byname("phase"); cali_end(it); } cali_end(cali_find_attribute("loop"));
        std::thread t([&] { cali_begin_region("thr"); cali_begin_int(w, 100 + k); cali_end(w); cali_end_region("thr"); }); t.join();
        cali_end(x); cali_end_region("foo");
    }
    cali_end(y);
}

static void prog() {
    std::ifstream is(vh::sarg("spec", "spec.txt")); std::vector<cali_id_t> chn; cali::ConfigManager mgr; bool started = false; std::vector<std::vector<std::string>> cmds;
    for (std::string l; std::getline(is, l);) { std::vector<std::string> f; size_t p = 0; for (;;) { size_t q = l.find('\t', p); f.push_back(l.substr(p, q == std::string::npos ? q : q - p)); if (q == std::string::npos) break; p = q + 1; } cmds.push_back(f); }
    for (auto& f : cmds) {
        if (f[0] == "set") cali_config_set(f[1].c_str(), f[2].c_str());
        else if (f[0] == "preset") cali_config_preset(f[1].c_str(), f[2].c_str());
        else if (f[0] == "noenv") cali_config_allow_read_env(0);
        else if (f[0] == "init") { cali_init(); cali_create_attribute("loop", CALI_TYPE_STRING, CALI_ATTR_NESTED); }
        else if (f[0] == "channel") { KV kv; for (size_t i = 3; i + 1 < f.size(); i += 2) kv[f[i]] = f[i + 1]; cali_configset_t cs = cali_create_configset(nullptr); for (auto& p : kv) cali_configset_set(cs, p.first.c_str(), p.second.c_str()); chn.push_back(cali_create_channel(f[1].c_str(), atoi(f[2].c_str()), cs)); cali_delete_configset(cs); }
        else if (f[0] == "mgr") { mgr.add(f[1].c_str()); if (mgr.error()) printf("config error: %s\n", mgr.error_msg().c_str()); mgr.start(); started = true; }
        else if (f[0] == "run") annotate(atoi(f[1].c_str()));
    }
    if (started) { mgr.stop(); mgr.flush(); }
}

int main(int argc, char** argv) {
    vh::init(argc, argv);
    if (vh::sarg("mode", "unit") == "prog") { prog(); return 0; }
    unit((uint64_t) vh::iarg("seed", 1), vh::iarg("from", 0), vh::iarg("to", 10));
    vh::done(); return 0;
}
