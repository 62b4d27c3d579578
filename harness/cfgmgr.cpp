// C12: executes scripts of ConfigManager calls and prints what came out (one JSON line per command).
#include <caliper/ConfigManager.h>
#include <caliper/ChannelController.h>
#include <caliper/cali.h>
#include <cstdio>
#include <cstring>
#include <fstream>
#include <iostream>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <vector>
using namespace cali;
static std::string js(const std::string& s) { std::string r = "\""; char b[8]; for (unsigned char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += (char) c; } else if (c < 32 || c > 126) { snprintf(b, sizeof b, "\\u%04x", c); r += b; } else r += (char) c; } return r + '"'; }
static std::string js(const std::map<std::string, std::string>& m) { std::string r = "{"; for (auto& p : m) r += (r.size() > 1 ? "," : "") + js(p.first) + ":" + js(p.second); return r + "}"; }
static std::string js(const std::vector<std::string>& v) { std::string r = "["; for (auto& s : v) r += (r.size() > 1 ? "," : "") + js(s); return r + "]"; }
static std::string unesc(const std::string& s) { std::string r; for (size_t i = 0; i < s.size(); ++i) if (s[i] == '\\' && i + 1 < s.size()) { ++i; r += s[i] == 'n' ? '\n' : s[i] == 't' ? '\t' : s[i] == 'r' ? '\r' : s[i]; } else r += s[i]; return r; }
struct Probe : ChannelController {
    ConfigManager::Options o; config_map_t initial;
    Probe(const char* n, const config_map_t& c, const ConfigManager::Options& opts) : ChannelController(n, 0, c), o(opts), initial(c) { o.update_channel_config(config()); o.update_channel_metadata(metadata()); }
    std::string json(const std::vector<std::string>& names) {
        std::string r = "{\"name\":" + js(name()) + ",\"config\":" + js(copy_config()) + ",\"metadata\":" + js(std::map<std::string, std::string>(metadata().begin(), metadata().end())) + ",\"initial\":" + js(initial) + ",\"opts\":{"; bool first = true;
        for (auto& s : names) { r += (first ? "" : ",") + js(s) + ":[" + (o.is_set(s.c_str()) ? "1," : "0,") + (o.is_enabled(s.c_str()) ? "1," : "0,") + js(o.get(s.c_str(), "<none>")) + "]"; first = false; }
        r += "},\"enabled\":" + js(o.enabled_options()) + ",\"local\":" + js(o.build_query("local", "BASE")) + ",\"cross\":" + js(o.build_query("cross", "")) + "}"; return r;
    }
    static ChannelController* create(const char* n, const config_map_t& c, const ConfigManager::Options& o) { return new Probe(n, c, o); }
};
static std::string chans(const ConfigManager::ChannelList& l, const std::vector<std::string>& names) {
    std::string r = "["; for (auto& p : l) { auto q = std::dynamic_pointer_cast<Probe>(p); r += (r.size() > 1 ? "," : "") + (q ? q->json(names) : "{\"name\":" + js(p->name()) + ",\"config\":" + js(p->copy_config()) + ",\"instantiated\":" + (p->is_instantiated() ? "1" : "0") + "}"); } return r + "]";
}
int main(int argc, char** argv) {
    std::ifstream is(argv[1]); std::unique_ptr<ConfigManager> m; std::vector<std::string> keep; std::vector<std::string> names;
    for (std::string l; std::getline(is, l);) {
        std::vector<std::string> f; size_t p = 0; for (;;) { size_t q = l.find('\t', p); f.push_back(unesc(l.substr(p, q == std::string::npos ? q : q - p))); if (q == std::string::npos) break; p = q + 1; }
        const std::string c = f[0]; if (f.size() < 6) f.resize(6);
        if (c == "case") { m.reset(new ConfigManager); names.clear(); printf("case %s\n", f[1].c_str()); fflush(stdout); continue; }
        else if (c == "new") { m.reset(new ConfigManager(f[1].c_str())); }
        else if (c == "names") { for (size_t i = 1; i < f.size() && !f[i].empty(); ++i) names.push_back(f[i]); }
        else if (c == "spec") m->add_config_spec(ConfigManager::ConfigInfo { f[1].c_str(), Probe::create, nullptr });
        else if (c == "bspec") m->add_config_spec(f[1].c_str());
        else if (c == "opt") m->add_option_spec(f[1].c_str());
        else if (c == "load") m->load(f[1].c_str());
        else if (c == "def") m->set_default_parameter(f[1].c_str(), f[2].c_str());
        else if (c == "defc") m->set_default_parameter_for_config(f[1].c_str(), f[2].c_str(), f[3].c_str());
        if (c == "check") printf("\"%s", js(m->check(f[1].c_str(), f[2] == "1")).c_str() + 1);
        else if (c == "scheck") printf("%s", js(ConfigManager::check_config_string(f[1].c_str(), f[2] == "1")).c_str());
        else if (c == "add") printf("%d", (int) m->add(f[1].c_str()));
        else if (c == "addx") { ConfigManager::argmap_t x; bool ok = m->add(f[1].c_str(), x); printf("{\"ok\":%d,\"extra\":%s}", (int) ok, js(x).c_str()); }
        else if (c == "parse") printf("%s", chans(m->parse(f[1].c_str()), names).c_str());
        else if (c == "chans") printf("%s", chans(m->get_all_channels(), names).c_str());
        else if (c == "specs") printf("%s", js(m->available_config_specs()).c_str());
        else if (c == "doc") printf("%s", js(m->get_documentation_for_spec(f[1].c_str())).c_str());
        else printf("{\"error\":%d,\"msg\":%s}", (int) m->error(), js(m->error_msg()).c_str());
        printf("\n");
    }
    printf("END\n");
    return 0;
}
