// Shared by all harnesses: PRNG, arguments, and the line protocol read by lib/vlib.py
#pragma once
#include <atomic>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <mutex>
#include <set>
#include <sstream>
#include <string>
#include <vector>

namespace vh {

struct Rng {
    uint64_t s;
    explicit Rng(uint64_t seed = 1) : s(seed * 0x9E3779B97F4A7C15ull + 0x1234567) { next(); next(); }
    uint64_t next() {
        uint64_t z = (s += 0x9E3779B97F4A7C15ull);
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
        return z ^ (z >> 31);
    }
    uint64_t below(uint64_t n) { return n ? next() % n : 0; }
    int range(int a, int b) { return a + (int) below((uint64_t) (b - a + 1)); }
    bool chance(int pct) { return (int) below(100) < pct; }
    template <class V> auto& pick(V& v) { return v[below(v.size())]; }
    Rng fork() { return Rng(next()); }
};

inline uint64_t mix(uint64_t a, uint64_t b) { Rng r(a ^ (b * 0x9E3779B97F4A7C15ull)); return r.next(); }

struct Args {
    std::map<std::string, std::string> kv;
    FILE* out = nullptr;
    std::mutex lock;
    std::map<std::string, long long> stats, maxs;
    std::map<std::string, int> vcount;
    int nsamples = 0;
};
inline Args& A() { static Args* a = new Args; return *a; }

inline void init(int argc, char** argv) {
    for (int i = 1; i < argc; ++i) {
        std::string a = argv[i];
        if (a.rfind("--", 0) == 0 && i + 1 < argc) { A().kv[a.substr(2)] = argv[i + 1]; ++i; }
    }
    std::string o = A().kv.count("out") ? A().kv["out"] : "/dev/stdout";
    A().out = fopen(o.c_str(), "w");
    if (!A().out) { fprintf(stderr, "cannot open %s\n", o.c_str()); exit(3); }
}
inline std::string sarg(const char* k, const char* d) { auto it = A().kv.find(k); return it == A().kv.end() ? d : it->second; }
inline long long iarg(const char* k, long long d) { auto it = A().kv.find(k); return it == A().kv.end() ? d : atoll(it->second.c_str()); }

inline std::string esc(const std::string& s) {
    std::string r;
    for (char c : s) {
        if (c == '\n') r += "\\n";
        else if ((unsigned char) c < 0x20 || (unsigned char) c >= 0x7f) { char b[8]; snprintf(b, sizeof b, "\\x%02x", (unsigned char) c); r += b; }
        else r += c;
    }
    return r;
}
inline void line(const std::string& s) {
    std::lock_guard<std::mutex> g(A().lock);
    fputs(s.c_str(), A().out); fputc('\n', A().out); fflush(A().out);
}
inline void viol(const std::string& key, const std::string& text) {
    {
        std::lock_guard<std::mutex> g(A().lock);
        if (++A().vcount[key] > 3) return;
    }
    line("VIOL " + key + " " + esc(text));
}
inline void kase(const std::string& fp) { line("CASE " + esc(fp)); }
inline void fp(const std::string& f) { line("FP " + esc(f)); }
inline void stat(const std::string& k, long long n = 1) { std::lock_guard<std::mutex> g(A().lock); A().stats[k] += n; }
inline void smax(const std::string& k, long long n) { std::lock_guard<std::mutex> g(A().lock); auto& v = A().maxs[k]; if (n > v) v = n; }
inline void sample(const std::string& s) { if (A().nsamples++ < 2) line("SAMPLE " + esc(s)); }
inline void error(const std::string& s) { line("ERROR " + esc(s)); }
inline void done() {
    for (auto& p : A().stats) line("STAT " + p.first + " " + std::to_string(p.second));
    for (auto& p : A().maxs) line("MAX " + p.first + " " + std::to_string(p.second));
    line("DONE");
}
inline bool violated() { return !A().vcount.empty(); }

inline std::string fmt(const char* f, ...) {
    char buf[2048]; va_list ap; va_start(ap, f); vsnprintf(buf, sizeof buf, f, ap); va_end(ap); return buf;
}
} // namespace vh
