// Random annotation programs on several threads, and the log of every snapshot a channel processed
#pragma once
#include "val.h"
#include <condition_variable>
#include <functional>
#include <memory>
#include <thread>
#include <unordered_map>

namespace vh {

struct LEnt { bool imm; Path p; Variant v; cali_id_t node; };
struct LRec { std::vector<LEnt> e; };
struct Numeric { cali_attr_type t; double d; int64_t i; uint64_t u; };

inline LRec log_rec(SnapshotView rec) {
    LRec r; r.e.reserve(rec.size());
    for (const Entry& e : rec) { LEnt l; l.imm = e.is_immediate(); l.p = path_of(e); l.node = l.imm ? CALI_INV_ID : e.node()->id(); if (l.imm && !e.value().has_unmanaged_data()) l.v = e.value(); r.e.push_back(std::move(l)); }
    return r;
}
inline std::string rec_key(const Rec& r) {
    std::string s;
    for (auto& p : r.entries) { for (auto& e : p) s += std::to_string(e.first) + "=" + std::to_string(e.second.size()) + ":" + e.second + ">"; s += ";"; }
    return s;
}
inline Rec to_rec(const LRec& l) { Rec r; for (auto& e : l.e) r.add(e.p); r.norm(); return r; }

// index of the calling driver thread within its case
inline int& my_tid() { static thread_local int t = 0; return t; }

// One worker thread executing closures one at a time
class Worker {
    std::thread t; std::mutex m; std::condition_variable cv; std::function<void()> job; bool busy = false, quit = false;
public:
    int tid;
    explicit Worker(int id) : tid(id) {
        t = std::thread([this] {
            my_tid() = tid;
            std::unique_lock<std::mutex> g(m);
            for (;;) {
                cv.wait(g, [this] { return busy || quit; });
                if (busy) { g.unlock(); job(); g.lock(); busy = false; cv.notify_all(); continue; }
                return;
            }
        });
    }
    void start(std::function<void()> f) { std::lock_guard<std::mutex> g(m); job = std::move(f); busy = true; cv.notify_all(); }
    void wait() { std::unique_lock<std::mutex> g(m); cv.wait(g, [this] { return !busy; }); }
    ~Worker() { wait(); { std::lock_guard<std::mutex> g(m); quit = true; cv.notify_all(); } t.join(); }
};

struct PAttr { Attribute a; std::string name; cali_attr_type type; int prop; bool nested, byval, events, aggr; };

inline PAttr make_attr(const std::string& name, cali_attr_type t, int prop) {
    Caliper c; Attribute a = c.create_attribute(name, t, prop);
    return { a, name, t, prop, (prop & CALI_ATTR_NESTED) != 0, (prop & CALI_ATTR_ASVALUE) != 0, !(prop & CALI_ATTR_SKIP_EVENTS), (prop & CALI_ATTR_AGGREGATABLE) != 0 };
}

// attributes made aggregatable that way
inline std::set<cali_id_t>& class_aggr() { static std::set<cali_id_t>* s = new std::set<cali_id_t>; return *s; }
// The other documented way to make an attribute aggregatable: class.aggregatable=true among its metadata entries
inline PAttr make_aggr_by_class(Rng& r, const std::string& name, cali_attr_type t, int prop) {
    Caliper c; prop &= ~CALI_ATTR_AGGREGATABLE;
    std::vector<std::pair<Attribute, Variant>> meta;
    meta.emplace_back(c.get_attribute("class.aggregatable"), Variant(true));
    for (int i = 0, n = (int) r.below(3); i < n; ++i)
        meta.emplace(meta.begin() + (long) r.below(meta.size() + 1), c.create_attribute(i ? "cls.meta.u" : "cls.meta.n", CALI_TYPE_INT, CALI_ATTR_DEFAULT), Variant((int) r.below(5)));
    std::vector<Attribute> a; std::vector<Variant> v;
    for (auto& p : meta) { a.push_back(p.first); v.push_back(p.second); }
    Attribute res = c.create_attribute(name, t, prop, (int) a.size(), a.data(), v.data());
    class_aggr().insert(res.id());
    return { res, name, t, prop, (prop & CALI_ATTR_NESTED) != 0, (prop & CALI_ATTR_ASVALUE) != 0, !(prop & CALI_ATTR_SKIP_EVENTS), true };
}

// bounded numbers: sums stay exact in every type
inline Variant small_num(Rng& r, cali_attr_type t) {
    switch (t) {
    case CALI_TYPE_INT: return Variant(cali_make_variant_from_int64((int64_t) r.below(2000001) - 1000000 + (r.chance(5) ? (1ll << 40) : 0) - (r.chance(5) ? (1ll << 41) : 0)));
    case CALI_TYPE_UINT: return Variant(cali_make_variant_from_uint(r.below(1000000) + (r.chance(5) ? (1ull << 41) : 0)));
    case CALI_TYPE_DOUBLE: return Variant(((double) r.below(2000001) - 1000000.0) / (double) (1 << r.below(12)));
    default: return Variant();
    }
}

// by-value strings are referenced, not copied, by the library: keep them alive for the process' lifetime
inline Variant kept_string(const std::string& s) {
    static std::mutex m; static std::set<std::string>* pool = new std::set<std::string>;
    std::lock_guard<std::mutex> g(m);
    const std::string& k = *pool->insert(s).first;
    return Variant(CALI_TYPE_STRING, k.data(), k.size());
}

// A thread's program state: which regions and values it has open (to keep the program well nested)
struct PThread {
    Rng r; std::vector<std::pair<const PAttr*, Variant>> open; std::map<const PAttr*, int> refs; long events = 0, pushes = 0; uint64_t h = 1469598103934665603ull; uint64_t seq = 0; std::string tag;
    explicit PThread(uint64_t s) : r(s) {}
    void note(int k) { h = (h ^ (uint64_t) k) * 1099511628211ull; }
};
} // namespace vh
