// Random annotation programs against a context model. Modes: c01 (single thread), c02 (threads),
// c03 (nesting errors), c23 (C snapshot buffers).
#include "val.h"
#include <caliper/Annotation.h>
#include <caliper/cali_macros.h>
#include <sys/stat.h>
#include <memory>
#include <thread>

using namespace vh;

namespace cali { extern Attribute region_attr, loop_attr, phase_attr, comm_region_attr; }

struct At {
    Attribute attr; cali_id_t id; std::string name; cali_attr_type type; int prop;
    bool byval, unal, proc, hidden; int special; // special: 1 region 2 phase 3 comm 4 loop
};

struct BB {
    Path path, unal; std::map<cali_id_t, std::string> vals; std::set<cali_id_t> hidden;
    void rec(Rec& r) const {
        if (!path.empty()) r.add(path);
        if (!unal.empty()) r.add(unal);
        for (auto& p : vals) if (!hidden.count(p.first)) r.add({ p });
    }
    std::string get(const At& a) const {
        if (a.byval) { auto it = vals.find(a.id); return it == vals.end() ? "inv" : it->second; }
        const Path& p = a.unal ? unal : path;
        for (size_t i = p.size(); i-- > 0;) if (p[i].first == a.id) return p[i].second;
        return "inv";
    }
};

static std::vector<At> pool;
static std::string mode;
static Channel chan; static cali_id_t chan_id;
static bool multi;

// --- process-scope state: transitions are serialized by the driver, reads are not
static std::mutex pm; static BB pbb; static std::deque<std::unique_ptr<Val>> pkeep;
static std::mutex hm; static std::vector<Rec> hist; static std::atomic<size_t> h_started{0}, h_pub{0};
static void proc_commit_start() { Rec r; pbb.rec(r); r.norm(); std::lock_guard<std::mutex> g(hm); hist.push_back(r); h_started.store(hist.size() - 1); }
static void proc_commit_done() { h_pub.store(h_started.load()); }

static long long logsize() { const char* f = getenv("CALI_LOG_LOGFILE"); struct stat st; return f && stat(f, &st) == 0 ? (long long) st.st_size : 0; }

struct W {
    Rng r; BB bb; bool frozen = false; int tid = 0; uint64_t h = 1469598103934665603ull; size_t pbase = 0;
    std::deque<std::unique_ptr<Val>> keep; std::map<std::string, std::unique_ptr<Annotation>> annots;
    int ops = 0, checks = 0; size_t maxdepth = 0; bool allow_err = false; int after_err = 0; std::string log;
    explicit W(uint64_t s) : r(s) {}
    void note(int k, const At* a) { h = (h ^ (uint64_t) (k * 131 + (a ? a->prop + a->type * 7 : 0))) * 1099511628211ull; ++ops; }
    void trail(const char* op, const At& a, const std::string& v) { log += fmt("%s %s=%.30s; ", op, a.name.c_str(), v.c_str()); if (log.size() > 1500) log.erase(0, 500); }
};

static void fail(W& w, const std::string& key, const std::string& txt) { viol(mode + ":" + key, txt + " | recent ops: " + w.log); }

static bool is_proc_attr(cali_id_t id) { return (Caliper::instance().get_attribute(id).properties() & CALI_ATTR_SCOPE_MASK) == CALI_ATTR_SCOPE_PROCESS; }

static void split(const Rec& all, Rec& t, Rec& p) {
    for (auto& e : all.entries) (!e.empty() && is_proc_attr(e[0].first) ? p : t).add(e);
    t.norm(); p.norm();
}

static void check_c23(W& w, const Rec& want);

static void check(W& w) {
    Caliper c;
    ++w.checks;
    size_t lo = h_pub.load();
    static thread_local FixedSizeSnapshotRecord<400> rec; rec.reset();
    if (w.r.chance(50)) c.pull_snapshot(chan.body(), SnapshotView(), rec.builder()); else c.pull_context(rec.builder());
    size_t hi = h_started.load();
    Rec got, want, gt, gp; got = rec_of(rec.view()); w.bb.rec(want); want.norm();
    split(got, gt, gp);
    if (!(gt == want)) fail(w, w.frozen ? "frozen-context-changed" : "thread-context", "thread " + std::to_string(w.tid) + " snapshot " + show(c, gt) + " expected " + show(c, want));
    {
        std::lock_guard<std::mutex> g(hm);
        bool ok = false;
        for (size_t i = lo; i <= hi && !ok; ++i) ok = hist[i] == gp;
        if (!ok) fail(w, "process-context", "process part " + show(c, gp) + " expected " + show(c, hist[lo]) + fmt(" (%zu candidate states)", hi - lo + 1));
        smax("candidate_states", hi - lo + 1);
    }
    // single-attribute queries
    for (int k = 0; k < 3; ++k) {
        At& a = w.r.pick(pool);
        if (a.proc) {
            if (!multi) {
                std::string g = vstr(c.get(a.attr).value()), e = pbb.get(a);
                if (g != e) fail(w, "get-process", a.name + " got " + g + " expected " + e);
            }
            continue;
        }
        std::string e = w.bb.get(a), g = w.r.chance(50) ? vstr(c.get(a.attr).value()) : vstr(cali_get(a.id));
        if (g != e) fail(w, "get", a.name + " got " + g.substr(0, 60) + " expected " + e.substr(0, 60));
        stat("gets");
    }
    // innermost region
    if (!w.bb.path.empty()) {
        std::string e; bool nested = false;
        for (size_t i = w.bb.path.size(); i-- > 0 && !nested;)
            if (c.get_attribute(w.bb.path[i].first).is_nested()) { nested = true; e = w.bb.path[i].second; }
        if (nested) {
            const char* g = cali_get_current_region_or("(none)");
            std::string want = e.rfind("s:", 0) == 0 ? e.substr(2) : "(none)";
            if (want.find('\0') == std::string::npos && strncmp(want.c_str(), g, want.size()) != 0) fail(w, "current-region", std::string("got ") + g + " expected " + want);
        }
    }
    if (mode == "c23" && !multi) { Rec all = want; for (auto& e : hist.back().entries) all.add(e); all.norm(); check_c23(w, all); }
}

// --- operations; v is released right after the call unless by-value
enum { B = 1, E = 2, S = 3, EV = 4 };

static bool cstr_ok(const Val& v) { return v.s.find('\0') == std::string::npos; }

// int values may be given to existing double and uint attributes, whichever annotation object is used
static void ann_typed(W& w, Annotation& any, const At& a, const Val& v, bool isset) {
    auto fits = [](int64_t x) { return x == (int) x; };
    switch (a.type) {
    case CALI_TYPE_INT:
        if (fits(v.i)) { stat("ann_int"); int x = (int) v.i; isset ? any.set(x) : any.begin(x); return; }
        break;
    case CALI_TYPE_UINT:
        if (fits((int64_t) v.u)) { stat("ann_int_to_uint"); int x = (int) (int64_t) v.u; isset ? any.set(x) : any.begin(x); return; }
        break;
    case CALI_TYPE_DOUBLE:
        if (v.d >= -2147483648.0 && v.d <= 2147483647.0 && (double) (int) v.d == v.d && !std::signbit(v.d)) { stat("ann_int_to_double"); int x = (int) v.d; isset ? any.set(x) : any.begin(x); return; }
        if (v.d < 0 && v.d >= -2147483648.0 && (double) (int) v.d == v.d) { stat("ann_int_to_double"); int x = (int) v.d; isset ? any.set(x) : any.begin(x); return; }
        isset ? any.set(v.d) : any.begin(v.d);
        return;
    case CALI_TYPE_BOOL:
        if (v.b && !isset && w.r.chance(70)) { any.begin(); return; }
        break;
    case CALI_TYPE_STRING:
        if (cstr_ok(v) && w.r.chance(60)) { stat("ann_cstr"); const char* x = v.s.c_str(); isset ? any.set(x) : any.begin(x); return; }
        { void* x = const_cast<char*>(v.s.data()); uint64_t n = v.s.size(); isset ? any.set(CALI_TYPE_STRING, x, n) : any.begin(CALI_TYPE_STRING, x, n); }
        return;
    case CALI_TYPE_USR:
        { void* x = const_cast<char*>(v.s.data()); uint64_t n = v.s.size(); isset ? any.set(CALI_TYPE_USR, x, n) : any.begin(CALI_TYPE_USR, x, n); }
        return;
    default: break;
    }
    isset ? any.set(v.var()) : any.begin(v.var());
}

static void do_begin(W& w, const At& a, const Val& v, bool isset) {
    Caliper c;
    int k = (int) w.r.below(5);
    if (a.special && !isset && v.type == CALI_TYPE_STRING && cstr_ok(v) && k < 3) {
        if (a.special == 1) { cali_begin_region(v.s.c_str()); return; }
        if (a.special == 2) { cali_begin_phase(v.s.c_str()); return; }
        if (a.special == 3) { cali_begin_comm_region(v.s.c_str()); return; }
    }
    if (k == 1 || k == 2) {
        if (a.type == CALI_TYPE_INT && v.i == (int) v.i) {
            if (k == 1) isset ? cali_set_int(a.id, (int) v.i) : cali_begin_int(a.id, (int) v.i);
            else isset ? cali_set_int_byname(a.name.c_str(), (int) v.i) : cali_begin_int_byname(a.name.c_str(), (int) v.i);
            return;
        }
        if (a.type == CALI_TYPE_DOUBLE) {
            if (k == 1) isset ? cali_set_double(a.id, v.d) : cali_begin_double(a.id, v.d);
            else isset ? cali_set_double_byname(a.name.c_str(), v.d) : cali_begin_double_byname(a.name.c_str(), v.d);
            return;
        }
        if (a.type == CALI_TYPE_STRING && cstr_ok(v)) {
            if (k == 1) isset ? cali_set_string(a.id, v.s.c_str()) : cali_begin_string(a.id, v.s.c_str());
            else isset ? cali_set_string_byname(a.name.c_str(), v.s.c_str()) : cali_begin_string_byname(a.name.c_str(), v.s.c_str());
            return;
        }
        if (a.type == CALI_TYPE_BOOL && v.b && !isset) { k == 1 ? cali_begin(a.id) : cali_begin_byname(a.name.c_str()); return; }
        if (isset && (a.type == CALI_TYPE_STRING || a.type == CALI_TYPE_USR)) { cali_set(a.id, v.s.data(), v.s.size()); return; }
        if (isset && a.type == CALI_TYPE_INT) { int64_t x = v.i; cali_set(a.id, &x, sizeof x); return; }
        if (isset && (a.type == CALI_TYPE_UINT || a.type == CALI_TYPE_ADDR)) { uint64_t x = v.u; cali_set(a.id, &x, sizeof x); return; }
    }
    if (k == 3) {
        auto& p = w.annots[a.name];
        if (!p) p.reset(new Annotation(a.name.c_str(), a.prop));
        int h = (int) w.r.below(100);
        if (h < 20) { Annotation copy(*p); isset ? copy.set(v.var()) : copy.begin(v.var()); stat("ann_copy"); }
        else if (h < 35) {
            // assignment between annotation objects, also to itself
            Annotation other(w.r.chance(50) ? "ann.other" : a.name.c_str(), a.prop);
            Annotation& ref = other;
            if (w.r.chance(60)) other = *p;
            else { Annotation fresh(a.name.c_str(), a.prop); other = fresh; }
            other = ref;
            isset ? other.set(v.var()) : other.begin(v.var());
            if (w.r.chance(50)) *p = other;
            stat("ann_assign");
        } else if (h < 75) {
                // the typed overloads
            Annotation looked(a.name.c_str(), Annotation::MetadataListType(), a.prop), fresh(a.name.c_str(), w.r.chance(50) ? a.prop : 0);
            int g = (int) w.r.below(3);
            ann_typed(w, g == 0 ? looked : g == 1 ? fresh : *p, a, v, isset);
        }
        else isset ? p->set(v.var()) : p->begin(v.var());
        return;
    }
    isset ? c.set(a.attr, v.var()) : c.begin(a.attr, v.var());
}

static void do_end(W& w, const At& a, const std::string& cur, const Val* curv) {
    Caliper c;
    int k = (int) w.r.below(5);
    if (a.special && a.special < 4 && cur.rfind("s:", 0) == 0 && cur.find('\0') == std::string::npos && k < 2) {
        std::string n = cur.substr(2);
        if (a.special == 1) cali_end_region(n.c_str()); else if (a.special == 2) cali_end_phase(n.c_str()); else cali_end_comm_region(n.c_str());
        return;
    }
    if (k == 0) cali_end(a.id);
    else if (k == 1) cali_end_byname(a.name.c_str());
    else if (k == 2 && w.r.chance(40)) { stat("ann_fresh_end"); if (w.r.chance(50)) Annotation(a.name.c_str()).end(); else Annotation(a.name.c_str(), Annotation::MetadataListType(), a.prop).end(); }
    else if (k == 2 && w.annots.count(a.name)) w.annots[a.name]->end();
    else if (k == 3 && curv) c.end_with_value_check(a.attr, curv->var());
    else c.end(a.attr);
}

static const At* find_at(cali_id_t id) { for (auto& a : pool) if (a.id == id) return &a; return nullptr; }
static Val parse_val(cali_attr_type t, const std::string& s) {
    Val v; v.type = t; std::string p = s.size() > 2 ? s.substr(2) : "";
    switch (t) {
    case CALI_TYPE_STRING: case CALI_TYPE_USR: v.s = p; break;
    case CALI_TYPE_BOOL: v.b = p == "1"; break;
    case CALI_TYPE_TYPE: v.t = atoi(p.c_str()); break;
    case CALI_TYPE_INT: v.i = strtoll(p.c_str(), 0, 10); break;
    case CALI_TYPE_DOUBLE: { uint64_t b = strtoull(p.c_str(), 0, 16); memcpy(&v.d, &b, 8); break; }
    default: v.u = strtoull(p.c_str(), 0, 10);
    }
    return v;
}

// one begin or set on the given blackboard model
static void op_open(W& w, BB& bb, const At& a, size_t base, bool upd) {
    bool isset = w.r.chance(a.byval || a.unal ? 50 : 20);
    Path& p = a.unal ? bb.unal : bb.path;
    if (isset && !a.byval && !a.unal)
        for (size_t i = 0; i < base && i < p.size(); ++i) if (p[i].first == a.id) { isset = false; break; }
    std::unique_ptr<Val> v(new Val(rnd_val(w.r, a.type)));
    if (a.type == CALI_TYPE_UINT && w.r.chance(20)) v->u = (uint64_t) (int64_t) (int32_t) w.r.next();
    if (a.type == CALI_TYPE_DOUBLE && w.r.chance(20)) v->d = (double) (int32_t) w.r.next();
    std::string vs = v->str();
    w.note(isset ? S : B, &a); w.trail(isset ? "set" : "begin", a, vs);
    if (upd) {
        if (a.byval) { bb.vals[a.id] = vs; if (a.hidden) bb.hidden.insert(a.id); }
        else {
            if (isset) for (size_t i = p.size(); i-- > 0;) if (p[i].first == a.id) { p.erase(p.begin() + i); break; }
            p.push_back({ a.id, vs });
        }
    }
    if (a.proc && upd) proc_commit_start();
    do_begin(w, a, *v, isset);
    if (a.proc && upd) proc_commit_done();
    if (a.byval) (a.proc ? pkeep : w.keep).push_back(std::move(v));
    w.maxdepth = std::max(w.maxdepth, p.size());
}

static void op_close(W& w, BB& bb, const At& a, bool upd) {
    std::string cur = bb.get(a);
    Val cv = parse_val(a.type, cur);
    w.note(E, &a); w.trail("end", a, cur);
    if (upd) {
        if (a.byval) bb.vals.erase(a.id);
        else { Path& p = a.unal ? bb.unal : bb.path; for (size_t i = p.size(); i-- > 0;) if (p[i].first == a.id) { p.erase(p.begin() + i); break; } }
    }
    if (a.proc && upd) proc_commit_start();
    do_end(w, a, cur, cur == "inv" ? nullptr : &cv);
    if (a.proc && upd) proc_commit_done();
}

static void random_proc_op(W& w) {
    std::lock_guard<std::mutex> g(pm);
    std::vector<const At*> ps; for (auto& a : pool) if (a.proc) ps.push_back(&a);
    if (ps.empty()) return;
    const At& a = *ps[w.r.below(ps.size())];
    bool upd = !w.frozen;
    stat("process_ops");
    if (pbb.vals.size() + pbb.unal.size() + pbb.path.size() < 40 && w.r.chance(55)) { op_open(w, pbb, a, 0, upd); return; }
    if (a.byval || a.unal) { if (pbb.get(a) != "inv") op_close(w, pbb, a, upd); }
    else if (!pbb.path.empty()) { const At* t = find_at(pbb.path.back().first); if (t) op_close(w, pbb, *t, upd); }
}

static void inject_error(W& w) {
    // pick an operation that must be detected as a nesting error
    for (int tries = 0; tries < 60; ++tries) {
        const At* ap = &w.r.pick(pool);
        if (!w.bb.path.empty() && w.r.chance(60)) { const At* q = find_at(w.bb.path[w.r.below(w.bb.path.size())].first); if (q) ap = q; }
        const At& a = *ap;
        std::unique_lock<std::mutex> g(pm, std::defer_lock);
        if (a.proc) g.lock();
        BB& bb = a.proc ? pbb : w.bb;
        std::string cur = bb.get(a); bool open = cur != "inv";
        int kind = 0; Caliper c; Val wrong = rnd_val(w.r, a.type);
        const char* what = "";
        if (!a.byval && !a.unal) {
            bool top = !bb.path.empty() && bb.path.back().first == a.id;
            if (top) { kind = 2; what = "wrong-value"; } else { kind = w.r.chance(70) ? 1 : 2; what = open ? "not-innermost" : bb.path.empty() ? "empty-stack" : "not-open"; if (kind == 2) { wrong = open ? parse_val(a.type, cur) : wrong; } }
        } else if (!open) { kind = w.r.chance(60) ? 1 : 2; what = a.byval ? "value-not-set" : "unaligned-not-open"; }
        else { kind = 2; what = a.byval ? "wrong-value-byvalue" : "wrong-value-unaligned"; }
        if (!strncmp(what, "wrong-value", 11) && wrong.str() == cur) continue;
        if (!strncmp(what, "wrong-value", 11) && a.type == CALI_TYPE_DOUBLE) { Val cv = parse_val(a.type, cur); if (cv.d == wrong.d) continue; }
        w.trail(kind == 1 ? "BAD-end" : "BAD-endv", a, what);
        long long l0 = logsize();
        if (kind == 1) { int k = (int) w.r.below(3); if (k == 0) c.end(a.attr); else if (k == 1) cali_end(a.id); else cali_end_byname(a.name.c_str()); }
        else if (a.special && a.special < 4 && cstr_ok(wrong)) { if (a.special == 1) cali_end_region(wrong.s.c_str()); else if (a.special == 2) cali_end_phase(wrong.s.c_str()); else cali_end_comm_region(wrong.s.c_str()); }
        else c.end_with_value_check(a.attr, wrong.var());
        long long l1 = logsize();
        w.frozen = true; stat(std::string("err_") + what);
        if (!multi && l1 <= l0) fail(w, std::string("not-reported-") + what, "the erroneous end of " + a.name + " produced no error message");
        fp(std::string("err:") + what + ":" + std::to_string(a.prop) + ":" + std::to_string(a.type) + ":" + std::to_string(std::min<size_t>(bb.path.size(), 4)));
        g = std::unique_lock<std::mutex>();
        check(w);
        return;
    }
}

static void block(W& w, int depth, int& budget) {
    size_t base = w.bb.path.size();
    int len = 1 + (int) w.r.below(12);
    auto maybe_check = [&] { if (w.r.chance(35)) check(w); };
    while (len-- > 0 && budget-- > 0) {
        if (w.frozen && ++w.after_err > 25) break;
        if (w.allow_err && !w.frozen && w.r.chance(3 + 2 * (int) std::min<size_t>(w.bb.path.size(), 6))) inject_error(w);
        long long l0 = w.frozen && !multi ? logsize() : 0;
        int k = (int) w.r.below(100);
        if (k < 12) random_proc_op(w);
        else if (k < 24 && depth < 40 && !w.frozen) {
            // scope guards (destroyed in nesting order)
            static thread_local int dummy; (void) dummy;
            int g = (int) w.r.below(5);
            std::string name = "guard" + std::to_string(w.r.below(6));
            const At* ra = nullptr; for (auto& a : pool) if (a.special == (g == 2 ? 4 : 1)) ra = &a;
            w.note(10 + g, ra); stat("guards");
            w.trail("guard", *ra, name);
            if (g == 0) { ScopeAnnotation s(name.c_str()); w.bb.path.push_back({ ra->id, "s:" + name }); maybe_check(); block(w, depth + 1, budget); if (!w.frozen) w.bb.path.pop_back(); }
            else if (g == 1) { Function f(name.c_str()); w.bb.path.push_back({ ra->id, "s:" + name }); maybe_check(); block(w, depth + 1, budget); if (!w.frozen) w.bb.path.pop_back(); }
            else if (g == 2) {
                std::string ln = "L" + std::to_string(w.r.below(4));
                // loop objects share their loop: it ends with the last of them, or at end() of any
                std::unique_ptr<Loop> lp(new Loop(ln.c_str())); w.bb.path.push_back({ ra->id, "s:" + ln });
                int h = (int) w.r.below(4);
                if (h == 1) { Loop copy(*lp); }
                else if (h == 2) { std::unique_ptr<Loop> copy(new Loop(*lp)); lp = std::move(copy); }
                std::unique_ptr<Loop> second; if (h == 3) second.reset(new Loop(*lp));
                Loop& l = *lp;
                int n = (int) w.r.below(4);
                for (int i = 0; i < n; ++i) {
                    Attribute ia = Caliper::instance().get_attribute("iteration#" + ln);
                    std::string old; bool had = w.bb.vals.count(ia.id()); (void) had;
                    Loop::Iteration it(l.iteration(i));
                    if (!w.frozen) w.bb.vals[ia.id()] = "i:" + std::to_string(i);
                    maybe_check(); block(w, depth + 1, budget);
                    if (w.frozen) break;
                    // an inner loop of the same name ends the same iteration attribute: only keep well-nested programs
                    if (!w.bb.vals.count(ia.id())) { Caliper::instance().set(ia, Variant(i)); }
                    w.bb.vals.erase(ia.id());
                }
                if (w.frozen) { /* destructors run on a frozen thread */ }
                else if (w.r.chance(50)) { (second && w.r.chance(50) ? *second : l).end(); w.bb.path.pop_back(); maybe_check(); }
                else if (second) { second.reset(); maybe_check(); w.bb.path.pop_back(); }
                else { w.bb.path.pop_back(); }
            } else {
                const At& a = w.r.pick(pool);
                if (a.proc || a.byval || a.unal || a.special) continue;
                std::unique_ptr<Val> v(new Val(rnd_val(w.r, a.type)));
                w.trail("aguard", a, v->str());
                std::unique_ptr<Annotation> an(new Annotation(a.name.c_str(), a.prop)), longer;
                int h = (int) w.r.below(3);
                if (h == 1) longer.reset(new Annotation(*an));
                { Annotation::Guard gd(an->begin(v->var())); if (h == 2) an.reset(); w.bb.path.push_back({ a.id, v->str() }); v.reset(); maybe_check(); block(w, depth + 1, budget); if (!w.frozen) w.bb.path.pop_back(); }
            }
        } else {
            const At& a = w.r.pick(pool);
            if (a.proc) continue;
            bool upd = !w.frozen;
            if (w.bb.vals.size() + w.bb.unal.size() < 70 && w.r.chance(k < 60 ? 75 : 35)) op_open(w, w.bb, a, base, upd);
            else if (a.byval || a.unal) {
                if (w.bb.get(a) != "inv") op_close(w, w.bb, a, upd);
                else if (w.frozen) op_close(w, w.bb, a, false);
            } else if (w.bb.path.size() > base) { const At* t = find_at(w.bb.path.back().first); if (t) op_close(w, w.bb, *t, upd); }
        }
        if (w.frozen && !multi && w.r.chance(50) && l0 && logsize() != l0 && k >= 12) fail(w, "reported-again", "an operation on the frozen thread produced another error message");
        maybe_check();
    }
    if (w.frozen) return;
    while (w.bb.path.size() > base) {
        const At* t = find_at(w.bb.path.back().first);
        if (!t) break;
        op_close(w, w.bb, *t, true);
        maybe_check();
    }
}

// --- C23
struct Visit { std::vector<std::pair<cali_id_t, std::string>> seen; long stop_after; };
static int visit(void* p, cali_id_t id, cali_variant_t v) { Visit* q = (Visit*) p; q->seen.push_back({ id, vstr(v) }); return --q->stop_after == 0 ? 0 : 1; }

static void check_c23(W& w, const Rec& want) {
    Caliper c;
    unsigned char one[1];
    size_t need = cali_channel_pull_snapshot(chan_id, CALI_SCOPE_THREAD | CALI_SCOPE_PROCESS, 0, one);
    size_t len = w.r.chance(40) ? need : w.r.chance(50) ? w.r.below(need + 1) : need + w.r.below(64);
    unsigned char* buf = (unsigned char*) malloc(len ? len : 1); // exactly sized: address sanitizer guards both ends
    memset(buf, 0xAB, len ? len : 1);
    size_t ret = cali_channel_pull_snapshot(chan_id, CALI_SCOPE_THREAD, len, buf);
    stat("pulls");
    if (ret != need) fail(w, "needed-length", fmt("returned %zu with a buffer of %zu bytes but %zu with an empty one", ret, len, need));
    std::multiset<std::pair<cali_id_t, std::string>> all; size_t nvals = 0;
    for (auto& p : want.entries) for (auto& e : p) { all.insert(e); ++nvals; }
    if (len >= need && ret == need) {
        Visit v { {}, -1 }; size_t br = w.r.below(7), br0 = br;
        cali_unpack_snapshot(buf, &br, visit, &v);
        if (br - br0 != need) fail(w, "bytes-read", fmt("unpack consumed %zu of %zu bytes", br - br0, need));
        std::multiset<std::pair<cali_id_t, std::string>> got(v.seen.begin(), v.seen.end());
        if (got != all) { Rec r; for (auto& e : v.seen) r.add({ e }); fail(w, "unpack-contents", "unpacked " + show(c, r) + " expected " + show(c, want)); }
        // documented order: hierarchical values top-down
        for (auto& p : want.entries) {
            if (p.size() < 2) continue;
            std::set<cali_id_t> ids; for (auto& e : p) ids.insert(e.first);
            Path q; for (auto& e : v.seen) if (ids.count(e.first)) q.push_back(e);
            std::reverse(q.begin(), q.end());
            if (q != p) fail(w, "unpack-order", "order " + show(c, q) + " expected " + show(c, p));
        }
        // early stop
        if (nvals > 0) {
            long k = 1 + (long) w.r.below(nvals);
            Visit s { {}, k }; cali_unpack_snapshot(buf, nullptr, visit, &s);
            if ((long) s.seen.size() != k) fail(w, "early-stop", fmt("visitor asked to stop after %ld entries but saw %zu", k, s.seen.size()));
            else if (!std::equal(s.seen.begin(), s.seen.end(), v.seen.begin())) fail(w, "early-stop", "prefix differs");
        }
        // lookups
        for (int i = 0; i < 3; ++i) {
            const At& a = w.r.pick(pool);
            std::string e = a.proc ? pbb.get(a) : w.bb.get(a);
            if (a.hidden) e = "inv";
            size_t b1 = 0, b2 = 0;
            std::string g = vstr(cali_find_first_in_snapshot(buf, a.id, &b1));
            if (g != e) fail(w, "find-first", a.name + " got " + g.substr(0, 50) + " expected " + e.substr(0, 50));
            std::vector<std::string> exp; for (auto& p : want.entries) for (size_t k = p.size(); k-- > 0;) if (p[k].first == a.id) exp.push_back(p[k].second);
            Visit f { {}, -1 }; cali_find_all_in_snapshot(buf, a.id, &b2, visit, &f);
            std::vector<std::string> gs; for (auto& e2 : f.seen) gs.push_back(e2.second);
            if (gs != exp) fail(w, "find-all", a.name + fmt(": %zu values instead of %zu", gs.size(), exp.size()));
            if (b1 != need || b2 != need) fail(w, "bytes-read-find", fmt("%zu/%zu of %zu", b1, b2, need));
            if (exp.size() > 1) { long k = 1 + (long) w.r.below(exp.size()); Visit s { {}, k }; cali_find_all_in_snapshot(buf, a.id, nullptr, visit, &s); if ((long) s.seen.size() != k) fail(w, "early-stop-find-all", fmt("asked to stop after %ld, saw %zu", k, s.seen.size())); }
        }
        stat("unpacked_values", (long long) nvals);
        fp(fmt("shape:%zu:%zu", want.entries.size(), nvals));
    } else if (len >= 2 && ret == need) {
        // too small: what was stored must be a part of the snapshot
        Visit v { {}, -1 }; size_t br = 0; cali_unpack_snapshot(buf, &br, visit, &v);
        if (br > len) fail(w, "partial-overread", fmt("unpack consumed %zu bytes of a %zu byte buffer", br, len));
        std::multiset<std::pair<cali_id_t, std::string>> rest = all;
        for (auto& e : v.seen) { auto it = rest.find(e); if (it == rest.end()) { fail(w, "partial-contents", "unknown entry in a truncated snapshot"); break; } rest.erase(it); }
        stat("truncated_pulls"); fp(fmt("trunc:%zu:%zu", std::min<size_t>(len, 12), v.seen.size()));
    } else stat("tiny_pulls");
    free(buf);
}

static void make_attrs(Rng& r, int n) {
    static int cnt = 0;
    static const cali_attr_type types[] = { CALI_TYPE_INT, CALI_TYPE_UINT, CALI_TYPE_DOUBLE, CALI_TYPE_BOOL, CALI_TYPE_STRING, CALI_TYPE_ADDR, CALI_TYPE_TYPE, CALI_TYPE_USR, CALI_TYPE_STRING };
    Caliper c;
    // context nodes made in between spread the attribute identifiers, so that by-value slots collide
    for (int i = 0; i < n; ++i) {
        At a; a.type = types[r.below(9)]; a.special = 0;
        int p = 0;
        int k = (int) r.below(10);
        if (k < 5) p |= CALI_ATTR_ASVALUE; else if (k < 7) p |= CALI_ATTR_UNALIGNED; else if (r.chance(60)) p |= CALI_ATTR_NESTED;
        if (r.chance(20)) p |= CALI_ATTR_SCOPE_PROCESS; else if (r.chance(50)) p |= CALI_ATTR_SCOPE_THREAD;
        if (r.chance(15)) p |= CALI_ATTR_SKIP_EVENTS;
        if (r.chance(10)) p |= CALI_ATTR_NOMERGE;
        if ((p & CALI_ATTR_ASVALUE) && r.chance(8)) p |= CALI_ATTR_HIDDEN;
        if (r.chance(10)) p |= CALI_ATTR_GLOBAL;
        if (r.chance(10)) p |= CALI_ATTR_LEVEL_2;
        a.name = "attr." + std::to_string(cnt++) + (r.chance(10) ? "=odd,name" : "");
        if (r.chance(50)) a.attr = c.create_attribute(a.name, a.type, p);
        else a.attr = c.get_attribute(cali_create_attribute(a.name.c_str(), a.type, p));
        a.id = a.attr.id(); a.prop = a.attr.properties();
        a.byval = p & CALI_ATTR_ASVALUE; a.unal = (p & (CALI_ATTR_UNALIGNED | CALI_ATTR_GLOBAL)) && !a.byval; a.hidden = p & CALI_ATTR_HIDDEN;
        a.proc = (p & CALI_ATTR_GLOBAL) || (p & CALI_ATTR_SCOPE_MASK) == CALI_ATTR_SCOPE_PROCESS;
        int want = p;
        if (p & CALI_ATTR_GLOBAL) want = (p & ~CALI_ATTR_SCOPE_MASK) | CALI_ATTR_SCOPE_PROCESS | CALI_ATTR_UNALIGNED;
        if (!(want & CALI_ATTR_SCOPE_MASK)) want |= CALI_ATTR_SCOPE_THREAD;
        if (a.attr.type() != a.type || a.prop != want || a.attr.name() != a.name) viol(mode + ":attribute", a.name + fmt(": type %d/%d prop %d/%d", a.attr.type(), a.type, a.prop, want));
        pool.push_back(a);
    }
}

// A visible region opened inside a hidden one must be visible, the hidden one not
static void probe_hidden() {
    Caliper c;
    Attribute h = c.create_attribute("probe.hidden", CALI_TYPE_STRING, CALI_ATTR_HIDDEN | CALI_ATTR_NESTED);
    Attribute v = c.create_attribute("probe.visible", CALI_TYPE_STRING, CALI_ATTR_NESTED);
    for (int order = 0; order < 2; ++order) {
        std::thread t([&, order] {
            Caliper c2;
            if (order == 0) { c2.begin(h, Variant("hid")); c2.begin(v, Variant("vis")); } else { c2.begin(v, Variant("vis")); c2.begin(h, Variant("hid")); }
            FixedSizeSnapshotRecord<100> rec; c2.pull_context(rec.builder());
            if (rec.view().get(v).empty()) viol("c01:hidden-region-hides-others", "an open visible region nested in a hidden region is missing from the snapshot");
            if (!rec.view().get(h).empty()) viol("c01:hidden-region-visible", "a region of a hidden attribute nested in a visible region is in the snapshot");
            if (order == 0) { c2.end(v); c2.end(h); } else { c2.end(h); c2.end(v); }
        });
        t.join();
    }
}

int main(int argc, char** argv) {
    vh::init(argc, argv);
    mode = sarg("mode", "c01");
    uint64_t seed = iarg("seed", 1); int from = iarg("from", 0), to = iarg("to", 10);
    Rng r0(mix(seed, from));
    Caliper c;
    chan_id = create_channel("ctx", 0, { { "CALI_CHANNEL_CONFIG_CHECK", "false" } });
    chan = c.get_channel(chan_id);
    {   // initial process-wide contents
        FixedSizeSnapshotRecord<400> rec; c.pull_context(rec.builder());
        Rec r = rec_of(rec.view());
        if (r.entries.size() > 1) { vh::error("unexpected initial context " + show(c, r)); vh::done(); return 0; }
        if (!r.entries.empty()) pbb.unal = r.entries[0];
        proc_commit_start(); proc_commit_done();
    }
    struct { const char* n; int s; } sp[] = { { "region", 1 }, { "phase", 2 }, { "comm.region", 3 }, { "loop", 4 } };
    std::vector<At> builtin;
    for (auto& s : sp) { At a; a.attr = c.get_attribute(s.n); a.id = a.attr.id(); a.name = s.n; a.type = a.attr.type(); a.prop = a.attr.properties(); a.byval = a.unal = a.proc = a.hidden = false; a.special = s.s; builtin.push_back(a); }
    // skew identifiers differently in each process
    { Attribute sk = c.create_attribute("skew", CALI_TYPE_INT, 0); int n = (int) r0.below(1500); for (int i = 0; i < n; ++i) c.make_tree_entry(sk, Variant(i)); }
    if (mode == "c01" && from == 0) probe_hidden();
    A().vcount.clear();
    std::vector<At> all;
    for (int cs = from; cs < to; ++cs) {
        Rng r(mix(seed * 1000003 + 17, cs));
        // process-scope entries are closed at the end of every case, so each case may use a fresh subset
        pool = builtin;
        size_t keepn = pool.size();
        make_attrs(r, r.range(4, 30));
        for (size_t i = keepn; i < pool.size(); ++i) all.push_back(pool[i]);
        int extra = (int) r.below(30);
        std::set<cali_id_t> have; for (auto& a : pool) have.insert(a.id);
        for (int i = 0; i < extra; ++i) { At& a = r.pick(all); if (have.insert(a.id).second) pool.push_back(a); }
        int T = (mode == "c02") ? r.range(2, 6) : (mode == "c03" && r.chance(40)) ? r.range(2, 4) : 1;
        multi = T > 1;
        std::vector<std::unique_ptr<W>> ws; std::vector<std::thread> ts;
        int err_thread = mode == "c03" ? (int) r.below(T) : -1;
        for (int t = 0; t < T; ++t) {
            ws.emplace_back(new W(r.next())); W* w = ws.back().get(); w->tid = t; w->allow_err = t == err_thread;
        }
        std::atomic<int> ready{0};
        auto body = [&](W* w, int budget) {
            ++ready; while (ready.load() < T) std::this_thread::yield();
            check(*w);
            block(*w, 0, budget);
            if (w->allow_err && !w->frozen) inject_error(*w);
            while (!w->frozen && budget > 0) block(*w, 0, budget);
            check(*w);
            if (!w->frozen) {
                // close what is left, in arbitrary order for unaligned and by-value entries
                for (auto& a : pool) if (!a.proc && (a.byval || a.unal)) while (w->bb.get(a) != "inv" && w->r.chance(70)) op_close(*w, w->bb, a, true);
                check(*w);
            }
        };
        for (int t = 0; t < T; ++t) {
            W* w = ws[t].get(); int budget = r.range(20, mode == "c02" ? 260 : 220);
            ts.emplace_back([&, w, budget] { body(w, budget); });
        }
        // short-lived threads come and go meanwhile
        if (multi) {
            int n = (int) r.below(5);
            for (int i = 0; i < n; ++i) {
                W w(r.next()); w.tid = 100 + i; int b = r.range(1, 30);
                std::thread t([&] { check(w); block(w, 0, b); check(w); });
                t.join(); stat("short_threads"); stat("checks", w.checks);
            }
        }
        for (auto& t : ts) t.join();
        // a fresh thread sees exactly the process-wide state; then everything process-scope is closed
        { W w(r.next()); w.tid = 99; std::thread t([&] {
              check(w);
              for (auto& a : pool) if (a.proc && (a.byval || a.unal)) while (pbb.get(a) != "inv") { std::lock_guard<std::mutex> g(pm); op_close(w, pbb, a, true); }
              while (!pbb.path.empty()) { const At* t = find_at(pbb.path.back().first); if (!t) break; op_close(w, pbb, *t, true); }
              check(w); }); t.join(); }
        { std::lock_guard<std::mutex> g(hm); Rec last = hist.back(); hist.clear(); hist.push_back(last); h_started = 0; h_pub = 0; }
        uint64_t h = T; int ops = 0, checks = 0; size_t md = 0;
        for (auto& w : ws) { h = mix(h, w->h); ops += w->ops; checks += w->checks; md = std::max(md, w->maxdepth); }
        stat("ops", ops); stat("checks", checks); stat("threads", T); smax("depth", md); smax("attributes", all.size());
        kase(fmt("%016llx", (unsigned long long) h));
        if (cs == from) sample(fmt("case %d: %d thread(s), %zu attributes, %d operations, %d snapshot comparisons; last operations of thread 0: ", cs, T, pool.size(), ops, checks) + ws[0]->log.substr(0, 300));
        if (vh::violated()) break;
    }
    vh::done();
    return 0;
}
