// Modes: c18 (event filters), c15 (channel independence)
#include "chan.h"
#include <regex>

// ---------------------------------------------------------------- c18
struct FItem { int kind; std::vector<std::string> args; }; // 0 word, 1 match, 2 startswith, 3 regex
struct Filt {
    std::vector<FItem> items; std::string text;
    bool empty() const { return items.empty(); }
    bool hit(const std::string& v) const {
        for (auto& it : items) for (auto& a : it.args) {
            if (it.kind <= 1 && v == a) return true;
            if (it.kind == 2 && v.compare(0, a.size(), a) == 0) return true;
            if (it.kind == 3 && std::regex_match(v, std::regex(a))) return true;
        }
        return false;
    }
};
static const char* NAMES[] = { "foo", "foobar", "fo", "main", "mainloop", "MPI_Send", "MPI_Recv", "mylib_a", "mylib_b", "loop_1", "inner loop", "a,b", "f(x)", "match", "x" };
static const char* PREFS[] = { "MPI_", "mylib_", "main", "foo", "f", "loop", "inner l", "zzz" };
static const char* REGS[] = { ".*loop.*", "f.*", "[a-f].*", "main|foo", "MPI_.+", "foo", ".*[0-9]", "nothing" };
static std::string quote(Rng& r, const std::string& a) {
    bool odd = a.find_first_of(" ,()") != std::string::npos;
    if (!odd) return r.chance(15) ? "\"" + a + "\"" : a;
    if (r.chance(60)) return "\"" + a + "\"";
    std::string s; for (char c : a) { if (strchr(" ,()", c)) s += '\\'; s += c; } return s;
}
static Filt make_filter(Rng& r) {
    Filt f; int n = 1 + (int) r.below(3);
    for (int i = 0; i < n; ++i) {
        FItem it; it.kind = (int) r.below(4); int na = it.kind == 0 ? 1 : 1 + (int) r.below(3); std::string args;
        for (int j = 0; j < na; ++j) {
            std::string a = it.kind <= 1 ? NAMES[r.below(15)] : it.kind == 2 ? PREFS[r.below(8)] : REGS[r.below(8)];
            if (it.kind == 0 && a == "match") a = "foo";
            it.args.push_back(a); args += (args.empty() ? "" : r.chance(30) ? ", " : ",") + quote(r, a);
        }
        static const char* K[] = { "", "match", "startswith", "regex" };
        f.text += (i ? (r.chance(30) ? " , " : ",") : "") + (it.kind ? std::string(K[it.kind]) + "(" + args + ")" : args);
        f.items.push_back(it);
    }
    return f;
}
struct EvOp { uint64_t seq; char kind; const PAttr* a; Variant v; std::vector<std::string> own, around, loose; };
struct FChan : Chan { Filt inc, exc, br; std::set<std::string> trig; bool has_trig = false; int level = 0; bool info = true; };

static std::string vtext(const Variant& v) { return std::string(static_cast<const char*>(v.data()), v.size()); }

static int expected(const FChan& ch, const EvOp& e) { // 1 selected, 0 not, -1 open
    if (!e.a->events) return 0;
    if (ch.has_trig && !ch.trig.count(e.a->name)) return 0;
    if (((e.a->a.properties() & CALI_ATTR_LEVEL_MASK) >> 16) < ch.level) return 0;
    bool str = e.a->type == CALI_TYPE_STRING;
    if (str) {
        std::string v = vtext(e.v);
        if (!ch.exc.empty() && ch.exc.hit(v)) return 0;
        if (!ch.inc.empty() && !ch.inc.hit(v)) return 0;
    }
    if (ch.br.empty()) return 1;
    if (str && ch.br.hit(vtext(e.v))) return 1;
    for (auto& s : e.own) if (ch.br.hit(s)) return 1;
    for (auto& s : e.around) if (ch.br.hit(s)) return 1;
    for (auto& s : e.loose) if (ch.br.hit(s)) return -1;
    return 0;
}

struct Cb { char kind; cali_id_t attr; std::string v; uint64_t op; };
static thread_local std::vector<Cb>* my_cbs = nullptr; static thread_local uint64_t my_op = 0;

static void run_c18(uint64_t seed, long idx) {
    Case k(mix(seed, (uint64_t) idx * 2 + 9)); k.pfx = fmt("e%ld", idx);
    Caliper c; Rng& r = k.r;
    std::deque<PAttr> al, un, va; // aligned, unaligned, by value
    auto lvl = [&] { return r.chance(50) ? 0 : (int) r.below(8) << 16; };
    auto more = [&] {
        int n = 1 + (int) r.below(3);
        for (int i = 0; i < n; ++i) {
            int skip = r.chance(12) ? CALI_ATTR_SKIP_EVENTS : 0; cali_attr_type t = r.chance(75) ? CALI_TYPE_STRING : CALI_TYPE_INT;
            int w = (int) r.below(4);
            if (w <= 1) al.push_back(make_attr(nm(k, "n", (int) al.size()), t, CALI_ATTR_NESTED * (int) r.chance(80) | skip | lvl()));
            else if (w == 2) un.push_back(make_attr(nm(k, "u", (int) un.size()), t, CALI_ATTR_UNALIGNED | skip | lvl()));
            else va.push_back(make_attr(nm(k, "v", (int) va.size()), t, CALI_ATTR_ASVALUE | skip | lvl()));
        }
    };
    for (const char* n : { "region", "phase", "loop" }) { Attribute a = c.get_attribute(n); int p = a.properties(); al.push_back({ a, n, a.type(), p, true, false, true, false }); }
    more();
    k.seq = make_attr("seq", CALI_TYPE_UINT, CALI_ATTR_ASVALUE | CALI_ATTR_SKIP_EVENTS);
    int phase_level = (c.get_attribute("phase").properties() & CALI_ATTR_LEVEL_MASK) >> 16;
    // the reference channel: every event, no event information
    FChan full; full.name = k.pfx + ".full"; full.info = false;
    full.id = create_channel(full.name.c_str(), 0, { { "CALI_SERVICES_ENABLE", "event" }, { "CALI_EVENT_ENABLE_SNAPSHOT_INFO", "false" } });
    attach(&full);
    {   // event callbacks as seen by a service of this channel
        auto cb = [](char kind) { return [kind](Caliper*, ChannelBody*, const Attribute& a, const Variant& v) { if (my_cbs) my_cbs->push_back({ kind, a.id(), vstr(v), my_op }); }; };
        auto& e = full.chn.events(); e.pre_begin_evt.connect(cb('b')); e.post_begin_evt.connect(cb('B')); e.pre_set_evt.connect(cb('s')); e.pre_end_evt.connect(cb('e'));
    }
    std::deque<FChan> chans; int nch = 2 + (int) r.below(4);
    for (int i = 0; i < nch; ++i) {
        chans.emplace_back(); FChan& ch = chans.back(); ch.name = fmt("%s.f%d", k.pfx.c_str(), i);
        config_map_t m { { "CALI_SERVICES_ENABLE", r.chance(30) ? "event,trace" : "event" } };
        if (r.chance(45)) { ch.inc = make_filter(r); m["CALI_EVENT_INCLUDE_REGIONS"] = ch.inc.text; }
        if (r.chance(35)) { ch.exc = make_filter(r); m["CALI_EVENT_EXCLUDE_REGIONS"] = ch.exc.text; }
        if (r.chance(45)) { ch.br = make_filter(r); m["CALI_EVENT_INCLUDE_BRANCHES"] = ch.br.text; }
        if (r.chance(40)) {
            static const char* bad[] = { "9", "-1", "abc", "8" };
            int w = (int) r.below(10);
            if (w < 7) { ch.level = w + 1; m["CALI_EVENT_REGION_LEVEL"] = std::to_string(ch.level); }
            else if (w == 7) { ch.level = phase_level; m["CALI_EVENT_REGION_LEVEL"] = "phase"; }
            else m["CALI_EVENT_REGION_LEVEL"] = bad[r.below(4)];
        }
        if (r.chance(35)) {
            ch.has_trig = true; std::string t; std::string sep = r.chance(50) ? "," : ":";
            auto add = [&](const std::string& n) { ch.trig.insert(n); t += (t.empty() ? "" : sep) + n; };
            int n = 1 + (int) r.below(4);
            for (int j = 0; j < n; ++j) switch (r.below(5)) {
                case 0: case 1: add(r.pick(al).name); break;
                case 2: if (!un.empty()) add(r.pick(un).name); else add("region"); break;
                case 3: if (!va.empty()) add(r.pick(va).name); else add("region"); break;
                default: add(nm(k, r.chance(60) ? "n" : r.chance(50) ? "u" : "v", (int) r.below(9))); // may be created later
            }
            m["CALI_EVENT_TRIGGER"] = t;
        }
        ch.info = r.chance(65); m["CALI_EVENT_ENABLE_SNAPSHOT_INFO"] = ch.info ? "true" : "false";
        ch.id = create_channel(ch.name.c_str(), 0, m);
        for (auto& p : m) ch.cfg += p.first.substr(5) + "='" + p.second + "' ";
        attach(&ch);
        k.h = k.h * 31 + ch.cfg.size() + (ch.cfg.empty() ? 0 : (unsigned char) ch.cfg.back());
    }
    more();
    int nthreads = (int) r.below(4), rounds = 1 + (int) r.below(2);
    struct T { PThread p; std::vector<EvOp> ops; std::vector<std::pair<const PAttr*, Variant>> unal; std::set<const PAttr*> vals; std::vector<Cb> cbs; explicit T(uint64_t s) : p(s) {} };
    std::map<int, T> ts; std::map<int, std::unique_ptr<Worker>> ws;
    for (int t = 0; t <= nthreads; ++t) { ts.emplace(t, T(mix(seed ^ 79, idx * 64 + t))); if (t) ws[t].reset(new Worker(t)); }
    my_tid() = 0;
    for (int rd = 0; rd < rounds; ++rd) {
        if (rd) more();
        auto body = [&](int tid) {
            T& t = ts.at(tid); Rng& q = t.p.r; Caliper c; my_cbs = &t.cbs;
            auto val = [&](const PAttr& a) { return a.type == CALI_TYPE_STRING ? kept_string(NAMES[q.below(15)]) : Variant((int) q.below(5)); };
            auto ev = [&](char kind, const PAttr* a, const Variant& v) {
                c.set(k.seq.a, Variant(cali_make_variant_from_uint(++t.p.seq)));
                my_op = t.p.seq;
                EvOp e; e.seq = t.p.seq; e.kind = kind; e.a = a; e.v = v;
                size_t nested = 0; for (size_t i = 0; i < t.p.open.size(); ++i) if (t.p.open[i].first->nested) nested = i + 1;
                bool aligned = !a->byval && !(a->prop & CALI_ATTR_UNALIGNED);
                for (size_t i = 0; i < t.p.open.size(); ++i) if (t.p.open[i].first->type == CALI_TYPE_STRING) (aligned ? e.own : i < nested ? e.around : e.loose).push_back(vtext(t.p.open[i].second));
                if (!aligned) for (auto& u : t.unal) if (u.first->type == CALI_TYPE_STRING) (a->byval ? e.loose : e.own).push_back(vtext(u.second));
                t.ops.push_back(e); t.p.note(kind);
            };
            // the user's string may be gone by the time of the next event
            auto begin = [&](const PAttr& a, const Variant& v) {
                if (a.type == CALI_TYPE_STRING && !a.byval) { std::string tmp = vtext(v); char* b = (char*) malloc(tmp.size() ? tmp.size() : 1); memcpy(b, tmp.data(), tmp.size()); c.begin(a.a, Variant(CALI_TYPE_STRING, b, tmp.size())); free(b); }
                else c.begin(a.a, v);
            };
            // a snapshot the user requests: the context plus the given entries, whatever the filters say
            auto user_snapshot = [&] {
                c.set(k.seq.a, Variant(cali_make_variant_from_uint(++t.p.seq)));
                FixedSizeSnapshotRecord<120> ctx; c.pull_snapshot(full.chn.body(), SnapshotView(), ctx.builder());
                std::vector<cali_id_t> ids; std::vector<cali_variant_t> vs; Path refs; std::set<const PAttr*> used; Rec want;
                for (auto& e : log_rec(ctx.view()).e) want.add(e.p);
                for (int i = 0, n = q.chance(10) ? 20 : (int) q.below(8); i < n; ++i) {
                    int w = (int) q.below(3); const PAttr& a = w == 2 && !va.empty() ? q.pick(va) : w == 1 && !un.empty() ? q.pick(un) : q.pick(al);
                    if (a.byval && !used.insert(&a).second) continue;
                    Variant v = val(a); ids.push_back(a.a.id()); vs.push_back(v.c_variant());
                    if (a.byval) want.add(Path { { a.a.id(), vstr(v) } }); else refs.push_back({ a.a.id(), vstr(v) });
                }
                if (!refs.empty()) want.add(refs);
                want.norm();
                std::vector<FChan*> all { &full }; for (auto& ch : chans) all.push_back(&ch);
                int one = q.chance(30) ? (int) q.below(all.size()) : -1; std::vector<size_t> before;
                for (FChan* ch : all) { std::lock_guard<std::mutex> g(ch->m); before.push_back(ch->log[tid].size()); }
                if (one < 0) cali_push_snapshot(CALI_SCOPE_THREAD | CALI_SCOPE_PROCESS, (int) ids.size(), ids.data(), vs.data());
                else cali_channel_push_snapshot(all[one]->id, CALI_SCOPE_THREAD, (int) ids.size(), ids.data(), vs.data());
                for (size_t i = 0; i < all.size(); ++i) {
                    std::vector<LRec>* l; { std::lock_guard<std::mutex> g(all[i]->m); l = &all[i]->log[tid]; }
                    size_t exp = one < 0 || one == (int) i ? 1 : 0, n = l->size() - before[i];
                    if (n != exp) viol("c18:user-snapshot-count", fmt("a requested snapshot (%s) was recorded %zu times", one < 0 ? "all channels" : "one channel", n));
                    else if (exp) {
                        Rec x; for (auto& e : l->back().e) if (!e.p.empty()) x.add(e.p);
                        x.norm(); if (!(x == want)) viol("c18:user-snapshot", fmt("snapshot requested with %zu entries shows ", ids.size()) + show(c, x).substr(0, 800) + "\n expected " + show(c, want).substr(0, 800));
                        stat("user_snapshots");
                    }
                    l->resize(before[i]);
                }
            };
            long ops = 40 + (long) q.below(200);
            for (long i = 0; i < ops; ++i) {
                int x = (int) q.below(100);
                if (q.chance(4)) user_snapshot();
                if (x < 33 && t.p.open.size() < 10) { const PAttr& a = q.pick(al); Variant v = val(a); ev('b', &a, v); begin(a, v); t.p.open.push_back({ &a, v }); }
                else if (x < 60) { if (t.p.open.empty()) continue; auto o = t.p.open.back(); ev('e', o.first, o.second); c.end(o.first->a); t.p.open.pop_back(); }
                else if (x < 66) { if (t.p.open.empty()) continue; auto& o = t.p.open.back(); Variant v = val(*o.first); ev('s', o.first, v); c.set(o.first->a, v); o.second = v; }
                else if (x < 74) { if (un.empty() || t.unal.size() > 6) continue; const PAttr& a = q.pick(un); Variant v = val(a); ev('b', &a, v); begin(a, v); t.unal.push_back({ &a, v }); }
                else if (x < 79) { if (un.empty()) continue; const PAttr& a = q.pick(un); Variant v = val(a); ev('s', &a, v); c.set(a.a, v); bool f = false; for (size_t j = t.unal.size(); j-- > 0 && !f;) if (t.unal[j].first == &a) { t.unal[j].second = v; f = true; } if (!f) t.unal.push_back({ &a, v }); }
                else if (x < 86) { if (t.unal.empty()) continue; const PAttr* a = q.pick(t.unal).first; for (size_t j = t.unal.size(); j-- > 0;) if (t.unal[j].first == a) { ev('e', a, t.unal[j].second); c.end(a->a); t.unal.erase(t.unal.begin() + j); break; } }
                else if (x < 94) { if (va.empty()) continue; const PAttr& a = q.pick(va); Variant v = val(a); if (q.chance(50)) { ev('s', &a, v); c.set(a.a, v); } else { ev('b', &a, v); c.begin(a.a, v); } t.vals.insert(&a); }
                else { if (t.vals.empty()) continue; auto it = t.vals.begin(); const PAttr* a = *it; Variant cur = c.get(a->a).value(); ev('e', a, cur); c.end(a->a); t.vals.erase(it); }
            }
            if (rd == rounds - 1) {
                while (!t.p.open.empty()) { auto o = t.p.open.back(); ev('e', o.first, o.second); c.end(o.first->a); t.p.open.pop_back(); }
                while (!t.unal.empty()) { const PAttr* a = t.unal.back().first; ev('e', a, t.unal.back().second); c.end(a->a); t.unal.pop_back(); }
                for (auto* a : t.vals) { Variant cur = c.get(a->a).value(); ev('e', a, cur); c.end(a->a); }
                t.vals.clear(); 
            }
            my_cbs = nullptr;
        };
        for (auto& w : ws) { int id = w.first; w.second->start([&, id] { body(id); }); }
        body(0);
        for (auto& w : ws) w.second->wait();
    }
    // --- judge
    cali_id_t seqid = k.seq.a.id(); Attribute rc = c.get_attribute("region.count");
    auto seq_of = [&](const LRec& l) { for (auto& e : l.e) if (e.imm && e.p[0].first == seqid) return (uint64_t) strtoull(e.p[0].second.c_str() + 2, 0, 10); return (uint64_t) 0; };
    for (auto& tt : ts) {
        int tid = tt.first; std::map<uint64_t, Rec> ref; std::map<uint64_t, const EvOp*> opof;
        for (auto& o : tt.second.ops) opof[o.seq] = &o;
        for (auto& l : full.log[tid]) { uint64_t s = seq_of(l); Rec x; for (auto& e : l.e) if (!(e.imm && e.p[0].first == rc.id())) x.add(e.p); x.norm(); if (!ref.emplace(s, x).second) viol("c18:twice", fmt("event %llu recorded twice without filters", (unsigned long long) s)); }
        { FChan none; size_t n = 0; for (auto& o : tt.second.ops) if (expected(none, o) == 1) { ++n; if (!ref.count(o.seq)) { viol("c18:unfiltered-missing", fmt("event %c %s not recorded without any filter", o.kind, o.a->name.c_str())); break; } }
          if (n != ref.size()) viol("c18:unfiltered-count", fmt("%zu events, %zu snapshots", n, ref.size())); }
        {   // one callback of the right kind per event, with its attribute and value; none for others
            auto& cb = tt.second.cbs; size_t i = 0; bool ok = true; auto w = tt.second.ops.begin();
            for (; ok && w != tt.second.ops.end(); ++w) {
                if (!w->a->events) continue;
                auto is = [&](char kd) { if (i < cb.size() && cb[i].kind == kd && cb[i].op == w->seq && cb[i].attr == w->a->a.id() && cb[i].v == vstr(w->v)) { ++i; return true; } return false; };
                if (!is(w->kind) || (w->kind == 'b' && !is('B'))) { ok = false; break; }
            }
            if (ok && i == cb.size()) stat("callbacks_judged", (long) i);
            else viol("c18:callbacks", fmt("thread %d: event callbacks do not match the events: after %zu of %zu callbacks, ", tid, i, cb.size()) + (i < cb.size() ? fmt("callback %c of %s value %s in operation %llu", cb[i].kind, c.get_attribute(cb[i].attr).name().c_str(), cb[i].v.c_str(), (unsigned long long) cb[i].op) : std::string("none left")) + (w != tt.second.ops.end() ? fmt("; event %llu %c %s value %s", (unsigned long long) w->seq, w->kind, w->a->name.c_str(), vstr(w->v).c_str()) : std::string()));
        }
        for (auto& ch : chans) {
            std::vector<uint64_t> got; size_t sel = 0;
            std::map<uint64_t, const LRec*> recs;
            for (auto& l : ch.log[tid]) { uint64_t s = seq_of(l); got.push_back(s); recs[s] = &l; }
            size_t i = 0; bool bad = false;
            for (auto& o : tt.second.ops) {
                int e = expected(ch, o); bool have = i < got.size() && got[i] == o.seq;
                if (have) ++i;
                if (e == -1) { stat("left_open"); continue; }
                if (e == 1) ++sel;
                if (have != (e == 1) && !bad) {
                    bad = true; std::string own; for (auto& s : o.own) own += "/" + s; own += " |"; for (auto& s : o.around) own += "/" + s;
                    viol(have ? "c18:unselected-recorded" : "c18:selected-missing", fmt("thread %d of %d: event %c of %s (level %d) value '%s' inside %s\n channel: ", tid, nthreads + 1, o.kind, o.a->name.c_str(), (o.a->a.properties() & CALI_ATTR_LEVEL_MASK) >> 16, o.v.to_string().c_str(), own.c_str()) + ch.cfg);
                }
            }
            if (i != got.size() && !bad) viol("c18:extra", fmt("thread %d: %zu snapshots beyond the events: ", tid, got.size() - i) + ch.cfg);
            stat("events_judged", tt.second.ops.size()); stat("selected", sel); stat("filtered_out", tt.second.ops.size() - sel);
            // context unaffected by the filter
            for (auto& p : recs) {
                auto rf = ref.find(p.first); if (rf == ref.end() || !opof.count(p.first)) continue;
                const EvOp& o = *opof[p.first]; Rec x; std::vector<std::string> infos; unsigned long long rcv = 0;
                for (auto& e : p.second->e) {
                    if (e.imm && e.p[0].first == rc.id()) { rcv += strtoull(e.p[0].second.c_str() + 2, 0, 10); continue; }
                    Path q; for (auto& el : e.p) { std::string n = c.get_attribute(el.first).name(); if (n.rfind("event.", 0) == 0) infos.push_back(n + "=" + el.second); else q.push_back(el); }
                    if (!q.empty()) x.add(q);
                }
                x.norm();
                if (!(x == rf->second)) { viol("c18:context", fmt("event %c %s: snapshot shows ", o.kind, o.a->name.c_str()) + show(c, x).substr(0, 800) + "\n without filter " + show(c, rf->second).substr(0, 800) + "\n channel: " + ch.cfg); break; }
                if (rcv != (o.kind == 'e' ? 1u : 0u)) { viol("c18:region-count", fmt("event %c %s has region.count %llu", o.kind, o.a->name.c_str(), rcv)); break; }
                std::string w = std::string(o.kind == 'b' ? "event.begin#" : o.kind == 's' ? "event.set#" : "event.end#") + o.a->name + "=" + vstr(o.v);
                if (ch.info ? (infos.size() != 1 || infos[0] != w) : !infos.empty()) { viol("c18:event-info", "expected " + (ch.info ? w : std::string("none")) + fmt(" got %zu: ", infos.size()) + (infos.empty() ? "" : infos[0])); break; }
                stat("contexts_compared");
            }
            if (sel && sel < tt.second.ops.size()) fp(fmt("%ld.%s.%d.%zu", idx, ch.name.c_str(), tid, sel));
        }
    }
    kase(fmt("c18 %llx.%d.%llx", (unsigned long long) k.h, nthreads, (unsigned long long) ts.at(0).p.h));
    ws.clear();
    c.end(k.seq.a);
    cali_delete_channel(full.id); for (auto& ch : chans) cali_delete_channel(ch.id);
}

// ---------------------------------------------------------------- c15
// A fixed program: annotation steps, interleaved with control operations on several channels. Run once with all
// channels' control operations and once per channel with only its own; each flush must give the same records.
struct Step { int thread; int kind; const PAttr* a = nullptr; Variant v; int chan = -1; std::vector<std::pair<const PAttr*, Variant>> trig; bool exits = false; };
enum { S_BEGIN, S_END, S_SET, S_PUSHALL, S_CREATE, S_ACT, S_DEACT, S_FLUSH, S_CLEAR, S_DEL, S_BOGUS, S_PUSHONE, S_EXIT, S_CHSET, S_FLUSHC };
struct CCfg { config_map_t m; bool inactive = false; std::string text; bool plain = false; bool aggr = false; };
typedef std::vector<std::string> Flush; // the records, sorted
struct RunOut { std::map<int, std::vector<Flush>> fl; std::map<int, size_t> events; };

static std::string rec_text(Caliper& c, const std::vector<Entry>& rec) {
    std::vector<std::string> p;
    for (auto& e : rec) {
        if (e.is_immediate()) { Attribute a = c.get_attribute(e.attribute()); if (a.name() == "aggregate.slot" || a.name().find("time.") != std::string::npos) continue; p.push_back(a.name() + "=" + vstr(e.value())); continue; }
        std::string s; for (auto& el : path_of(e)) s += ">" + c.get_attribute(el.first).name() + "=" + el.second; p.push_back(s);
    }
    std::sort(p.begin(), p.end()); std::string s; for (auto& x : p) s += x + " ; "; return s;
}

static RunOut run_steps(const std::vector<Step>& steps, const std::vector<CCfg>& cfgs, const std::string& pfx, int only, const PAttr& seq, const PAttr& tid, std::map<int, std::vector<std::vector<uint64_t>>>* model) {
    RunOut out; Caliper c; std::vector<cali_id_t> ids(cfgs.size(), CALI_INV_ID);
    std::map<int, std::unique_ptr<Worker>> ws; std::set<int> known { 0 };
    struct Live { bool on = false, alive = false; std::vector<uint64_t> rec; }; std::vector<Live> lv(cfgs.size());
    uint64_t n = 0;
    std::vector<cali_id_t> dead; 
    c.set(tid.a, Variant(0));
    auto flush = [&](int ch) {
        Flush f; Channel chn = c.get_channel(ids[ch]);
        c.flush(chn.body(), SnapshotView(), [&](CaliperMetadataAccessInterface&, const std::vector<Entry>& rec) { f.push_back(rec_text(c, rec)); });
        std::sort(f.begin(), f.end()); out.fl[ch].push_back(f);
        if (model) (*model)[ch].push_back(lv[ch].rec);
    };
    for (auto& s : steps) {
        ++n;
        if (s.chan >= 0 && s.kind != S_PUSHONE && s.kind != S_BOGUS && only >= 0 && s.chan != only) continue;
        auto exec = [&] {
            Caliper c;
            switch (s.kind) {
            case S_BEGIN: case S_END: case S_SET: case S_PUSHALL:
                c.set(seq.a, Variant(cali_make_variant_from_uint(n)));
                if (s.kind == S_BEGIN) c.begin(s.a->a, s.v); else if (s.kind == S_END) c.end(s.a->a); else if (s.kind == S_SET) c.set(s.a->a, s.v);
                else { std::vector<cali_id_t> ai; std::vector<cali_variant_t> av; for (auto& t : s.trig) { ai.push_back(t.first->a.id()); av.push_back(t.second.c_variant()); } cali_push_snapshot(CALI_SCOPE_THREAD | CALI_SCOPE_PROCESS, (int) ai.size(), ai.data(), av.data()); }
                if (s.kind == S_PUSHALL || s.a->events) for (auto& l : lv) if (l.on && l.alive) l.rec.push_back(n);
                break;
            case S_PUSHONE:
                c.set(seq.a, Variant(cali_make_variant_from_uint(n)));
                if (only < 0 || s.chan == only) { cali_channel_push_snapshot(ids[s.chan], CALI_SCOPE_THREAD, 0, nullptr, nullptr); Live& l = lv[s.chan]; if (l.on && l.alive) l.rec.push_back(n); }
                break;
            default: break;
            }
        };
        switch (s.kind) {
        case S_CREATE: { auto& g = cfgs[s.chan]; ids[s.chan] = create_channel(fmt("%s.c%d", pfx.c_str(), s.chan).c_str(), g.inactive ? CALI_CHANNEL_LEAVE_INACTIVE : 0, g.m); lv[s.chan].alive = true; lv[s.chan].on = !g.inactive; break; }
        case S_ACT: cali_activate_channel(ids[s.chan]); lv[s.chan].on = true; if (cali_channel_is_active(ids[s.chan]) != (int) lv[s.chan].alive) viol("c15:is-active", "after activation"); break;
        case S_DEACT: cali_deactivate_channel(ids[s.chan]); lv[s.chan].on = false; if (cali_channel_is_active(ids[s.chan])) viol("c15:is-active", "after deactivation"); break;
        case S_FLUSH: if (lv[s.chan].alive) flush(s.chan); break;
        case S_FLUSHC: cali_channel_flush(ids[s.chan], CALI_FLUSH_CLEAR_BUFFERS); lv[s.chan].rec.clear(); break;
        case S_CLEAR: { Channel chn = c.get_channel(ids[s.chan]); if (chn) c.clear(&chn); lv[s.chan].rec.clear(); break; }
        case S_CHSET: { Channel chn = c.get_channel(ids[s.chan]); if (chn) c.set(chn.body(), s.a->a, s.v); break; }
        case S_DEL: cali_delete_channel(ids[s.chan]); lv[s.chan].alive = false; dead.push_back(ids[s.chan]);
            if (c.get_channel(ids[s.chan])) viol("c15:deleted-channel-found", "get_channel() returns a deleted channel");
            break;
        case S_BOGUS: {
            static const cali_id_t odd[] = { CALI_INV_ID, 1000000, 0xFFFFFFFF, 77777 };
            cali_id_t id = dead.empty() || n % 3 == 0 ? odd[n % 4] : dead[n % dead.size()];
            switch (n % 8) {
            case 0: cali_activate_channel(id); break; case 1: cali_deactivate_channel(id); break; case 2: cali_delete_channel(id); break;
            case 3: if (cali_channel_is_active(id)) viol("c15:bogus-active", "an unknown channel is active"); break;
            case 4: cali_channel_flush(id, 0); break; case 5: cali_channel_push_snapshot(id, 0, 0, nullptr, nullptr); break;
            case 6: { unsigned char b[512]; cali_channel_pull_snapshot(id, CALI_SCOPE_THREAD, sizeof b, b); break; }
            case 7: { cali_variant_t v = cali_channel_get(id, seq.a.id()); if (!cali_variant_is_empty(v)) viol("c15:bogus-get", "an unknown channel has a value"); break; }
            }
            stat("operations_on_unknown_channels"); break; }
        case S_EXIT: ws.erase(s.thread); break;
        default:
            if (s.thread == 0) { my_tid() = 0; exec(); }
            else {
                auto& w = ws[s.thread]; bool fresh = !w; if (fresh) w.reset(new Worker(s.thread));
                int t = s.thread; w->start([&] { if (fresh) { Caliper c; c.set(tid.a, Variant(t)); } exec(); }); w->wait();
            }
        }
    }
    for (size_t i = 0; i < cfgs.size(); ++i) if (lv[i].alive && (only < 0 || only == (int) i)) { flush((int) i); cali_delete_channel(ids[i]); }
    ws.clear(); c.end(seq.a); c.end(tid.a);
    return out;
}

static void run_c15(uint64_t seed, long idx) {
    Case k(mix(seed, (uint64_t) idx * 2 + 13)); k.pfx = fmt("i%ld", idx);
    Rng& r = k.r;
    setup_attrs(k, (int) r.below(3));
    k.seq = make_attr("seq", CALI_TYPE_UINT, CALI_ATTR_ASVALUE | CALI_ATTR_SKIP_EVENTS);
    k.tid = make_attr("tid", CALI_TYPE_INT, CALI_ATTR_ASVALUE | CALI_ATTR_SKIP_EVENTS);
    PAttr chv = make_attr(k.pfx + ".chv", CALI_TYPE_INT, CALI_ATTR_ASVALUE | CALI_ATTR_SKIP_EVENTS);
    int nch = 2 + (int) r.below(4), nth = (int) r.below(4);
    std::vector<CCfg> cfgs(nch);
    for (int i = 0; i < nch; ++i) {
        CCfg& g = cfgs[i]; auto& m = g.m; int w = (int) r.below(10); bool ev = true;
        if (w < 4) { m["CALI_SERVICES_ENABLE"] = r.chance(50) ? "event,trace" : "trace,event"; g.plain = true; }
        else if (w < 7) { m["CALI_SERVICES_ENABLE"] = r.chance(30) ? "event,aggregate,timer" : "event,aggregate"; g.aggr = true; std::string key; if (r.chance(60)) key = k.vals[0].name; if (r.chance(30)) key += (key.empty() ? "" : ",") + std::string("tid"); m["CALI_AGGREGATE_KEY"] = key; }
        else if (w == 7) { m["CALI_SERVICES_ENABLE"] = "event,aggregate,trace"; g.aggr = true; }
        else if (w == 8) { m["CALI_SERVICES_ENABLE"] = "trace"; ev = false; }
        else { m["CALI_SERVICES_ENABLE"] = "event,trace"; m["CALI_EVENT_TRIGGER"] = k.nested[0].name; }
        m["CALI_EVENT_ENABLE_SNAPSHOT_INFO"] = r.chance(50) ? "true" : "false";
        m["CALI_CHANNEL_FLUSH_ON_EXIT"] = "false";
        if (ev && r.chance(20)) { m["CALI_EVENT_INCLUDE_REGIONS"] = "startswith(t0)"; g.plain = false; }
        if (r.chance(10)) { m["CALI_TRACE_BUFFER_POLICY"] = "grow"; m["CALI_TRACE_BUFFER_SIZE"] = "1"; }
        g.inactive = r.chance(30);
        for (auto& p : m) g.text += p.first.substr(5) + "=" + p.second + " ";
    }
    // the program
    std::vector<Step> steps; std::map<int, PThread> ts; std::vector<int> state(nch, 0); // 0 none, 1 alive, 2 deleted
    for (int t = 0; t <= nth; ++t) ts.emplace(t, PThread(mix(seed ^ 80, idx * 64 + t))).first->second.tag = fmt("t%d.", t);
    std::set<int> gone; std::map<int, bool> started;
    long ops = 100 + (long) r.below(300);
    auto ann = [&](int t) {
        PThread& p = ts.at(t); int x = (int) r.below(100); Step s; s.thread = t;
        if (x < 30 && p.open.size() < 8) { const PAttr& a = r.pick(k.nested); s.kind = S_BEGIN; s.a = &a; s.v = val_for(k, p, a, 5); p.open.push_back({ &a, s.v }); }
        else if (x < 60 && !p.open.empty()) { s.kind = S_END; s.a = p.open.back().first; p.open.pop_back(); }
        else if (x < 70 && !k.refs.empty()) { const PAttr& a = r.pick(k.refs); int& n = p.refs[&a]; s.a = &a; if (n && r.chance(40)) { s.kind = S_END; --n; } else if (r.chance(50)) { s.kind = S_BEGIN; s.v = val_for(k, p, a, 5); ++n; } else { s.kind = S_SET; s.v = val_for(k, p, a, 5); if (!n) n = 1; } }
        else if (x < 82) { const PAttr& a = r.pick(k.vals); int& n = p.refs[&a]; s.a = &a; if (n && r.chance(30)) { s.kind = S_END; n = 0; } else { s.kind = S_SET; s.v = val_for(k, p, a, 5); n = 1; } }
        else { s.kind = S_PUSHALL; int n = (int) r.below(3); std::set<size_t> u; for (int i = 0; i < n; ++i) { size_t j = r.below(k.aggr.size()); if (u.insert(j).second) s.trig.push_back({ &k.aggr[j], small_num(r, k.aggr[j].type) }); } }
        steps.push_back(s); started[t] = true;
    };
    for (long i = 0; i < ops; ++i) {
        if (r.chance(22)) {
            Step s; s.thread = 0; s.chan = (int) r.below(nch); int& st = state[s.chan];
            if (st == 0) { s.kind = S_CREATE; st = 1; steps.push_back(s); continue; }
            int x = (int) r.below(100);
            if (st == 2) { s.kind = S_BOGUS; steps.push_back(s); continue; }
            if (x < 22) s.kind = S_ACT; else if (x < 40) s.kind = S_DEACT; else if (x < 52) s.kind = S_FLUSH; else if (x < 60) s.kind = S_CLEAR;
            else if (x < 65) s.kind = S_FLUSHC; else if (x < 72 && i > ops / 2) { s.kind = S_DEL; st = 2; } else if (x < 80) { s.kind = S_CHSET; s.a = &chv; s.v = Variant((int) r.below(100)); }
            else if (x < 90) { s.kind = S_PUSHONE; s.thread = (int) r.below(nth + 1); if (gone.count(s.thread)) s.thread = 0; started[s.thread] = true; } else s.kind = S_BOGUS;
            steps.push_back(s); k.h = k.h * 31 + s.kind; continue;
        }
        int t = (int) r.below(nth + 1); if (gone.count(t)) t = 0;
        if (t && started[t] && r.chance(1)) { gone.insert(t); Step s; s.thread = t; s.kind = S_EXIT; steps.push_back(s); continue; }
        ann(t);
    }
    { PThread& p = ts.at(0); while (!p.open.empty()) { Step s; s.thread = 0; s.kind = S_END; s.a = p.open.back().first; p.open.pop_back(); steps.push_back(s); } for (auto& q : p.refs) for (; q.second > 0; --q.second) { Step s; s.thread = 0; s.kind = S_END; s.a = q.first; steps.push_back(s); } }

    std::map<int, std::vector<std::vector<uint64_t>>> model;
    RunOut all = run_steps(steps, cfgs, k.pfx, -1, k.seq, k.tid, &model);
    size_t recs = 0;
    for (int ch = 0; ch < nch; ++ch) {
        RunOut solo = run_steps(steps, cfgs, k.pfx, ch, k.seq, k.tid, nullptr);
        auto& A1 = all.fl[ch]; auto& B = solo.fl[ch];
        if (A1.size() != B.size()) { viol("c15:flush-count", "number of flushes differs"); continue; }
        for (size_t f = 0; f < A1.size(); ++f) {
            recs += A1[f].size();
            if (A1[f] != B[f]) {
                Flush mi, ex; std::set_difference(B[f].begin(), B[f].end(), A1[f].begin(), A1[f].end(), std::back_inserter(mi)); std::set_difference(A1[f].begin(), A1[f].end(), B[f].begin(), B[f].end(), std::back_inserter(ex));
                viol("c15:differs-from-solo", fmt("flush %zu of channel %d of %d (%s): %zu records alone, %zu among the others\n only alone: %s\n only among others: %s", f, ch, nch, cfgs[ch].text.c_str(), B[f].size(), A1[f].size(), mi.empty() ? "-" : mi[0].substr(0, 600).c_str(), ex.empty() ? "-" : ex[0].substr(0, 600).c_str()));
                break;
            }
            if (cfgs[ch].plain) {
                std::vector<uint64_t> got, want = model[ch][f];
                for (auto& s : A1[f]) { size_t p = s.find("seq=U:"); if (p != std::string::npos) got.push_back(strtoull(s.c_str() + p + 6, 0, 10)); }
                std::sort(got.begin(), got.end()); std::sort(want.begin(), want.end());
                stat("snapshots_while_active", want.size());
                if (got != want) { std::vector<uint64_t> d; std::set_symmetric_difference(got.begin(), got.end(), want.begin(), want.end(), std::back_inserter(d)); viol("c15:wrong-snapshots", fmt("flush %zu of channel %d (%s): %zu snapshots recorded, %zu operations while active; first difference at step %llu", f, ch, cfgs[ch].text.c_str(), got.size(), want.size(), (unsigned long long) d[0])); break; }
            }
            fp(fmt("%ld.%d.%zu.%zu", idx, ch, f, A1[f].size()));
        }
    }
    stat("records_compared", recs); stat("steps", steps.size());
    kase(fmt("c15 %llx.%d.%d", (unsigned long long) k.h, nch, nth));
}

int main(int argc, char** argv) {
    init(argc, argv);
    mode = sarg("mode", "c18");
    cali_init();
    uint64_t seed = iarg("seed", 1);
    for (long i = iarg("from", 0); i < iarg("to", 10); ++i) {
        if (mode == "c18") run_c18(seed, i);
        if (mode == "c15") run_c15(seed, i);
        if (violated()) break;
    }
    done();
    return 0;
}
