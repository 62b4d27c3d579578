// Channels with a log of the snapshots they processed, and random annotation operations
#pragma once
#include "prog.h"
#include <caliper/cali.h>
using namespace vh;

static std::string mode;

struct Chan {
    cali_id_t id = CALI_INV_ID; Channel chn; std::string name, cfg;
    std::map<int, std::vector<LRec>> log; std::mutex m; std::atomic<bool> dead { false };
    std::set<cali_id_t> keys; std::set<std::string> keynames;
    std::vector<Rec> written; // records delivered through write_output events
    size_t nlogged() { size_t n = 0; for (auto& p : log) n += p.second.size(); return n; }
};

static void attach(Chan* ch, bool writer = false) {
    Caliper c;
    ch->chn = c.get_channel(ch->id);
    ch->chn.events().process_snapshot.connect([ch](Caliper*, SnapshotView, SnapshotView rec) {
        std::vector<LRec>* l; { std::lock_guard<std::mutex> g(ch->m); l = &ch->log[my_tid()]; }
        l->push_back(log_rec(rec));
    });
    if (writer)
        ch->chn.events().write_output_evt.connect([ch](Caliper* c, ChannelBody* chB, SnapshotView info) {
            c->flush(chB, info, [ch](CaliperMetadataAccessInterface&, const std::vector<Entry>& rec) {
                ch->written.push_back(rec_of(rec.begin(), rec.end()));
            });
        });
}

static std::vector<std::vector<Entry>> flush_raw(Chan& ch) {
    Caliper c; std::vector<std::vector<Entry>> out;
    c.flush(ch.chn.body(), SnapshotView(), [&](CaliperMetadataAccessInterface&, const std::vector<Entry>& rec) { out.push_back(rec); });
    return out;
}

struct Case {
    Rng r; std::string pfx; uint64_t h = 7;
    std::deque<PAttr> nested, refs, vals, aggr; PAttr seq, tid;
    explicit Case(uint64_t s) : r(s) {}
};

static std::string nm(Case& k, const char* b, int i) { return fmt("%s.%s%d", k.pfx.c_str(), b, i); }
static const cali_attr_type NT[] = { CALI_TYPE_INT, CALI_TYPE_UINT, CALI_TYPE_DOUBLE };

static void more_aggr(Case& k) {
    std::string n = nm(k, "m", (int) k.aggr.size()); cali_attr_type t = NT[k.r.below(3)];
    if (k.r.chance(30)) k.aggr.push_back(make_aggr_by_class(k.r, n, t, CALI_ATTR_ASVALUE | CALI_ATTR_SKIP_EVENTS));
    else k.aggr.push_back(make_attr(n, t, CALI_ATTR_ASVALUE | CALI_ATTR_AGGREGATABLE | CALI_ATTR_SKIP_EVENTS));
}
static void more_val(Case& k) {
    static const cali_attr_type T[] = { CALI_TYPE_INT, CALI_TYPE_UINT, CALI_TYPE_DOUBLE, CALI_TYPE_STRING, CALI_TYPE_BOOL };
    int p = CALI_ATTR_ASVALUE | (k.r.chance(50) ? CALI_ATTR_SKIP_EVENTS : 0);
    cali_attr_type t = T[k.r.below(5)];
    if (t != CALI_TYPE_STRING && t != CALI_TYPE_BOOL && k.r.chance(40)) p |= CALI_ATTR_AGGREGATABLE;
    k.vals.push_back(make_attr(nm(k, "v", (int) k.vals.size()), t, p));
}
static void setup_attrs(Case& k, int nref) {
    for (int i = 0, n = 1 + (int) k.r.below(3); i < n; ++i)
        k.nested.push_back(make_attr(nm(k, "n", i), k.r.chance(80) ? CALI_TYPE_STRING : CALI_TYPE_INT, CALI_ATTR_NESTED * (int) k.r.chance(80) | (k.r.chance(15) ? CALI_ATTR_SKIP_EVENTS : 0)));
    for (int i = 0; i < nref; ++i)
        k.refs.push_back(make_attr(nm(k, "f", i), k.r.chance(70) ? CALI_TYPE_STRING : CALI_TYPE_INT, CALI_ATTR_UNALIGNED | (k.r.chance(50) ? CALI_ATTR_SKIP_EVENTS : 0)));
    for (int i = 0, n = 1 + (int) k.r.below(4); i < n; ++i) more_val(k);
    for (int i = 0, n = 1 + (int) k.r.below(4); i < n; ++i) more_aggr(k);
}

static Variant val_for(Case& k, PThread& t, const PAttr& a, int spread) {
    if (a.type == CALI_TYPE_STRING) return kept_string(t.tag + fmt("%c%d", "rsw"[t.r.below(3)], (int) t.r.below(spread)));
    if (a.type == CALI_TYPE_BOOL) return Variant(t.r.chance(50));
    if (a.aggr) return small_num(t.r, a.type);
    switch (a.type) {
    case CALI_TYPE_INT: return Variant((int) t.r.below(spread) - spread / 2);
    case CALI_TYPE_UINT: return Variant(cali_make_variant_from_uint(t.r.below(spread)));
    default: return Variant((double) t.r.below(spread) / 4 );
    }
    (void) k;
}


// one operation; every channel in 'chans' gets the explicit snapshots
static void op(Case& k, PThread& t, int spread, int maxdepth, bool seqs, const std::vector<Chan*>& chans) {
    Caliper c;
    if (seqs) c.set(k.seq.a, Variant(cali_make_variant_from_uint(++t.seq)));
    int x = (int) t.r.below(100);
    if (x < 22 && (int) t.open.size() < maxdepth) {
        const PAttr& a = t.r.pick(k.nested); Variant v = val_for(k, t, a, spread);
        c.begin(a.a, v); t.open.push_back({ &a, v }); if (a.events) ++t.events; t.note(1);
    } else if (x < 44 && !t.open.empty()) {
        auto o = t.open.back(); t.open.pop_back(); c.end(o.first->a); if (o.first->events) ++t.events; t.note(2);
    } else if (x < 55 && !k.refs.empty()) {
        const PAttr& a = t.r.pick(k.refs); int& n = t.refs[&a];
        if (t.r.chance(45)) { c.set(a.a, val_for(k, t, a, spread)); if (n == 0) n = 1; }
        else if (t.r.chance(60) && n < 4) { c.begin(a.a, val_for(k, t, a, spread)); ++n; }
        else if (n > 0) { c.end(a.a); --n; }
        else return;
        if (a.events) ++t.events;
        t.note(3);
    } else if (x < 68 && !k.vals.empty()) {
        const PAttr& a = t.r.pick(k.vals); int& n = t.refs[&a];
        if (t.r.chance(75)) { c.set(a.a, val_for(k, t, a, spread)); n = 1; } else if (n) { c.end(a.a); n = 0; } else return;
        if (a.events) ++t.events;
        t.note(4);
    } else {
        std::vector<Entry> tr; std::set<size_t> used;
        int n = (int) t.r.below(4); if (t.r.chance(5)) n = (int) k.aggr.size();
        for (int i = 0; i < n; ++i) { size_t j = t.r.below(k.aggr.size()); if (!used.insert(j).second) continue; tr.push_back(Entry(k.aggr[j].a, small_num(t.r, k.aggr[j].type))); }
        for (Chan* ch : chans) c.push_snapshot(ch->chn.body(), SnapshotView(tr.size(), tr.data()));
        ++t.pushes; t.note(5);
    }
}
static void close_all(PThread& t) {
    Caliper c;
    while (!t.open.empty()) { auto o = t.open.back(); t.open.pop_back(); c.end(o.first->a); if (o.first->events) ++t.events; }
    for (auto& p : t.refs) for (; p.second > 0; --p.second) { c.end(p.first->a); if (p.first->events) ++t.events; }
}

