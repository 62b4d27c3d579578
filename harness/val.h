// Values and context entries in a form independent of the library's own comparison code
#pragma once
#include "vh.h"
#include <caliper/cali.h>
#include <caliper/Caliper.h>
#include <caliper/SnapshotRecord.h>
#include <cmath>
#include <deque>

namespace vh {
using namespace cali;

// exact rendering: type + raw payload
inline std::string vstr(const cali_variant_t& v) {
    cali_attr_type t = cali_variant_get_type(v);
    switch (t) {
    case CALI_TYPE_INV: return "inv";
    case CALI_TYPE_STRING:
    case CALI_TYPE_USR:
        return (t == CALI_TYPE_STRING ? "s:" : "u:") + std::string(static_cast<const char*>(cali_variant_get_data(&v)), cali_variant_get_size(v));
    case CALI_TYPE_BOOL: return v.value.v_bool ? "b:1" : "b:0";
    case CALI_TYPE_TYPE: return "t:" + std::to_string((int) v.value.v_type);
    case CALI_TYPE_DOUBLE: { uint64_t b; double d = v.value.v_double; memcpy(&b, &d, 8); return fmt("d:%016llx", (unsigned long long) b); }
    case CALI_TYPE_INT: return "i:" + std::to_string((long long) v.value.v_int);
    case CALI_TYPE_UINT: return "U:" + std::to_string((unsigned long long) v.value.v_uint);
    case CALI_TYPE_ADDR: return "a:" + std::to_string((unsigned long long) v.value.v_uint);
    case CALI_TYPE_PTR: return "p:" + std::to_string((unsigned long long) v.value.v_uint);
    }
    return "?";
}
inline std::string vstr(const Variant& v) { return vstr(v.c_variant()); }

// The expected rendering is built from what the driver passed in, not from the library's variant
struct Val {
    cali_attr_type type = CALI_TYPE_INV;
    std::string s;        // string/usr payload
    int64_t i = 0; uint64_t u = 0; double d = 0; bool b = false; int t = 0;
    std::string str() const {
        switch (type) {
        case CALI_TYPE_STRING: return "s:" + s;
        case CALI_TYPE_USR: return "u:" + s;
        case CALI_TYPE_BOOL: return b ? "b:1" : "b:0";
        case CALI_TYPE_TYPE: return "t:" + std::to_string(t);
        case CALI_TYPE_DOUBLE: { uint64_t x; memcpy(&x, &d, 8); return fmt("d:%016llx", (unsigned long long) x); }
        case CALI_TYPE_INT: return "i:" + std::to_string((long long) i);
        case CALI_TYPE_UINT: return "U:" + std::to_string((unsigned long long) u);
        case CALI_TYPE_ADDR: return "a:" + std::to_string((unsigned long long) u);
        default: return "inv";
        }
    }
    // note: the variant points into this object for string types
    Variant var() const {
        switch (type) {
        case CALI_TYPE_STRING: return Variant(CALI_TYPE_STRING, s.data(), s.size());
        case CALI_TYPE_USR: return Variant(CALI_TYPE_USR, s.data(), s.size());
        case CALI_TYPE_BOOL: return Variant(b);
        case CALI_TYPE_TYPE: return Variant((cali_attr_type) t);
        case CALI_TYPE_DOUBLE: return Variant(d);
        case CALI_TYPE_INT: return Variant(cali_make_variant_from_int64(i));
        case CALI_TYPE_UINT: return Variant(cali_make_variant_from_uint(u));
        case CALI_TYPE_ADDR: { uint64_t x = u; return Variant(CALI_TYPE_ADDR, &x, sizeof x); }
        default: return Variant();
        }
    }
};

inline std::string rnd_string(Rng& r, int maxlen = 24) {
    static const char* odd[] = { "a,b", "x=y", "back\\slash", "new\nline", "tab\t", "\"quoted\"", "%s%n", "k={v}", " lead", "trail ", "\xc3\xa4\xe2\x82\xac",
                                 "\x80\xff", "a/b", "[2]", "1", "-1", "true", "0x10", "main", "foo", "bar" };
    int k = (int) r.below(10);
    if (k < 3) return odd[r.below(sizeof odd / sizeof *odd)];
    if (k == 4 && r.chance(20)) return "";
    if (k == 3) return std::string(1 + r.below(3000), (char) ('a' + r.below(26))) + std::to_string(r.below(100));
    std::string s;
    int n = 1 + (int) r.below(maxlen);
    for (int i = 0; i < n; ++i) s += (char) (k == 4 ? 1 + r.below(255) : 'a' + r.below(26));
    return s;
}

inline Val rnd_val(Rng& r, cali_attr_type t) {
    static const int64_t ints[] = { 0, 1, -1, 2, 42, INT32_MAX, INT32_MIN, (int64_t) INT32_MAX + 1, INT64_MAX, INT64_MIN, 1ll << 53, -(1ll << 40), 255, 256, 127, 128, 16384 };
    static const double dbls[] = { 0.0, -0.0, 1.0, -1.5, 0.1, 1e300, -1e-300, 3.141592653589793, 1e15 + 0.5, 4.9e-324, 123456789.123456789, INFINITY, -INFINITY };
    Val v; v.type = t;
    switch (t) {
    case CALI_TYPE_INT: v.i = r.chance(50) ? ints[r.below(sizeof ints / sizeof *ints)] : (int64_t) r.next() >> r.below(64); break;
    case CALI_TYPE_UINT: case CALI_TYPE_ADDR: v.u = r.chance(50) ? (uint64_t) ints[r.below(sizeof ints / sizeof *ints)] : r.next() >> r.below(64); break;
    case CALI_TYPE_DOUBLE: v.d = r.chance(50) ? dbls[r.below(sizeof dbls / sizeof *dbls)] : (double) (int64_t) r.next() / (double) (1 + r.below(1000000)); break;
    case CALI_TYPE_BOOL: v.b = r.chance(50); break;
    case CALI_TYPE_TYPE: v.t = 1 + (int) r.below(8); break;
    case CALI_TYPE_STRING: v.s = rnd_string(r); break;
    case CALI_TYPE_USR: { int n = 1 + (int) r.below(60); for (int k = 0; k < n; ++k) v.s += (char) r.below(256); break; }
    default: break;
    }
    return v;
}

// A snapshot/record as a multiset of entries; nested entries as the path from the outermost element
typedef std::vector<std::pair<cali_id_t, std::string>> Path;
struct Rec {
    std::vector<Path> entries; // sorted
    bool operator==(const Rec& o) const { return entries == o.entries; }
    void add(Path p) { entries.push_back(std::move(p)); }
    void norm() { std::sort(entries.begin(), entries.end()); }
};
inline Path path_of(const Entry& e) {
    Path p;
    if (e.is_immediate()) { p.push_back({ e.attribute(), vstr(e.value()) }); return p; }
    for (const Node* n = e.node(); n && n->attribute() != CALI_INV_ID; n = n->parent()) p.push_back({ n->attribute(), vstr(n->data()) });
    std::reverse(p.begin(), p.end());
    return p;
}
template <class It> Rec rec_of(It b, It e) { Rec r; for (; b != e; ++b) r.add(path_of(*b)); r.norm(); return r; }
inline Rec rec_of(SnapshotView v) { return rec_of(v.begin(), v.end()); }

inline std::string show(Caliper& c, const Path& p) {
    std::string s;
    for (auto& e : p) { if (!s.empty()) s += " > "; std::string v = e.second; if (v.size() > 40) v = v.substr(0, 40) + "..(" + std::to_string(v.size()) + ")"; s += c.get_attribute(e.first).name() + "=" + v; }
    return s;
}
inline std::string show(Caliper& c, const Rec& r) { std::string s = "{"; for (auto& p : r.entries) s += " [" + show(c, p) + "]"; return s + " }"; }
} // namespace vh
