// Variant values: order, identity, text and packed forms, numeric accessors
#include "val.h"
#include "StringConverter.h"
#include <caliper/common/Node.h>
#include <algorithm>
#include <cinttypes>
#include <climits>
#include <memory>
using namespace vh;
typedef __int128 i128;

static std::string sh(const Val& v) { std::string s = esc(v.str()); return s.size() > 90 ? s.substr(0, 90) + fmt("..(%zu)", s.size()) : s; }
// ---- the model: a total order per type, written without the library
static int sgn(int64_t x) { return (x > 0) - (x < 0); }
template <class T> int cmp3(T a, T b) { return (a > b) - (a < b); }
static int mcmp(const Val& a, const Val& b) {
    if (a.type != b.type) return cmp3((int) a.type, (int) b.type);
    switch (a.type) {
    case CALI_TYPE_INT: return cmp3(a.i, b.i);
    case CALI_TYPE_UINT: case CALI_TYPE_ADDR: case CALI_TYPE_PTR: return cmp3(a.u, b.u);
    case CALI_TYPE_DOUBLE: return cmp3(a.d, b.d);
    case CALI_TYPE_BOOL: return cmp3((int) a.b, (int) b.b);
    case CALI_TYPE_TYPE: return cmp3(a.t, b.t);
    case CALI_TYPE_STRING: case CALI_TYPE_USR: {
        size_t n = std::min(a.s.size(), b.s.size());
        for (size_t i = 0; i < n; ++i) if (a.s[i] != b.s[i]) return cmp3((unsigned char) a.s[i], (unsigned char) b.s[i]);
        return cmp3(a.s.size(), b.s.size());
    }
    default: return 0;
    }
}
static bool meq(const Val& a, const Val& b) { return a.type == b.type && (a.type == CALI_TYPE_DOUBLE ? !memcmp(&a.d, &b.d, 8) : mcmp(a, b) == 0); }

// ---- values
static Val mk(Rng& r, cali_attr_type t) {
    Val v;
    if (t == CALI_TYPE_PTR) { v.type = t; v.u = r.next() >> (16 + r.below(40)); return v; }
    v = rnd_val(r, t);
    if (t == CALI_TYPE_STRING || t == CALI_TYPE_USR) {
        int k = (int) r.below(12);
        if (k == 0) v.s.clear();
        else if (k == 1) v.s += '\0';
        else if (k == 2) v.s.insert(v.s.size() / 2, 1, '\0');
        else if (k == 3) v.s = std::string(1 + r.below(3), (char) r.below(256));
        else if (k == 4 && !v.s.empty()) v.s[r.below(v.s.size())] = (char) r.below(256);
    }
    if (t == CALI_TYPE_DOUBLE && r.chance(10)) { uint64_t b; do { b = r.next(); memcpy(&v.d, &b, 8); } while (std::isnan(v.d)); }
    if (t == CALI_TYPE_TYPE) v.t = (int) r.below(CALI_MAXTYPE + 1);
    return v;
}
static Val near(Rng& r, Val v) { // a value that differs slightly
    switch (v.type) {
    case CALI_TYPE_INT: if (r.chance(50)) v.i = (int64_t) ((uint64_t) v.i + 1); else v.i = (int64_t) ((uint64_t) v.i ^ (1ull << r.below(64))); break;
    case CALI_TYPE_UINT: case CALI_TYPE_ADDR: case CALI_TYPE_PTR: v.u ^= 1ull << r.below(v.type == CALI_TYPE_PTR ? 47 : 64); break;
    case CALI_TYPE_DOUBLE: v.d = r.chance(50) ? std::nextafter(v.d, r.chance(50) ? 1e308 : -1e308) : -v.d; break;
    case CALI_TYPE_BOOL: v.b = !v.b; break;
    case CALI_TYPE_TYPE: v.t = (v.t + 1) % (CALI_MAXTYPE + 1); break;
    case CALI_TYPE_STRING: case CALI_TYPE_USR: {
        int k = (int) r.below(5);
        if (v.s.empty() || k == 0) v.s += (char) r.below(256);
        else if (k == 1) v.s.pop_back();
        else if (k == 2) v.s += '\0';
        // bytes away from the first, middle and last one, which the library hashes
        else v.s[r.below(v.s.size())] ^= (char) (1 << r.below(8));
        break;
    }
    default: break;
    }
    return v;
}
// ---- ways to create the variant; backing memory is kept alive by the caller
typedef std::vector<std::unique_ptr<char[]>> Keep;
static char* hold(Keep& k, const void* p, size_t n) { k.emplace_back(new char[n ? n : 1]); char* q = k.back().get(); if (n) memcpy(q, p, n); return q; } // exact size: overreads are seen
static int nways(const Val& v) { switch (v.type) { case CALI_TYPE_INV: return 2; default: return 5; } }
static Variant make(const Val& v, int way, Keep& k) {
    char dirty[64]; memset(dirty, 0xA5, sizeof dirty);
    Variant r;
    switch (v.type) {
    case CALI_TYPE_INV: return way ? Variant(cali_make_empty_variant()) : Variant();
    case CALI_TYPE_STRING:
        if (way == 0 && v.s.find('\0') == std::string::npos) return Variant(hold(k, v.s.c_str(), v.s.size() + 1));
        if (way == 1 && v.s.find('\0') == std::string::npos) return Variant(cali_make_variant_from_string(hold(k, v.s.c_str(), v.s.size() + 1)));
        [[fallthrough]];
    case CALI_TYPE_USR: r = Variant(v.type, v.s.empty() && way == 4 ? nullptr : hold(k, v.s.data(), v.s.size()), v.s.size()); break;
    case CALI_TYPE_BOOL: if (way == 0) return Variant(v.b); dirty[0] = v.b; r = Variant(CALI_TYPE_BOOL, dirty, sizeof(bool)); break;
    case CALI_TYPE_TYPE: { cali_attr_type t = (cali_attr_type) v.t; if (way == 0) return Variant(t); memcpy(dirty, &t, sizeof t); r = Variant(CALI_TYPE_TYPE, hold(k, dirty, sizeof t), sizeof t); break; }
    case CALI_TYPE_DOUBLE: if (way == 0) return Variant(v.d); r = Variant(CALI_TYPE_DOUBLE, hold(k, &v.d, 8), 8); break;
    case CALI_TYPE_INT: if (way == 0) return Variant(cali_make_variant_from_int64(v.i)); if (way == 1 && v.i >= INT_MIN && v.i <= INT_MAX) return Variant((int) v.i); r = Variant(CALI_TYPE_INT, hold(k, &v.i, 8), 8); break;
    case CALI_TYPE_UINT: if (way == 0) return Variant((uint64_t) v.u); if (way == 1 && v.u <= 255) return Variant((unsigned char) v.u); r = Variant(CALI_TYPE_UINT, hold(k, &v.u, 8), 8); break;
    case CALI_TYPE_ADDR: r = Variant(CALI_TYPE_ADDR, hold(k, &v.u, 8), 8); break;
    case CALI_TYPE_PTR: r = Variant(cali_make_variant_from_ptr((void*) v.u)); break;
    }
    if (way == 2) { char* p = hold(k, "", 0); if (r.size() && r.has_unmanaged_data()) { k.emplace_back(new char[r.size()]); p = k.back().get(); } if (!(r.has_unmanaged_data() && !r.data())) return r.copy(p); }
    if (way == 3) { unsigned char buf[32]; memset(buf, 0xEE, sizeof buf); size_t n = r.pack(buf), m = 0; bool ok = false; Variant u = Variant::unpack(buf, &m, &ok); if (!ok || m != n) viol("c29:pack", fmt("unpacks %zu of %zu bytes, ok=%d: ", m, n, ok) + sh(v)); return u; }
    return r;
}
static std::string var_s(const Variant& v) { std::string s = esc(vstr(v)); return s.size() > 90 ? s.substr(0, 90) : s; }

static void pairs(Rng& r) {
    std::vector<Val> vs; Keep k;
    static const cali_attr_type types[] = { CALI_TYPE_INV, CALI_TYPE_USR, CALI_TYPE_INT, CALI_TYPE_UINT, CALI_TYPE_STRING, CALI_TYPE_ADDR, CALI_TYPE_DOUBLE, CALI_TYPE_BOOL, CALI_TYPE_TYPE, CALI_TYPE_PTR };
    for (auto t : types) { int n = t == CALI_TYPE_INV ? 1 : 7; for (int i = 0; i < n; ++i) { Val v; if (i && r.chance(40)) v = near(r, vs[vs.size() - 1 - r.below(i)]); else v = mk(r, t); v.type = t; vs.push_back(v); } }
    std::vector<std::vector<Variant>> x(vs.size());
    for (size_t i = 0; i < vs.size(); ++i) for (int w = 0; w < nways(vs[i]); ++w) {
        x[i].push_back(make(vs[i], w, k));
        const Variant& v = x[i].back();
        if (v.type() != vs[i].type || vstr(v) != (vs[i].type == CALI_TYPE_PTR ? fmt("p:%" PRIu64, vs[i].u) : vs[i].str())) { viol("c29:create", fmt("way %d: ", w) + sh(vs[i]) + " becomes " + var_s(v)); return; }
        if (vs[i].type == CALI_TYPE_INV ? !v.empty() : v.empty()) { viol("c29:empty", sh(vs[i])); return; }
        if (v.c_variant().type_and_size != x[i][0].c_variant().type_and_size) { viol("c29:identity", fmt("way %d: type/size/hash word %" PRIx64 " instead of %" PRIx64 " for ", w, v.c_variant().type_and_size, x[i][0].c_variant().type_and_size) + sh(vs[i])); return; }
    }
    long np = 0, neq = 0;
    for (size_t i = 0; i < vs.size(); ++i) for (size_t j = 0; j < vs.size(); ++j) for (int rep = 0; rep < (i == j ? 6 : 1); ++rep) {
        const Variant &a = r.pick(x[i]), &b = r.pick(x[j]);
        int c = sgn(cali_variant_compare(a.c_variant(), b.c_variant())), m = mcmp(vs[i], vs[j]); bool e = meq(vs[i], vs[j]); ++np; neq += e;
        // values of one type: the natural order; of different types: any consistent one
        if (vs[i].type == vs[j].type ? c != m : c == 0 || c != -sgn(cali_variant_compare(b.c_variant(), a.c_variant()))) { viol("c29:order", fmt("compare gives %d, expected %d: ", c, m) + sh(vs[i]) + " and " + sh(vs[j])); return; }
        if (cali_variant_eq(a.c_variant(), b.c_variant()) != e || (a == b) != e || (a != b) == e) { viol("c29:equality", fmt("equality gives %d, expected %d: ", (int) (a == b), (int) e) + sh(vs[i]) + " and " + sh(vs[j])); return; }
        if ((a < b) != (c < 0) || (a > b) != (c > 0)) { viol("c29:operators", "operators disagree with the comparison for " + sh(vs[i]) + " and " + sh(vs[j])); return; }
    }
    // transitivity over types: sorting gives one order whatever the input order
    std::vector<Variant> s1, s2; for (auto& l : x) s1.push_back(l[r.below(l.size())]);
    s2 = s1; for (size_t i = s2.size(); i > 1; --i) std::swap(s2[i - 1], s2[r.below(i)]);
    std::sort(s1.begin(), s1.end()); std::sort(s2.begin(), s2.end());
    for (size_t i = 0; i < s1.size(); ++i) if (cali_variant_compare(s1[i].c_variant(), s2[i].c_variant()) != 0) { viol("c29:sort", "sorted order depends on the input order at " + var_s(s1[i]) + " / " + var_s(s2[i])); return; }
    for (size_t i = 0; i < s1.size(); ++i) for (size_t j = i; j < s1.size(); ++j) if (s1[j] < s1[i]) { viol("c29:transitive", var_s(s1[j]) + " sorted after " + var_s(s1[i])); return; }
    stat("value_pairs_compared", np); stat("equal_pairs", neq);
    kase(fmt("pairs %016" PRIx64, r.s));
}
static void packed(Rng& r) {
    int n = 1 + (int) r.below(40); Keep k; std::vector<Val> vs; std::vector<Variant> x; std::vector<size_t> len;
    std::vector<unsigned char> buf(32 * n, 0xEE); size_t pos = 0;
    for (int i = 0; i < n; ++i) {
        static const cali_attr_type types[] = { CALI_TYPE_INV, CALI_TYPE_USR, CALI_TYPE_INT, CALI_TYPE_UINT, CALI_TYPE_STRING, CALI_TYPE_ADDR, CALI_TYPE_DOUBLE, CALI_TYPE_BOOL, CALI_TYPE_TYPE, CALI_TYPE_PTR };
        Val v = mk(r, types[r.below(10)]); vs.push_back(v); x.push_back(make(v, (int) r.below(nways(v)), k));
        size_t l = x.back().pack(buf.data() + pos); len.push_back(l);
        if (!l || l > 20) { viol("c29:pack-size", fmt("%zu bytes for ", l) + sh(v)); return; }
        for (size_t j = pos + l; j < buf.size(); ++j) if (buf[j] != 0xEE) { viol("c29:pack-overrun", "writes behind its end: " + sh(v)); return; }
        pos += l;
    }
    std::unique_ptr<unsigned char[]> ex(new unsigned char[pos]); memcpy(ex.get(), buf.data(), pos); // exact size: overreads are seen
    size_t p = 0;
    for (int i = 0; i < n; ++i) {
        bool ok = false; size_t inc = 7; Variant u = Variant::unpack(ex.get() + p, &inc, &ok); inc -= 7;
        if (!ok || inc != len[i]) { viol("c29:unpack", fmt("ok=%d, %zu bytes of %zu: ", ok, inc, len[i]) + sh(vs[i])); return; }
        if (!(u == x[i]) || u.type() != vs[i].type || vstr(u) != vstr(x[i])) { viol("c29:pack-value", sh(vs[i]) + " becomes " + var_s(u)); return; }
        p += inc;
    }
    stat("packed_values", n);
    kase(fmt("packed %016" PRIx64, r.s));
}
static void text(Rng& r) {
    static const cali_attr_type types[] = { CALI_TYPE_INT, CALI_TYPE_UINT, CALI_TYPE_STRING, CALI_TYPE_ADDR, CALI_TYPE_DOUBLE, CALI_TYPE_BOOL, CALI_TYPE_TYPE };
    for (int i = 0; i < 60; ++i) {
        Keep k; Val v = mk(r, types[r.below(7)]);
        if (v.type == CALI_TYPE_STRING) { std::string s; for (char c : v.s) if (c) s += c; v.s = s; }
        if (v.type == CALI_TYPE_TYPE && v.t == 0) v.t = 1;
        Variant x = make(v, (int) r.below(nways(v)), k);
        std::string s = x.to_string();
        std::ostringstream o1; o1 << x; if (o1.str() != s) { viol("c29:stream", "operator<< and to_string differ for " + sh(v)); return; }
        if (v.type == CALI_TYPE_DOUBLE) {
            // to_string prints a fixed number of decimals; the .cali form must be exact
            char* e = nullptr; double d = strtod(s.c_str(), &e);
            if (e == s.c_str() || *e || !(d == v.d || std::fabs(d - v.d) <= 0.5000001e-6)) { viol("c29:to-string", sh(v) + " prints as " + s); return; }
            std::ostringstream os; x.write_cali(os); s = os.str();
        } else if (v.type != CALI_TYPE_STRING) {
            std::ostringstream os; x.write_cali(os); if (os.str() != s) { viol("c29:write-cali", sh(v) + " written as " + os.str() + " and " + s); return; }
        }
        Variant y = Variant::from_string(v.type, s.c_str());
        if (y.type() != v.type || !(y == x) || cali_variant_compare(x.c_variant(), y.c_variant()) != 0 || vstr(x) != vstr(y) || y.c_variant().type_and_size != x.c_variant().type_and_size) { viol("c29:text", sh(v) + " prints as \"" + s + "\", which is read as " + var_s(y)); return; }
        stat("values_to_text_and_back"); 
    }
    kase(fmt("text %016" PRIx64, r.s));
}
// numbers in text form: exact within range, failure outside
static std::string dec(i128 x) { bool neg = x < 0; if (neg) x = -x; std::string s; do { s.insert(s.begin(), (char) ('0' + (int) (x % 10))); x /= 10; } while (x); return (neg ? "-" : "") + s; }
static void numbers(Rng& r) {
    static const i128 edge[] = { 0, 1, -1, INT_MAX, (i128) INT_MAX + 1, INT_MIN, (i128) INT_MIN - 1, UINT_MAX, (i128) UINT_MAX + 1, INT64_MAX, (i128) INT64_MAX + 1, INT64_MIN, (i128) INT64_MIN - 1, UINT64_MAX, (i128) UINT64_MAX + 1, (i128) UINT64_MAX * 3, -(i128) UINT64_MAX, (i128) 1 << 66, ((i128) 1 << 64) + 17, -((i128) 1 << 64) + 17 };
    const i128 lo64 = INT64_MIN, hi64 = INT64_MAX, hiu = UINT64_MAX;
    for (int i = 0; i < 60; ++i) {
        i128 n = r.chance(50) ? edge[r.below(sizeof edge / sizeof *edge)] + (r.chance(50) ? r.range(-2, 2) : 0) : (i128) (int64_t) r.next() >> r.below(64);
        if (r.chance(10)) n *= 10 + (int) r.below(1000);
        std::string s = dec(n);
        bool fi = n >= lo64 && n <= hi64, fu = n >= 0 && n <= hiu, f32 = n >= INT_MIN && n <= INT_MAX;
        Variant v = Variant::from_string(CALI_TYPE_INT, s.c_str());
        if (fi ? !(v.type() == CALI_TYPE_INT && v.to_int64() == (int64_t) n) : !v.empty()) { viol("c29:int-text", "int \"" + s + "\" is read as " + var_s(v)); return; }
        v = Variant::from_string(CALI_TYPE_UINT, s.c_str());
        if (fu ? !(v.type() == CALI_TYPE_UINT && v.to_uint() == (uint64_t) n) : !v.empty()) { viol("c29:uint-text", "uint \"" + s + "\" is read as " + var_s(v)); return; }
        bool ok;
        cali::StringConverter c(s);
        ok = !f32; int a = c.to_int(&ok); if (ok != f32 || (ok && a != (int) n)) { viol("c29:text-to-int", fmt("ok=%d %d from ", ok, a) + s); return; }
        ok = !fi; int64_t b = c.to_int64(&ok); if (ok != fi || (ok && b != (int64_t) n)) { viol("c29:text-to-int64", fmt("ok=%d %" PRId64 " from ", ok, b) + s); return; }
        ok = !fu; uint64_t u = c.to_uint(&ok); if (ok != fu || (ok && u != (uint64_t) n)) { viol("c29:text-to-uint", fmt("ok=%d %" PRIu64 " from ", ok, u) + s); return; }
        double d = c.to_double(&ok); if (!ok || d != strtod(s.c_str(), nullptr)) { viol("c29:text-to-double", s); return; }
        if (fu) { std::string h = fmt("%" PRIx64, (uint64_t) n); v = Variant::from_string(CALI_TYPE_ADDR, h.c_str()); if (v.type() != CALI_TYPE_ADDR || v.to_uint() != (uint64_t) n) { viol("c29:addr-text", h); return; } if (cali::StringConverter(h).to_uint(&ok, 16) != (uint64_t) n || !ok) { viol("c29:hex-text", h); return; } }
        else if (n > hiu) { char h[40]; snprintf(h, sizeof h, "%" PRIx64 "%016" PRIx64, (uint64_t) ((unsigned __int128) n >> 64), (uint64_t) n); if (!Variant::from_string(CALI_TYPE_ADDR, h).empty()) { viol("c29:addr-text", std::string(h) + " is accepted"); return; } }
        stat("numbers_in_text");
    }
    static const char* bad[] = { "", "x", "-", "+-1", "foo", "--2", "e5", ".", "{", "tru", "null" };
    static const cali_attr_type types[] = { CALI_TYPE_INT, CALI_TYPE_UINT, CALI_TYPE_DOUBLE, CALI_TYPE_BOOL, CALI_TYPE_TYPE };
    for (auto b : bad) { for (auto t : types) if (!Variant::from_string(t, b).empty()) { viol("c29:bad-text", std::string("\"") + b + "\" is read as a " + cali_type2string(t)); return; } bool ok = true; cali::StringConverter(b).to_double(&ok); if (ok) viol("c29:bad-number", b); ok = true; cali::StringConverter(b).to_int(&ok); if (ok) viol("c29:bad-number", b); ok = true; cali::StringConverter(b).to_bool(&ok); if (ok) viol("c29:bad-bool", b); stat("invalid_texts"); }
    for (const char* b : { "true", "True", "TRUE", "t", "1", "17" }) { bool ok = false; if (!cali::StringConverter(b).to_bool(&ok) || !ok || !(Variant::from_string(CALI_TYPE_BOOL, b) == Variant(true))) viol("c29:bool-text", b); }
    for (const char* b : { "false", "False", "FALSE", "f", "0", "00" }) { bool ok = false; if (StringConverter(b).to_bool(&ok) || !ok || !(Variant::from_string(CALI_TYPE_BOOL, b) == Variant(false))) viol("c29:bool-text", b); }
    for (int t = 1; t <= CALI_MAXTYPE; ++t) if (cali_string2type(cali_type2string((cali_attr_type) t)) != (cali_attr_type) t) viol("c29:type-name", fmt("type %d", t));
    kase(fmt("numbers %016" PRIx64, r.s));
}
static void accessors(Rng& r) {
    static const cali_attr_type types[] = { CALI_TYPE_INV, CALI_TYPE_USR, CALI_TYPE_INT, CALI_TYPE_UINT, CALI_TYPE_STRING, CALI_TYPE_ADDR, CALI_TYPE_DOUBLE, CALI_TYPE_BOOL, CALI_TYPE_TYPE, CALI_TYPE_PTR };
    static const double edges[] = { 2147483647.0, 2147483648.0, 2147483647.5, 2147483648.5, -2147483648.0, -2147483649.0, -2147483648.5, 9223372036854775807.0, 9223372036854774784.0, -9223372036854775808.0, -9223372036854777856.0, 18446744073709551615.0, 18446744073709549568.0, -0.5, -1.0, -0.99999, 0.99999, 1e19, 1e20, -1e19, 4294967295.0, 4294967296.0 };
    for (int i = 0; i < 80; ++i) {
        Keep k; Val v = mk(r, types[r.below(10)]); if (v.type == CALI_TYPE_DOUBLE && r.chance(50)) { v.d = edges[r.below(sizeof edges / sizeof *edges)]; if (r.chance(30)) v.d = std::nextafter(v.d, r.chance(50) ? 1e300 : -1e300); }
        if (v.type == CALI_TYPE_DOUBLE && r.chance(4)) v.d = std::nan("");
        Variant x = make(v, (int) r.below(v.type == CALI_TYPE_INV ? 2 : 3), k);
        i128 n = 0; bool has = true; double d = 0;
        switch (v.type) {
        case CALI_TYPE_INT: n = v.i; d = (double) v.i; break;
        case CALI_TYPE_UINT: case CALI_TYPE_ADDR: n = v.u; d = (double) v.u; break;
        case CALI_TYPE_BOOL: n = v.b; d = v.b; break;
        case CALI_TYPE_TYPE: n = v.t; d = v.t; break;
        case CALI_TYPE_DOUBLE: d = v.d; if (std::isnan(d) || std::fabs(d) > 1e30) n = (i128) 1 << 100; else n = (i128) d; break;
        default: has = false;
        }
        auto chk = [&](const char* what, bool ok, bool want, bool same, bool zero) {
            if (ok != want || (want ? !same : !zero)) { viol("c29:accessor", fmt("%s: ok=%d, expected %d, value %s: ", what, ok, want, (want ? same : zero) ? "right" : "wrong") + sh(v)); return false; }
            stat(want ? "accessor_exact" : "accessor_refused"); return true;
        };
        bool ok, w;
        w = has && n >= INT_MIN && n <= INT_MAX; ok = !w; int a = x.to_int(&ok); if (!chk("to_int", ok, w, a == (int) n, a == 0)) return;
        w = has && n >= (i128) INT64_MIN && n <= (i128) INT64_MAX; ok = !w; int64_t b = x.to_int64(&ok); if (!chk("to_int64", ok, w, b == (int64_t) n, b == 0)) return;
        w = has && n >= 0 && n <= (i128) UINT64_MAX; ok = !w; uint64_t u = x.to_uint(&ok); if (!chk("to_uint", ok, w, u == (uint64_t) n, u == 0)) return;
        ok = !w; uint64_t id = x.to_id(&ok); if (!chk("to_id", ok, w, id == (uint64_t) n, id == CALI_INV_ID)) return;
        ok = !has; double dd = x.to_double(&ok); if (!chk("to_double", ok, has, !memcmp(&dd, &d, 8), dd == 0)) return;
        w = v.type == CALI_TYPE_INT || v.type == CALI_TYPE_UINT || v.type == CALI_TYPE_ADDR || v.type == CALI_TYPE_BOOL; ok = !w; bool bb = x.to_bool(&ok); if (!chk("to_bool", ok, w, bb == (n != 0), !bb)) return;
        w = v.type == CALI_TYPE_TYPE; ok = !w; int t = x.to_attr_type(&ok); if (!chk("to_type", ok, w, t == v.t, t == CALI_TYPE_INV)) return;
        if (x.get_ptr() != (v.type == CALI_TYPE_PTR ? (void*) v.u : nullptr)) { viol("c29:get-ptr", sh(v)); return; }
        // without a success flag
        if (x.to_int() != a || x.to_int64() != b || x.to_uint() != u || x.to_bool() != bb) { viol("c29:accessor-null", sh(v)); return; }
    }
    kase(fmt("accessors %016" PRIx64, r.s));
}
// minimum, maximum, sums
static void arith(Rng& r) {
    static const cali_attr_type types[] = { CALI_TYPE_INT, CALI_TYPE_UINT, CALI_TYPE_DOUBLE };
    for (auto t : types) for (int rep = 0; rep < 4; ++rep) {
        Variant mn, mx, sm, a, b, c; Val vmn, vmx; uint64_t su = 0; double sd = 0; int n = 1 + (int) r.below(20);
        for (int i = 0; i < n; ++i) {
            Val v = mk(r, t); if (t == CALI_TYPE_DOUBLE && !std::isfinite(v.d)) v.d = 1.25; if (t == CALI_TYPE_DOUBLE && v.d == 0) v.d = 0.0;
            if (t == CALI_TYPE_DOUBLE && std::fabs(v.d) > 1e200) v.d = 3;
            Variant x = v.var(); if (!i || mcmp(v, vmn) < 0) vmn = v; if (!i || mcmp(v, vmx) > 0) vmx = v; su += (uint64_t) v.i + v.u; sd = i ? sd + v.d : v.d;
            Variant::update_minmaxsum(x, mn, mx, sm); a.min(x); b.max(x); c += x;
        }
        Val s; s.type = t; s.i = (int64_t) su; s.u = su; s.d = sd;
        if (vstr(mn) != vmn.str() || vstr(a) != vmn.str()) { viol("c29:min", sh(vmn) + ": " + var_s(mn) + " " + var_s(a)); return; }
        if (vstr(mx) != vmx.str() || vstr(b) != vmx.str()) { viol("c29:max", sh(vmx) + ": " + var_s(mx) + " " + var_s(b)); return; }
        if (vstr(sm) != s.str() || vstr(c) != s.str()) { viol("c29:sum", sh(s) + ": " + var_s(sm) + " " + var_s(c)); return; }
        stat("sums");
    }
    kase(fmt("arith %016" PRIx64, r.s));
}
// equal values have the same context node, different values different ones
static void nodes(Rng& r, long idx) {
    Caliper c;
    static const cali_attr_type types[] = { CALI_TYPE_USR, CALI_TYPE_INT, CALI_TYPE_UINT, CALI_TYPE_STRING, CALI_TYPE_ADDR, CALI_TYPE_DOUBLE, CALI_TYPE_BOOL, CALI_TYPE_TYPE };
    for (auto t : types) {
        Attribute at = c.create_attribute(fmt("c29.%ld.%d", idx, (int) t).c_str(), t, CALI_ATTR_DEFAULT);
        std::vector<std::pair<Val, Node*>> seen; Node* parent = nullptr;
        for (int i = 0; i < 12; ++i) {
            Val v = seen.empty() || r.chance(40) ? mk(r, t) : r.chance(50) ? near(r, r.pick(seen).first) : r.pick(seen).first;
            { Node* n; { Keep k; n = c.make_tree_entry(at, make(v, (int) r.below(5), k), parent); } // the memory is gone afterwards
              if (!n || vstr(n->data()) != v.str() || n->attribute() != at.id()) { viol("c29:node", sh(v) + " is stored as " + (n ? var_s(n->data()) : "nothing")); return; }
              for (auto& p : seen) if ((p.second == n) != meq(p.first, v)) { viol("c29:node-identity", sh(p.first) + " and " + sh(v) + (p.second == n ? " share a node" : " have different nodes")); return; }
              seen.emplace_back(v, n); stat("nodes"); }
        }
    }
    kase(fmt("nodes %016" PRIx64, r.s));
}
int main(int argc, char** argv) {
    init(argc, argv); cali_config_set("CALI_LOG_VERBOSITY", "0"); cali_init();
    uint64_t seed = iarg("seed", 1);
    for (long i = iarg("from", 0); i < iarg("to", 10) && !violated(); ++i) {
        Rng r(mix(seed, i));
        for (int k = 0; k < 10 && !violated(); ++k) { pairs(r); packed(r); text(r); numbers(r); accessors(r); arith(r); }
        nodes(r, i);
    }
    done(); return 0;
}
