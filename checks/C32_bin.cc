// C32: every message shape in the bound is encoded by an independent encoder and parsed back; every truncation of it and
// every replacement of one of its length, type and count fields is parsed too and compared with a strict reference reader. ASAN.
#define MC_MAIN
#include "mc.hh"
#include <cmath>
#include <set>
#include <algorithm>
#include "trick/var_binary_parser.hh"
#include "trick/variable_server_message_types.h"
typedef std::vector<unsigned char> B;
struct K { TRICK_TYPE t; unsigned sz; };
static const K KS[] = {{TRICK_CHARACTER, 1}, {TRICK_UNSIGNED_CHARACTER, 1}, {TRICK_BOOLEAN, 1}, {TRICK_SHORT, 2}, {TRICK_UNSIGNED_SHORT, 2}, {TRICK_INTEGER, 4}, {TRICK_UNSIGNED_INTEGER, 4}, {TRICK_LONG, 8}, {TRICK_UNSIGNED_LONG, 8},
    {TRICK_LONG_LONG, 8}, {TRICK_UNSIGNED_LONG_LONG, 8}, {TRICK_FLOAT, 4}, {TRICK_DOUBLE, 8}, {TRICK_WCHAR, sizeof(wchar_t)}, {TRICK_STRING, 1}, {TRICK_ENUMERATED, 4}, {TRICK_BITFIELD, 4}};
enum { NK = sizeof KS / sizeof *KS };
static const char *NAMES[] = {"a", "", "obj.member[3].x", "a"};
static const unsigned char PAT[][8] = {{0x12, 0x34, 0x56, 0x78, 0x9a, 0xbc, 0xde, 0xf1}, {0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff}, {0, 0, 0, 0x80, 0, 0, 0, 0x80}, {1, 0, 0, 0, 0, 0, 0, 0}};
struct V { std::string name; int k; B val; };                        // val in host order
struct M { int type; std::vector<V> v; };
static void put(B &b, uint32_t x, bool sw) { for (int i = 0; i < 4; i++) b.push_back(x >> 8 * (sw ? 3 - i : i)); }
static B encode(const M &m, bool sw, bool nn, std::vector<size_t> *fields = 0) {
    B body; std::vector<size_t> f;
    for (auto &v : m.v) {
        if (!nn) { f.push_back(12 + body.size()); put(body, v.name.size(), sw); body.insert(body.end(), v.name.begin(), v.name.end()); }
        f.push_back(12 + body.size()); put(body, KS[v.k].t, sw); f.push_back(12 + body.size()); put(body, v.val.size(), sw);
        unsigned es = KS[v.k].sz; for (size_t i = 0; i < v.val.size(); i++) body.push_back(sw ? v.val[i / es * es + es - 1 - i % es] : v.val[i]);
    }
    B b; put(b, m.type, sw); put(b, 8 + body.size(), sw); put(b, m.v.size(), sw); b.insert(b.end(), body.begin(), body.end());
    f.push_back(0); f.push_back(4); f.push_back(8); if (fields) *fields = f; return b;
}
static uint32_t get(const B &b, size_t p, bool sw) { uint32_t r = 0; for (int i = 0; i < 4; i++) r |= (uint32_t)b[p + i] << 8 * (sw ? 3 - i : i); return r; }
struct RV { std::string name; int type; B raw; };
static bool reference(const B &b, bool sw, bool nn, int &type, std::vector<RV> &out) {
    if (b.size() < 12) return false; type = (int)get(b, 0, sw); if (type < -1 || type > 6) return false;
    if ((uint64_t)get(b, 4, sw) + 4 != b.size()) return false; uint64_t n = get(b, 8, sw), p = 12;
    for (uint64_t i = 0; i < n; i++) { RV v;
        if (!nn) { if (p + 4 > b.size()) return false; uint64_t l = get(b, p, sw); p += 4; if (p + l > b.size()) return false; v.name.assign(b.begin() + p, b.begin() + p + l); p += l; } else v.name = "<no name>";
        if (p + 8 > b.size()) return false; v.type = (int)get(b, p, sw); uint64_t l = get(b, p + 4, sw); p += 8; if (p + l > b.size()) return false; v.raw.assign(b.begin() + p, b.begin() + p + l); p += l; out.push_back(v); }
    return p == b.size();
}
template <class T> static bool val1(Var &v, TRICK_TYPE t, const B &host, bool fits) {     // right type: the value; any other type: refused
    try { T x = v.getValue<T>(); if (v.getType() != t || !fits) return false; return memcmp(&x, &host[0], sizeof(T) < host.size() ? sizeof(T) : host.size()) == 0; } catch (ParseTypeException &) { return v.getType() != t || !fits; }
}
static void compare(const B &in, bool sw, bool nn, const char *what) {
    B b(in); b.shrink_to_fit(); int type = 0; std::vector<RV> want; bool ok = reference(b, sw, nn, type, want), got; std::string err;
    ParsedBinaryMessage m(sw, nn);
    try { m.parse(b); got = true; } catch (MalformedMessageException &e) { got = false; err = e.what(); }
    mc::step(); mc::state(mc::hash(&b[0], b.size(), sw * 2 + nn)); mc::outcome(mc::hv(got, (long)want.size()));
    if (got != ok) mc::fail(ok ? "well-formed-refused" : std::string("malformed-accepted-") + what, "%s: message of %zu bytes, byteswap %d, nonames %d: %s", what, b.size(), sw, nn, got ? "accepted" : err.c_str());
    if (!ok) return;
    if (m.getMessageType() != type || m.getMessageSize() != b.size() - 4 || m.getNumVars() != want.size() || m.variables.size() != want.size()) mc::fail("header", "%s: type %d want %d, size %u want %zu, variables %u/%zu want %zu", what, m.getMessageType(), type, m.getMessageSize(), b.size() - 4, m.getNumVars(), m.variables.size(), want.size());
    for (size_t i = 0; i < want.size(); i++) {
        Var v = m.getVariable((unsigned)i); const RV &w = want[i];
        if (v.getName() != w.name || (int)v.getType() != w.type || v.getRawBytes() != w.raw) mc::fail("record", "%s: variable %zu: name '%s' want '%s', type %d want %d", what, i, v.getName().c_str(), w.name.c_str(), (int)v.getType(), w.type);
        unsigned es = 0; for (int k = 0; k < NK; k++) if ((int)KS[k].t == w.type && k < 14) es = KS[k].sz;
        int as = es ? w.raw.size() % es ? -1 : (int)(w.raw.size() / es) : -1; if (v.getArraySize() != as) mc::fail("array-size", "%s: type %d of %zu bytes: array size %d want %d", what, w.type, w.raw.size(), v.getArraySize(), as);
        bool fits = es && w.raw.size() >= es; B host(w.raw.begin(), w.raw.begin() + (fits ? es : 0)); if (sw) std::reverse(host.begin(), host.end()); host.resize(8);
        bool r = true; const char *bad = "";
        #define G(T, C) if (!val1<T>(v, C, host, fits)) { r = false; bad = #T; }
        G(char, TRICK_CHARACTER) G(unsigned char, TRICK_UNSIGNED_CHARACTER) G(short, TRICK_SHORT) G(unsigned short, TRICK_UNSIGNED_SHORT) G(int, TRICK_INTEGER) G(unsigned int, TRICK_UNSIGNED_INTEGER) G(long, TRICK_LONG) G(unsigned long, TRICK_UNSIGNED_LONG)
        G(long long, TRICK_LONG_LONG) G(unsigned long long, TRICK_UNSIGNED_LONG_LONG) G(float, TRICK_FLOAT) G(double, TRICK_DOUBLE) G(wchar_t, TRICK_WCHAR)
        if (w.type == TRICK_BOOLEAN && fits && host[0] > 1) ; else G(bool, TRICK_BOOLEAN)
        try { std::string s = v.getValue<std::string>(); if (w.type != TRICK_STRING || s != std::string(w.raw.begin(), w.raw.end())) { r = false; bad = "string"; } } catch (ParseTypeException &) { if (w.type == TRICK_STRING) { r = false; bad = "string"; } }
        if (!r) mc::fail("value", "%s: variable %zu of type %d and %zu bytes read as %s, byteswap %d", what, i, w.type, w.raw.size(), bad, sw);
        try { Var q = m.getVariable(w.name); if (nn) mc::fail("name-lookup", "by name in a message without names"); size_t j = 0; while (want[j].name != w.name) j++; if (q.getRawBytes() != want[j].raw) mc::fail("name-lookup", "'%s' gives another variable", w.name.c_str()); } catch (IncorrectUsageException &) { if (!nn) mc::fail("name-lookup", "'%s' not found", w.name.c_str()); }
    }
    bool refused = false; try { m.getVariable((unsigned)want.size()); } catch (IncorrectUsageException &) { refused = true; } if (!refused) mc::fail("index-range", "variable %zu of %zu", want.size(), want.size());
    refused = false; try { m.getVariable(std::string("absent")); } catch (IncorrectUsageException &) { refused = true; } if (!refused) mc::fail("name-range", "an absent name is found");
}
static void body() {
    bool sw = mc::flip("byteswap"), nn = mc::flip("nonames"); M m; int nv = mc::choose(mc::thorough() ? 4 : 3, "variables"); m.type = nv == 1 ? mc::choose(7, "type") : nv ? 5 * mc::choose(2, "type") : mc::choose(10, "type") - 2;
    
    for (int i = 0; i < nv; i++) { V v; int nk = i == 0 || mc::thorough() && i == 1 ? NK : 4; v.k = nk == NK ? mc::choose(NK, "kind") : (int[]){12, 14, 5, 3}[mc::choose(mc::thorough() ? 4 : 2, "kind")]; int li = nk == NK ? mc::choose(5, "length") : 0, n = nk == NK ? (int[]){1, 0, 2, 3, 9}[li] : 1 + i; int p = nk == NK ? mc::choose(mc::thorough() || nv == 1 ? 4 : 2, "value") : i;
        v.name = NAMES[nn ? 0 : nk == NK && (!p || mc::thorough()) ? mc::choose(4, "name") : i]; for (int j = 0; j < n; j++) for (unsigned q = 0; q < KS[v.k].sz; q++) v.val.push_back(KS[v.k].t == TRICK_BOOLEAN ? (p + j) & 1 : PAT[(p + j) % 4][q]); m.v.push_back(v); }
    std::vector<size_t> f; B b = encode(m, sw, nn, &f);
    static std::set<uint64_t> seen;                             // the mutations depend on the layout alone
    uint64_t lay = mc::hv(sw, nn, m.type); for (auto &v : m.v) lay = mc::hv(lay, v.val.size(), v.name.size(), v.k == 14 || v.k < 3 ? v.k : KS[v.k].sz + 100);
    bool mutate = seen.insert(lay).second;
    mc::trace("%zu bytes, %d variables, byteswap %d, nonames %d", b.size(), nv, sw, nn);
    int type; std::vector<RV> rv; if (m.type >= -1 && m.type <= 6 && !reference(b, sw, nn, type, rv)) mc::fail("harness", "own encoding not understood");
    compare(b, sw, nn, "message"); compare(b, !sw, nn, "other-order"); compare(b, sw, !nn, "other-names");
    if (mutate) {
    for (size_t n = 0; n < b.size(); n++) { B t(b.begin(), b.begin() + n); compare(t, sw, nn, "truncated"); if (n >= 8) { B x; put(x, n - 4, sw); std::copy(x.begin(), x.end(), t.begin() + 4); compare(t, sw, nn, "truncated-resized"); } }
    for (int extra = 1; extra < 13; extra += 3) { B t(b); t.insert(t.end(), extra, 0); compare(t, sw, nn, "extended"); B x; put(x, t.size() - 4, sw); std::copy(x.begin(), x.end(), t.begin() + 4); compare(t, sw, nn, "extended-resized"); }
    for (size_t p : f) { uint32_t o = get(b, p, sw); std::vector<uint32_t> r = {0, 1, o + 1, o - 1, o + 4, o - 4, 0x7fffffff, 0x80000000u, 0xffffffffu, 0x100, o << 8, (uint32_t)(0u - p), (uint32_t)(0u - p - 4), (uint32_t)(0u - p - 8), (uint32_t)(b.size() - p), (uint32_t)(b.size() - p - 4), (uint32_t)(b.size() - p - 3)};
        for (uint32_t x : r) { B t(b), y; put(y, x, sw); std::copy(y.begin(), y.end(), t.begin() + p); if (p == 8 && x > 1000 && nv == 0) { } compare(t, sw, nn, "field"); } }
    }
    if (m.type >= -1 && m.type <= 6) {                          // two messages combined
        M m2; m2.type = mc::flip("other") ? m.type : (m.type == 6 ? 0 : m.type + 1); V v; v.name = "second"; v.k = 12; v.val.assign(8, 7); m2.v.assign(2, v);
        ParsedBinaryMessage p(sw, nn), q(sw, nn); p.parse(b); q.parse(encode(m2, sw, nn)); bool ok = true; try { p.combine(q); } catch (MalformedMessageException &) { ok = false; }
        if (ok != (m2.type == m.type)) mc::fail("combine-type", "types %d and %d", m.type, m2.type);
        M all = m; if (ok) all.v.insert(all.v.end(), m2.v.begin(), m2.v.end()); B ab = encode(all, sw, nn);
        if (p.getNumVars() != all.v.size() || p.variables.size() != all.v.size() || p.getMessageSize() != ab.size() - 4) mc::fail("combine", "%u variables want %zu, size %u want %zu", p.getNumVars(), all.v.size(), p.getMessageSize(), ab.size() - 4);
        ParsedBinaryMessage w(sw, nn); w.parse(ab); for (unsigned i = 0; i < all.v.size(); i++) if (w.getVariable(i).getRawBytes() != p.getVariable(i).getRawBytes() || w.getVariable(i).getName() != p.getVariable(i).getName()) mc::fail("combine-order", "variable %u", i);
    }
}
int main(int argc, char **argv) { mc::Options o; o.split = 6; return mc::run(argc, argv, o, body); }
