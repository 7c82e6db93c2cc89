// C09: every class of a bounded grammar goes through the tree's own trick-ICG; the attributes in the code it generates, compiled and
// initialised, are compared with what the C++ compiler says about the class: sizes, offsets, bits, names, targets.
#define MC_MAIN
#include <sstream>
#include "mc.hh"
#include "c09.hh"
#include "trick/MemoryManager.hh"
#include "trick/UdUnits.hh"
#include <iostream>
#include <set>
#include <map>
struct Part { const char *name; const c09::Cls *c; int nc; const c09::En *e; int ne; };
extern Part parts[]; extern int n_parts; extern ENUM_ATTR *sub_enums[]; extern const char *sub_enum_names[];
extern "C" int message_publish(int, const char *, ...) { return 0; }
extern "C" int message_standard_error(int, const char *, ...) { return 0; }
using namespace c09;
static Trick::MemoryManager *mm;
static const Cls *part_c;

static int count(ATTRIBUTES *a) { int n = 0; while (a[n].name[0]) { if (++n > 20000) mc::fail("endless", "the attribute list has no end"); } return n; }
static ATTRIBUTES *find(ATTRIBUTES *a, const char *n) { for (; a->name[0]; ++a) if (!strcmp(a->name, n)) return a; return NULL; }

// the bits a field occupies: those which change when it is set
static void bits_of(void (*set)(void *), long size, std::vector<unsigned char> &b) { b.assign(size + 64, 0); set(b.data()); }
static bool mask_ok(ATTRIBUTES *a, void (*set)(void *), long size, std::string &why) {
    std::vector<unsigned char> b; bits_of(set, size, b);
    int w = a->index[0].size, st = a->index[0].start;
    if (a->size != 4 || w < 1 || w > 32 || st < 0 || st + w > 32 || a->offset < 0) { char t[200]; snprintf(t, sizeof t, "size %d, width %d, start %d, offset %ld", a->size, w, st, a->offset); why = t; return false; }
    unsigned long long m = ((w == 32 ? 0xffffffffull : ((1ull << w) - 1)) << (32 - st - w));
    std::vector<unsigned char> e(b.size(), 0); unsigned mm_ = (unsigned)m;
    if (a->offset + 4 > (long)e.size()) { why = "offset outside the class"; return false; }
    memcpy(&e[a->offset], &mm_, 4);
    if (e == b) return true;
    char t[300]; int i = 0; while (i < (int)b.size() && !b[i]) ++i;
    snprintf(t, sizeof t, "offset %ld, start %d, width %d are not the bits of the field (first in byte %d, %02x)", a->offset, st, w, i, i < (int)b.size() ? b[i] : 0); why = t; return false;
}
static bool one_word(void (*set)(void *), long size, int width) {
    std::vector<unsigned char> b; bits_of(set, size, b);
    long f = -1, l = -1; int n = 0;
    for (long i = 0; i < (long)b.size() * 8; ++i) if (b[i / 8] >> (i % 8) & 1) { if (f < 0) f = i; l = i; ++n; }
    return n == width && f / 32 == l / 32;
}
static void check_table(const char *cn, ATTRIBUTES *at, const Cls *all, const Cls &c, int only, int depth);
static void check_member(const char *cn, ATTRIBUTES *at, const Cls *all, const Cls &c, const Exp &e, int depth) {
    ATTRIBUTES *a = e.name[0] ? find(at, e.name) : NULL;
    if (!e.need) { if (a) mc::fail("described", "%s::%s is described (type %s, %d), which no attributes can do or the comment forbids", cn, e.name, a->type_name, a->type); return; }
    if (e.need == 2) {
        bool ok = one_word(e.setbits, c.truesize, e.width);
        if (!a && !ok) return;
        if (a && !ok) mc::fail("bits", "%s::%s does not lie in one 32 bit word, but is described: offset %ld, width %d, start %d", cn, e.name, a->offset, a->index[0].size, a->index[0].start);
    }
    if (!a) mc::fail("missing", "%s::%s has no attributes", cn, e.name);
    if (find(a + 1, e.name)) mc::fail("twice", "%s::%s is described twice", cn, e.name);
    if (e.type_name && strcmp(a->type_name, e.type_name)) mc::fail("type-name", "%s::%s has type name %s, is %s", cn, e.name, a->type_name, e.type_name);
    if (e.type >= 0 ? (int)a->type != e.type : e.type == -3 ? a->type != TRICK_BITFIELD && a->type != TRICK_UNSIGNED_BITFIELD : 0) mc::fail("type", "%s::%s has type %d, not %d", cn, e.name, a->type, e.type);
    if (e.setbits) {
        std::string why;
        if (!mask_ok(a, e.setbits, c.truesize, why)) mc::fail("bits", "%s::%s: %s", cn, e.name, why.c_str());
        if (a->index[0].size != e.width) mc::fail("bits", "%s::%s has width %d, not %d", cn, e.name, a->index[0].size, e.width);
    } else {
        if (e.size >= 0 && a->size != e.size) mc::fail("size", "%s::%s has size %d, not %ld", cn, e.name, a->size, e.size);
        if (a->offset != e.offset) mc::fail("offset", "%s::%s has offset %ld, not %ld", cn, e.name, a->offset, e.offset);
    }
    if (a->num_index != e.nd) mc::fail("dimensions", "%s::%s has %d dimensions, not %d", cn, e.name, a->num_index, e.nd);
    for (int i = 0; i < e.nd; ++i) if (a->index[i].size != e.d[i]) mc::fail("dimensions", "%s::%s has dimension %d of %d, not %d", cn, e.name, i, a->index[i].size, e.d[i]);
    if (e.io == -2) { if (!(a->io & 1) || (a->io & 10)) mc::fail("io", "%s::%s is a constant with permission %d", cn, e.name, a->io); }
    else if (a->io != e.io) mc::fail("io", "%s::%s has permission %d, not %d", cn, e.name, a->io, e.io);
    if (e.units && strcmp(a->units, e.units)) mc::fail("units", "%s::%s has units %s, not %s", cn, e.name, a->units, e.units);
    if (e.des && strcmp(a->des, e.des)) mc::fail("description", "%s::%s has the description [%s], not [%s]", cn, e.name, a->des, e.des);
    if ((a->mods >> 1 & 1) != e.stat) mc::fail("static", "%s::%s: modification bits %x", cn, e.name, a->mods);
    if ((a->mods >> 2 & 1) != e.dash) mc::fail("dashdash", "%s::%s: modification bits %x", cn, e.name, a->mods);
    if ((a->mods & 1) != (e.ref ? 1 : 0) || (e.ref && (a->mods >> 3 & 0x3f) != e.ref && (a->mods >> 3 & 0x3f) != (e.size & 0x3f))) mc::fail("reference", "%s::%s: modification bits %x", cn, e.name, a->mods);
    if (e.stl >= 0) {
        if ((int)a->stl_type != e.stl) mc::fail("stl-type", "%s::%s has container type %d, not %d", cn, e.name, a->stl_type, e.stl);
        if ((int)a->stl_elem_type != e.stl_elem) mc::fail("stl-element", "%s::%s has elements of type %d, not %d", cn, e.name, a->stl_elem_type, e.stl_elem);
        if (!a->checkpoint_stl || !a->post_checkpoint_stl || !a->restore_stl) mc::fail("stl-functions", "%s::%s lacks its checkpoint functions", cn, e.name);
        if ((e.stl == TRICK_STL_VECTOR || e.stl == TRICK_STL_DEQUE || e.stl == TRICK_STL_ARRAY) && (!a->get_stl_size || !a->get_stl_element)) mc::fail("stl-functions", "%s::%s lacks its access functions", cn, e.name);
    } else if (a->stl_type != TRICK_STL_UNKNOWN) mc::fail("stl-type", "%s::%s is no container, has type %d", cn, e.name, a->stl_type);
    if (e.sub <= -2) { if (a->attr != (void *)sub_enums[-2 - e.sub]) mc::fail("target", "%s::%s does not lead to the enumerators of %s", cn, e.name, sub_enum_names[-2 - e.sub]); }
    if (e.sub >= 0) {
        const Cls &s = all[e.sub];
        if (!a->attr) mc::fail("target", "%s::%s leads to no attributes", cn, e.name);
        if (s.attr) { if (a->attr != (void *)s.attr) mc::fail("target", "%s::%s does not lead to the attributes of %s", cn, e.name, s.name); }
        else if (depth < 5) check_table(s.name, (ATTRIBUTES *)a->attr, all, s, -1, depth + 1);
    }
    mc::state(mc::mix(mc::mix(a->offset, a->type), mc::mix(mc::mix(a->num_index, a->io), mc::mix(a->size, a->index[0].size * 64 + a->index[0].start))));
    mc::step(1);
}
static void check_table(const char *cn, ATTRIBUTES *at, const Cls *all, const Cls &c, int only, int depth) {
    int n = count(at);
    if (only >= 0) { check_member(cn, at, all, c, c.e[only], depth); return; }
    std::set<std::string> known;
    for (int i = 0; i < c.ne; ++i) if (c.e[i].need) known.insert(c.e[i].name);
    for (int i = 0; i < n; ++i) if (!known.count(at[i].name)) mc::fail("unknown", "%s has attributes for %s, which is no member it could describe", cn, at[i].name);
    if (depth) for (int i = 0; i < c.ne; ++i) check_member(cn, at, all, c, c.e[i], depth);
}
static std::vector<std::string> parts_of(const std::string &s) {
    std::vector<std::string> r; size_t p = 0, q;
    while ((q = s.find("::", p)) != std::string::npos) { r.push_back(s.substr(p, q - p)); p = q + 2; }
    r.push_back(s.substr(p)); return r;
}
// inheritance: the name of an attribute denotes the member it describes, and every member which has a name is described
static void check_graph(const Cls &c, int k) {
    int n = count(c.attr); std::map<std::string, int> seen;
    std::vector<char> done(c.ns, 0); std::vector<std::string> vague;   // names several members have: each of them needs a description
    for (int i = 0; i < n; ++i) {
        ATTRIBUTES *a = &c.attr[i]; std::string nm = a->name;
        if (seen[nm]++) mc::fail("twice", "%s: %s is described twice", c.name, a->name);
        std::string simple = nm.substr(nm.rfind(':') == std::string::npos ? 0 : nm.rfind(':') + 1);
        bool bit = a->type == TRICK_BITFIELD || a->type == TRICK_UNSIGNED_BITFIELD, found = false;
        for (int j = 0; j < c.ns; ++j) {
            const Sub &s = c.s[j]; if (simple != s.simple) continue;
            if (s.setbits) { std::string why; if (bit && a->index[0].size == s.width && mask_ok(a, s.setbits, c.truesize, why)) found = done[j] = 1; }
            else if (!bit && a->offset == s.offset && a->size == s.size) found = done[j] = 1;
        }
        if (!found) mc::fail("inherited", "%s: no member called %s lies at the offset %ld (size %d) its attributes give", c.name, a->name, a->offset, a->size);
        if (!bit) {
            const Cand *cd = NULL;
            for (int j = 0; j < c.nc; ++j) if (nm == c.c[j].name) cd = &c.c[j];
            if (!cd) mc::fail("inherited", "%s: %s is the name of no member", c.name, a->name);
            if (cd->offset < 0) {
                vague.push_back(nm);
            } else if (cd->offset != a->offset) mc::fail("inherited", "%s: %s lies at offset %ld, its attributes give %ld", c.name, a->name, cd->offset, a->offset);
        }
        mc::step(1); mc::state(mc::mix(mc::hash(nm.data(), nm.size()), a->offset));
    }
    for (std::string &v : vague) {
        std::vector<std::string> q = parts_of(v);
        for (int j = 0; j < c.ns; ++j) if (q.back() == c.s[j].simple) {
            std::vector<std::string> ch = parts_of(c.s[j].what); size_t k = 0;
            for (std::string &b : ch) if (k + 1 < q.size() && b == q[k]) ++k;
            if (k + 1 == q.size() && (!k || ch.back() == q[k - 1]) && !done[j]) mc::fail("ambiguous", "%s: %s denotes several members, of which that of [%s] at offset %ld is not described", c.name, v.c_str(), c.s[j].what, c.s[j].offset);
        }
    }
    for (int j = 0; j < c.ns; ++j) if (!done[j]) {
        const Sub &s = c.s[j]; bool nameable = s.setbits != NULL;
        for (int q = 0; q < c.nc; ++q) { std::string x = c.c[q].name; if (c.c[q].offset == s.offset && c.c[q].offset >= 0 && x.substr(x.rfind(':') == std::string::npos ? 0 : x.rfind(':') + 1) == s.simple) nameable = true; }
        if (nameable && !s.setbits) mc::fail("missing", "%s: the member %s of its base [%s] at offset %ld has no attributes", c.name, s.simple, s.what, s.offset);
    }
}
static void check_enum(const En &e) {
    int n = 0; while (e.attr[n].label[0]) ++n;
    if (e.size && (long)e.size() != e.truesize) mc::fail("size", "%s is said to have %zu bytes, has %ld", e.name, e.size(), e.truesize);
    int k = 0;
    for (int i = 0; i < e.ne; ++i) {
        long long v = e.e[i].value; bool fits = e.uns ? (unsigned long long)v <= 0xffffffffull : v == (int)v;
        ENUM_ATTR *a = NULL; for (int j = 0; j < n; ++j) if (!strcmp(e.attr[j].label, e.e[i].name)) a = &e.attr[j];
        if (!fits) { if (a) mc::fail("enum-value", "%s: %s = %lld cannot be described, but is with %d", e.name, e.e[i].name, v, a->value); continue; }
        if (!a) mc::fail("enumerator", "%s lacks its enumerator %s", e.name, e.e[i].name);
        if (e.uns ? (unsigned)a->value != (unsigned)v : a->value != v) mc::fail("enum-value", "%s: %s is %d, not %lld", e.name, e.e[i].name, a->value, v);
        if (!(a->mods & TRICK_ENUM_UNSIGNED) != !e.uns) mc::fail("enum-sign", "%s: %s has modification bits %x", e.name, e.e[i].name, a->mods);
        ++k; mc::step(1);
    }
    if (k != n) mc::fail("enumerator", "%s has %d enumerators described, not %d", e.name, n, k);
}
int main(int argc, char **argv) {
    static std::streambuf *nb = new std::stringbuf; if (!getenv("MM_LOUD")) { std::cout.rdbuf(nb); std::cerr.rdbuf(nb); }
    static Trick::UdUnits uds; mm = new Trick::MemoryManager; trick_MM = mm;
    for (int p = 0; p < n_parts; ++p) for (int i = 0; i < parts[p].nc; ++i) if (parts[p].c[i].init) parts[p].c[i].init();
    mc::Options o; o.split = 2; o.timeout_s = 60;
    return mc::run(argc, argv, o, [] {
        Part &P = parts[mc::choose(n_parts, "part")];
        int k = mc::choose(P.nc + (P.ne > 0 ? P.ne : 0), "class");
        if (k >= P.nc) { check_enum(P.e[k - P.nc]); mc::outcome(k); return; }
        const Cls &c = P.c[k];
        if (!c.attr) return;                          // reached through the members which lead there
        if (c.size && (long)c.size() != c.truesize) mc::fail("size", "%s is said to have %zu bytes, has %ld", c.name, c.size(), c.truesize);
        if (c.ns) { check_graph(c, k); mc::outcome(k); return; }
        int m = mc::choose(c.ne + 1, "member");
        check_table(c.name, c.attr, P.c, c, m == c.ne ? -1 : m, 0);
        mc::outcome(mc::mix(k, m));
    });
}
