// C07: checkpoint and restore of every value of a menu in every place, and of every pointer topology of small worlds.
#define MC_MAIN
#include "mc.hh"
#include <iostream>
#include <sstream>
#include <algorithm>
#include <limits.h>
#include <float.h>
#include "trick/MemoryManager.hh"
#include "mm_snap.hh"
extern "C" int message_publish(int, const char *, ...) { return 0; }
using namespace mmm;
static Trick::MemoryManager *mm;
static std::vector<Obj> objs;               // the world, known by name or not
static bool reduced, hexf, expanded, hexcom; static int mode; // 0 emptied manager, 1 fresh manager, 2 live manager (only external objects)
static std::vector<std::string> selected;   // empty: everything
struct ExtDecl { std::string decl; void *p; };
static std::vector<ExtDecl> exts;
static Obj &declare(const char *decl, const char *name, const Type *t, std::vector<int> dims, void *ext = 0) {
    Obj o; o.name = name; o.t = t; o.dims = dims; o.ext = ext != 0;
    o.start = (char *)(ext ? mm->declare_extern_var(ext, decl) : mm->declare_var(decl));
    if (!o.start) mc::fail("declare", "%s is refused", decl);
    if (ext) exts.push_back({decl, ext});
    o.bytes = elem_size(t, dims, 0); objs.push_back(o); return objs.back();
}
static void scramble(char *a, const Type *t, const std::vector<int> &d, size_t k, int bs, int bn) {
    if (k < d.size()) { if (d[k] == 0) { static char *junk[1] = {(char *)"junk"}; *(void **)a = t->tt == TRICK_CHARACTER && k + 1 == d.size() ? (void *)junk[0] : (void *)junk; return; } size_t sz = elem_size(t, d, k + 1); for (int i = 0; i < d[k]; i++) scramble(a + i * sz, t, d, k + 1, bs, bn); return; }
    if (t->tt == TRICK_STRUCTURED) { for (auto &m : t->m) scramble(a + m.off, m.t, m.dims, 0, m.bit_start, m.bit_n); return; }
    if (t->tt == TRICK_STRING) { *(std::string *)a = "junk"; return; }
    if (t->tt == TRICK_BOOLEAN) { *a = !*a; return; }
    if (t->tt == TRICK_BITFIELD || t->tt == TRICK_UNSIGNED_BITFIELD) { *(unsigned *)a ^= (bn == 32 ? ~0u : ((1u << bn) - 1)) << (32 - bs - bn) & 0x5b5b5b5b; return; }
    for (size_t i = 0; i < t->size; i++) a[i] = (char)(a[i] ^ 0x15);
}
static Obj *of(void *p) { for (auto &o : objs) if ((char *)p >= o.start && (char *)p < o.start + o.bytes) return &o; return 0; }
static std::string fmt() { return std::string(reduced ? "reduced" : "full") + (hexf ? " hexfloat" : "") + (expanded ? " expanded" : "") + (hexcom ? " comment" : "") + (mode == 0 ? ", emptied manager" : mode == 1 ? ", fresh manager" : ", live manager"); }
// the generated attributes register their enumerations once in a process, with the first manager
static void new_manager() { delete mm; mm = new Trick::MemoryManager; for (const char *e : {"MMColor", "mmns::Kind"}) { ATTRIBUTES a; memset((void *)&a, 0, sizeof a); mm->add_attr_info(e, &a, __FILE__, __LINE__); } }
struct Guard { Guard() { mm = 0; objs.clear(); exts.clear(); selected.clear(); } ~Guard() { delete mm; mm = 0; objs.clear(); } };
static std::string shown(const Cell &c) { char b[160]; if (c.kind == 3 || c.kind == 5) { std::string s = "\""; for (unsigned char x : c.s.substr(0, 40)) { if (x < 32 || x > 126) { snprintf(b, sizeof b, "\\x%02x", x); s += b; } else s += x; } return s + (c.kind == 5 && !c.v ? "\" (null)" : "\""); } if (c.kind == 4) return c.p ? "a pointer" : "a null pointer"; if (c.kind) snprintf(b, sizeof b, "%.17g", c.d); else snprintf(b, sizeof b, "%lld", c.v); return b; }
// restores the checkpoint and compares what comes back with the snapshot
static void round_trip() {
    for (auto &o : objs) snap(o);
    std::vector<Obj> before = objs;
    mm->set_reduced_checkpoint(reduced); mm->set_hexfloat_checkpoint(hexf); mm->set_expanded_arrays(expanded); mm->set_hexfloat_decimal_comment_checkpoint(hexcom);
    std::stringstream cp;
    if (selected.empty()) mm->write_checkpoint(cp); else { std::vector<const char *> v; for (auto &s : selected) v.push_back(s.c_str()); if (v.size() == 1) mm->write_checkpoint(cp, v[0]); else mm->write_checkpoint(cp, v); }
    if (getenv("MM_LOUD")) fprintf(stderr, "%s\n", cp.str().c_str());
    // writing changes nothing
    for (size_t i = 0; i < objs.size(); i++) { snap(objs[i]); for (size_t k = 0; k < objs[i].cells.size(); k++) if (!(objs[i].cells[k] == before[i].cells[k])) mc::fail("write-changes", "%s changed while the checkpoint was written (%s)", objs[i].cells[k].path.c_str(), fmt().c_str());
        ALLOC_INFO *ai = mm->get_alloc_info_at(objs[i].start); if (!ai) mc::fail("write-loses", "%s", objs[i].name.c_str()); if ((ai->name != 0) != (objs[i].name[0] != '#') || (ai->name && objs[i].name != ai->name)) mc::fail("write-name", "allocation %s is named %s after the checkpoint was written", objs[i].name.c_str(), ai->name ? ai->name : "nothing"); }
    std::istringstream is(cp.str());
    mc::state(mc::hash(cp.str()));
    for (auto &o : objs) if (o.ext) scramble(o.start, o.t, o.dims, 0, 0, 0);      // the external objects live on with other contents
    switch (mode) {
    case 0: mm->init_from_checkpoint(&is, true); break;
    case 1: new_manager(); for (auto &e : exts) if (!mm->declare_extern_var(e.p, e.decl.c_str())) mc::fail("extern", "%s", e.decl.c_str()); mm->read_checkpoint(&is, true); break;
    case 2: mm->read_checkpoint(&is, true); break;
    }
    if (!mm->get_checkpoint_restore_state()) mc::fail("restore-refused", "the checkpoint just written is not restored without errors (%s): %.1500s", fmt().c_str(), cp.str().c_str());
    // follow the objects from their names
    std::map<int, char *> to; std::map<char *, int> from; std::vector<int> work;
    std::set<std::string> sel(selected.begin(), selected.end());
    for (size_t i = 0; i < before.size(); i++) if (before[i].name[0] != '#' && (sel.empty() || sel.count(before[i].name))) {
        void *a = 0; REF2 *r = mm->ref_attributes(before[i].name.c_str()); if (r) { a = r->address; free(r->reference); free(r); }
        if (!a) mc::fail("lost", "%s is gone after the restore (%s)", before[i].name.c_str(), fmt().c_str());
        if (before[i].ext && a != before[i].start) mc::fail("extern-moved", "%s", before[i].name.c_str());
        to[i] = (char *)a; from[(char *)a] = i; work.push_back(i);
    }
    while (!work.empty()) {
        int i = work.back(); work.pop_back(); Obj &b = before[i]; Obj n = b; n.start = to[i];
        ALLOC_INFO *ai = mm->get_alloc_info_at(n.start);
        if (!ai) mc::fail("not-managed", "%s after the restore (%s)", b.name.c_str(), fmt().c_str());
        if ((b.name[0] == '#') != (ai->name == 0)) mc::fail("name-kept", "%s is named %s after the restore (%s)", b.name.c_str(), ai->name ? ai->name : "nothing", fmt().c_str());
        if ((size_t)ai->size * ai->num != b.bytes || ai->type != b.t->tt || ai->num_index != (int)b.dims.size()) mc::fail("shape", "%s after the restore: type %d, %d bytes in %d dimensions instead of type %d, %d bytes in %d (%s)", b.name.c_str(), ai->type, ai->size * ai->num, ai->num_index, b.t->tt, (int)b.bytes, (int)b.dims.size(), fmt().c_str());
        for (size_t k = 0; k < b.dims.size(); k++) if (ai->index[k] != b.dims[k]) mc::fail("shape", "%s: dimension %d", b.name.c_str(), (int)k);
        if ((ai->stcl == TRICK_EXTERN) != b.ext) mc::fail("storage-class", "%s", b.name.c_str());
        snap(n);
        for (size_t k = 0; k < b.cells.size(); k++) {
            Cell &x = b.cells[k], &y = n.cells[k]; mc::step();
            if (x.kind == 4) {
                if (!x.p || !y.p) { if (x.p != y.p) mc::fail("pointer", "%s is %s after the restore (%s)\n%.1500s", x.path.c_str(), y.p ? "not null" : "null", fmt().c_str(), cp.str().c_str()); continue; }
                size_t t = 0; for (; t < before.size(); t++) if ((char *)x.p >= before[t].start && (char *)x.p < before[t].start + before[t].bytes) break;
                if (t == before.size()) abort();
                long off = (char *)x.p - before[t].start;
                if (!to.count(t)) { to[t] = (char *)y.p - off; if (from.count(to[t])) mc::fail("pointer", "%s points to %s after the restore, it pointed to %s + %ld (%s)\n%.1500s", x.path.c_str(), before[from[to[t]]].name.c_str(), before[t].name.c_str(), off, fmt().c_str(), cp.str().c_str()); from[to[t]] = t; work.push_back(t); }
                if ((char *)y.p != to[t] + off) { Obj *w = 0; for (auto &q : to) if ((char *)y.p >= q.second && (char *)y.p < q.second + before[q.first].bytes) w = &before[q.first]; mc::fail("pointer", "%s pointed to %s + %ld bytes and points to %s + %ld bytes after the restore (%s)\n%.1500s", x.path.c_str(), before[t].name.c_str(), off, w ? w->name.c_str() : "elsewhere", w ? (long)((char *)y.p - to[w - &before[0]]) : 0L, fmt().c_str(), cp.str().c_str()); }
            } else {
                bool same = x.kind == 1 || x.kind == 2 ? (kept(x, hexf) == y.d || (x.d != x.d && y.d != y.d)) : x.v == y.v && x.s == y.s;
                if (!same) mc::fail("value", "%s was %s and is %s after the restore (%s)\n%.1500s", x.path.c_str(), shown(x).c_str(), shown(y).c_str(), fmt().c_str(), cp.str().size() < 3000 ? cp.str().c_str() : "");
            }
        }
    }
}

// ---- values ----
static void put(char *a, const Type *t, long long v) { memcpy(a, &v, t->size); }
static std::vector<long long> menu_int(const Type *t) {
    switch (t->tt) {
    case TRICK_CHARACTER: return {0, 'a', '"', '\\', '\'', '\n', '\t', 127, -1, ' ', 1, '*', '/', 'n'};
    case TRICK_UNSIGNED_CHARACTER: return {0, 1, 'a', 127, 128, 255, 10, '"'};
    case TRICK_SHORT: return {0, 1, -1, SHRT_MIN, SHRT_MAX, 8, -100}; case TRICK_UNSIGNED_SHORT: return {0, 1, 32767, 32768, 65535};
    case TRICK_INTEGER: return {0, 1, -1, INT_MIN, INT_MAX, 8, 123456789}; case TRICK_UNSIGNED_INTEGER: return {0, 1, INT_MAX, (long long)INT_MAX + 1, UINT_MAX, 4000000000LL};
    case TRICK_LONG: case TRICK_LONG_LONG: return {0, 1, -1, LLONG_MIN, LLONG_MAX, LLONG_MIN + 1, LLONG_MAX - 1, 1234567890123456789LL, INT_MIN, UINT_MAX};
    case TRICK_UNSIGNED_LONG: case TRICK_UNSIGNED_LONG_LONG: return {0, 1, LLONG_MAX, LLONG_MIN, -1, -2, LLONG_MIN + 1, UINT_MAX, LLONG_MAX - 1};
    case TRICK_BOOLEAN: return {0, 1};
    case TRICK_WCHAR: return {0, 'a', '\'', '"', '\\', '1', '\n', 0x80, 0xe9, 0x263a, 0x1f600, 0x10ffff};
    case TRICK_ENUMERATED: if (t->size == 2) return {0, 1, 2, 3, -1}; return {0, 5, -3, 1, -1, 100};
    default: return {};
    }
}
static std::vector<double> menu_flt(bool f) {
    std::vector<double> v = {0.0, -0.0, 1, -1, 0.5, 0.1, -2.75, 1e22, 1e-5, 123456789, 1234567890123456.0, INFINITY, -INFINITY, NAN, 1e5, 1e6, 12345678, 3e38, 1.17e-38};
    if (f) { v.push_back(FLT_MAX); v.push_back(FLT_MIN); v.push_back(1.4e-45); v.push_back(-FLT_MAX); } else { v.push_back(DBL_MAX); v.push_back(DBL_MIN); v.push_back(4.9e-324); v.push_back(-DBL_MAX); v.push_back(9007199254740993.0); }
    return v;
}
static std::vector<std::string> menu_str() {
    std::vector<std::string> v = {"", "plain", "a\\", "\\", "\\\\", "\"", "\\\"", "\"\\", "a\\nb", "*/", "/*", "//", "x = 3;", "{1,2}", "\n\t\r\b\f\v\a", "'", "''", "\xc3\xa9", "\x80\xff", "NULL", "&x", " lead and trail ", "a*/b;", "**/", "%s%d", std::string(300, 'x'), std::string(70000, 'y'), std::string(66000, '"'), "trick_anon_local_0", ";"};
    for (int c = 1; c < 256; c++) v.push_back(std::string(1, (char)c));
    const char sp[] = "\\\"n'/*a\n\r ;x0"; int n = sizeof sp - 1;
    for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) { v.push_back(std::string() + sp[i] + sp[j]); if (mc::thorough() || (i < 6 && j < 6)) for (int k = 0; k < n; k++) v.push_back(std::string() + sp[i] + sp[j] + sp[k]); }
    return v;
}
static const Type *VT[] = {&t_char, &t_uchar, &t_short, &t_ushort, &t_int, &t_uint, &t_long, &t_ulong, &t_ll, &t_ull, &t_bool, &t_wchar, &t_color, &t_kind, &t_float, &t_double, &t_string};
static std::vector<char> extbuf; static std::vector<std::string> extstr;
static void values() {
    const Type *t = VT[mc::choose(sizeof VT / sizeof *VT, "type")];
    bool ext = mode == 2 || mc::flip("external");
    int w = t == &t_string ? 1 : 1 + mc::choose(3, "width");
    std::vector<long long> mi = menu_int(t); std::vector<double> mf; std::vector<std::string> ms; size_t m = mi.size();
    if (t == &t_float || t == &t_double) { mf = menu_flt(t == &t_float); m = mf.size(); }
    if (t == &t_string) { ms = menu_str(); m = ms.size(); }
    if (t == &t_char && w == 1) { mi.clear(); for (int i = -128; i < 128; i++) mi.push_back(i); m = 256; }
    if (w == 3 && m > 16 && !mc::thorough()) { m = 14; }
    int n = 1; for (int i = 0; i < w; i++) n *= m;
    char decl[100]; snprintf(decl, sizeof decl, "%s v[%d][%d]", t->name, n, w);
    void *e = 0; if (ext) { if (t == &t_string) { extstr.assign(n * w, ""); e = &extstr[0]; } else { extbuf.assign(n * w * t->size, 0); e = &extbuf[0]; } }
    Obj &o = declare(decl, "v", t, {n, w}, e);
    for (int r = 0; r < n; r++) { int q = r; for (int k = 0; k < w; k++, q /= m) { char *a = o.start + (r * w + k) * t->size; int i = q % m; if (t == &t_float) *(float *)a = mf[i]; else if (t == &t_double) *(double *)a = mf[i]; else if (t == &t_string) *(std::string *)a = ms[i]; else put(a, t, mi[i]); } }
    round_trip();
}
static MMScalars ext_sc[40];
static void members() {
    bool ext = mode == 2 || mc::flip("external"); int shape = mc::choose(3, "shape"); int n = 32;
    Obj *o; if (ext) { for (auto &x : ext_sc) { x.str = ""; memset((char *)&x, 0, (char *)&x.str - (char *)&x); x.cp = 0; x.dp = 0; x.ip = 0; } }
    if (shape == 0) o = &declare("MMScalars s[32]", "s", &t_scalars, {32}, ext ? ext_sc : 0); else if (shape == 1) o = &declare("MMScalars s[4][8]", "s", &t_scalars, {4, 8}, ext ? ext_sc : 0); else { o = &declare("MMScalars s", "s", &t_scalars, {}, ext ? ext_sc : 0); n = 1; }
    int shift = mc::choose(shape == 2 ? 24 : 8, "values"); std::vector<std::string> ms = menu_str();
    for (int i = 0; i < n; i++) {
        char *b = o->start + i * sizeof(MMScalars); int j = 0;
        for (auto &mb : t_scalars.m) {
            if (!mb.dims.empty() && mb.dims.back() == 0) continue;
            int cnt = 1; for (int d : mb.dims) cnt *= d;
            for (int c = 0; c < cnt; c++) { char *a = b + mb.off + c * mb.t->size; int q = i + shift * (j + 1) + c * (shift + 1); j++;
                if (mb.t == &t_float) { auto f = menu_flt(true); *(float *)a = f[q % f.size()]; } else if (mb.t == &t_double) { auto f = menu_flt(false); *(double *)a = f[q % f.size()]; } else if (mb.t == &t_string) *(std::string *)a = ms[q % ms.size()];
                else if (mb.bit_n) continue; else { auto v = menu_int(mb.t); put(a, mb.t, v[q % v.size()]); } }
        }
        MMScalars &x = *(MMScalars *)b; x.u3 = (shift + i / 4) & 7; x.s5 = i - 16; x.u24 = (i % 3) ? (1u << (i % 25)) - 1 : 0;
    }
    round_trip();
}
static MMPerm ext_perm[2];
static void perms() {
    // what the specification keeps out of the checkpoint is neither written nor restored
    bool ext = mode == 2 || mc::flip("external"); int v[4]; for (int &x : v) x = mc::choose(2, "value") * 7;
    Obj &o = declare("MMPerm pm[2]", "pm", &t_int, {2, 4}, ext ? ext_perm : 0); MMPerm *p = (MMPerm *)o.start;
    for (int i = 0; i < 2; i++) { p[i].rw = v[0] + i; p[i].ro = v[1] + i; p[i].none = v[2] + i; p[i].wo = v[3] + i; }
    objs.clear();
    mm->set_reduced_checkpoint(reduced); mm->set_hexfloat_checkpoint(hexf); mm->set_expanded_arrays(expanded);
    std::stringstream cp; mm->write_checkpoint(cp); std::istringstream is(cp.str());
    for (int i = 0; i < 2; i++) p[i] = MMPerm{100, 101, 102, 103};
    if (mode == 0) mm->init_from_checkpoint(&is, true); else if (mode == 1) { new_manager(); if (ext) mm->declare_extern_var(ext_perm, "MMPerm pm[2]"); mm->read_checkpoint(&is, true); } else mm->read_checkpoint(&is, true);
    REF2 *r = mm->ref_attributes("pm"); if (!r) mc::fail("lost", "pm"); p = (MMPerm *)r->address; free(r->reference); free(r);
    if (!mm->get_checkpoint_restore_state()) mc::fail("restore-refused", "%.800s", cp.str().c_str());
    for (int i = 0; i < 2; i++) { if (p[i].rw != v[0] + i) mc::fail("perm-rw", "%d", p[i].rw); if (p[i].ro != (ext ? 101 : 0) || p[i].none != (ext ? 102 : 0)) mc::fail("perm-not-restorable", "a member without input permission changed to %d %d (%s)", p[i].ro, p[i].none, fmt().c_str()); }
}
// ---- pointers ----
struct Slot { void **a; std::vector<void *> menu; };
static std::vector<Slot> slots;
static MMNode ext_n[2]; static int ext_k[3]; static MMOuter ext_o; static double ext_dm[2][3];
static void nodes() {
    bool en = mode == 2 || (mc::thorough() ? mc::flip("external nodes") : hexf), ek = mode == 2 || (mc::thorough() ? mc::flip("external integers") : expanded);
    objs.reserve(64);
    memset((void *)ext_n, 0, sizeof ext_n);
    MMNode *n = (MMNode *)declare("MMNode n[2]", "n", &t_node, {2}, en ? ext_n : 0).start; int *k = (int *)declare("int k[3]", "k", &t_int, {3}, ek ? ext_k : 0).start;
    MMNode *m = mode == 2 ? n : (MMNode *)declare("MMNode", "#m", &t_node, {}).start, *q = mode == 2 ? n + 1 : (MMNode *)declare("MMNode[1][2]", "#q", &t_node, {1, 2}).start; int *ai = mode == 2 ? k : (int *)declare("int[2][2]", "#ai", &t_int, {2, 2}).start;
    for (int i = 0; i < 2; i++) { n[i].v = 10 + i; for (int j = 0; j < 3; j++) n[i].own[j] = 20 + 3 * i + j; } for (int i = 0; i < 3; i++) k[i] = 30 + i;
    if (mode != 2) { m->v = 50; m->own[1] = 51; q[0].v = 60; q[1].v = 61; for (int i = 0; i < 4; i++) ai[i] = 40 + i; }
    std::vector<void *> N = {0, n, n + 1, m}, I = {0, k, k + 2, &n[1].v, &n[0].own[1], ai + 1, &m->own[2]}; if (mc::thorough()) N.push_back(q + 1), I.push_back(&q[1].own[0]);
    if (mode == 2) { N = {0, n, n + 1}; I = {0, k, k + 2, &n[1].v, &n[0].own[1]}; }
    auto pick = [&](void *a, std::vector<void *> &M, const char *t) { *(void **)a = M[mc::choose(M.size(), t)]; };
    pick(&n[0].l, N, "n[0].l"); pick(&n[0].kids[1], N, "n[0].kids[1]"); pick(&n[1].r, N, "n[1].r"); pick(&n[0].ref, I, "n[0].ref");
    if (mode != 2) { pick(&m->l, N, "m.l"); pick(&m->ref, I, "m.ref"); q[1].l = m; q[0].r = q + 1; q[0].kids[0] = n; }
    if (mode != 2 && (mc::thorough() || mode == 0) && mc::flip("selected")) selected = {"n"};
    round_trip();
}
static void outer() {
    objs.reserve(64);
    bool ext = mode == 2 || (mc::thorough() ? mc::flip("external") : hexf); new (&ext_o) MMOuter(); { static bool first = true; if (first) first = false; }
    if (ext) { for (auto &mb : t_outer.m) if (!mb.dims.empty()) { for (size_t i = 0; i < mb.dims.size(); i++) if (mb.dims[i] == 0) { int c = 1; for (size_t j = 0; j < i; j++) c *= mb.dims[j]; for (int z = 0; z < c; z++) ((void **)((char *)&ext_o + mb.off))[z] = 0; break; } } scramble((char *)&ext_o.in, &t_inner, {}, 0, 0, 0); ext_o.vp = 0; memset(&ext_o.in, 0, (char *)&ext_o.p - (char *)&ext_o.in); memset(&ext_o.m, 0, sizeof ext_o.m); ext_o.col = MM_RED; ext_o.cols[0] = MM_GREEN; ext_o.cols[1] = MM_BLUE; ext_o.kind = mmns::Kind::two; ext_o.flag = true; ext_o.flags[0] = ext_o.flags[1] = ext_o.flags[2] = true; ext_o.ns.x = 3; ext_o.ns.y[0] = ext_o.ns.y[1] = 2; ext_o.wc = 'w'; }
    struct D { const char *decl, *name; const Type *t; std::vector<int> dims; };
    bool L = mode != 2;
    MMOuter *o = (MMOuter *)declare("MMOuter o", "o", &t_outer, {}, ext ? &ext_o : 0).start;
    double (*dm)[3] = (double(*)[3])declare("double dm[2][3]", "dm", &t_double, {2, 3}, mode == 2 ? (void *)ext_dm : 0).start;
    MMInner *ia = 0, (*in2)[3] = 0, *aI = 0, **ip = 0, **ipa = 0, **aip = 0; double *d = 0, *da = 0, *ad = 0, **dp = 0, **dpa = 0, ***dpp = 0, **adp = 0; std::string *st = 0; char *text = 0; MMOuter *ao = 0, **op = 0, **opa = 0; char **sv = 0, **asv = 0;
    if (L) {
        ia = (MMInner *)declare("MMInner ia[4]", "ia", &t_inner, {4}).start; in2 = (MMInner(*)[3])declare("MMInner in2[2][3]", "in2", &t_inner, {2, 3}).start; aI = (MMInner *)declare("MMInner[2]", "#aI", &t_inner, {2}).start;
        d = (double *)declare("double d", "d", &t_double, {}).start; da = (double *)declare("double da[4]", "da", &t_double, {4}).start; ad = (double *)declare("double[2][2]", "#ad", &t_double, {2, 2}).start;
        dp = (double **)declare("double *dp", "dp", &t_double, {0}).start; dpa = (double **)declare("double *dpa[2][2]", "dpa", &t_double, {2, 2, 0}).start; dpp = (double ***)declare("double **dpp", "dpp", &t_double, {0, 0}).start; adp = (double **)declare("double*[2]", "#adp", &t_double, {2, 0}).start;
        ip = (MMInner **)declare("MMInner *ip", "ip", &t_inner, {0}).start; ipa = (MMInner **)declare("MMInner *ipa[2][2]", "ipa", &t_inner, {2, 2, 0}).start; aip = (MMInner **)declare("MMInner*[2]", "#aip", &t_inner, {2, 0}).start;
        st = (std::string *)declare("std::string st[2]", "st", &t_string, {2}).start; text = declare("char text[6]", "text", &t_char, {6}).start; ao = (MMOuter *)declare("MMOuter", "#ao", &t_outer, {}).start; op = (MMOuter **)declare("MMOuter *op", "op", &t_outer, {0}).start;
        sv = (char **)declare("char *sv[2]", "sv", &t_char, {2, 0}).start; asv = (char **)declare("char*", "#asv", &t_char, {0}).start;
        for (int i = 0; i < 4; i++) { ia[i].i = i + 1; ia[i].d[1] = i + 0.5; da[i] = i + 0.25; ad[i] = 100 + i; } for (int i = 0; i < 6; i++) in2[i / 3][i % 3].i = 70 + i; aI[1].i = 80; st[0] = "first"; st[1] = "sec\"ond\\"; strcpy(text, "a\"b\\c"); *d = 3.5; ao->in.i = 9; ao->str = "anon";
    }
    for (int i = 0; i < 6; i++) { dm[i / 3][i % 3] = 10 + i; o->m[i / 3][i % 3] = 20 + i; o->arr[i / 3][i % 3].i = 30 + i; } o->in.i = 1; o->der.in.i = 2; o->der.di = 3; o->der.u3 = 5; o->der.s5 = -3; o->str = "x\\"; o->strs[0] = ""; o->strs[1] = "q\"";
    slots.clear();
    auto S = [&](void *a, std::vector<void *> m) { std::vector<void *> r; for (void *p : m) { bool bad = p && !of(p); if (!bad) r.push_back(p); } slots.push_back({(void **)a, r}); };
    std::vector<void *> MI = {0, &o->in, &o->arr[1][2], &o->der.in}, MD = {0, &o->m[1][1], &o->in.d[1], &o->arr[0][1].d[0], &o->der.in.d[0], &dm[1][2]}, MIP = {0, &o->p, &o->pa[1], &o->der.dip}, MDP = {0, &o->dp, &o->der.bp}, MO = {0, o}, MS = {0, &o->str, &o->strs[1]};
    if (L) { for (void *x : {(void *)ia, (void *)(ia + 3), (void *)&in2[1][1], (void *)aI, (void *)(aI + 1)}) MI.push_back(x); for (void *x : {(void *)d, (void *)(da + 2), (void *)&ia[2].d[1], (void *)(ad + 1), (void *)(ad + 2), (void *)&aI[1].d[0], (void *)&in2[1][2].d[1]}) MD.push_back(x); for (void *x : {(void *)ip, (void *)(ipa + 1), (void *)(ipa + 2), (void *)(aip + 1)}) MIP.push_back(x); for (void *x : {(void *)dp, (void *)(dpa + 1), (void *)(dpa + 2), (void *)(adp + 1)}) MDP.push_back(x); MO.push_back(ao); MS.push_back(st + 1); MS.push_back(&ao->str); MI.push_back(&ao->arr[1][0]); MDP.push_back(&ao->dp); }
    S(&o->p, MI); S(&o->pa[1], MI); S(&o->pp, MIP); S(&o->dp, MD); S(&o->pm, {0, dm, dm + 1, &o->m[1], L ? ao->m : 0}); S(&o->dpp, MDP); S(&o->next, MO); S(&o->sp, MS); S(&o->der.bp, MD); S(&o->der.dip, MI);
    if (L) { S(dp, MD); S(dpa + 2, MD); S(dpp, MDP); S(adp + 1, MD); S(ip, MI); S(ipa + 1, MI); S(aip, MI); S(op, MO); S(&ao->pa[0], MI); S(&ao->next, MO); S(&ao->dpp, MDP); }
    // strings
    static char lit1[] = "lit\"\\er*/al", lit2[] = "";
    slots.push_back({(void **)&o->s, {0, lit1, lit2}}); slots.push_back({(void **)&o->sa[1], {0, lit1, lit2}}); if (L) { slots[slots.size() - 2].menu.push_back(text); slots[slots.size() - 2].menu.push_back(text + 2); slots.back().menu.push_back(&o->in.c[0]); slots.push_back({(void **)(sv + 1), {0, lit1, text}}); slots.push_back({(void **)asv, {0, lit2, text + 1}}); }
    int a = mc::choose(slots.size(), "slot"), b = mc::choose(slots.size(), "other slot");
    if (b < a) return;
    *slots[a].a = slots[a].menu[mc::choose(slots[a].menu.size(), "target")]; if (b != a) *slots[b].a = slots[b].menu[mc::choose(slots[b].menu.size(), "other target")];
    // the anonymous objects are only found through a pointer: nothing else refers to them
    if (L && mc::thorough() && mc::flip("selected")) { const char *nm[] = {"o", "dpa", "ipa", "dpp", "op"}; selected = {nm[mc::choose(5, "which")]}; }
    round_trip();
}
static int what;
static void body() {
    Guard g; new_manager(); what = mc::choose(4, "part");
    if (mc::thorough()) { mode = mc::choose(3, "mode"); reduced = mc::flip("reduced"); hexf = mc::flip("hexfloat"); expanded = mc::flip("expanded"); hexcom = hexf && mc::flip("comment"); }
    else { int c = mc::choose(what >= 2 ? 3 : 5, "format"); int M[] = {0, 1, 2, 1, 2}; mode = M[c]; reduced = c == 0 || c == 2 || c == 3; hexf = c == 1 || c == 3; expanded = c == 3 || c == 4; hexcom = c == 3; }
    switch (what) { case 0: values(); break; case 1: if (mc::flip()) members(); else perms(); break; case 2: nodes(); break; case 3: outer(); break; }
}
int main(int argc, char **argv) {
    build();
    static struct Null : std::streambuf { int overflow(int c) { return c; } } nb; if (!getenv("MM_LOUD")) { std::cerr.rdbuf(&nb); fflush(stdout); } std::cout.rdbuf(&nb);
    mc::Options o; o.split = 6; o.timeout_s = 120;
    return mc::run(argc, argv, o, body);
}
