// C05: every short history of memory-manager operations against a list of allocations with their contents.
#define MC_MAIN
#include "mc.hh"
#include <iostream>
#include <sstream>
#include <algorithm>
#include <stdlib.h>
#include <stddef.h>
#include "trick/MemoryManager.hh"
#include "trick/memorymanager_c_intf.h"
#include "mm_types.hh"
extern "C" int message_publish(int, const char *, ...) { return 0; }
typedef unsigned char u8;
struct Cell { size_t off, n; };
struct Ty { const char *decl; size_t size; TRICK_TYPE type; const char *user; std::vector<Cell> cells; int stars; std::vector<int> dims; bool str; bool resizable; };
static std::vector<Ty> types;
static std::vector<Cell> inner_cells(size_t b) { return {{b + offsetof(MMInner, i), 4}, {b + offsetof(MMInner, d), 8}, {b + offsetof(MMInner, d) + 8, 8}, {b + offsetof(MMInner, c), 4}}; }
static void init_types() {
    auto add = [](const char *d, size_t sz, TRICK_TYPE t, const char *u, int stars, std::vector<int> dims, std::vector<Cell> c = {}) {
        Ty x; x.decl = d; x.size = sz; x.type = t; x.user = u; x.stars = stars; x.dims = dims; x.str = t == TRICK_STRING && !stars; x.resizable = !x.str; x.cells = c; if (c.empty()) x.cells = {{0, sz}}; types.push_back(x); };
    std::vector<Cell> dc; MMDeriv z; size_t b = (size_t)&z;
    auto A = [&](void *p, size_t n) { dc.push_back({(size_t)p - b, n}); };
    A(&z.base_i, 4); A(&z.bs, 2); A(&z.bp, 8); A(&z.mixv, 8); A(&z.mixa[0], 4); A(&z.mixa[1], 4); A(&z.di, 4); A((char *)&z.di + 4, 4); A(&z.dip, 8);
    for (auto c : inner_cells((size_t)&z.in - b)) dc.push_back(c);
    add("double", 8, TRICK_DOUBLE, 0, 0, {});
    add("MMInner", sizeof(MMInner), TRICK_STRUCTURED, "MMInner", 0, {2}, inner_cells(0));
    add("MMDeriv", sizeof(MMDeriv), TRICK_STRUCTURED, "MMDeriv", 0, {}, dc);
    add("std::string", sizeof(std::string), TRICK_STRING, 0, 0, {2});
    add("char", 1, TRICK_CHARACTER, 0, 0, {2, 3});
    // the rest is used by the shallow exploration
    add("int*", 8, TRICK_INTEGER, 0, 1, {2});
    add("MMColor", sizeof(MMColor), TRICK_ENUMERATED, "MMColor", 0, {3});
    add("MMDeriv*", 8, TRICK_STRUCTURED, "MMDeriv", 1, {});
    add("MMDeriv", sizeof(MMDeriv), TRICK_STRUCTURED, "MMDeriv", 0, {2, 2}, dc);
    add("float", 4, TRICK_FLOAT, 0, 0, {2, 2, 2});
    add("unsigned long long", 8, TRICK_UNSIGNED_LONG_LONG, 0, 0, {1});
    add("bool", sizeof(bool), TRICK_BOOLEAN, 0, 0, {3});
    add("mmns::Nested", sizeof(mmns::Nested), TRICK_STRUCTURED, "mmns::Nested", 0, {}, {{0, 4}, {4, 4}, {8, 4}});
    add("short**", 8, TRICK_SHORT, 0, 2, {});
}
struct Al { int t; u8 *p; std::string name; std::vector<int> dims; bool ext; std::vector<std::vector<u8>> v; std::vector<std::string> sv; };
static int prod(const std::vector<int> &d) { int n = 1; for (int x : d) n *= x; return n; }
static std::vector<Al> live; static std::vector<void *> dead;
static Trick::MemoryManager *mm;
alignas(16) static u8 ebuf[2][512]; static unsigned pat;
static std::string hist;
static void read_al(const Al &a, std::vector<std::vector<u8>> &v, std::vector<std::string> &sv) {
    Ty &t = types[a.t]; int n = prod(a.dims);
    if (t.str) { for (int i = 0; i < n; i++) sv.push_back(((std::string *)a.p)[i]); return; }
    for (int i = 0; i < n; i++) for (auto &c : t.cells) v.push_back(std::vector<u8>(a.p + i * t.size + c.off, a.p + i * t.size + c.off + c.n));
}
static void zero(Al &a) { Ty &t = types[a.t]; int n = prod(a.dims); a.v.clear(); a.sv.clear(); if (t.str) a.sv.assign(n, ""); else for (int i = 0; i < n; i++) for (auto &c : t.cells) a.v.push_back(std::vector<u8>(c.n, 0)); }
static void fill(Al &a) {      // a new value in every cell
    Ty &t = types[a.t]; int n = prod(a.dims); a.v.clear(); a.sv.clear();
    if (t.str) { for (int i = 0; i < n; i++) { char b[64]; snprintf(b, 64, "a string longer than fifteen %u", ++pat); ((std::string *)a.p)[i] = b; a.sv.push_back(b); } return; }
    for (int i = 0; i < n; i++) for (auto &c : t.cells) { std::vector<u8> x; for (size_t k = 0; k < c.n; k++) x.push_back(t.type == TRICK_BOOLEAN ? 1 : 1 + (++pat % 250)); memcpy(a.p + i * t.size + c.off, x.data(), c.n); a.v.push_back(x); }
}
#define BAD(sig, ...) do { char b_[600]; snprintf(b_, 600, __VA_ARGS__); mc::fail(sig, "%s after%s", b_, hist.c_str()); } while (0)
static const char *NAMES[] = {"", "a", "b"};
static Al *by_name(const std::string &n) { if (n.empty()) return 0; for (auto &a : live) if (a.name == n) return &a; return 0; }
static void check() {
    uint64_t h = mc::hv(live.size());
    for (int k = 1; k < 3; k++) {
        Al *a = by_name(NAMES[k]);
        if ((mm->var_exists(NAMES[k]) != 0) != (a != 0)) BAD("name-known", "var_exists(%s) is %d", NAMES[k], mm->var_exists(NAMES[k]));
        char b[8]; strcpy(b, NAMES[k]); REF2 *r = mm->ref_attributes(b);
        if ((r != 0) != (a != 0)) BAD("name-reference", "the reference %s is %s", NAMES[k], r ? "resolved" : "not resolved");
        if (r) { void *p = r->address; ref_free(r); free(r); if (p != a->p) BAD("name-address", "the reference %s gives %p, the variable is at %p", NAMES[k], p, a->p); }
        if (!a) { if (mm->get_alloc_info_at((void *)NAMES) != 0) BAD("x", "x"); }
        h = mc::mix(h, a ? a - &live[0] + 1 : 0);
    }
    for (auto &a : live) {
        Ty &t = types[a.t]; int n = prod(a.dims); size_t bytes = n * t.size;
        ALLOC_INFO *i = mm->get_alloc_info_at(a.p);
        if (!mm->is_alloced(a.p) || !i) BAD("lost", "%s at its address is not known", t.decl);
        if (i->type != t.type || (size_t)i->size != t.size || i->num != n || i->num_index != (int)a.dims.size() + t.stars || (i->name ? a.name != i->name : !a.name.empty()) || (i->stcl == TRICK_EXTERN) != a.ext ||
            (t.user ? !i->user_type_name || strcmp(i->user_type_name, t.user) : i->user_type_name != 0)) BAD("record", "%s: type %d size %d num %d num_index %d name %s", t.decl, i->type, i->size, i->num, i->num_index, i->name ? i->name : "-");
        for (int k = 0; k < i->num_index; k++) if (i->index[k] != (k < (int)a.dims.size() ? a.dims[k] : 0)) BAD("dims", "%s: dimension %d is %d", t.decl, k, i->index[k]);
        if (mm->get_size(a.p) != n) BAD("get-size", "%s: get_size %d of %d", t.decl, mm->get_size(a.p), n);
        for (int k = 0; k < n; k++) if (mm->get_truncated_size(a.p + k * t.size) != n - k) BAD("truncated-size", "%s: %d at element %d of %d", t.decl, mm->get_truncated_size(a.p + k * t.size), k, n);
        if (bytes > 1 && (mm->is_alloced(a.p + 1) || mm->get_alloc_info_of(a.p + bytes - 1) != i || mm->get_alloc_info_of(a.p + bytes / 2) != i)) BAD("interior", "%s", t.decl);
        if (mm->get_alloc_info_of(a.p + bytes) == i || mm->get_alloc_info_of(a.p - 1) == i) BAD("outside", "%s", t.decl);
        std::vector<std::vector<u8>> v; std::vector<std::string> sv; read_al(a, v, sv);
        if (v != a.v || sv != a.sv) BAD("contents", "%s %s changed", t.decl, a.name.c_str());
        for (auto &o : live) if (&o != &a && o.p < a.p + bytes && a.p < o.p + prod(o.dims) * types[o.t].size) BAD("overlap", "%s and %s", t.decl, types[o.t].decl);
        h = mc::hv(h, a.t, n, a.ext, a.name.empty() ? 0 : a.name[0]);
    }
    for (void *p : dead) { bool in = false; for (auto &o : live) if ((u8 *)p >= o.p && (u8 *)p < o.p + prod(o.dims) * types[o.t].size) in = true;
        if (!in && (mm->is_alloced(p) || mm->get_alloc_info_of(p))) BAD("dead-known", "a deleted address is still known"); }
    mc::state(h); mc::step();
}
static void kill(size_t k) { dead.push_back(live[k].p); live.erase(live.begin() + k); }
static void declare(int t, const char *name, int form, int ext) {
    Ty &ty = types[t]; std::string d; int n0 = 0;
    std::vector<int> dims = ty.dims;
    if (form == 1 && dims.empty()) dims.push_back(2);
    d = std::string(ty.decl) + (*name ? " " : "") + name;
    for (size_t i = form ? 1 : 0; i < dims.size(); i++) { char b[16]; snprintf(b, 16, "[%d]", dims[i]); d += b; }
    if (form) n0 = dims[0];
    hist += " | " + std::string(ext >= 0 ? "extern " : "") + d + (form == 2 ? " operator new" : form ? " x n" : "");
    void *p;
    if (form == 2) { p = mm->declare_operatornew_var(ty.decl, dims[0] * ty.size, ty.size, name); d += " (new)"; }
    else if (ext >= 0) p = form ? mm->declare_extern_var(ebuf[ext], d.c_str(), n0) : mm->declare_extern_var(ebuf[ext], d.c_str());
    else p = form ? mm->declare_var(d.c_str(), n0) : mm->declare_var(d.c_str());
    if (by_name(name)) { if (p) BAD("duplicate-name", "the name %s was accepted twice", name); return; }
    if (!p) BAD("declare", "refused");
    if (ext >= 0 && p != ebuf[ext]) BAD("extern-address", "%p", p);
    Al a; a.t = t; a.p = (u8 *)p; a.name = name; a.dims = dims; a.ext = ext >= 0;
    if (ext < 0) { zero(a); std::vector<std::vector<u8>> v; std::vector<std::string> sv; read_al(a, v, sv); if (v != a.v || sv != a.sv) BAD("not-zero", "new storage is not zero"); }
    fill(a);
    live.push_back(a);
}
static void body() {
    struct Keep { Keep() { mm = new Trick::MemoryManager; } ~Keep() { delete mm; mm = 0; } } keep; live.clear(); dead.clear(); hist.clear(); pat = 0;
    int depth = mc::thorough() ? 4 : 3; int nt = 5;
    bool wide = mc::choose(2, "wide"); if (wide) { depth--; nt = (int)types.size(); }
    for (int s = 0; s < depth; s++) {
        // the menu of this step
        struct Op { int k, a, b, c; }; std::vector<Op> ops;
        for (int t = 0; t < nt; t++) for (int n = 0; n < 3; n++) for (int f = 0; f < (wide || t == 1 ? 2 : 1); f++) ops.push_back({0, t, n, f});
        for (int n = 0; n < (wide ? 3 : 2); n++) ops.push_back({0, 1, n, 2});
        for (int e = 0; e < 2; e++) { bool used = false; for (auto &a : live) if (a.p == ebuf[e]) used = true; if (used) continue;
            for (int t = 0; t < nt; t++) if (!types[t].str && (wide || t != 4) && (e == 0 || !wide)) for (int n = wide ? 1 : 0; n < 2; n++) if (types[t].size * prod(types[t].dims) <= sizeof ebuf[0] && strcmp(types[t].decl, "MMDeriv")) ops.push_back({1, t, n, e}); }
        for (int k = 0; k < (int)live.size(); k++) {
            for (int w = 0; w < (live[k].name.empty() ? 1 : 2); w++) { ops.push_back({2, k, w, 0}); ops.push_back({2, k, w, 1}); ops.push_back({3, k, w, 0}); ops.push_back({4, k, w, 0}); }
            ops.push_back({2, k, 0, 2});
            if (types[live[k].t].size * prod(live[k].dims) > 1) ops.push_back({5, k, 0, 0});
            for (int n = 1; n < 3; n++) ops.push_back({6, k, n, 0});
        }
        ops.push_back({7, 0, 0, 0}); ops.push_back({7, 1, 0, 0}); if (!live.empty()) { ops.push_back({8, 0, 0, 0}); ops.push_back({9, 0, 0, 0}); } if (!dead.empty()) ops.push_back({10, 0, 0, 0});
        ops.push_back({11, 0, 0, 0});
        Op o = ops[mc::choose((int)ops.size(), "op")];
        switch (o.k) {
        case 0: declare(o.a, NAMES[o.b], o.c, -1); break;
        case 1: declare(o.a, NAMES[o.b], 0, o.c); break;
        case 2: {          // resize
            Al &a = live[o.a]; std::vector<int> nd = a.dims;
            if (o.c == 0) for (auto &x : nd) x++; else if (o.c == 1) { if (!nd.empty()) { nd[0] = nd[0] > 1 ? nd[0] - 1 : 3; if (nd.size() > 1) nd[1] += 2; } } else nd.push_back(2);
            bool ok = !a.ext && types[a.t].resizable && o.c != 2 && !nd.empty() && nd.size() == a.dims.size();
            if (nd.empty()) nd.push_back(2);
            hist += " | resize " + std::to_string(o.a); for (int x : nd) hist += "[" + std::to_string(x) + "]";
            void *p; bool one = nd.size() == 1;
            if (o.b) p = one ? mm->resize_array(a.name.c_str(), nd[0]) : mm->resize_array(a.name.c_str(), nd.size(), nd.data());
            else p = one ? mm->resize_array((void *)a.p, nd[0]) : mm->resize_array((void *)a.p, nd.size(), nd.data());
            if ((p != 0) != ok) BAD("resize-result", "resize gave %p", p);
            if (!ok) break;
            Al n = a; n.p = (u8 *)p; n.dims = nd; Ty &t = types[a.t]; n.v.clear(); int cn = t.cells.size(), N = prod(nd);
            for (int e = 0; e < N; e++) {   // index of the same element in the old array
                int q = e, old = 0, mul = 1; bool in = true; 
                for (int d = (int)nd.size() - 1; d >= 0; d--) { int x = q % nd[d]; q /= nd[d]; if (x >= a.dims[d]) in = false; old += x * mul; mul *= a.dims[d]; }
                for (int c = 0; c < cn; c++) n.v.push_back(in ? a.v[old * cn + c] : std::vector<u8>(t.cells[c].n, 0));
            }
            if (a.p != n.p) dead.push_back(a.p);
            a = n; break; }
        case 3: { Al &a = live[o.a]; hist += " | clear " + std::to_string(o.a); if (o.b) mm->clear_var(a.name.c_str()); else mm->clear_var((void *)a.p); zero(a); break; }
        case 4: { Al &a = live[o.a]; hist += " | delete " + std::to_string(o.a); int r = o.b ? mm->delete_var(a.name) : mm->delete_var((void *)a.p); if (r) BAD("delete", "delete gave %d", r); kill(o.a); break; }
        case 5: { hist += " | delete interior"; if (mm->delete_var((void *)(live[o.a].p + 1)) == 0) BAD("delete-interior", "accepted"); break; }
        case 6: { Al &a = live[o.a]; hist += " | rename " + std::to_string(o.a) + " " + NAMES[o.b]; int r = mm->set_name_at(a.p, NAMES[o.b]); Al *other = by_name(NAMES[o.b]);
            if (other && other != &a && r == 0) BAD("rename", "the name %s was given twice", NAMES[o.b]);
            if (!other) { if (r) BAD("rename", "refused"); a.name = NAMES[o.b]; } break; }
        case 7: { hist += o.a ? " | delete NULL" : " | delete unknown"; if ((o.a ? mm->delete_var((void *)0) : mm->delete_var(std::string("nobody"))) == 0) BAD("delete-unknown", "accepted"); break; }
        case 8: hist += " | clear all"; mm->clear_all_vars(); for (auto &a : live) zero(a); break;
        case 9: hist += " | reset"; mm->reset_memory(); for (size_t k = live.size(); k-- > 0;) if (!live[k].ext) kill(k); break;
        case 10: { void *p = dead.back(); bool in = false; for (auto &a : live) if (a.p == p) in = true; if (in) break; hist += " | delete dead"; if (mm->delete_var(p) == 0) BAD("delete-dead", "accepted"); break; }
        case 11: { const char *s = pat % 2 ? "" : "hello"; hist += " | strdup"; char *p = mm->mm_strdup(s); if (!p || strcmp(p, s) || mm->get_size(p) != (int)strlen(s) + 1) BAD("strdup", "wrong copy"); if (mm->delete_var((void *)p)) BAD("strdup", "not managed"); dead.push_back(p); break; }
        }
        check();
    }
    mc::outcome(mc::hash(hist));
    while (!live.empty()) { size_t k = live.size() - 1; if (mm->delete_var((void *)live[k].p)) BAD("delete-last", "refused"); kill(k); hist += " | delete last"; check(); }
}
int main(int argc, char **argv) {
    init_types(); static struct Null : std::streambuf { int overflow(int c) { return c; } } nb; if (!getenv("MM_LOUD")) std::cerr.rdbuf(&nb); std::cout.rdbuf(&nb);
    mc::Options o; o.split = 3; o.timeout_s = 20;
    return mc::run(argc, argv, o, body);
}
