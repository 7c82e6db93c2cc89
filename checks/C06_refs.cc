// C06: every reference expression up to a nesting bound against the compiler's layout, and every address back to a name.
#define MC_MAIN
#include "mc.hh"
#include <iostream>
#include <sstream>
#include <algorithm>
#include <dlfcn.h>
#include "trick/MemoryManager.hh"
#include "trick/memorymanager_c_intf.h"
#include "trick/reference.h"
#include "trick/ReferenceUtils.hh"
extern "C" void *follow_address_path(REF2 *);
#include "mm_model.hh"
#include "mm_stl_types.hh"
extern "C" int message_publish(int, const char *, ...) { return 0; }
using namespace mmm;
static Trick::MemoryManager *mm;
struct Var { const char *decl, *name; const Type *t; std::vector<int> dims; bool ext; char *a; };
static std::vector<Var> vars;
static MMOuter ext_outer;
static MMInner loose[3]; static double loose_d[6]; static MMInner *loose_pp[2];      // storage the manager does not know
static size_t total(const Var &v) { return elem_size(v.t, v.dims, 0); }
static Var &var(const char *n) { for (auto &v : vars) if (!strcmp(v.name, n)) return v; abort(); }
// where a pointer target lies: must(i) = lies inside the innermost array it points into, may(i) = inside the allocation
struct Target { void *p; int must; };
static void make_vars() {
    vars = {{"MMOuter o", "o", &t_outer, {}, false, 0}, {"MMInner in2[2][3]", "in2", &t_inner, {2, 3}, false, 0}, {"MMInner ia[4]", "ia", &t_inner, {4}, false, 0}, {"double d", "d", &t_double, {}, false, 0}, {"double da[4]", "da", &t_double, {4}, false, 0},
        {"double dm[2][3]", "dm", &t_double, {2, 3}, false, 0}, {"double *dp", "dp", &t_double, {0}, false, 0}, {"double *dpa[2]", "dpa", &t_double, {2, 0}, false, 0}, {"double **dpp", "dpp", &t_double, {0, 0}, false, 0}, {"MMInner *ip", "ip", &t_inner, {0}, false, 0},
        {"MMNode n[2]", "n", &t_node, {2}, false, 0}, {"MMDeriv der", "der", &t_deriv, {}, false, 0}, {"MMScalars sc", "sc", &t_scalars, {}, false, 0}, {"MMOuter ex", "ex", &t_outer, {}, true, 0}, {"int cube[2][2][2]", "cube", &t_int, {2, 2, 2}, false, 0}, {"MMColor col[2]", "col", &t_color, {2}, false, 0},
        {"MMDeriv dv[2][2]", "dv", &t_deriv, {2, 2}, false, 0}, {"mmns::Nested nst[2]", "nst", &t_nested, {2}, false, 0}, {"char text[6]", "text", &t_char, {6}, false, 0}, {"std::string st[2]", "st", &t_string, {2}, false, 0}, {"MMOuter *op", "op", &t_outer, {0}, false, 0}};
    for (auto &v : vars) { v.a = (char *)(v.ext ? mm->declare_extern_var(&ext_outer, v.decl) : mm->declare_var(v.decl)); if (!v.a) mc::fail("declare", "%s", v.decl); }
}
static char *anon_in, *anon_d; static char **anon_dpp;
// all pointers of the world; configuration 0: null, 1: starts, 2: interiors, 3: storage unknown to the manager and anonymous allocations
static std::vector<Target> targets;
static void set(void *slot, void *to, int must) { *(void **)slot = to; targets.push_back({slot, must}); }
static int must_of(void *slot) { for (auto &t : targets) if (t.p == slot) return t.must; return 0; }
static void configure(int c) {
    targets.clear();
    MMOuter *os[2] = {(MMOuter *)var("o").a, &ext_outer}; MMInner (*in2)[3] = (MMInner(*)[3])var("in2").a; MMInner *ia = (MMInner *)var("ia").a; double *da = (double *)var("da").a; double (*dm)[3] = (double(*)[3])var("dm").a;
    double **dpa = (double **)var("dpa").a; MMNode *n = (MMNode *)var("n").a; MMScalars *sc = (MMScalars *)var("sc").a; std::string *st = (std::string *)var("st").a; char *text = var("text").a;
    void *dp = var("dp").a, *dpp = var("dpp").a, *ip = var("ip").a, *op = var("op").a; MMDeriv *der = (MMDeriv *)var("der").a, *dv = (MMDeriv *)var("dv").a; int *cube = (int *)var("cube").a;
    const int B = 1000000;
    for (int k = 0; k < 2; k++) {
        MMOuter *o = os[k];
        switch (c) {
        case 0: for (void *s : {(void *)&o->p, (void *)&o->pa[0], (void *)&o->pa[1], (void *)&o->pp, (void *)&o->dp, (void *)&o->pm, (void *)&o->dpp, (void *)&o->s, (void *)&o->sa[0], (void *)&o->sa[1], (void *)&o->next, (void *)&o->sp, (void *)&o->der.bp, (void *)&o->der.dip}) set(s, 0, 0); break;
        case 1: set(&o->p, ia, 4); set(&o->pa[0], ia, 4); set(&o->pa[1], ip ? anon_in : 0, 3); set(&o->pp, ip, 1); set(&o->dp, da, 4); set(&o->pm, dm, 2); set(&o->dpp, dpa, 2); set(&o->s, text, 6); set(&o->sa[0], text, 6); set(&o->sa[1], 0, 0); set(&o->next, os[1 - k], 1); set(&o->sp, st, 2); set(&o->der.bp, da, 4); set(&o->der.dip, ia, 4); break;
        case 2: set(&o->p, ia + 1, 3); set(&o->pa[0], &o->arr[1][1], 2); set(&o->pa[1], &in2[1][1], 2); set(&o->pp, &o->pa[1], 1); set(&o->dp, da + 2, 2); set(&o->pm, dm + 1, 1); set(&o->dpp, dpa + 1, 1); set(&o->s, text + 2, 4); set(&o->sa[0], sc->ca + 1, 5); set(&o->sa[1], text, 6); set(&o->next, o, 1); set(&o->sp, st + 1, 1); set(&o->der.bp, &o->m[1][0], 3); set(&o->der.dip, &o->in, 1); break;
        case 3: set(&o->p, loose, B); set(&o->pa[0], loose + 1, B); set(&o->pa[1], anon_in + sizeof(MMInner), 2); set(&o->pp, loose_pp, B); set(&o->dp, loose_d, B); set(&o->pm, loose_d, B); set(&o->dpp, anon_dpp, 2); set(&o->s, (void *)"hello", B); set(&o->sa[0], 0, 0); set(&o->sa[1], (void *)"x", B); set(&o->next, 0, 0); set(&o->sp, &st[0], 2); set(&o->der.bp, loose_d + 2, B); set(&o->der.dip, 0, 0); break;
        }
    }
    loose_pp[0] = loose + 1; loose_pp[1] = (MMInner *)anon_in; set(&loose_pp[0], loose_pp[0], B); set(&loose_pp[1], loose_pp[1], 3);
    anon_dpp[0] = c == 3 ? anon_d : 0; anon_dpp[1] = 0; set(&anon_dpp[0], anon_dpp[0], 3); set(&anon_dpp[1], 0, 0);
    switch (c) {
    case 0: for (void *s : {dp, (void *)&dpa[0], (void *)&dpa[1], dpp, ip, op, (void *)&n[0].l, (void *)&n[0].r, (void *)&n[0].kids[0], (void *)&n[0].kids[1], (void *)&n[0].ref, (void *)&n[1].l, (void *)&n[1].r, (void *)&n[1].kids[0], (void *)&n[1].kids[1], (void *)&n[1].ref, (void *)&sc->cp, (void *)&sc->dp, (void *)&sc->ip}) set(s, 0, 0); break;
    case 1: set(dp, da, 4); set(&dpa[0], da, 4); set(&dpa[1], var("d").a, 1); set(dpp, dpa, 2); set(ip, ia, 4); set(op, os[0], 1); set(&n[0].l, n, 2); set(&n[0].r, n + 1, 1); set(&n[0].kids[0], n + 1, 1); set(&n[0].kids[1], n, 2); set(&n[0].ref, cube, 2); set(&n[1].l, 0, 0); set(&n[1].r, n, 2); set(&n[1].kids[0], 0, 0); set(&n[1].kids[1], n + 1, 1); set(&n[1].ref, &n[0].own[0], 3); set(&sc->cp, text, 6); set(&sc->dp, &sc->d, 1); set(&sc->ip, &sc->ia[0][0], 2); break;
    case 2: set(dp, da + 1, 3); set(&dpa[0], &dm[1][1], 2); set(&dpa[1], &ia[1].d[1], 1); set(dpp, &os[0]->dp, 1); set(ip, &in2[0][2], 1); set(op, os[1], 1); set(&n[0].l, n + 1, 1); set(&n[0].r, 0, 0); set(&n[0].kids[0], 0, 0); set(&n[0].kids[1], n + 1, 1); set(&n[0].ref, &n[1].own[1], 2); set(&n[1].l, n, 2); set(&n[1].r, n + 1, 1); set(&n[1].kids[0], n, 2); set(&n[1].kids[1], 0, 0); set(&n[1].ref, &n[1].v, 1); set(&sc->cp, &sc->ca[2], 4); set(&sc->dp, &sc->da[1], 1); set(&sc->ip, &sc->ia[1][1], 1); break;
    case 3: set(dp, loose_d + 1, B); set(&dpa[0], anon_d, 3); set(&dpa[1], anon_d + 8, 2); set(dpp, anon_dpp, 2); set(ip, anon_in, 3); set(op, 0, 0); for (int k = 0; k < 2; k++) { set(&n[k].l, 0, 0); set(&n[k].r, n, 2); set(&n[k].kids[0], n, 2); set(&n[k].kids[1], 0, 0); set(&n[k].ref, loose, B); } set(&sc->cp, 0, 0); set(&sc->dp, loose_d, B); set(&sc->ip, 0, 0); break;
    }
    for (int k = 0; k < 5; k++) { MMDeriv *x = k ? dv + k - 1 : der; if (c == 0) { set(&x->bp, 0, 0); set(&x->dip, 0, 0); } else if (c == 1) { set(&x->bp, da, 4); set(&x->dip, &x->in, 1); } else if (c == 2) { set(&x->bp, &ia[2].d[0], 2); set(&x->dip, ia + 3, 1); } else { set(&x->bp, loose_d, B); set(&x->dip, loose, B); } }
    ((MMOuter *)var("o").a)->vp = ext_outer.vp = 0;
}
// bytes of the allocation from p on, -1: not managed
static long room(void *p) {
    for (auto &v : vars) if ((char *)p >= v.a && (char *)p < v.a + total(v)) return v.a + total(v) - (char *)p;
    if ((char *)p >= anon_in && (char *)p < anon_in + 3 * sizeof(MMInner)) return anon_in + 3 * sizeof(MMInner) - (char *)p;
    if ((char *)p >= anon_d && (char *)p < anon_d + 24) return anon_d + 24 - (char *)p;
    if ((char *)p >= (char *)anon_dpp && (char *)p < (char *)anon_dpp + 16) return (char *)anon_dpp + 16 - (char *)p;
    return -1;
}
struct Step { int k; int i; const Member *m; };        // 0 '.', 1 '->', 2 '[i]'
enum { OK, BAD, EITHER };
struct Val { char *a; const Type *t; std::vector<int> d; int bs, bn; bool ptr; };
static int apply(Val &v, const Step &s) {
    if (s.k == 2) {
        if (v.d.empty()) return BAD;
        int d = v.d[0]; std::vector<int> rest(v.d.begin() + 1, v.d.end()); size_t sz = elem_size(v.t, rest, 0);
        if (d) { if (s.i < 0 || s.i >= d) return BAD; v.a += s.i * sz; v.d = rest; return OK; }
        void *p = *(void **)v.a; if (!p || s.i < 0) return BAD;
        v.ptr = true;
        int must = must_of(v.a); long r = room(p);
        v.a = (char *)p + s.i * sz; v.d = rest;
        if (s.i < must) return OK;
        if (r >= 0 && (long)((s.i + 1) * sz) > r) return BAD;
        return EITHER;
    }
    if (s.k == 1) { if (v.d.size() != 1) return BAD; int r = apply(v, {2, 0, 0}); if (r == BAD) return r; }
    if (!v.d.empty() || v.t->tt != TRICK_STRUCTURED || !s.m) return BAD;
    if (std::find_if(v.t->m.begin(), v.t->m.end(), [&](const Member &m) { return &m == s.m; }) == v.t->m.end()) return BAD;
    v.a += s.m->off; v.t = s.m->t; v.d = s.m->dims; v.bs = s.m->bit_start; v.bn = s.m->bit_n; return OK;
}
static int eval(const Var &b, const std::vector<Step> &st, Val &v) {
    v = Val{b.a, b.t, b.dims, 0, 0, false}; int res = OK;
    for (auto &s : st) { int r = apply(v, s); if (r == BAD) return BAD; if (r == EITHER) res = EITHER; }
    return res;
}
static int cfg; static long n_ok, n_bad;
static bool phase_write;
static void check_one(const Var &b, const std::vector<Step> &st, const std::string &e, bool unknown) {
    Val v; configure(cfg);
    int want = unknown ? BAD : eval(b, st, v);
    REF2 *r = mm->ref_attributes(e.c_str());
    mc::step(); mc::state(mc::hash(e) ^ cfg);
    if (!r) { n_bad++; if (want == OK) mc::fail("not-resolved", "%s (pointer configuration %d) names a variable but is refused", e.c_str(), cfg); return; }
    struct F { REF2 *r; ~F() { ref_free(r); free(r); } } f{r};
    if (want == BAD) mc::fail("resolved", "%s (pointer configuration %d) does not name a variable but resolves to %p", e.c_str(), cfg, r->address);
    n_ok++;
    if (r->address != v.a) mc::fail("address", "%s (pointer configuration %d) resolves to an address %ld bytes off", e.c_str(), cfg, (long)((char *)r->address - v.a));
    if (!r->attr || r->attr->type != v.t->tt) mc::fail("type", "%s: type %d instead of %d", e.c_str(), r->attr ? r->attr->type : -1, v.t->tt);
    if ((size_t)r->attr->size != v.t->size) mc::fail("size", "%s: size %d instead of %d", e.c_str(), r->attr->size, (int)v.t->size);
    if ((v.t->tt == TRICK_STRUCTURED || v.t->tt == TRICK_ENUMERATED) && !r->attr->attr) mc::fail("type-attributes", "%s", e.c_str());
    if (r->num_index_left != (int)v.d.size() || r->attr->num_index - r->num_index != (int)v.d.size()) mc::fail("dims-left", "%s: %d dimensions left instead of %d", e.c_str(), r->num_index_left, (int)v.d.size());
    for (size_t k = 0; k < v.d.size(); k++) if (r->attr->index[r->num_index + k].size != v.d[k]) mc::fail("dims", "%s: remaining dimension %d is %d instead of %d", e.c_str(), (int)k, r->attr->index[r->num_index + k].size, v.d[k]);
    if ((v.t->tt == TRICK_BITFIELD || v.t->tt == TRICK_UNSIGNED_BITFIELD) && (r->attr->index[0].start != v.bs || r->attr->index[0].size != v.bn)) mc::fail("bits", "%s", e.c_str());
    if (!r->reference || e != r->reference) mc::fail("name-kept", "%s: reference is %s", e.c_str(), r->reference ? r->reference : "null");
    if (v.ptr != (r->pointer_present != 0)) { bool elem = r->pointer_present && !v.ptr; if (!elem) mc::fail("pointer-present", "%s goes through a pointer but is not marked so", e.c_str()); }
    if (follow_address_path(r) != v.a) mc::fail("path", "%s (pointer configuration %d): following the address path again gives another address", e.c_str(), cfg);
    // the pointers move: the path must follow them
    if (v.ptr) for (int c2 = 0; c2 < 4; c2++) if (c2 != cfg) { configure(c2); Val w; int x = eval(b, st, w); if (x != BAD) { if (follow_address_path(r) != w.a) mc::fail("path-moved", "%s: after the pointers moved (configuration %d to %d) the path gives another address", e.c_str(), cfg, c2); } configure(cfg); }
}
static const char *first_only;
static void walk(const Var &b, std::vector<Step> &st, const std::string &e, int depth) {
    check_one(b, st, e, false);
    configure(cfg);
    Val v; if (eval(b, st, v) != OK) return;
    if (depth == 0) return;
    // every next step
    std::vector<int> idx;
    { int d = v.d.empty() ? 1 : v.d[0] ? v.d[0] : must_of(v.a); if (d > 6) d = 3; for (int i : {-1, 0, 1, d - 1, d, d + 1, 7}) if (std::find(idx.begin(), idx.end(), i) == idx.end()) idx.push_back(i); }
    if (v.d.empty()) idx = {0, 1};
    for (int i : idx) { st.push_back({2, i, 0}); walk(b, st, e + "[" + std::to_string(i) + "]", depth - 1); st.pop_back(); }
    const Type *t = v.t;
    for (int arrow = 0; arrow < 2; arrow++) {
        std::string sep = arrow ? "->" : ".";
        if (t->tt == TRICK_STRUCTURED) {
            bool right = arrow ? v.d.size() == 1 : v.d.empty();
            for (auto &m : t->m) { st.push_back({arrow, 0, &m}); walk(b, st, e + sep + m.name, depth - 1); st.pop_back(); if (!right) break; }
        }
        for (const char *u : {"nosuch", "i", ""}) { bool has = false; if (t->tt == TRICK_STRUCTURED) for (auto &m : t->m) if (!strcmp(m.name, u)) has = true; if (!has) check_one(b, st, e + sep + u, true); }
    }
    for (const char *u : {"[", "]", "[]", "[x]", "[1.5]", " .", "[1", "..i", "!", "->", "[0x]"}) check_one(b, st, e + u, true);
}
// spelling variants that mean the same
static void spelling() {
    struct { const char *e; void *a; } V[] = {{"in2[0x1][0x2]", &((MMInner(*)[3])var("in2").a)[1][2]}, {" in2 [ 1 ] [ 2 ] . i ", &((MMInner(*)[3])var("in2").a)[1][2].i}, {"cube[01][0][1]", (int *)var("cube").a + 5}, {"o . in . d [ 1 ]", &((MMOuter *)var("o").a)->in.d[1]}};
    for (auto &x : V) { REF2 *r = mm->ref_attributes(x.e); if (!r || r->address != x.a) mc::fail("spelling", "%s", x.e); ref_free(r); free(r); mc::step(); }
    for (const char *x : {"", "nosuch", "[0]", ".i", "1", "o o", "o,in", "O", "in2[99999999999]", "da[4294967296]", "da[4294967297]", "da[0x100000001]"}) { REF2 *r = mm->ref_attributes(x); if (r) mc::fail("bad-name-resolved", "%s resolves to %ld bytes from da", x, (long)((char *)r->address - var("da").a)); mc::step(); }
}
// every address of every cell has a name that leads back to it
static void back(char *a, const Type *t, const std::vector<int> &d, const std::string &what) {
    if (!d.empty() && d[0]) { std::vector<int> r(d.begin() + 1, d.end()); size_t s = elem_size(t, r, 0); for (int i = 0; i < d[0]; i++) back(a + i * s, t, r, what + "[" + std::to_string(i) + "]"); return; }
    if (d.empty() && t->tt == TRICK_STRUCTURED) { for (auto &m : t->m) back(a + m.off, m.t, m.dims, what + "." + m.name); return; }
    std::string n = mm->ref_name_from_address(a);
    mc::step(); mc::state(mc::hash(n));
    if (n.empty() || n[0] != '&') mc::fail("address-not-named", "the address of %s is named \"%s\"", what.c_str(), n.c_str());
    REF2 *r = mm->ref_attributes(n.c_str() + 1);
    if (!r) mc::fail("address-name-bad", "the address of %s is named %s, which is not a reference", what.c_str(), n.c_str());
    void *ra = r->address; ref_free(r); free(r);
    if (ra != a) mc::fail("address-name-wrong", "the address of %s is named %s, which is %ld bytes away", what.c_str(), n.c_str(), (long)((char *)ra - a));
}
// elements of containers: reached by index, refused outside, their members and members behind pointers reached
static void ask(const std::string &e, void *want, TRICK_TYPE t, bool path_holds = true) {
    REF2 *r = mm->ref_attributes(e.c_str()); mc::step(); mc::state(mc::hash(e));
    if (!want) { if (r) mc::fail("stl-resolved", "%s does not name a variable but resolves", e.c_str()); return; }
    if (!r) mc::fail("stl-not-resolved", "%s", e.c_str());
    if (r->address != want) mc::fail("stl-address", "%s resolves %ld bytes off", e.c_str(), (long)((char *)r->address - (char *)want));
    TRICK_TYPE got = Trick::ReferenceUtils::effective_trick_type(r); if (got != t) mc::fail("stl-type", "%s has type %d instead of %d", e.c_str(), got, t);
    if (!r->stl_present) mc::fail("stl-present", "%s is not marked as a container element", e.c_str());
    ref_free(r); free(r);
}
static void stl() {
    int n = mc::choose(4, "size"); bool arr = mc::choose(2, "array"); 
    MMStl2 *w = (MMStl2 *)mm->declare_var(arr ? "MMStl2 w[2]" : "MMStl2 w"); std::string b = arr ? "w[1].s." : "w.s."; MMStl *s = &w[arr].s;
    static MMInner target[3];
    for (int i = 0; i < n; i++) { s->vd.push_back(i); s->vi.push_back(i); s->vs.push_back("x"); s->dd.push_back(i); s->vin.push_back(MMInner()); s->vpin.push_back(i == 1 ? 0 : &target[i]); s->vc.push_back(MM_RED); s->vk.push_back(mmns::Kind::one); s->vf.push_back(i); s->li.push_back(i); s->mid[i] = i; s->si.insert(i); s->vdp.push_back(0); s->vvi.push_back(std::vector<int>(2)); s->vch.push_back('a'); }
    for (int i = -1; i < n + 2; i++) {
        std::string x = "[" + std::to_string(i) + "]"; bool in = i >= 0 && i < n;
        ask(b + "vd" + x, in ? &s->vd[i] : 0, TRICK_DOUBLE); ask(b + "vi" + x, in ? &s->vi[i] : 0, TRICK_INTEGER); ask(b + "vs" + x, in ? &s->vs[i] : 0, TRICK_STRING); ask(b + "dd" + x, in ? &s->dd[i] : 0, TRICK_DOUBLE); ask(b + "vf" + x, in ? &s->vf[i] : 0, TRICK_FLOAT);
        ask(b + "vc" + x, in ? &s->vc[i] : 0, TRICK_ENUMERATED); ask(b + "vin" + x, in ? &s->vin[i] : 0, TRICK_STRUCTURED); ask(b + "vin" + x + ".i", in ? &s->vin[i].i : 0, TRICK_INTEGER); ask(b + "ai" + x, i >= 0 && i < 3 ? &s->ai[i] : 0, TRICK_INTEGER);
        for (int k = -1; k < 4; k++) { std::string y = "[" + std::to_string(k) + "]"; ask(b + "vin" + x + ".d" + y, in && k >= 0 && k < 2 ? &s->vin[i].d[k] : 0, TRICK_DOUBLE); ask(b + "vpin" + x + ".d" + y, in && i != 1 && k >= 0 && k < 2 ? &target[i].d[k] : 0, TRICK_DOUBLE); }
        ask(b + "vin" + x + ".nosuch", 0, TRICK_VOID); ask(b + "vd" + x + "[0]", 0, TRICK_VOID); ask(b + "vd" + x + ".i", 0, TRICK_VOID); 
        for (const char *u : {"li", "mid", "si"}) ask(b + u + x, 0, TRICK_VOID);
    }
    // two references at the same time keep their own types
    if (n) { REF2 *a = mm->ref_attributes((b + "vc[0]").c_str()), *k = mm->ref_attributes((b + "vk[0]").c_str()); if (!a || !k || k->address != &s->vk[0]) mc::fail("stl-not-resolved", "vk"); if (a->attr->size != 4 || k->attr->size != 2 || strcmp(a->attr->type_name, "MMColor")) mc::fail("stl-shared-type", "the type of %svc[0] changed when %svk[0] was resolved (%s %d, %s %d)", b.c_str(), b.c_str(), a->attr->type_name, a->attr->size, k->attr->type_name, k->attr->size); for (REF2 *r : {a, k}) { ref_free(r); free(r); } }
    mc::outcome(mc::hv(n, arr, 77));
    mm->delete_var(w);
}
static void body() {
    struct Keep { Keep() { mm = new Trick::MemoryManager; mm->set_debug_level(0); } ~Keep() { delete mm; mm = 0; } } keep;
    make_vars();
    anon_in = (char *)mm->declare_var("MMInner", 3); anon_d = (char *)mm->declare_var("double", 3); anon_dpp = (char **)mm->declare_var("double*", 2);
    cfg = mc::choose(4, "pointers");
    int b = mc::choose((int)vars.size() + 2, "base");
    configure(cfg); if (b == (int)vars.size() + 1) { if (cfg == 0) stl(); return; }
    if (b == (int)vars.size()) { spelling(); for (auto &v : vars) back(v.a, v.t, v.dims, v.name); for (void *p : {(void *)loose, (void *)loose_d}) if (mm->ref_name_from_address(p)[0] == '&') mc::fail("unknown-named", "unmanaged storage got a name"); if (mm->ref_name_from_address(0) != "NULL") mc::fail("null-name", "x"); return; }
    Var v = vars[b];
    bool big = !strcmp(v.name, "o") || !strcmp(v.name, "ex") || !strcmp(v.name, "op");
    std::vector<Step> st; n_ok = n_bad = 0;
    walk(v, st, v.name, (mc::thorough() ? 9 : 7) - (big ? 1 : 0));
    mc::outcome(mc::hv(b, cfg, n_ok, n_bad));
}
int main(int argc, char **argv) {
    build(); static struct Null : std::streambuf { int overflow(int c) { return c; } } nb; if (!getenv("MM_LOUD")) { std::cerr.rdbuf(&nb); fflush(stdout); } std::cout.rdbuf(&nb);
    mc::Options o; o.split = 2; o.timeout_s = 600;
    return mc::run(argc, argv, o, body);
}
