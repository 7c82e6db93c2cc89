// a simulation world for data recording: variables of every type, groups, expected text
#pragma once
#include <iostream>
#include <fstream>
#include <sstream>
#include <cmath>
#include <unistd.h>
#include "trick/MemoryManager.hh"
#include "trick/memorymanager_c_intf.h"
#include "trick/DRAscii.hh"
#include "trick/DRBinary.hh"
#include "trick/JobData.hh"
#include "mm_types.hh"
#include "vs_types.hh"
static long long now; static std::string dir; static long long tic_value = 1000; static int warned;
extern "C" {
int message_publish(int, const char *, ...) { warned++; return 0; }
long long exec_get_time_tics() { return now; }
int exec_get_time_tic_value() { return (int)tic_value; }
double exec_get_sim_time() { return (double)now / tic_value; }
const char *command_line_args_get_output_dir() { return dir.c_str(); }
}
// attributes of the ascii group, which registers itself
extern "C" { ATTRIBUTES attrTrick__DRAscii[1]; void init_attrTrick__DRAscii() { static bool d = false; if (!d) { d = true; memset(attrTrick__DRAscii, 0, sizeof attrTrick__DRAscii); attrTrick__DRAscii[0].name = ""; } } size_t io_src_sizeof_Trick__DRAscii() { return sizeof(Trick::DRAscii); } void init_attrTrick__DRAscii_c_intf() { init_attrTrick__DRAscii(); } void *io_src_allocate_Trick__DRAscii(int) { return 0; } void io_src_delete_Trick__DRAscii(void *) {} void io_src_destruct_Trick__DRAscii(void *, int) {} }
#define CK(c, sig, ...) do { if (!(c)) mc::fail(sig, __VA_ARGS__); } while (0)
static void quiet() { static bool done = false; if (done) return; done = true; static struct NB : std::streambuf { int overflow(int c) override { return c; } } nb; if (!getenv("MM_LOUD")) { std::cout.rdbuf(&nb); std::cerr.rdbuf(&nb); stderr = fopen("/dev/null", "w"); } }
static std::string slurp(const std::string &p) { std::ifstream f(p.c_str()); std::stringstream s; s << f.rdbuf(); return s.str(); }
static std::string hist;
// ---- what the simulation holds
static Trick::MemoryManager *mm; static VSU u; static MMScalars sc; static MMOuter o; static double *gd; static int *gi; static VSPoint *pts; static MMInner *in_; static double w, w2, x; static int wi; static short xs;
template <class T> static std::string raw(const T &v) { return std::string((const char *)&v, sizeof v); }
struct Def { const char *name; TRICK_TYPE type; int size; const char *units; std::function<bool(std::string &)> get; bool ok; };
static std::vector<Def> defs;
template <class T> static void add(const char *n, TRICK_TYPE t, T *p, const char *un = "1") { defs.push_back(Def{n, t, (int)sizeof(T), un, [p](std::string &r) { r = raw(*p); return true; }, true}); }
static void addf(const char *n, TRICK_TYPE t, int size, std::function<bool(std::string &)> g, const char *un = "1") { defs.push_back(Def{n, t, size, un, g, true}); }
static void bad(const char *n) { defs.push_back(Def{n, TRICK_VOID, 0, "", [](std::string &) { return false; }, false}); }
static void setup() {
    static bool once = false; if (once) return; once = true; mm = new Trick::MemoryManager; Trick::JobData::time_tic_value = tic_value;
    mm->declare_extern_var(&u, "VSU u"); mm->declare_extern_var(&sc, "MMScalars sc"); mm->declare_extern_var(&o, "MMOuter o"); mm->declare_extern_var(&w, "double w"); mm->declare_extern_var(&w2, "double w2"); mm->declare_extern_var(&x, "double x"); mm->declare_extern_var(&wi, "int wi"); mm->declare_extern_var(&xs, "short xs");
    gd = (double *)mm->declare_var("double gd[3]"); gi = (int *)mm->declare_var("int gi[4]"); pts = (VSPoint *)mm->declare_var("VSPoint pts[2]"); in_ = (MMInner *)mm->declare_var("MMInner[2]");
    add("u.len", TRICK_DOUBLE, &u.len, "m"); add("u.cm", TRICK_INTEGER, &u.cm, "cm"); add("u.deg", TRICK_FLOAT, &u.deg, "degree"); add("u.temp", TRICK_DOUBLE, &u.temp, "K"); add("u.ratio", TRICK_DOUBLE, &u.ratio, "--"); add("u.row[2]", TRICK_DOUBLE, &u.row[2], "ft"); add("u.m23[1][2]", TRICK_DOUBLE, &u.m23[1][2], "m"); add("u.pt.w", TRICK_FLOAT, &u.pt.w, "degree");
    add("sc.c", TRICK_CHARACTER, &sc.c); add("sc.uc", TRICK_UNSIGNED_CHARACTER, &sc.uc); add("sc.s", TRICK_SHORT, &sc.s); add("sc.us", TRICK_UNSIGNED_SHORT, &sc.us); add("sc.i", TRICK_INTEGER, &sc.i); add("sc.ui", TRICK_UNSIGNED_INTEGER, &sc.ui); add("sc.l", TRICK_LONG, &sc.l); add("sc.ul", TRICK_UNSIGNED_LONG, &sc.ul);
    add("sc.ll", TRICK_LONG_LONG, &sc.ll); add("sc.ull", TRICK_UNSIGNED_LONG_LONG, &sc.ull); add("sc.f", TRICK_FLOAT, &sc.f); add("sc.d", TRICK_DOUBLE, &sc.d); add("sc.b", TRICK_BOOLEAN, &sc.b); add("sc.e", TRICK_ENUMERATED, &sc.e); add("sc.k", TRICK_ENUMERATED, &sc.k);
    addf("sc.u3", TRICK_UNSIGNED_BITFIELD, 4, [](std::string &r) { unsigned v = sc.u3; r = raw(v); return true; }); addf("sc.s5", TRICK_BITFIELD, 4, [](std::string &r) { int v = sc.s5; r = raw(v); return true; }); addf("sc.u24", TRICK_UNSIGNED_BITFIELD, 4, [](std::string &r) { unsigned v = sc.u24; r = raw(v); return true; });
    add("sc.ca[2]", TRICK_CHARACTER, &sc.ca[2]); add("sc.fa[1]", TRICK_FLOAT, &sc.fa[1]); add("sc.ia[1][0]", TRICK_INTEGER, &sc.ia[1][0]); add("gd[1]", TRICK_DOUBLE, gd + 1); add("o.arr[1][2].i", TRICK_INTEGER, &o.arr[1][2].i);
    addf("o.p->d[1]", TRICK_DOUBLE, 8, [](std::string &r) { if (!o.p) return false; r = raw(o.p->d[1]); return true; }); addf("u.pp[1].w", TRICK_FLOAT, 4, [](std::string &r) { if (!u.pp) return false; r = raw(u.pp[1].w); return true; }, "degree"); addf("u.dp[1]", TRICK_DOUBLE, 8, [](std::string &r) { if (!u.dp) return false; r = raw(u.dp[1]); return true; }, "m");
    addf("u.vd[1]", TRICK_DOUBLE, 8, [](std::string &r) { if (u.vd.size() < 2) return false; r = raw(u.vd[1]); return true; }, "m"); addf("u.vp[1].x", TRICK_DOUBLE, 8, [](std::string &r) { if (u.vp.size() < 2) return false; r = raw(u.vp[1].x); return true; }, "degree"); addf("u.vp[0].w", TRICK_FLOAT, 4, [](std::string &r) { if (u.vp.size() < 1) return false; r = raw(u.vp[0].w); return true; }, "degree");
    bad("nosuch.y"); bad("sc.str"); bad("sc.w"); bad("sc.ia"); bad("sc.ia[1]"); bad("u.vd"); bad("u.vs[0]"); bad("u.pt"); bad("u.dp"); bad("sc.cp"); bad("sc.i[3]"); bad("u.row[7]");
}
static void values(int k) {
    static const double D[] = {0, -1.5, 1.0 / 3, 1e300, -5e-324, 123456789.125, INFINITY, -0.0}; double d = D[k % 8], e = D[(k + 3) % 8];
    static const long long L[] = {0, -1, 7, 0x7fffffffffffffffLL, (long long)0x8000000000000000ULL, 1000000, 255, -32768}; long long l = L[k % 8];
    u.len = d; u.cm = (int)l; u.deg = (float)e; u.temp = e; u.ratio = d; u.row[2] = e; u.m23[1][2] = d; u.pt.w = (float)d; sc.c = "aZ5 ~x0!"[k % 8]; sc.uc = (unsigned char)(l >> 3); sc.s = (short)l; sc.us = (unsigned short)l; sc.i = (int)l; sc.ui = (unsigned)l; sc.l = l; sc.ul = l; sc.ll = l; sc.ull = l; sc.f = (float)d; sc.d = d; sc.b = k & 1;
    sc.e = k & 1 ? MM_BLUE : MM_GREEN; sc.k = k & 1 ? mmns::Kind::two : (mmns::Kind)-7; sc.u3 = k; sc.s5 = -k; sc.u24 = 0xabcdef + k; sc.ca[2] = 'b' + k; sc.ca[1] = 'q'; sc.fa[1] = (float)e; sc.ia[1][0] = (int)l; gd[1] = d; o.arr[1][2].i = (int)l; o.p = in_ + (k & 1); in_[0].d[1] = d; in_[1].d[1] = e; u.pp = pts; pts[1].w = (float)d; u.dp = gd;
    u.vd.assign(k % 3 + 2, d); u.vd[1] = e; u.vp.assign(k % 2 ? 20 : 2, u.pt); u.vp[1].x = d; u.vp[0].w = (float)e; u.vd.shrink_to_fit(); u.vp.shrink_to_fit();
}
static std::string rd_int(const std::string &f, size_t &p, int &v) { if (p + 4 > f.size()) mc::fail("log file too short", "%zu bytes, at %zu after%s", f.size(), p, hist.c_str()); memcpy(&v, f.data() + p, 4); p += 4; return ""; }
static std::string rd_str(const std::string &f, size_t &p) { int n; rd_int(f, p, n); if (n < 0 || p + n > f.size()) mc::fail("log file too short", "string of %d", n); std::string s = f.substr(p, n); p += n; return s; }
struct Col { std::string name, units; int type, size; };
static std::vector<std::vector<std::string>> read_trk(const std::string &file, std::vector<Col> &cols) {
    std::string f = slurp(file); size_t p = 10; CK(f.compare(0, 10, "Trick-10-L") == 0, "bad file start", "%s after%s", f.substr(0, 10).c_str(), hist.c_str()); int n; rd_int(f, p, n);
    for (int i = 0; i < n; i++) { Col c; c.name = rd_str(f, p); c.units = rd_str(f, p); rd_int(f, p, c.type); rd_int(f, p, c.size); cols.push_back(c); }
    std::vector<std::vector<std::string>> rows; while (p < f.size()) { std::vector<std::string> r; for (auto &c : cols) { CK(p + c.size <= f.size(), "partial row", "after%s", hist.c_str()); r.push_back(f.substr(p, c.size)); p += c.size; } rows.push_back(r); } return rows;
}
static std::vector<std::string> split(const std::string &s, const std::string &d) { std::vector<std::string> r; size_t p = 0; for (;;) { size_t q = s.find(d, p); r.push_back(s.substr(p, q == std::string::npos ? q : q - p)); if (q == std::string::npos) return r; p = q + d.size(); } }
static std::string text(const Def &d, const std::string &v) {
    char b[64]; long long sv = 0; double dv; switch (d.type) {
    case TRICK_CHARACTER: return v; case TRICK_UNSIGNED_CHARACTER: sv = (unsigned char)v[0]; break; case TRICK_BOOLEAN: sv = v[0] != 0; break; case TRICK_SHORT: { short q; memcpy(&q, v.data(), 2); sv = q; break; } case TRICK_UNSIGNED_SHORT: { unsigned short q; memcpy(&q, v.data(), 2); sv = q; break; }
    case TRICK_ENUMERATED: if (d.size == 2) { short q; memcpy(&q, v.data(), 2); sv = q; break; } case TRICK_INTEGER: case TRICK_BITFIELD: { int q; memcpy(&q, v.data(), 4); sv = q; break; } case TRICK_UNSIGNED_INTEGER: case TRICK_UNSIGNED_BITFIELD: { unsigned q; memcpy(&q, v.data(), 4); sv = q; break; }
    case TRICK_LONG: case TRICK_LONG_LONG: memcpy(&sv, v.data(), 8); break; case TRICK_UNSIGNED_LONG: case TRICK_UNSIGNED_LONG_LONG: { unsigned long long q; memcpy(&q, v.data(), 8); snprintf(b, 64, "%llu", q); return b; }
    case TRICK_FLOAT: { float q; memcpy(&q, v.data(), 4); snprintf(b, 64, "%20.8g", q); return b; } case TRICK_DOUBLE: memcpy(&dv, v.data(), 8); snprintf(b, 64, "%20.16g", dv); return b; default: return "?"; }
    snprintf(b, 64, "%lld", sv); return b;
}
static const char *tname(const Def &d) {
    switch (d.type) { case TRICK_CHARACTER: return "char"; case TRICK_UNSIGNED_CHARACTER: case TRICK_BOOLEAN: return "unsigned_char"; case TRICK_SHORT: return "short"; case TRICK_UNSIGNED_SHORT: return "unsigned_short"; case TRICK_ENUMERATED: return d.size == 2 ? "short" : "int"; case TRICK_INTEGER: case TRICK_BITFIELD: return "int"; case TRICK_UNSIGNED_INTEGER: case TRICK_UNSIGNED_BITFIELD: return "unsigned_int";
    case TRICK_LONG: return "long"; case TRICK_UNSIGNED_LONG: return "unsigned_long"; case TRICK_LONG_LONG: return "long_long"; case TRICK_UNSIGNED_LONG_LONG: return "unsigned_long_long"; case TRICK_FLOAT: return "float"; default: return "double"; }
}
struct Group { // RAII
    Trick::DRBinary *b; Trick::DRAscii *a; Trick::DataRecordGroup *g; Trick::JobData *job; bool shut; std::string file;
    Group(bool ascii) : b(0), a(0), shut(false) { now = 0; if (ascii) g = a = new Trick::DRAscii("g"); else g = b = new Trick::DRBinary("g", false); g->set_job_class("data_record"); job = g->jobs.back(); for (auto *j : g->jobs) if (j->id == 99) job = j; file = dir + "/log_g" + (ascii ? ".csv" : ".trk"); }
    void shutdown() { if (!shut) { shut = true; g->shutdown(); } }
    ~Group() { if (!shut) g->shutdown(); if (a) { mm->delete_extern_var((void *)a); } delete g; unlink(file.c_str()); unlink((dir + "/log_g.header").c_str()); }
};
