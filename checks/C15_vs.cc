// C15: variable server sessions: every value format, every short command history of one session and
// of two sessions inside a stepping simulation, against the documented messages.
#define MC_MAIN
#include "mc.hh"
#include <iostream>
#include <sstream>
#include <cmath>
#include <pthread.h>
#include <wchar.h>
#include "trick/MemoryManager.hh"
#include "trick/memorymanager_c_intf.h"
#include "trick/ClientConnection.hh"
#include "trick/JobData.hh"
#include "trick/TrickConstant.hh"
#include "mm_types.hh"
#include "vs_types.hh"
static pthread_t cur_self = 1;
static pthread_t fake_self() { return cur_self; }
#include "trick/VariableServer.hh"
#include "trick/UnitsMap.hh"
#include "trick/UdUnits.hh"
#define pthread_self fake_self
#include "sim_services/VariableServer/var_server_ext.cpp"
#undef pthread_self
extern "C" {
int message_publish(int, const char *, ...) { return 0; }
static long long now_tics, freeze_tics, frame_no, freeze_frame_no; static int realtime = 1;
long long exec_get_time_tics() { return now_tics; }
int exec_get_time_tic_value() { return 1000; }
long long exec_get_freeze_time_tics() { return freeze_tics; }
long long exec_get_frame_count() { return frame_no; }
long long exec_get_freeze_frame_count() { return freeze_frame_no; }
double exec_get_sim_time() { return now_tics / 1000.0; }
int is_real_time() { return realtime; }
void sie_class_attr_map_print_xml() {} void sie_enum_attr_map_print_xml() {} void sie_top_level_objects_print_xml() {} const char *sie_get_runtime_sie_dir() { return ""; } void sie_append_runtime_objs() {}
const char *exec_get_current_version() { return ""; } SIM_MODE exec_get_mode() { return Run; } const char *command_line_args_get_input_file() { return ""; } const char *command_line_args_get_cmdline_name() { return ""; } const char *command_line_args_get_default_dir() { return ""; } int ip_parse(const char *) { return 0; } void exec_signal_terminate() {}
}
int open_custom_message_file(std::string, std::string, int) { return 0; }
#define CK(c, sig, ...) do { if (!(c)) mc::fail(sig, __VA_ARGS__); } while (0)
static std::string show(const std::string &s) { std::string r; char b[8]; for (unsigned char c : s) { if (c >= 32 && c < 127) r += c; else { snprintf(b, sizeof b, "\\x%02x", c); r += b; } if (r.size() > 700) { r += "..."; break; } } return r; }
static std::string hist; static void OUT(const std::string &s) { mc::outcome(std::hash<std::string>()(s)); }
struct Conn : Trick::ClientConnection {
    std::vector<std::string> out; int fail_at = -1; bool blocking = false, wrote_nonblocking = false; int n = 0;
    int start() override { return 0; }
    int write(const std::string &m) override { if (n++ == fail_at) return -1; if (!blocking) wrote_nonblocking = true; out.push_back(m); return m.size(); }
    int write(char *m, int s) override { if (n++ == fail_at) return -1; out.push_back(std::string(m, s)); return s; }
    int read(std::string &, int) override { return 0; }
    int setBlockMode(bool b) override { blocking = b; return 0; }
    int disconnect() override { return 0; }
    bool isInitialized() override { return true; }
    int restart() override { return 0; }
    std::string getClientTag() override { return "t"; }
    int setClientTag(std::string) override { return 0; }
    std::string getClientHostname() override { return "h"; }
    int getClientPort() override { return 1; }
};
// ---- what the simulation holds
static Trick::MemoryManager *mm; static VSU u; static MMScalars sc; static MMOuter o; static double *gd; static int *gi; static MMInner *in_; static VSPoint *pts; static std::string *gstr; static char cbuf[9000]; static double vtime[3];
struct Fmt { TRICK_TYPE type; int elem; bool chars; int start, bits; Fmt() : type(TRICK_NUMBER_OF_TYPES), elem(4), chars(false), start(0), bits(0) {} };
struct Unit { const char *name; double num, den, off; const char *shown; };          // shown value = value * num / den + off
struct Def { const char *name; Fmt f; std::function<bool(std::string &)> get; std::vector<Unit> units; bool readable = true; };
static std::vector<Def> defs; static int def_of(const std::string &n) { for (size_t i = 0; i < defs.size(); i++) if (n == defs[i].name) return i; return -1; }
template <class T> static void add(const char *n, TRICK_TYPE t, T *p, int cnt = 1, std::vector<Unit> us = {}) { Def d; d.name = n; d.f.type = t; d.f.elem = sizeof(T); d.get = [p, cnt](std::string &r) { r.assign((const char *)p, cnt * sizeof(T)); return true; }; d.units = us; defs.push_back(d); }
static void addf(const char *n, TRICK_TYPE t, int elem, std::function<bool(std::string &)> g, std::vector<Unit> us = {}) { Def d; d.name = n; d.f.type = t; d.f.elem = elem; d.get = g; d.units = us; defs.push_back(d); }
static void chars() { defs.back().f.chars = true; }
template <class T> static std::string raw(const T &v) { return std::string((const char *)&v, sizeof v); }
static void init_defs() {
    std::vector<Unit> m = {{"ft", 1, 0.3048, 0, "ft"}, {"km", 1, 1000, 0, "km"}, {"xx", 1, 1, 0, "m"}, {"M", 1, 1, 0, "m"}}, cm = {{"m", 1, 100, 0, "m"}, {"mm", 10, 1, 0, "mm"}}, dg = {{"rad", M_PI, 180, 0, "rad"}, {"d", 1, 1, 0, "degree"}},
        s = {{"ms", 1000, 1, 0, "ms"}, {"min", 1, 60, 0, "min"}}, K = {{"degC", 1, 1, -273.15, "degC"}}, km = {{"m", 1000, 1, 0, "m"}}, kg = {{"g", 1000, 1, 0, "g"}}, ft = {{"in", 12, 1, 0, "in"}, {"m", 0.3048, 1, 0, "m"}};
    add("u.len", TRICK_DOUBLE, &u.len, 1, m); add("u.cm", TRICK_INTEGER, &u.cm, 1, cm); add("u.deg", TRICK_FLOAT, &u.deg, 1, dg); add("u.sec", TRICK_LONG, &u.sec, 1, s); add("u.temp", TRICK_DOUBLE, &u.temp, 1, K);
    add("u.dist", TRICK_UNSIGNED_SHORT, &u.dist, 1, km); add("u.mass", TRICK_LONG_LONG, &u.mass, 1, kg); add("u.row", TRICK_DOUBLE, u.row, 3, ft); add("u.row[1]", TRICK_DOUBLE, &u.row[1], 1, ft); add("u.m23", TRICK_DOUBLE, &u.m23[0][0], 6); add("u.m23[1]", TRICK_DOUBLE, &u.m23[1][0], 3, m); add("u.m23[1][2]", TRICK_DOUBLE, &u.m23[1][2]);
    add("u.pt.x", TRICK_DOUBLE, &u.pt.x); add("u.pt.w", TRICK_FLOAT, &u.pt.w);
    addf("u.pp[1].w", TRICK_FLOAT, 4, [](std::string &r) { if (!u.pp) return false; r = raw(u.pp[1].w); return true; }, dg); addf("u.pp->x", TRICK_DOUBLE, 8, [](std::string &r) { if (!u.pp) return false; r = raw(u.pp->x); return true; });
    addf("u.vd[1]", TRICK_DOUBLE, 8, [](std::string &r) { if (u.vd.size() < 2) return false; r = raw(u.vd[1]); return true; }, m);
    addf("u.vs[0]", TRICK_STRING, 1, [](std::string &r) { if (u.vs.size() < 1) return false; r = std::string(u.vs[0].c_str(), u.vs[0].size() + 1); return true; }); addf("u.vp[1].x", TRICK_DOUBLE, 8, [](std::string &r) { if (u.vp.size() < 2) return false; r = raw(u.vp[1].x); return true; });
    auto dyn = [](void *p, int elem, char *base, int n) { std::string r; if (p) r.assign((char *)p, base + n * elem - (char *)p); return r; };
    addf("u.dp", TRICK_DOUBLE, 8, [dyn](std::string &r) { r = dyn(u.dp, 8, (char *)gd, 3); return true; }, m); addf("u.dp[1]", TRICK_DOUBLE, 8, [](std::string &r) { if (!u.dp || u.dp + 1 >= gd + 3) return false; r = raw(u.dp[1]); return true; }); defs.back().readable = false;
    addf("u.sp[0]", TRICK_STRING, 1, [](std::string &r) { if (!u.sp) return false; r = std::string(u.sp->c_str(), u.sp->size() + 1); return true; });
    add("sc.c", TRICK_CHARACTER, &sc.c); add("sc.uc", TRICK_UNSIGNED_CHARACTER, &sc.uc); add("sc.s", TRICK_SHORT, &sc.s); add("sc.us", TRICK_UNSIGNED_SHORT, &sc.us); add("sc.i", TRICK_INTEGER, &sc.i); add("sc.ui", TRICK_UNSIGNED_INTEGER, &sc.ui);
    add("sc.l", TRICK_LONG, &sc.l); add("sc.ul", TRICK_UNSIGNED_LONG, &sc.ul); add("sc.ll", TRICK_LONG_LONG, &sc.ll); add("sc.ull", TRICK_UNSIGNED_LONG_LONG, &sc.ull); add("sc.f", TRICK_FLOAT, &sc.f); add("sc.d", TRICK_DOUBLE, &sc.d); add("sc.b", TRICK_BOOLEAN, &sc.b);
    add("sc.e", TRICK_ENUMERATED, &sc.e); add("sc.k", TRICK_ENUMERATED, &sc.k); add("sc.w", TRICK_WCHAR, &sc.w); add("sc.ia", TRICK_INTEGER, &sc.ia[0][0], 4); add("sc.ia[1]", TRICK_INTEGER, &sc.ia[1][0], 2); add("sc.ia[1][0]", TRICK_INTEGER, &sc.ia[1][0]);
    add("sc.ca", TRICK_CHARACTER, sc.ca, 6); chars(); add("sc.ca[2]", TRICK_CHARACTER, &sc.ca[2]); add("sc.uca", TRICK_UNSIGNED_CHARACTER, sc.uca, 3); chars(); add("sc.wa", TRICK_WCHAR, sc.wa, 4); chars(); add("sc.fa", TRICK_FLOAT, sc.fa, 3); add("sc.da", TRICK_DOUBLE, sc.da, 2); add("sc.sha", TRICK_SHORT, sc.sha, 2); add("sc.sha[1]", TRICK_SHORT, &sc.sha[1]);
    add("sc.la", TRICK_LONG, sc.la, 2); add("sc.ba", TRICK_BOOLEAN, sc.ba, 2); add("sc.ea", TRICK_ENUMERATED, sc.ea, 2); add("sc.ulla", TRICK_UNSIGNED_LONG_LONG, sc.ulla, 2);
    addf("sc.str", TRICK_STRING, 1, [](std::string &r) { r = std::string(sc.str.c_str(), sc.str.size() + 1); return true; }); addf("sc.cp", TRICK_STRING, 1, [](std::string &r) { if (sc.cp) r = std::string(sc.cp, strlen(sc.cp) + 1); else r = ""; return true; });
    addf("sc.ip", TRICK_INTEGER, 4, [dyn](std::string &r) { r = dyn(sc.ip, 4, (char *)gi, 4); return true; });
    auto bf = [](const char *n, bool sg, int st, int bits, std::function<long long()> g) { Def d; d.name = n; d.f.type = sg ? TRICK_BITFIELD : TRICK_UNSIGNED_BITFIELD; d.f.elem = 4; d.f.bits = bits; d.get = [g](std::string &r) { int v = (int)g(); r = raw(v); return true; }; defs.push_back(d); };
    bf("sc.u3", false, 0, 3, [] { return (long long)sc.u3; }); bf("sc.s5", true, 3, 5, [] { return (long long)sc.s5; }); bf("sc.u24", false, 8, 24, [] { return (long long)sc.u24; });
    addf("o.p->d[1]", TRICK_DOUBLE, 8, [](std::string &r) { if (!o.p) return false; r = raw(o.p->d[1]); return true; }); addf("o.p->c", TRICK_CHARACTER, 1, [](std::string &r) { if (!o.p) return false; r.assign(o.p->c, 4); return true; }); chars();
    add("o.der.mixa[1]", TRICK_INTEGER, &o.der.mixa[1]); add("o.arr[1][2].i", TRICK_INTEGER, &o.arr[1][2].i); add("o.der.base_i", TRICK_INTEGER, &o.der.base_i); add("gd[2]", TRICK_DOUBLE, gd + 2); add("gd", TRICK_DOUBLE, gd, 3); addf("gstr", TRICK_STRING, 1, [](std::string &r) { r = std::string(gstr->c_str(), gstr->size() + 1); return true; });
    addf("time", TRICK_DOUBLE, 8, [](std::string &r) { r = raw(now_tics / 1000.0); return true; }); defs.back().units = {{"s", 1, 1, 0, "s"}};
    addf("nosuch.x", TRICK_NUMBER_OF_TYPES, 4, [](std::string &) { return false; }); addf("u.pt", TRICK_NUMBER_OF_TYPES, 4, [](std::string &) { return false; }); addf("sc.i[3]", TRICK_NUMBER_OF_TYPES, 4, [](std::string &) { return false; });
}
// ---- the documented text and bytes of one value
struct Snap { bool ok = false; std::string raw; };
static std::string esc(const std::string &s) {
    std::string r; char b[8]; for (unsigned char c : s) { if (!c) break; switch (c) { case '\n': r += "\\n"; break; case '\t': r += "\\t"; break; case '\b': r += "\\b"; break; case '\a': r += "\\a"; break; case '\f': r += "\\f"; break; case '\r': r += "\\n"; break; case '\v': r += "\\v"; break;
        default: if (c >= 32 && c < 127) r += c; else { snprintf(b, sizeof b, "\\x%02x", c); r += b; } } } return r; }
template <class T> static T at(const std::string &s, int i) { T v; memcpy(&v, s.data() + i * sizeof(T), sizeof(T)); return v; }
static std::string num(const Fmt &f, const std::string &raw, int i, const Unit *un, bool &exact, long double &want) {
    char b[80]; exact = true; bool conv = un && !(un->num == un->den && !un->off); long double v = 0; bool fp = false, uns = false; long long sv = 0; unsigned long long uv = 0;
    switch (f.type) {
        case TRICK_CHARACTER: sv = at<char>(raw, i); break; case TRICK_UNSIGNED_CHARACTER: sv = at<unsigned char>(raw, i); break; case TRICK_SHORT: sv = at<short>(raw, i); break; case TRICK_UNSIGNED_SHORT: sv = at<unsigned short>(raw, i); break;
        case TRICK_INTEGER: sv = at<int>(raw, i); break; case TRICK_UNSIGNED_INTEGER: sv = at<unsigned>(raw, i); break; case TRICK_LONG: case TRICK_LONG_LONG: sv = at<long long>(raw, i); break; case TRICK_UNSIGNED_LONG: case TRICK_UNSIGNED_LONG_LONG: uns = true; uv = at<unsigned long long>(raw, i); break;
        case TRICK_BOOLEAN: sv = at<bool>(raw, i); break; case TRICK_ENUMERATED: sv = f.elem == 2 ? at<short>(raw, i) : at<int>(raw, i); break; case TRICK_WCHAR: sv = at<wchar_t>(raw, i); break; case TRICK_BITFIELD: sv = at<int>(raw, i); break; case TRICK_UNSIGNED_BITFIELD: sv = at<unsigned>(raw, i); break;
        case TRICK_FLOAT: fp = true; v = at<float>(raw, i); break; case TRICK_DOUBLE: fp = true; v = at<double>(raw, i); break; default: return "?"; }
    if (!conv) { if (fp) snprintf(b, 80, f.type == TRICK_FLOAT ? "%.8g" : "%.16g", (double)v); else if (uns) snprintf(b, 80, "%llu", uv); else snprintf(b, 80, "%lld", sv); return b; }
    want = (fp ? v : uns ? (long double)uv : (long double)sv) * un->num / un->den + un->off;
    if (!fp) { snprintf(b, 80, "%lld", (long long)truncl(want)); return b; }
    exact = !std::isfinite((double)want); snprintf(b, 80, f.type == TRICK_FLOAT ? "%.8g" : "%.16g", (double)want); return b;
}
// true when `got` starts (at pos) with the text of the value; pos moves behind it
static bool match_value(const std::string &got, size_t &pos, const Fmt &f, const Snap &s, const Unit *un, std::string &wanted) {
    auto lit = [&](const std::string &w) { wanted += w; if (got.compare(pos, w.size(), w)) return false; pos += w.size(); return true; };
    if (!s.ok) return lit("BAD_REF");
    if (f.type == TRICK_STRING || (f.chars && f.type != TRICK_WCHAR)) { if (!lit(esc(s.raw))) return false; }
    else if (f.chars) { std::string n; for (size_t i = 0; i < s.raw.size() / 4; i++) { wchar_t c = at<wchar_t>(s.raw, i); if (!c) break; n += (char)c; } if (!lit(n)) return false; }
    else for (size_t i = 0; i < s.raw.size() / f.elem; i++) {
        if (i && !lit(",")) return false; bool exact; long double want; std::string w = num(f, s.raw, i, un, exact, want);
        if (exact) { if (!lit(w)) return false; }
        else { char *e; double g = strtod(got.c_str() + pos, &e); wanted += w; long double tol = (f.type == TRICK_FLOAT ? 3e-7L : 1e-14L) * (fabsl(want) + fabsl(un->off)) + (f.type == TRICK_FLOAT ? 1.5e-45L : 5e-324L); if (e == got.c_str() + pos || fabsl(g - want) > tol) return false; pos = e - got.c_str(); }
    }
    return un ? lit(std::string(" {") + un->shown + "}") : true;
}
struct MVar { int def; const Unit *unit; bool staged; Snap s; bool once; };
static int code(const MVar &v) { return v.s.ok ? defs[v.def].f.type : TRICK_NUMBER_OF_TYPES; }
static std::string le(int v, bool sw) { std::string r = raw(v); if (sw) std::reverse(r.begin(), r.end()); return r; }
static std::string bin_value(const MVar &v, bool sw) { const Fmt &f = defs[v.def].f; if (!v.s.ok) return std::string(4, '\0'); std::string r = v.s.raw; int e = f.elem; if (sw) for (size_t i = 0; i + e <= r.size(); i += e) std::reverse(r.begin() + i, r.begin() + i + e); return r; }
// ---- model of one session
struct MSess { std::vector<MVar> v; bool bin = false, nonames = false, swap = false, pause = false, exit = false; int copy = 0, write = 0, fm = 1, fo = 0, ffm = 1, ffo = 0; long long cycle = 100, next = 0, fnext = 0, since = -1, fsince = -1; };
struct Sess { pthread_t id; Conn *c; Trick::VariableServerSession *s; MSess m; size_t seen; };
static Sess ss[2]; static int nsess; static Trick::VariableServer *vs; static Trick::JobData *jrun, *jfreeze;
static void split_msgs(Sess &x, std::string &all) { for (; x.seen < x.c->out.size(); x.seen++) all += x.c->out[x.seen]; }
static void take(MVar &v) { v.s.ok = defs[v.def].get(v.s.raw); v.staged = true; }
// everything this session was sent since the last look is the message for these variables (or nothing)
static void expect_none(Sess &x, const char *why) { if (x.seen < x.c->out.size()) mc::fail("an unexpected message", "%s: client %d received \"%s\" after%s", why, (int)x.id, show(x.c->out[x.seen]).c_str(), hist.c_str()); }
static void expect_vars(Sess &x, std::vector<MVar> &vars, int type) {
    for (size_t i = x.seen; i < x.c->out.size(); i++) CK(x.c->out[i].size() <= 8192, "a message longer than 8192 bytes", "%zu bytes after%s", x.c->out[i].size(), hist.c_str());
    CK(x.seen < x.c->out.size(), "no message", "client %d received nothing, expected its %zu variables after%s", (int)x.id, vars.size(), hist.c_str());
    if (!x.m.bin) {
        std::string all; split_msgs(x, all); size_t pos = 0; std::string wanted = std::to_string(type); bool ok = all.compare(0, wanted.size(), wanted) == 0; pos = wanted.size();
        for (auto &v : vars) { if (!ok) break; wanted += "\t"; ok = pos < all.size() && all[pos++] == '\t' && match_value(all, pos, defs[v.def].f, v.s, v.unit, wanted); }
        if (ok) { wanted += "\n"; ok = all.compare(pos, std::string::npos, "\n") == 0; }
        CK(ok, "a text message differs", "client %d received \"%s\", expected \"%s\" after%s", (int)x.id, show(all).c_str(), show(wanted).c_str(), hist.c_str()); return;
    }
    size_t k = 0; bool sw = x.m.swap; for (; x.seen < x.c->out.size(); x.seen++) {
        const std::string &g = x.c->out[x.seen]; std::string w, body; size_t k0 = k; CK(g.size() >= 12, "a binary message without header", "%zu bytes after%s", g.size(), hist.c_str()); int n = at<int>(g, 2); if (sw) n = __builtin_bswap32(n);
        for (int i = 0; i < n && k < vars.size(); i++, k++) { MVar &v = vars[k]; std::string nm = defs[v.def].name, val = bin_value(v, sw); if (!x.m.nonames) body += le(nm.size(), sw) + nm; body += le(code(v), sw) + le(val.size(), sw) + val; }
        w = le(type, sw) + le(body.size() + 8, sw) + le(k - k0, sw) + body;
        CK(g == w, "a binary message differs", "client %d received \"%s\", expected \"%s\" after%s", (int)x.id, show(g).c_str(), show(w).c_str(), hist.c_str());
    }
    CK(k == vars.size(), "variables missing from binary messages", "%zu of %zu after%s", k, vars.size(), hist.c_str());
}
static void expect_text(Sess &x, const std::string &w) { std::string all; split_msgs(x, all); CK(all == w, "a reply differs", "client %d received \"%s\", expected \"%s\" after%s", (int)x.id, show(all).c_str(), show(w).c_str(), hist.c_str()); }
static bool m_copy(Sess &x) { for (auto &v : x.m.v) take(v); return !x.m.v.empty(); }
static void m_write(Sess &x) {
    bool ready = !x.m.v.empty(); for (auto &v : x.m.v) ready = ready && v.staged;
    if (!ready) { expect_none(x, "nothing was to be sent"); return; }
    expect_vars(x, x.m.v, 0); for (auto &v : x.m.v) v.staged = false;
}
static void as(Sess &x) { cur_self = x.id; }
static MVar mk(const std::string &n, const Unit *un = 0) { MVar v; v.def = def_of(n); if (v.def < 0) mc::fail("harness", "no definition of %s", n.c_str()); v.unit = un; if (n == "time") v.unit = &defs[v.def].units[0]; v.staged = false; v.once = false; return v; }
static const Unit *unit_of(int def, const std::string &n) { for (auto &un : defs[def].units) if (n == un.name) return &un; return 0; }
struct World { // RAII
    std::streambuf *oc, *oe; int nb = 0;
    World(int n) {
        hist = ""; now_tics = 0; freeze_tics = 0; frame_no = 0; freeze_frame_no = 0; realtime = 1; nsess = n; cur_self = 1; u.pp = pts; vs = new Trick::VariableServer; jrun = new Trick::JobData; jfreeze = new Trick::JobData; jrun->next_tics = jfreeze->next_tics = TRICK_MAX_LONG_LONG; vs->set_copy_data_job(jrun); vs->set_copy_and_write_freeze_job(jfreeze);
        for (int i = 0; i < n; i++) { Sess &x = ss[i]; x.id = i + 1; x.c = new Conn; x.s = new Trick::VariableServerSession; x.s->set_connection(x.c); x.m = MSess(); x.m.next = x.m.fnext = TRICK_MAX_LONG_LONG; x.seen = 0; vs->add_session(x.id, x.s); }
    }
    ~World() { for (int i = 0; i < nsess; i++) { delete ss[i].s; delete ss[i].c; } delete jrun; delete jfreeze; delete vs; }
};
static void set_values(int k) {     // k: which menu of values
    static const double D[] = {0, -1.5, 1.0 / 3, 1e300, -5e-324, 123456789.125, INFINITY, -0.0}; double d = D[k % 8], e = D[(k + 3) % 8];
    static const long long L[] = {0, -1, 7, 0x7fffffffffffffffLL, (long long)0x8000000000000000ULL, 1000000, 255, -32768}; long long l = L[k % 8];
    static const char *S[] = {"", "plain", "tab\there\nand\r\"quote\"\\", "\x01\x7f\xff\xc3\xa9\v\f\a\b", "a string which is longer than fifteen characters", "x", "{m}", "0"};
    u.len = d; u.cm = (int)(k == 3 ? 150 : k == 4 ? -214748364 : l % 100000); u.deg = k == 3 ? 90.f : (float)(k == 4 ? 1e-3 : k == 6 ? 30 : d); u.sec = k == 3 ? 119 : l % 1000000000; u.temp = k == 6 ? 273.15 : d; u.dist = k == 3 ? 65 : l & 31; u.mass = l % 1000000000000LL;
    for (int i = 0; i < 3; i++) { u.row[i] = i == 1 ? d : e + i; for (int j = 0; j < 2; j++) u.m23[j][i] = d * (i + 1) + j; gd[i] = e * i + k; } u.pt.x = d; u.pt.w = (float)e; for (int i = 0; i < 2; i++) { pts[i].x = d + i; pts[i].w = (float)(k == 6 ? 1 : e) - i; }
    u.vd.assign({e, d, 5}); u.vs.assign(2, S[k % 8]); u.vp.assign(3, u.pt); u.pp = pts; u.dp = gd; *gstr = S[(k + 1) % 8]; u.sp = gstr;
    sc.c = (char)l; sc.uc = (unsigned char)(l >> 3); sc.s = (short)l; sc.us = (unsigned short)l; sc.i = (int)l; sc.ui = (unsigned)l; sc.l = l; sc.ul = l; sc.ll = l; sc.ull = l; sc.f = (float)d; sc.d = d; sc.b = k & 1; sc.e = k & 1 ? MM_BLUE : MM_GREEN; sc.k = k & 1 ? mmns::Kind::two : (mmns::Kind)-7; sc.w = L"A\u00e9z\u2603"[k & 3];
    for (int i = 0; i < 4; i++) { (&sc.ia[0][0])[i] = (int)l + i * 3; sc.wa[i] = k % 3 == 2 ? L'a' + i : i < k % 3 ? L'x' : 0; } memset(sc.ca, 0, 6); memcpy(sc.ca, k % 3 == 0 ? "full66" : k % 3 == 1 ? "ab\0cd" : "\t\n", k % 3 == 2 ? 2 : 6); for (int i = 0; i < 3; i++) { sc.fa[i] = (float)e * i; sc.uca[i] = k % 2 ? 'p' + i : 200 * (i == 0); }
    sc.da[0] = d; sc.da[1] = e; sc.sha[0] = (short)l; sc.sha[1] = (short)(l >> 4); sc.la[0] = l; sc.la[1] = ~l; sc.ba[0] = k & 1; sc.ba[1] = !(k & 1); sc.ea[0] = MM_BLUE; sc.ea[1] = (MMColor)k; sc.ulla[0] = l; sc.ulla[1] = l + 1; sc.u3 = k; sc.s5 = -k; sc.u24 = 0xabcdef + k; sc.str = S[k % 8];
    strcpy(cbuf, S[(k + 2) % 8]); sc.cp = k == 7 ? 0 : cbuf; sc.ip = k == 7 ? 0 : gi + k % 3; for (int i = 0; i < 4; i++) gi[i] = i + k * 10; in_[0].d[1] = d; memcpy(in_[0].c, k & 1 ? "wxyz" : "q\0rs", 4); o.p = in_; o.der.mixa[1] = (int)l; o.der.base_i = k; o.arr[1][2].i = (int)l + 1;
}
static void setup() {
    static bool once = false; if (once) return; once = true; mm = new Trick::MemoryManager;
    mm->declare_extern_var(&u, "VSU u"); mm->declare_extern_var(&sc, "MMScalars sc"); mm->declare_extern_var(&o, "MMOuter o"); gd = (double *)mm->declare_var("double gd[3]"); gi = (int *)mm->declare_var("int gi[4]"); in_ = (MMInner *)mm->declare_var("MMInner[2]"); pts = (VSPoint *)mm->declare_var("VSPoint pts[2]"); gstr = (std::string *)mm->declare_var("std::string gstr"); init_defs();
}
static void quiet() { static bool done = false; if (done) return; done = true; static struct NB : std::streambuf { int overflow(int c) override { return c; } } nb; if (!getenv("MM_LOUD")) { std::cout.rdbuf(&nb); std::cerr.rdbuf(&nb); stderr = fopen("/dev/null", "w"); } }
struct WGuard { World *w; WGuard(int n, int vals) { w = new World(n); set_values(vals); } ~WGuard() { delete w; } };
static void fmt_set(Sess &x, int f) { as(x); MSess &m = x.m; if (f == 0) var_ascii(); else if (f == 1) var_binary(); else if (f == 2) var_binary_nonames(); m.bin = f > 0; m.nonames = f == 2; }
// ---- every variable in every format
static void formats() {
    quiet(); setup(); int d = mc::choose((int)defs.size(), "variable"), k = mc::choose(8, "values"), f = mc::choose(3, "format"), sw = mc::choose(2, "swap"), path = mc::choose(6, "path"), un = mc::choose((int)defs[d].units.size() + 1, "unit") - 1;
    WGuard g(1, k); Sess &x = ss[0]; fmt_set(x, f); if (sw) { var_byteswap(true); x.m.swap = true; } now_tics = 12500; Def &D = defs[d]; const Unit *U = un < 0 ? 0 : &D.units[un]; hist = std::string(" ") + D.name + (U ? std::string(" in ") + U->name : "");
    bool fin = true; if (U) { std::string r; D.get(r); if (r.size() < (size_t)D.f.elem) U = U; for (size_t i = 0; i < r.size() / D.f.elem; i++) { if (D.f.type == TRICK_DOUBLE && !std::isfinite(at<double>(r, i) * 1e5)) fin = false; if (D.f.type == TRICK_FLOAT && !(std::fabs(at<float>(r, i)) < 1e30f)) fin = false; } } if (!fin) return;
    if (path < 2) {     // once
        if (U) return; std::vector<MVar> v; v.push_back(mk(D.name)); if (path) { v.insert(v.begin(), mk("sc.d")); v.push_back(mk("time")); } std::string l; for (auto &y : v) { take(y); l += (l.empty() ? "" : ",") + std::string(defs[y.def].name); }
        if (v.size() == 1) var_send_once(l); else var_send_once(l, v.size()); expect_vars(x, v, 5); expect_none(x, "send once"); x.s->copy_and_write_async(); expect_none(x, "no cyclic variables"); mc::state(d * 131 + k); OUT("once"); return;
    }
    if (path == 3) { var_add("sc.i"); x.m.v.push_back(mk("sc.i")); } if (path == 4) var_validate_address(1);
    if (U && path % 2) var_add(D.name, U->name); else { var_add(D.name); if (U) var_units(D.name, U->name); } x.m.v.push_back(mk(D.name, U)); expect_none(x, "adding");
    if (path == 5) { var_add("gstr"); x.m.v.push_back(mk("gstr")); }
    for (int r = 0; r < 2; r++) { m_copy(x); if (path == 2) var_send(); else x.s->copy_and_write_async(); m_write(x); expect_none(x, "one message"); if (r == 0) { hist += ", new values"; bool f2 = true; set_values((k + 1) % 8); if (U) { std::string q; D.get(q); for (size_t i = 0; i < q.size() / D.f.elem; i++) { if (D.f.type == TRICK_DOUBLE && !std::isfinite(at<double>(q, i) * 1e5)) f2 = false; if (D.f.type == TRICK_FLOAT && !(std::fabs(at<float>(q, i)) < 1e30f)) f2 = false; } } now_tics += 100; if (!f2) break; } }
    mc::state(d * 131 + k); OUT(f ? "binary" : "text"); mc::step();
}
// ---- what a reference becomes when what it passes through changes
static void moving() {
    quiet(); setup(); WGuard g(1, 1); Sess &x = ss[0]; static const char *V[] = {"u.pp[1].w", "u.pp->x", "u.vd[1]", "u.vs[0]", "u.vp[1].x", "u.dp", "u.sp[0]", "sc.cp", "sc.ip", "o.p->d[1]", "o.p->c"};
    int f = mc::choose(3, "format"); fmt_set(x, f); bool val = mc::flip("validate"); if (val) var_validate_address(1); if (mc::flip("swap")) { var_byteswap(1); x.m.swap = true; }
    int a = mc::choose(11, "variable"); int order = mc::choose(2, "order"); int start = mc::choose(2, "starts null"); VSPoint other[2] = {{3.25, -1}, {9, 8.5f}}; double od[3] = {4, 5, 6}; MMInner oi[1]; memcpy(oi[0].c, "LMNO", 4); oi[0].d[1] = 77.5; std::string os = "another";
    bool reg = true; VSPoint *mo = (VSPoint *)mm->declare_var("VSPoint[2]"); mo[0].x = -4; mo[1].w = 6.5f; MMInner *mi = (MMInner *)mm->declare_var("MMInner"); mi->d[1] = 0.125; memcpy(mi->c, "ab\0d", 4); std::string *ms = (std::string *)mm->declare_var("std::string"); *ms = "managed";
    auto change = [&](int c) {
        hist += " state" + std::to_string(c); switch (c) {
        case 0: u.pp = 0; u.vd.clear(); u.vs.clear(); u.vp.clear(); u.dp = 0; u.sp = 0; sc.cp = 0; sc.ip = 0; o.p = 0; break;
        case 1: u.pp = pts; u.vd.assign({1, 2}); u.vs.assign(1, "one"); u.vp.assign(2, pts[0]); u.dp = gd; u.sp = gstr; sc.cp = cbuf; strcpy(cbuf, "text"); sc.ip = gi; o.p = mi; break;
        case 2: u.pp = mo; u.vd.assign(100, 2.5); u.vs.assign(20, std::string(50, 's')); u.vp.assign(30, mo[0]); u.dp = gd + 1; u.sp = ms; sc.cp = cbuf; memset(cbuf, 'y', 8500); cbuf[5000] = 0; sc.ip = gi + 3; o.p = mi; break;
        case 3: u.pp = pts; u.vd.assign(3, -1); u.vd.shrink_to_fit(); u.vs.assign(1, ""); u.vs.shrink_to_fit(); u.vp.assign(2, pts[1]); u.vp.shrink_to_fit(); u.dp = gd + 2; *gstr = std::string(4100, 'z'); u.sp = gstr; memset(cbuf, 'q', 100); cbuf[100] = 0; sc.cp = cbuf; sc.ip = gi + 1; o.p = mi; break; } };
    struct Clean { VSPoint *a; MMInner *b; std::string *c; ~Clean() { u.pp = 0; u.sp = 0; o.p = 0; mm->delete_var(a); mm->delete_var(b); mm->delete_var(c); } } clean{mo, mi, ms};
    change(start ? 0 : 1); hist += std::string(" ") + V[a]; if (order) { var_add("sc.i"); x.m.v.push_back(mk("sc.i")); } var_add(V[a]); x.m.v.push_back(mk(V[a])); if (!order) { var_add("sc.s"); x.m.v.push_back(mk("sc.s")); }
    int n = mc::thorough() ? 4 : 3; for (int i = 0; i < n; i++) { m_copy(x); x.s->copy_and_write_async(); bool big = false; for (auto &v : x.m.v) if (v.s.raw.size() > 8000) big = true; if (!big) { hist += " send"; m_write(x); expect_none(x, "one message"); } if (i + 1 < n) change(mc::choose(4, "state")); mc::step(); }
    OUT(start ? "starts null" : "starts set"); mc::state(std::hash<std::string>()(hist));
}
// ---- long lists: splitting into messages
static void lists() {
    quiet(); setup(); WGuard g(1, 1); Sess &x = ss[0]; int f = mc::choose(3, "format"); fmt_set(x, f); int len = mc::choose(mc::thorough() ? 60 : 30, "length"); int nd = mc::choose(3, "before"); bool longname = mc::flip("kind");
    static const char *F[] = {"sc.d", "u.m23", "o.arr[1][2].i"}; hist = " long list";
    // nd small variables, then a string which ends near the limit, then more
    int fill = 300 * nd; for (int i = 0; i < fill; i++) { const char *n = F[longname ? 2 : i % 3]; var_add(n); x.m.v.push_back(mk(n)); }
    int base = f == 0 ? 8190 : f == 1 ? 8192 - 12 - 12 - 4 : 8192 - 12 - 8; int sl = nd ? 200 + len * 130 : base - 22 + len; if (sl < 0) sl = 0; gstr->assign(sl, 'k'); var_add("gstr"); x.m.v.push_back(mk("gstr")); var_add("sc.i"); x.m.v.push_back(mk("sc.i")); hist += " string of " + std::to_string(sl);
    m_copy(x); var_send(); std::vector<MVar> want = x.m.v; int limit = f == 0 ? 8190 : f == 1 ? 8192 - 12 - 12 - 4 - 1 : 8192 - 12 - 8 - 1;
    for (size_t i = 0; i < want.size(); i++) if (want[i].s.raw.size() > (size_t)(limit + 1)) { if (f == 0) { want[i].s.raw.resize(8190); want[i].s.raw += '\0'; } else { want.erase(want.begin() + i); i--; } }
    expect_vars(x, want, 0); mc::state(f * 1000 + sl); OUT(std::to_string(x.c->out.size()) + " messages");
}
// ---- every short history of one session
static int late_state = 0; static double *late = 0;
static void commands() {
    quiet(); setup(); static bool added = false; if (!added) { added = true; addf("late", TRICK_DOUBLE, 8, [](std::string &r) { if (!late) return false; r = raw(*late); return true; }); }
    if (late) { mm->delete_var("late"); } late = 0; WGuard g(1, 1); Sess &x = ss[0]; MSess &m = x.m; now_tics = 1000; int depth = mc::thorough() ? 5 : 4; struct L { ~L() { if (late) mm->delete_var("late"); late = 0; } } lguard;
    static const char *N[] = {"sc.i", "u.len", "time", "late", "sc.str", "nosuch.x"};
    static const char *ops[] = {"add sc.i", "add u.len", "add time", "add late", "add sc.str", "add u.len{ft}", "units u.len km", "units u.len s", "remove u.len", "remove sc.i", "remove nosuch.x", "clear", "send", "send_once", "send_once bad count", "pause", "unpause", "ascii", "binary", "binary_nonames", "byteswap", "async", "list_size", "exists late", "write when copied", "top of frame", "copy top", "copy async", "declare late", "new values", "not real time", "exit"};
    for (int i = 0; i < depth; i++) {
        int o = mc::choose(32, "op"); hist += std::string("; ") + ops[o]; as(x);
        switch (o) {
        case 0: case 1: case 2: case 3: case 4: { var_add(N[o]); m.v.push_back(mk(N[o])); break; }
        case 5: { bool first = true; for (auto &v : m.v) if (defs[v.def].name == std::string("u.len")) { v.unit = unit_of(v.def, "ft"); first = false; break; } var_add("u.len", "ft"); m.v.push_back(mk("u.len")); if (first) m.v.back().unit = unit_of(m.v.back().def, "ft"); break; }
        case 6: var_units("u.len", "km"); for (auto &v : m.v) if (defs[v.def].name == std::string("u.len")) { v.unit = unit_of(v.def, "km"); break; } break;
        case 7: var_units("u.len", "s"); break;
        case 8: case 9: case 10: { const char *n = o == 8 ? "u.len" : o == 9 ? "sc.i" : "nosuch.x"; var_remove(n); for (size_t k = 0; k < m.v.size(); k++) if (defs[m.v[k].def].name == std::string(n)) { m.v.erase(m.v.begin() + k); break; } break; }
        case 11: var_clear(); m.v.clear(); break;
        case 12: m_copy(x); var_send(); m_write(x); break;
        case 13: { std::vector<MVar> v; v.push_back(mk("time")); v.push_back(mk("late")); v.push_back(mk("u.len")); for (auto &y : v) take(y); var_send_once("time,late,u.len", 3); expect_vars(x, v, 5); break; }
        case 14: var_send_once("time,late", 3); break;
        case 15: var_pause(); m.pause = true; break; case 16: var_unpause(); m.pause = false; break;
        case 17: fmt_set(x, 0); break; case 18: fmt_set(x, 1); break; case 19: fmt_set(x, 2); break;
        case 20: m.swap = !m.swap; var_byteswap(m.swap); break;
        case 21: { if (m.copy == 0) m_copy(x); x.s->copy_and_write_async(); if (!m.pause && (m.write == 0 || m.copy == 0 || !realtime)) m_write(x); break; }
        case 22: { var_send_list_size(); int n = m.v.size(), ty = 3, z = 0; expect_text(x, m.bin ? raw(ty) + raw(z) + raw(n) : "3\t" + std::to_string(n) + "\n"); break; }
        case 23: { var_exists("late"); int ty = 1; expect_text(x, m.bin ? raw(ty) + std::string(1, late ? 1 : 0) : late ? "1\t1\n" : "1\t0\n"); break; }
        case 24: m.write = !m.write; var_set_write_mode(m.write); break;
        case 25: frame_no++; vs->copy_and_write_top(); if (m.copy == 2) { m_copy(x); if (!m.pause && m.write == 1 && realtime) m_write(x); } break;
        case 26: var_set_copy_mode(2); m.copy = 2; break; case 27: var_set_copy_mode(0); m.copy = 0; break;
        case 28: if (!late) { late = (double *)mm->declare_var("double late"); *late = 42.5; } else { *late += 1; } break;
        case 29: sc.i++; u.len *= -3; sc.str += "x"; now_tics += 250; break;
        case 30: realtime = !realtime; break;
        case 31: var_exit(); m.exit = true; break;
        }
        expect_none(x, ops[o]); CK(x.s->get_exit_cmd() == m.exit, "exit request", "%d after%s", (int)x.s->get_exit_cmd(), hist.c_str()); CK(x.s->get_pause() == m.pause, "pause state", "after%s", hist.c_str()); mc::step(2);
    }
    as(x); hist += "; final send"; m_copy(x); var_send(); m_write(x); expect_none(x, "at the end"); mc::state(std::hash<std::string>()(hist) % 1000003); OUT(x.c->out.size() ? "messages" : "silent");
}
// ---- two sessions in a stepping simulation: who is sent what when
static bool m_when(Sess &x) { return !x.m.pause && x.m.write == 1 && realtime; }
static long long job_after(long long n) { return n; }
static void sim() {
    quiet(); setup(); bool froze = false; WGuard g(2, 1); const int FRAME = 40, steps = mc::thorough() ? 6 : 5, budget = mc::thorough() ? 3 : 2; int cmds = 0; freeze_tics = 0;
    for (int i = 0; i < 2; i++) { as(ss[i]); const char *n = i ? "u.len" : "sc.i"; var_add(n); ss[i].m.v.push_back(mk(n)); if (!i) { var_add("time"); ss[i].m.v.push_back(mk("time")); } }
    // commands of a session: its copies start at once, its first copies may be late until the next frame begins
    auto command = [&](const char *where) {
        while (cmds < budget) {
            int c = mc::choose(25, where); if (!c) return; cmds++; Sess &x = ss[(c - 1) % 2]; int k = (c - 1) / 2; as(x); char b[60];
            static const char *cn[] = {"cycle 20ms, scheduled", "cycle 40ms, scheduled", "async", "top of frame", "write when copied", "write async", "pause", "every 2nd frame offset 1", "sync 2 cycle 60ms", "clear", "exit", "every 0 frames, cycle 0"}; snprintf(b, 60, " [client %d: %s]", (int)x.id, cn[k]); hist += b; MSess &m = x.m;
            auto sched = [&](int cyc) { m.copy = 1; m.cycle = cyc; m.since = now_tics; m.fsince = freeze_tics; m.next = now_tics - now_tics % cyc + cyc; m.fnext = freeze_tics - freeze_tics % cyc + cyc; };
            switch (k) { case 0: var_cycle(0.02); var_set_copy_mode(1); sched(20); break; case 1: var_cycle(0.04); var_set_copy_mode(1); sched(40); break; case 2: var_set_copy_mode(0); m.copy = 0; break; case 3: var_set_copy_mode(2); m.copy = 2; break; case 4: var_set_write_mode(1); m.write = 1; break; case 5: var_set_write_mode(0); m.write = 0; break;
                case 6: m.pause = !m.pause; if (m.pause) var_pause(); else var_unpause(); break; case 7: var_set_frame_multiple(2); var_set_frame_offset(1); var_set_freeze_frame_multiple(2); var_set_freeze_frame_offset(1); m.fm = m.ffm = 2; m.fo = m.ffo = 1; break; case 8: var_cycle(0.06); var_sync(2); sched(60); m.write = 1; break; case 9: var_clear(); m.v.clear(); break; case 10: var_exit(); m.exit = true; break;
                case 11: var_set_frame_multiple(0); var_set_freeze_frame_multiple(0); if (m.copy != 1) var_cycle(0); break; }
            for (int i = 0; i < 2; i++) expect_none(ss[i], "a command which asks for no message");
        }
    };
    auto async = [&] { for (int i = 0; i < 2; i++) { Sess &x = ss[i]; as(x); if (x.m.exit) continue; if (x.m.copy == 0) m_copy(x); x.s->copy_and_write_async(); if (!x.m.pause && (x.m.write == 0 || x.m.copy == 0 || !realtime)) m_write(x); expect_none(ss[1 - i], "the other client's turn"); expect_none(x, "its turn"); } };
    auto job = [&](Sess &x, bool fr) { m_copy(x); if (m_when(x)) m_write(x); };
    // the executive: software frames of 40 ms, the copy job whenever its time has come
    long long t = 0; bool first = true; int n = 0;
    for (int st = 0; st < steps; st++) {
        now_tics = t; char b[40]; snprintf(b, 40, " t=%lld", t); hist += b; sc.i = 100 + t; u.len = t + 0.5; std::vector<MVar> dummy;
        if (t % FRAME == 0) { frame_no = t / FRAME + 1; if (first) frame_no = 1; vs->copy_and_write_top(); for (int i = 0; i < 2; i++) { Sess &x = ss[i]; if (x.m.copy == 2 && frame_no % x.m.fm == x.m.fo) job(x, false); expect_none(x, "top of frame"); if (x.m.copy == 1 && x.m.next < t) x.m.next = (t + x.m.cycle - 1) / x.m.cycle * x.m.cycle; } first = false; }
        if (jrun->next_tics == t) { vs->copy_and_write_scheduled(); }
        for (int i = 0; i < 2; i++) { Sess &x = ss[i]; if (x.m.copy == 1 && x.m.next == t) { job(x, false); x.m.next = t + x.m.cycle; } expect_none(x, "scheduled job"); }
        async(); command("early");
        long long nx = (t / FRAME + 1) * FRAME; if (jrun->next_tics > t && jrun->next_tics < nx) nx = jrun->next_tics;
        int late = cmds; command("late"); // commands now come too late for the choice of the next time
        if (!froze && st >= 1 && mc::flip("freeze")) {     // freeze for some frames of 20 ms
            froze = true; hist += " freeze"; freeze_tics = 0; freeze_frame_no = 0; vs->freeze_init(); for (int i = 0; i < 2; i++) ss[i].m.fnext = ss[i].m.copy == 1 ? ss[i].m.cycle : TRICK_MAX_LONG_LONG;
            long long check = 20; int ff = 0; for (int k = 0; k < 4; k++) {
                while (freeze_tics < check) {
                    sc.i++; if (jfreeze->next_tics == freeze_tics) vs->copy_and_write_freeze_scheduled(); for (int i = 0; i < 2; i++) { Sess &x = ss[i]; if (x.m.copy == 1 && x.m.fnext == freeze_tics) { job(x, true); x.m.fnext = freeze_tics + x.m.cycle; } expect_none(x, "freeze job"); }
                    long long fn = check; if (jfreeze->next_tics > freeze_tics && jfreeze->next_tics < fn) fn = jfreeze->next_tics; freeze_tics = fn;
                }
                snprintf(b, 40, " f=%lld", freeze_tics); hist += b; freeze_frame_no = ++ff; check += 20; vs->copy_and_write_freeze(); for (int i = 0; i < 2; i++) { Sess &x = ss[i]; if (x.m.copy == 2 && ff % x.m.ffm == x.m.ffo) job(x, true); expect_none(x, "freeze frame"); if (x.m.copy == 1 && x.m.fnext < freeze_tics) x.m.fnext = (freeze_tics + x.m.cycle - 1) / x.m.cycle * x.m.cycle; }
                if (k == 0) command("frozen");
            }
            async();
        }
        t = nx; mc::step(2);
    }
    mc::state(std::hash<std::string>()(hist) % 1000003); OUT(std::to_string(std::min<size_t>(9, ss[0].c->out.size())) + "/" + std::to_string(std::min<size_t>(9, ss[1].c->out.size())));
}
// ---- files
static void files() {
    quiet(); setup(); static const int L[] = {0, 1, 4094, 4095, 4096, 8190, 8191, 9000}; WGuard g(1, 1); Sess &x = ss[0]; int n = L[mc::choose(8, "size")], kind = mc::choose(4, "bytes"), fa = mc::choose(5, "failing write") - 1; bool miss = mc::flip("missing"); x.c->fail_at = fa;
    std::string c; for (int i = 0; i < n; i++) c += kind == 0 ? (char)('a' + i % 26) : kind == 1 ? (char)0 : kind == 2 ? (char)i : (char)(i % 7 ? 'x' : 0); char path[] = "/tmp/c15_XXXXXX"; int fd = mkstemp(path); if (::write(fd, c.data(), n) != n) abort(); close(fd); struct U { const char *p; ~U() { unlink(p); } } un{path};
    hist = " a file of " + std::to_string(n) + " bytes"; if (miss) unlink(path); send_file(path); std::string all; split_msgs(x, all); std::string want = miss ? "2\t-1\n" : "2\t" + std::to_string(n) + "\n" + c;
    if (fa < 0) CK(all == want, "a transferred file differs", "\"%s\", expected \"%s\"", show(all).c_str(), show(want).c_str()); CK(!x.c->blocking, "connection left blocking", "after%s", hist.c_str()); for (auto &m : x.c->out) CK(m.size() <= 4096, "packet too long", "%zu", m.size()); OUT(miss ? "missing" : fa < 0 ? "sent" : "broken"); mc::state(n * 10 + kind);
}
int main(int c, char **v) {
    Trick::UdUnits uds; if (uds.read_default_xml()) return 3; ut_set_error_message_handler(ut_ignore);
    mc::Options o; o.split = 3; o.timeout_s = 60;
    return mc::run(c, v, o, [] { switch (mc::choose(6, "part")) { case 0: return formats(); case 1: return moving(); case 2: return lists(); case 3: return commands(); case 4: return sim(); default: return files(); } });
}
