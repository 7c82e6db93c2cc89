// C29: every ordered pair of unit expressions (and every triple of single units) of a table with independent definitions is
// converted by the real conversion path and compared; every old-style spelling is translated and compared.
#define MC_MAIN
#include "mc.hh"
#include <cmath>
#include <udunits2.h>
#include "trick/UdUnits.hh"
#include "trick/map_trick_units_to_udunits.hh"
int convert_united_value(std::string &to_units, std::string &from_units, long long *val);
int convert_united_value(std::string &to_units, std::string &from_units, double *val);
int scale_united_value(std::string &to_units, std::string &from_units, long long *val);
int scale_united_value(std::string &to_units, std::string &from_units, double *val);
static int g_exc; struct _object; extern "C" { void PyErr_SetString(_object *, const char *) { g_exc++; } _object *PyExc_AttributeError; }
enum { L, T, M, A, K, N, ND };                                       // length time mass current temperature amount
struct U { const char *old, *std; int d[ND]; long double f, off; };  // value in base = f * (x + off)
static const long double PI_ = 3.141592653589793238462643383279502884L, G0 = 9.80665L, LB = 0.45359237L;
static const U UT[] = {
    {"m", "m", {1}, 1, 0}, {"M", "m", {1}, 1, 0}, {"cm", "cm", {1}, 0.01L, 0}, {"km", "km", {1}, 1000, 0}, {"mm", "mm", {1}, 0.001L, 0}, {"ft", "ft", {1}, 0.3048L, 0}, {"in", "in", {1}, 0.0254L, 0}, {"yd", "yd", {1}, 0.9144L, 0}, {"mi", "mi", {1}, 1609.344L, 0}, {"n.m.", "nmile", {1}, 1852, 0},
    {"s", "s", {0, 1}, 1, 0}, {"ms", "ms", {0, 1}, 0.001L, 0}, {"min", "min", {0, 1}, 60, 0}, {"hr", "hr", {0, 1}, 3600, 0}, {"day", "day", {0, 1}, 86400, 0}, {"Hz", "Hz", {0, -1}, 1, 0},
    {"r", "rad", {}, 1, 0}, {"d", "degree", {}, PI_ / 180, 0}, {"am", "arcminute", {}, PI_ / 180 / 60, 0}, {"as", "arcsecond", {}, PI_ / 180 / 3600, 0}, {"rev", "revolution", {}, 2 * PI_, 0}, {"one", "1", {}, 1, 0}, {"--", "1", {}, 1, 0}, {"dB", "1", {}, 1, 0}, {"cnt", "count", {}, 1, 0},
    {"kg", "kg", {0, 0, 1}, 1, 0}, {"g", "g", {0, 0, 1}, 0.001L, 0}, {"mt", "t", {0, 0, 1}, 1000, 0}, {"sl", "slug", {0, 0, 1}, 14.59390L, 0}, {"lbm", "lb", {0, 0, 1}, LB, 0},
    {"N", "N", {1, -2, 1}, 1, 0}, {"kN", "kN", {1, -2, 1}, 1000, 0}, {"oz", "ozf", {1, -2, 1}, 0.2780138509537812L, 0}, {"lbf", "lbf", {1, -2, 1}, LB * G0, 0},
    {"v", "V", {2, -3, 1, -1}, 1, 0}, {"amp", "amp", {0, 0, 0, 1}, 1, 0}, {"ohm", "ohm", {2, -3, 1, -2}, 1, 0},
    {"K", "K", {0, 0, 0, 0, 1}, 1, 0}, {"C", "degC", {0, 0, 0, 0, 1}, 1, 273.15L}, {"F", "degF", {0, 0, 0, 0, 1}, 5 / 9.0L, 459.67L}, {"R", "degR", {0, 0, 0, 0, 1}, 5 / 9.0L, 0},
    {"J", "J", {2, -2, 1}, 1, 0}, {"Wh", "(W*h)", {2, -2, 1}, 3600, 0}, {"kWh", "(kW*h)", {2, -2, 1}, 3600000, 0}, {"TNT", "ton_TNT", {2, -2, 1}, 4.184e9L, 0}, {"W", "W", {2, -3, 1}, 1, 0}, {"kW", "kW", {2, -3, 1}, 1000, 0}, {"Pa", "Pa", {-1, -2, 1}, 1, 0}, {"kPa", "kPa", {-1, -2, 1}, 1000, 0}, {"atm", "atm", {-1, -2, 1}, 101325, 0}, {"psi", "psi", {-1, -2, 1}, LB * G0 / (0.0254L * 0.0254L), 0},
    {"l", "l", {3}, 0.001L, 0}, {"gal", "gallon", {3}, 231 * 0.0254L * 0.0254L * 0.0254L, 0}, {"mol", "mol", {0, 0, 0, 0, 0, 1}, 1, 0}};
enum { NU = sizeof UT / sizeof *UT };
struct E { std::string old, std; int d[ND]; long double f, off; };
static std::vector<E> singles, exprs;
static E comb(const char *fmt, const U *a, int pa, const U *b, int pb, const U *c, int pc) {
    E e; e.f = 1; e.off = 0; for (int i = 0; i < ND; i++) e.d[i] = a->d[i] * pa + (b ? b->d[i] * pb : 0) + (c ? c->d[i] * pc : 0);
    e.f = powl(a->f, pa) * (b ? powl(b->f, pb) : 1) * (c ? powl(c->f, pc) : 1); const U *u[3] = {a, b, c};
    for (const char *p = fmt; *p; p++) if (*p >= 'A' && *p <= 'C') { e.old += u[*p - 'A']->old; e.std += u[*p - 'A']->std; } else { e.old += *p; e.std += *p; }
    return e;
}
static const U *find(const char *o) { for (auto &u : UT) if (!strcmp(u.old, o)) return &u; abort(); }
static void setup() {
    for (auto &u : UT) { E e = comb("A", &u, 1, 0, 0, 0, 0); e.off = u.off; singles.push_back(e); exprs.push_back(e); }
    for (auto &u : UT) { if (u.off || u.std[0] == '(' || u.std[0] == '1') continue; exprs.push_back(comb("A2", &u, 2, 0, 0, 0, 0)); exprs.push_back(comb("A3", &u, 3, 0, 0, 0, 0)); exprs.push_back(comb("A^2", &u, 2, 0, 0, 0, 0)); }
    const char *a[] = {"M", "ft", "n.m.", "d", "r", "kg", "lbm", "sl", "N", "oz", "v", "kWh", "TNT", "gal", "rev"}, *b[] = {"s", "min", "hr", "M", "in", "d", "mt", "R"};
    for (auto x : a) for (auto y : b) { const U *p = find(x), *q = find(y); exprs.push_back(comb("A/B", p, 1, q, -1, 0, 0)); exprs.push_back(comb("A*B", p, 1, q, 1, 0, 0)); if (q->std[0] != '(') { exprs.push_back(comb("A/B2", p, 1, q, -2, 0, 0)); exprs.push_back(comb("A/B^2", p, 1, q, -2, 0, 0)); } }
    const char *c[] = {"M", "lbm", "N", "d"}, *d[] = {"M", "ft", "sl"}, *e[] = {"s", "hr", "kg"};
    for (auto x : c) for (auto y : d) for (auto z : e) { const U *p = find(x), *q = find(y), *r = find(z); exprs.push_back(comb("A*B/C", p, 1, q, 1, r, -1)); exprs.push_back(comb("A*B/C2", p, 1, q, 1, r, -2)); exprs.push_back(comb("A/(B*C)", p, 1, q, -1, r, -1)); exprs.push_back(comb("(A*B2)/C3", p, 1, q, 2, r, -3)); exprs.push_back(comb("A/B/C", p, 1, q, -1, r, -1)); }
}
static bool same(const E &a, const E &b) { return !memcmp(a.d, b.d, sizeof a.d); }
static long double conv(const E &f, const E &t, long double x) { return f.f * (x + f.off) / t.f - t.off; }
static double VALS[] = {1, 0, -2.5, 36, 1e6};
static long long IV[] = {1, 2, 3, 5, 7, 12, 36, 60, 100, 360, 1000, 5280, 86400, -1, -3, -60, -90};
static void pair(const E &f, const E &t) {
    bool recip = !same(f, t); for (int i = 0; i < ND; i++) if (f.d[i] != -t.d[i]) recip = false; if (recip) return;      // udunits converts to reciprocals
    bool exactdefs = true; for (auto x : {"slug", "ozf", "gallon"}) if (f.std.find(x) != std::string::npos || t.std.find(x) != std::string::npos) exactdefs = false;
    long double rel = exactdefs ? 1e-12L : 3e-6L; bool plain = f.std == "1";
    std::string fu = f.std, tu = t.std;
    for (double x : VALS) { for (int k = 0; k < 2; k++) {
        double r = x; g_exc = 0; int rc = k ? scale_united_value(tu, fu, &r) : convert_united_value(tu, fu, &r); mc::step();
        if (plain) { if (rc || r != x) mc::fail("plain-number", "%g without units for [%s] became %g, rc %d", x, tu.c_str(), r, rc); continue; }
        if (!same(f, t)) { if (rc == 0 || !g_exc) mc::fail("incompatible-accepted", "%g [%s] to [%s] gave %.17g", x, fu.c_str(), tu.c_str(), r); if (r != x) mc::fail("refused-but-changed", "[%s] to [%s]", fu.c_str(), tu.c_str()); continue; }
        if (rc) mc::fail("compatible-refused", "[%s] to [%s]", fu.c_str(), tu.c_str());
        long double w = conv(f, t, x), sc = rel * (fabsl(w) + fabsl(f.f / t.f * f.off) + fabsl(t.off) + 0);
        if (!(fabsl(r - w) <= sc)) mc::fail("value", "%g [%s] is %.17g [%s], want %.17Lg", x, fu.c_str(), r, tu.c_str(), w);
        double b = r; if (t.std != "1") { if (convert_united_value(fu, tu, &b) || fabsl(b - x) > 1e-9L * (fabsl(x) + f.off + fabsl(t.off * t.f / f.f))) mc::fail("round-trip", "%g [%s] to [%s] and back gives %.17g", x, fu.c_str(), tu.c_str(), b); }
        mc::outcome(mc::hv((long)(r * 1000))); } }
    if (!plain) for (long long x : IV) {
        long long r = x; g_exc = 0; int rc = convert_united_value(tu, fu, &r); mc::step();
        if (!same(f, t)) { if (rc == 0 || !g_exc) mc::fail("incompatible-accepted", "integer %lld [%s] to [%s]", x, fu.c_str(), tu.c_str()); continue; }
        if (rc) mc::fail("compatible-refused", "integer [%s] to [%s]", fu.c_str(), tu.c_str());
        if (!exactdefs || f.off || t.off) continue;
        long double w = conv(f, t, x), ri = rintl(w); if (fabsl(w) > 1e11L) continue;
        if (fabsl(w - ri) < 1e-15L * fabsl(w) + 1e-30L) { if (r != (long long)ri) mc::fail("integer-value", "%lld [%s] is %.15Lg [%s] but became %lld", x, fu.c_str(), w, tu.c_str(), r); }
        else if (fabsl(r - w) >= 1) mc::fail("integer-value", "%lld [%s] is %.15Lg [%s] but became %lld", x, fu.c_str(), w, tu.c_str(), r);
    }
    mc::state(mc::hv((long)mc::hash(fu), (long)mc::hash(tu)));
}
static void body() {
    int part = mc::choose(4, "part");
    if (part == 0) {                                                 // spelling
        int i = mc::choose(exprs.size(), "expression"); const E &e = exprs[i]; std::string r = map_trick_units_to_udunits(e.old); mc::step(); mc::state(mc::hash(e.old)); mc::outcome(mc::hash(r));
        if (r != e.std) mc::fail("old-name", "[%s] became [%s], want [%s]", e.old.c_str(), r.c_str(), e.std.c_str());
        std::string s = map_trick_units_to_udunits(e.std); if (s != e.std) mc::fail("standard-name-changed", "[%s] became [%s]", e.std.c_str(), s.c_str());
        ut_unit *u = ut_parse(Trick::UdUnits::get_u_system(), r.c_str(), UT_ASCII); if (!u) mc::fail("not-understood", "[%s]", r.c_str()); ut_free(u);
    } else if (part == 1) {                                          // every pair
        int i = mc::choose(exprs.size(), "from"); for (size_t j = 0; j < exprs.size(); j++) { if (!mc::thorough() && !same(exprs[i], exprs[j]) && j > NU && i > NU && (i + j) % 16) continue; pair(exprs[i], exprs[j]); }
    } else if (part == 2) {                                          // through a third unit
        int i = mc::choose(NU, "from"); for (auto &via : singles) for (auto &to : singles) if (same(singles[i], via) && same(via, to) && singles[i].std != "1" && via.std != "1") { double x = 12.5, y = x; std::string a = singles[i].std, b = via.std, c = to.std;
            convert_united_value(c, a, &x); convert_united_value(b, a, &y); convert_united_value(c, b, &y); mc::step(); if (fabs(x - y) > 1e-11 * (fabs(x) + fabs(to.off) + 500 * (to.off != 0))) mc::fail("triple", "12.5 [%s] to [%s] is %.17g, through [%s] %.17g", a.c_str(), c.c_str(), x, b.c_str(), y); }
    } else {                                                         // malformed and unknown
        const char *bad[] = {"m/", "/s", "m//s", "(m", "m^", "foo", "kg*bar", "m s foo", "m**s", "m^^2", "*", "m/(s", "m*/s", "m @ s", "xyz2", "m$"};
        int i = mc::choose(sizeof bad / sizeof *bad, "malformed"); for (auto &e : singles) for (int dir = 0; dir < 2; dir++) { if (dir == 0 && e.std == "1") continue; std::string f = dir ? bad[i] : e.std, t = dir ? e.std : bad[i]; double x = 3; long long n = 3; g_exc = 0; mc::step();
            int r1 = convert_united_value(t, f, &x), r2 = convert_united_value(t, f, &n); if (!r1 || !r2 || g_exc != 2 || x != 3 || n != 3) mc::fail("malformed-accepted", "[%s] to [%s]: rc %d %d, %g, %lld", f.c_str(), t.c_str(), r1, r2, x, n); }
    }
}
int main(int argc, char **argv) {
    Trick::UdUnits u; if (u.read_default_xml()) return 3; setup(); stderr = fopen("/dev/null", "w"); ut_set_error_message_handler(ut_ignore);
    mc::Options o; o.split = 2; return mc::run(argc, argv, o, body);
}
