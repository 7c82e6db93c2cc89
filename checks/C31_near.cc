// C31: (near) every triple of a boundary value alphabet against the definition evaluated in 113-bit arithmetic;
// (interp) every table shape and every query point of a grid, against the multilinear formula in long double, under AddressSanitizer.
#define MC_MAIN
#include "mc.hh"
#include <cfloat>
#include <cmath>
#include "trick/compareFloatingPoint.hh"
#include "trick/Interpolator.hh"
typedef __float128 Q;
static Q qabs(Q x) { return x < 0 ? -x : x; }
template <class T> struct Lim;
template <> struct Lim<double> { static double mn() { return DBL_MIN; } static double ep() { return DBL_EPSILON; } static double mx() { return DBL_MAX; } static const char *n() { return "dbl"; } };
template <> struct Lim<float> { static float mn() { return FLT_MIN; } static float ep() { return FLT_EPSILON; } static float mx() { return FLT_MAX; } static const char *n() { return "flt"; } };
static bool call(double a, double b, double t) { return Trick::dbl_is_near(a, b, t); }
static bool call(float a, float b, float t) { return Trick::flt_is_near(a, b, t); }
template <class T> static std::vector<T> values() {
    std::vector<T> pos = {0, std::numeric_limits<T>::denorm_min(), Lim<T>::mn() / 2, std::nextafter(Lim<T>::mn(), T(0)), Lim<T>::mn(), std::nextafter(Lim<T>::mn(), T(1)), T(1.5) * Lim<T>::mn(), Lim<T>::mn() / Lim<T>::ep(), std::nextafter(Lim<T>::mn() / Lim<T>::ep(), T(1)), T(2) * Lim<T>::mn() / Lim<T>::ep(),
        Lim<T>::ep(), T(1e-3), T(0.1), T(0.3), std::nextafter(T(1), T(0)), 1, std::nextafter(T(1), T(2)), T(1.1), T(1.5), 2, std::nextafter(T(2), T(3)), 3, 100, T(100.1), 1000, T(1e6), T(1e6) + 1, T(1e18), std::nextafter(T(1e18), T(2e18)), Lim<T>::mx() / 4, Lim<T>::mx() / 2, std::nextafter(Lim<T>::mx(), T(0)), Lim<T>::mx(), INFINITY, NAN};
    std::vector<T> v; for (T x : pos) { v.push_back(x); v.push_back(-x); }
    return v;
}
template <class T> static std::vector<T> tols() {
    return {0, T(-1), NAN, INFINITY, -INFINITY, std::numeric_limits<T>::denorm_min(), Lim<T>::mn(), Lim<T>::mn() / Lim<T>::ep(), T(2) * Lim<T>::mn() / Lim<T>::ep(), Lim<T>::ep() / 2, Lim<T>::ep(), std::nextafter(Lim<T>::ep(), T(1)), T(2) * Lim<T>::ep(), T(1e-10), T(1e-6), T(1e-3), T(0.1), std::nextafter(T(0.1), T(1)), T(0.2), T(0.5), 1, std::nextafter(T(1), T(0)), std::nextafter(T(1), T(2)), 2, 4, 100, T(1e6), T(1e18), Lim<T>::mx() / 2, Lim<T>::mx()};
}
template <class T> static void near_case() {
    static const std::vector<T> V = values<T>(), TO = tols<T>();
    int ia = mc::choose(V.size(), "a"), ib = mc::choose(V.size(), "b"); T a0 = V[ia], b0 = V[ib];
    for (T t0 : TO) {
        bool r = call(a0, b0, t0); mc::step(); T a = a0, b = b0, t = t0;
        bool want, sure = true; 
        if (std::isnan(a) || std::isnan(b) || std::isinf(a) || std::isinf(b)) want = false;
        else {
            if (std::fpclassify(a) == FP_SUBNORMAL) a = 0; if (std::fpclassify(b) == FP_SUBNORMAL) b = 0;
            T least = Lim<T>::mn() / Lim<T>::ep(); if (std::fpclassify(t) != FP_NORMAL || t < least) t = least;      // (an infinite tolerance makes no sense and counts as the least one)
            Q d = qabs((Q)a - (Q)b), big = qabs(a) > qabs(b) ? qabs(a) : qabs(b), gap = (Q)Lim<T>::ep() * big;
            if (a == b) want = true; else want = (Q)t >= gap && d <= (Q)t;
            Q slack = gap + (Q)t * (Q)Lim<T>::ep();                  // the rounding of one addition
            auto whole = [](T x) { return std::fabs(x) < 1e6 && x * 2 == std::floor(x * 2); };
            if (a != b && (Q)t >= gap && qabs(d - (Q)t) <= slack) sure = whole(a) && whole(b) && whole(t);       // exact arithmetic: the boundary itself is near
            if (a != b && qabs((Q)t - gap) < (Q)t * (Q)Lim<T>::ep() && (Q)t != gap) sure = false;
        }
        if (sure && r != want) mc::fail(std::string(Lim<T>::n()) + "-near", "%s_is_near(%.17g, %.17g, %.17g) is %d, want %d", Lim<T>::n(), (double)a0, (double)b0, (double)t0, r, want);
        if (call(b0, a0, t0) != r) mc::fail(std::string(Lim<T>::n()) + "-asymmetric", "%.17g and %.17g with tolerance %.17g", (double)a0, (double)b0, (double)t0);
        if (call(T(-a0), T(-b0), t0) != r && sure) mc::fail(std::string(Lim<T>::n()) + "-sign", "%.17g and %.17g with tolerance %.17g: %d, with both signs turned %d", (double)a0, (double)b0, (double)t0, r, !r);
        mc::state(mc::hv(ia, ib, (int)(&t0 - &TO[0]), (int)sizeof(T))); mc::outcome(mc::hv(r, want));
    }
}
static const double BP[][6] = {{0, 1, 2, 3, 4, 5}, {-4, -1, 0, 2, 10, 11}, {1e-3, 1e3, 1e6, 1e9, 1e12, 1e13}, {-8, -7.5, -7.25, 100, 101, 1e6}};
static double val(const std::vector<unsigned> &idx, int kind) {
    double s = kind == 2 ? 1 : 0; for (size_t i = 0; i < idx.size(); i++) { if (kind == 0) s = s * 7 + idx[i]; if (kind == 1) s += (i & 1 ? -1 : 1) * (double)(idx[i] * idx[i]) * (i + 1); if (kind == 2) s *= (double)(idx[i] + 1) * (idx[i] % 2 ? -1.5 : 1); } return s; }
static long double ml(const std::vector<std::vector<double>> &bp, const double *x, std::vector<unsigned> &idx, unsigned d, int kind) {
    if (d == bp.size()) return val(idx, kind);
    unsigned i = 0; while (i + 2 < bp[d].size() && x[d] > bp[d][i + 1]) i++;
    long double w = ((long double)x[d] - bp[d][i]) / ((long double)bp[d][i + 1] - bp[d][i]), r = 0;
    idx.push_back(i); if (w != 1) r += (1 - w) * ml(bp, x, idx, d + 1, kind); idx.back() = i + 1; if (w != 0) r += w * ml(bp, x, idx, d + 1, kind); idx.pop_back(); return r;
}
static void interp_case() {
    int maxd = mc::thorough() ? 4 : 3; unsigned nd = 1 + mc::choose(maxd, "dims"), maxs = nd == 1 ? 6 : nd == 2 ? 4 : mc::thorough() && nd == 3 ? 4 : 3;
    std::vector<std::vector<double>> bp(nd); std::vector<unsigned> sz(nd); std::vector<double *> pa(nd); unsigned tot = 1;
    for (unsigned d = 0; d < nd; d++) { sz[d] = 2 + mc::choose(maxs - 1, "size"); int k = mc::choose(nd > 2 ? 2 : 4, "breakpoints"); bp[d].assign(BP[k], BP[k] + sz[d]); tot *= sz[d]; }
    for (unsigned d = 0; d < nd; d++) { pa[d] = (double *)malloc(sz[d] * sizeof(double)); memcpy(pa[d], &bp[d][0], sz[d] * sizeof(double)); }
    int kind = mc::choose(3, "table"); double *tab = (double *)malloc(tot * sizeof(double));
    for (unsigned i = 0; i < tot; i++) { std::vector<unsigned> ix(nd); unsigned r = i; for (int d = nd - 1; d >= 0; d--) { ix[d] = r % sz[d]; r /= sz[d]; } tab[i] = val(ix, kind); }
    Trick::Interpolator in(tab, &pa[0], &sz[0], nd);
    std::vector<std::vector<double>> qs(nd);
    for (unsigned d = 0; d < nd; d++) { for (unsigned i = 0; i < sz[d]; i++) { qs[d].push_back(bp[d][i]); if (i + 1 < sz[d]) { double a = bp[d][i], b = bp[d][i + 1]; qs[d].push_back(a + (b - a) / 2); if (nd < 3 || mc::thorough()) { qs[d].push_back(a + (b - a) / 8); qs[d].push_back(std::nextafter(a, b)); qs[d].push_back(std::nextafter(b, a)); } } }
        qs[d].push_back(std::nextafter(bp[d][0], -INFINITY)); qs[d].push_back(std::nextafter(bp[d].back(), INFINITY)); qs[d].push_back(bp[d].back() + 1000); if (nd < 3) { qs[d].push_back(-INFINITY); qs[d].push_back(INFINITY); } }
    std::vector<unsigned> q(nd, 0);
    for (;;) {
        double x[6]; bool out = false, grid = true; for (unsigned d = 0; d < nd; d++) { x[d] = qs[d][q[d]]; if (x[d] < bp[d][0] || x[d] > bp[d].back()) out = true; bool g = false; for (double b : bp[d]) if (b == x[d]) g = true; grid = grid && g; }
        double r[2]; bool thrown[2] = {false, false};
        try { r[0] = in.eval(x); } catch (std::logic_error &) { thrown[0] = true; }
        try { r[1] = nd == 1 ? in.eval(x[0], 0.0) : nd == 2 ? in.eval(x[0], x[1]) : nd == 3 ? in.eval(x[0], x[1], x[2]) : in.eval(x[0], x[1], x[2], x[3]); } catch (std::logic_error &) { thrown[1] = true; }
        mc::step(2); mc::state(mc::hv(nd, kind, (long)mc::hash(x, nd * 8), tot));
        std::vector<unsigned> ix; long double want = out ? 0 : ml(bp, x, ix, 0, kind);
        for (int k = 0; k < 2; k++) {
            if (thrown[k] != out) mc::fail(out ? "interp-outside-accepted" : "interp-inside-refused", "%u parameters, form %d, x=%g,%g", nd, k, x[0], nd > 1 ? x[1] : 0);
            if (out) continue;
            double tol = grid ? 0 : 1e-12 * (fabsl(want) + 2500);
            if (!(fabsl(r[k] - want) <= tol)) mc::fail(grid ? "interp-grid" : "interp-value", "%u parameters, form %d, x=%.17g,%.17g: %.17g want %.17Lg", nd, k, x[0], nd > 1 ? x[1] : 0, r[k], want);
            mc::outcome(mc::hv((long)(r[k] * 16)));
        }
        unsigned d = 0; while (d < nd && ++q[d] == qs[d].size()) q[d++] = 0; if (d == nd) break;
    }
    free(tab); for (auto p : pa) free(p);
}
int main(int argc, char **argv) {
    mc::Options o; o.split = 3;
    return mc::run(argc, argv, o, [] { int k = mc::choose(3, "part"); if (k == 0) near_case<double>(); else if (k == 1) near_case<float>(); else interp_case(); });
}
