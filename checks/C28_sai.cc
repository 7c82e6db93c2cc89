// C28: the stand-alone integrators and root finder of SAIntegrator.
#define MC_MAIN
#include "mc.hh"
#include "SAIntegrator.hh"
#include <cfloat>
#include <cmath>
#include <memory>
#include <set>
#include <stdexcept>
#include <string>
#include <vector>
extern "C" size_t __sanitizer_get_current_allocated_bytes(void);
using std::vector;
namespace mc { template <class... A> std::string fmt(const char *f, A... a) { char b[100]; snprintf(b, sizeof b, f, a...); return b; } }

enum Kind { BASE, FO, VSTEP, EULER, HEUN, RK2, RK4, RK38, RKF45, CROMER, ABM1, ABM2_, ABM3, ABM4_, ABM5, SABM2, SABM4, NKIND };
static const char *NAME[] = {"Integrator", "FirstOrderODE", "VariableStep", "Euler", "Heun", "RK2", "RK4", "RK3_8", "RKF45", "EulerCromer",
                             "ABM(1)", "ABM(2)", "ABM(3)", "ABM(4)", "ABM(5)", "ABM2", "ABM4"};
static bool isabm(int k) { return k >= ABM1 && k <= ABM5; }
static bool first(int k) { return k != BASE && k != CROMER; }
static bool vstep(int k) { return k >= VSTEP && k <= RK38; }

struct FO_ : SA::FirstOrderODEIntegrator { using SA::FirstOrderODEIntegrator::FirstOrderODEIntegrator; };
static SA::Integrator *make(int k, double h, unsigned n, double **in, double **out, SA::DerivsFunc f, SA::Derivs2Func g, void *u, double eps = 1e-6) {
    switch (k) {
        case BASE: return new SA::Integrator(h, u);
        case FO: return new SA::FirstOrderODEIntegrator(h, n, in, out, f, u);
        case VSTEP: return new SA::FirstOrderODEVariableStepIntegrator(h, n, in, out, f, u);
        case EULER: return in == out ? new SA::EulerIntegrator(h, n, in, f, u) : new SA::EulerIntegrator(h, n, in, out, f, u);
        case HEUN: return in == out ? new SA::HeunsMethod(h, n, in, f, u) : new SA::HeunsMethod(h, n, in, out, f, u);
        case RK2: return in == out ? new SA::RK2Integrator(h, n, in, f, u) : new SA::RK2Integrator(h, n, in, out, f, u);
        case RK4: return in == out ? new SA::RK4Integrator(h, n, in, f, u) : new SA::RK4Integrator(h, n, in, out, f, u);
        case RK38: return in == out ? new SA::RK3_8Integrator(h, n, in, f, u) : new SA::RK3_8Integrator(h, n, in, out, f, u);
        case RKF45: return in == out ? new SA::RKF45Integrator(eps, h, n, in, f, u) : new SA::RKF45Integrator(eps, h, n, in, out, f, u);
        case CROMER: return new SA::EulerCromerIntegrator(h, n, in, out, g, u);
        case SABM2: return in == out ? new SA::ABM2Integrator(h, n, in, f, u) : new SA::ABM2Integrator(h, n, in, out, f, u);
        case SABM4: return in == out ? new SA::ABM4Integrator(h, n, in, f, u) : new SA::ABM4Integrator(h, n, in, out, f, u);
        default: return in == out ? new SA::ABMIntegrator(k - ABM1 + 1, h, n, in, f, u) : new SA::ABMIntegrator(k - ABM1 + 1, h, n, in, out, f, u);
    }
}
template <class T> static SA::Integrator *copyT(SA::Integrator *p) { return new T(*static_cast<T *>(p)); }
template <class T> static void assignT(SA::Integrator *a, SA::Integrator *b) { *static_cast<T *>(a) = *static_cast<T *>(b); }
#define KINDS(M, ...) \
    switch (k) { \
        case BASE: return M<SA::Integrator>(__VA_ARGS__); \
        case FO: return M<SA::FirstOrderODEIntegrator>(__VA_ARGS__); \
        case VSTEP: return M<SA::FirstOrderODEVariableStepIntegrator>(__VA_ARGS__); \
        case EULER: return M<SA::EulerIntegrator>(__VA_ARGS__); \
        case HEUN: return M<SA::HeunsMethod>(__VA_ARGS__); \
        case RK2: return M<SA::RK2Integrator>(__VA_ARGS__); \
        case RK4: return M<SA::RK4Integrator>(__VA_ARGS__); \
        case RK38: return M<SA::RK3_8Integrator>(__VA_ARGS__); \
        case RKF45: return M<SA::RKF45Integrator>(__VA_ARGS__); \
        case CROMER: return M<SA::EulerCromerIntegrator>(__VA_ARGS__); \
        case SABM2: return M<SA::ABM2Integrator>(__VA_ARGS__); \
        case SABM4: return M<SA::ABM4Integrator>(__VA_ARGS__); \
        default: return M<SA::ABMIntegrator>(__VA_ARGS__); \
    }
static SA::Integrator *copy(int k, SA::Integrator *p) { KINDS(copyT, p) }
static void assign(int k, SA::Integrator *a, SA::Integrator *b) { KINDS(assignT, a, b) }
static SA::FirstOrderODEIntegrator *fo(SA::Integrator *p) { return static_cast<SA::FirstOrderODEIntegrator *>(p); }

static bool near(double a, double b, double scale = 1, double rel = 1e-12) { return a == b || std::fabs(a - b) <= rel * (scale + std::fabs(b)); }

// ---- reference: textbook tableaux and Adams coefficients --------------------
typedef vector<double> V;
typedef void (*Deriv)(double, double[], double[], void *);
struct Tableau { int s; double c[6], a[6][6], b[6]; };
static const Tableau T_EULER = {1, {0}, {{0}}, {1}};
static const Tableau T_HEUN = {2, {0, 1}, {{0}, {1}}, {.5, .5}};
static const Tableau T_MID = {2, {0, .5}, {{0}, {.5}}, {0, 1}};
static const Tableau T_RK4 = {4, {0, .5, .5, 1}, {{0}, {.5}, {0, .5}, {0, 0, 1}}, {1 / 6., 1 / 3., 1 / 3., 1 / 6.}};
static const Tableau T_RK38 = {4, {0, 1 / 3., 2 / 3., 1}, {{0}, {1 / 3.}, {-1 / 3., 1}, {1, -1, 1}}, {.125, .375, .375, .125}};
static const Tableau T_F4 = {6, {0, .25, .375, 12 / 13., 1, .5}, {{0}, {.25}, {3 / 32., 9 / 32.}, {1932 / 2197., -7200 / 2197., 7296 / 2197.},
                            {439 / 216., -8, 3680 / 513., -845 / 4104.}, {-8 / 27., 2, -3544 / 2565., 1859 / 4104., -11 / 40.}},
                            {25 / 216., 0, 1408 / 2565., 2197 / 4104., -1 / 5., 0}};
static V rk(const Tableau &T, Deriv f, double x, const V &y, double h, void *u) {
    vector<V> k(T.s, V(y.size()));
    for (int i = 0; i < T.s; i++) {
        V w = y;
        for (int j = 0; j < i; j++) for (size_t n = 0; n < y.size(); n++) w[n] += h * T.a[i][j] * k[j][n];
        f(x + T.c[i] * h, w.data(), k[i].data(), u);
    }
    V r = y;
    for (int i = 0; i < T.s; i++) for (size_t n = 0; n < y.size(); n++) r[n] += h * T.b[i] * k[i][n];
    return r;
}
static const double AB[5][5] = {{1}, {1.5, -.5}, {23 / 12., -4 / 3., 5 / 12.}, {55 / 24., -59 / 24., 37 / 24., -9 / 24.}, {1901 / 720., -1387 / 360., 109 / 30., -637 / 360., 251 / 720.}};
static const double AM[5][5] = {{1}, {.5, .5}, {5 / 12., 2 / 3., -1 / 12.}, {9 / 24., 19 / 24., -5 / 24., 1 / 24.}, {251 / 720., 646 / 720., -264 / 720., 106 / 720., -19 / 720.}};

struct Model {
    int k; unsigned n; double h; Deriv f; SA::Derivs2Func g; void *u;
    double xin = 0, xout = 0, last_h = 0;
    V in, out; vector<V> hist, undo_hist;       // hist[0] is the latest derivative
    V vin, vout, uin_v;                         // EulerCromer velocities
    bool loaded = false, valid = false, stepped = false;
    void adams(int order, bool prime, const Tableau *P) {
        undo_hist = hist;
        V d(n); f(xin, in.data(), d.data(), u);
        hist.insert(hist.begin(), d);
        if ((int)hist.size() > order) hist.resize(order);
        int m = (int)hist.size();
        if (prime && m < order) { out = rk(*P, f, xin, in, h, u); return; }
        V p(n);
        for (unsigned i = 0; i < n; i++) { double s = 0; for (int j = 0; j < m; j++) s += AB[m - 1][j] * hist[j][i]; p[i] = in[i] + h * s; }
        V dp(n); f(xin + h, p.data(), dp.data(), u);
        for (unsigned i = 0; i < n; i++) {
            double s = AM[m - 1][0] * dp[i];
            for (int j = 1; j < m; j++) s += AM[m - 1][j] * hist[j - 1][i];
            out[i] = in[i] + h * s;
        }
    }
    void step(double used_h) {
        double hh = h;
        switch (k) {
            case BASE: break;
            case FO: case VSTEP: case EULER: out = rk(T_EULER, f, xin, in, h, u); break;
            case HEUN: out = rk(T_HEUN, f, xin, in, h, u); break;
            case RK2: out = rk(T_MID, f, xin, in, h, u); break;
            case RK4: out = rk(T_RK4, f, xin, in, h, u); break;
            case RK38: out = rk(T_RK38, f, xin, in, h, u); break;
            case RKF45: hh = used_h; out = rk(T_F4, f, xin, in, hh, u); break;
            case CROMER: {
                V a(n); g(xin, in.data(), vin.data(), a.data(), u);
                for (unsigned i = 0; i < n; i++) { vout[i] = vin[i] + a[i] * h; out[i] = in[i] + vout[i] * h; }
                break;
            }
            case SABM2: adams(2, true, &T_MID); break;
            case SABM4: adams(4, true, &T_RK4); break;
            default: adams(k - ABM1 + 1, false, 0);
        }
        last_h = hh; xout = xin + hh; valid = stepped = true;
    }
};

// ---- part 1: histories of operations ----------------------------------------
static int UD;   // user data must come through
static bool ud_ok;
static void d_nl(double t, double y[], double d[], void *u) {
    if (u != &UD) ud_ok = false;
    d[0] = 1 + t * y[0] * .25;
}
static void d_nl2(double t, double y[], double d[], void *u) {
    if (u != &UD) ud_ok = false;
    d[0] = .5 * y[1] + t + 1; d[1] = -.25 * y[0] * y[1] + 2 * t * t;
}
static void g_nl(double t, double x[], double v[], double d[], void *u) {
    if (u != &UD) ud_ok = false;
    d[0] = -x[0] - .25 * v[0] + t;
}
static void g_nl2(double t, double x[], double v[], double d[], void *u) {
    if (u != &UD) ud_ok = false;
    d[0] = -x[1] - .25 * v[0] + t; d[1] = .5 * x[0] * v[1] - t * t;
}
enum Op { INTEG, LOAD, STEP, UNLOAD, UNDO, SETX, PERTURB, LOADOUT, COPY, ASSIGN, SELF, SWIN, SWOUT, NOP_ };
static const char *OPN[] = {"integrate", "load", "step", "unload", "undo", "setIndyVar", "perturb", "load_from_outState", "copy", "assign", "self-assign", "set_in_vars", "set_out_vars"};

static void histories() {
    int k = mc::choose(NKIND, "kind");
    unsigned n = 1 + mc::choose(2, "states");
    int prefix = (const int[]){0, 1, 5}[mc::choose(3, "earlier steps")];
    int same = mc::choose(2, "in and out the same");
    double h = (const double[]){.25, -.125}[mc::choose(mc::thorough() ? 2 : 1, "h")];
    int depth = mc::thorough() ? 5 : 4;
    {
        ud_ok = true;
        double var[3][3] = {{1, -2, .5}, {.75, 3, 1}, {-1, .25, 2}}, mv[3][3];
        memcpy(mv, var, sizeof var);
        double *ptr[3][3];
        for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) ptr[i][j] = &var[i][j];
        int si = 0, so = (same && k != CROMER) ? 0 : 1;    // EulerCromer: positions 0, velocities 1
        Deriv f = n == 1 ? d_nl : d_nl2; SA::Derivs2Func g = n == 1 ? g_nl : g_nl2;
        std::unique_ptr<SA::Integrator> I(make(k, h, n, ptr[si], ptr[so], f, g, &UD));
        Model m; m.k = k; m.n = n; m.h = h; m.f = f; m.g = g; m.u = &UD;
        m.in.assign(n, 0); m.out.assign(n, 0); m.vin.assign(n, 0); m.vout.assign(n, 0);
        if (k == BASE) m.loaded = m.valid = true;
        auto load = [&] {
            if (k != BASE) for (unsigned i = 0; i < n; i++) { m.in[i] = mv[si][i]; if (k == CROMER) m.vin[i] = mv[so][i]; }
            m.xin = m.xout; m.loaded = true;
        };
        auto unload = [&] {
            if (k == BASE) return;
            if (k == CROMER) for (unsigned i = 0; i < n; i++) { mv[0][i] = m.out[i]; mv[1][i] = m.vout[i]; }
            else for (unsigned i = 0; i < n; i++) mv[so][i] = m.out[i];
        };
        auto used = [&] { return k == RKF45 ? static_cast<SA::RKF45Integrator *>(I.get())->getLastStepSize() : h; };
        std::string did;
        for (int d = 0; d < prefix + depth; d++) {
            int op = d < prefix ? (int)INTEG : mc::choose(NOP_ + 1, "op");
            if (op == NOP_) break;
            switch (op) {
                case INTEG: I->integrate(); load(); m.step(used()); unload(); break;
                case LOAD: I->load(); load(); break;
                case STEP: if (m.loaded) { I->step(); m.step(used()); } break;
                case UNLOAD: if (m.valid) { I->unload(); unload(); } break;
                case UNDO:
                    if (m.loaded && m.stepped) {
                        double r = I->undo_integrate();
                        double want = k == RKF45 || k == CROMER || vstep(k) ? m.last_h : h;
                        if (r != want) mc::fail("undo-result", "%s: undo_integrate returns %g, last step %g (after%s)", NAME[k], r, want, did.c_str());
                        for (unsigned i = 0; i < n && k != BASE; i++) { mv[si][i] = m.in[i]; m.out[i] = m.in[i]; if (k == CROMER) { mv[1][i] = m.vin[i]; m.vout[i] = m.vin[i]; } }
                        m.xout = m.xin; m.hist = m.undo_hist;
                    }
                    break;
                case SETX: I->setIndyVar(1.5); m.xout = 1.5; break;
                case PERTURB: for (unsigned i = 0; i < n; i++) { var[0][i] = mv[0][i] = var[0][i] * .5 + .125; } break;
                case LOADOUT: if (first(k) && m.valid) { fo(I.get())->load_from_outState(); m.in = m.out; m.xin = m.xout; m.loaded = true; } break;
                case COPY: I.reset(copy(k, I.get())); break;
                case ASSIGN: {
                    std::unique_ptr<SA::Integrator> J(make(k, 7, n + 1, ptr[2], ptr[2], f, g, 0));
                    assign(k, J.get(), I.get());
                    I.swap(J);
                    break;
                }
                case SELF: assign(k, I.get(), I.get()); break;
                case SWIN:
                    if (first(k)) {
                        int ns = (si + 1) % 3;
                        if (fo(I.get())->set_in_vars(ptr[ns]) != ptr[si]) mc::fail("set-vars", "%s: set_in_vars does not return the earlier variables", NAME[k]);
                        si = ns;
                    }
                    break;
                case SWOUT:
                    if (first(k)) {
                        int ns = (so + 1) % 3;
                        if (fo(I.get())->set_out_vars(ptr[ns]) != ptr[so]) mc::fail("set-vars", "%s: set_out_vars does not return the earlier variables", NAME[k]);
                        so = ns;
                    }
                    break;
            }
            did += std::string(" ") + OPN[op];
            mc::step();
            if (!near(I->getIndyVar(), m.xout, 1e-3)) mc::fail("time", "%s x%u:%s: independent variable %.17g, expected %.17g", NAME[k], n, did.c_str(), I->getIndyVar(), m.xout);
            for (int s = 0; s < 3; s++)
                for (unsigned i = 0; i < 3; i++) {
                    if (!near(var[s][i], mv[s][i])) mc::fail("state", "%s x%u h=%g:%s: variable %d.%u is %.17g, expected %.17g", NAME[k], n, h, did.c_str(), s, i, var[s][i], mv[s][i]);
                    mv[s][i] = var[s][i];
                }
            if (!ud_ok) mc::fail("user-data", "%s:%s: derivative function called with other user data", NAME[k], did.c_str());
        }
        mc::state(mc::hv(mc::hv(k, (uint64_t)(m.xout * 4096)), (uint64_t)(int64_t)(mv[so][0] * 1e6)));
        mc::outcome((uint64_t)k);
    }
}

// ---- part 2: exactness from closed forms -------------------------------------
struct Poly { double c[6]; int deg; unsigned n; };
static double pval(const Poly &p, double t, unsigned i) { double s = 0; for (int j = p.deg; j >= 0; j--) s = s * t + p.c[j] * (1 + i * .5); return s; }
static double pint(const Poly &p, double a, double b, unsigned i) {
    long double s = 0;
    for (int j = 0; j <= p.deg; j++) s += p.c[j] * (1 + i * .5L) * (powl(b, j + 1) - powl(a, j + 1)) / (j + 1);
    return (double)s;
}
static void d_poly(double t, double[], double d[], void *u) { Poly *p = (Poly *)u; for (unsigned i = 0; i < p->n; i++) d[i] = pval(*p, t, i); }
static void g_poly(double t, double[], double[], double d[], void *u) { d_poly(t, 0, d, u); }
static double LAM;
static void d_lin(double, double y[], double d[], void *) { d[0] = LAM * y[0]; }

static int quad_order(int k, int stepno) {      // highest polynomial degree whose quadrature is exact
    switch (k) {
        case FO: case VSTEP: case EULER: return 0;
        case HEUN: case RK2: return 1;
        case RK4: case RK38: return 3;
        case RKF45: return 3;
        case SABM2: return 1;
        case SABM4: return 3;
        case BASE: case CROMER: return -1;
        default: { int o = k - ABM1 + 1, m = stepno + 1 < o ? stepno + 1 : o; return m == 1 ? 0 : m - 1; }
    }
}
static const double T0[] = {0, 1.5, -2}, HS[] = {.5, .1, 2, -.25};
static void exact() {
    int k = mc::choose(NKIND, "kind");
    double t0 = T0[mc::choose(3, "start")], h = HS[mc::choose(4, "h")];
    unsigned n = 1 + mc::choose(4, "states");
    int deg = mc::choose(6, "degree");
    int undo_at = mc::choose(8, "undo after step") - 1;     // -1: none
    int start_by = mc::choose(2, "start set before or after copying");
    Poly p{{1, -.75, .5, .25, -.125, .0625}, deg, n};
    double y[4] = {1, 2, -3, .5}, *ptr[4] = {&y[0], &y[1], &y[2], &y[3]}, vel[4] = {0}, *vp[4] = {&vel[0], &vel[1], &vel[2], &vel[3]};
    std::unique_ptr<SA::Integrator> I(make(k, h, n, ptr, k == CROMER ? vp : ptr, d_poly, g_poly, &p));
    if (!start_by) I->setIndyVar(t0);
    { std::unique_ptr<SA::Integrator> J(copy(k, I.get())); I.swap(J); }
    if (start_by) I->setIndyVar(t0);
    double t = t0, last = h;
    for (int s = 0; s < 7; s++) {
        double b[4]; memcpy(b, y, sizeof b);
        double tb = t;
        for (int again = 0; again < (s == undo_at ? 2 : 1); again++) {
            I->load(); I->step(); I->unload();
            double used = k == RKF45 ? static_cast<SA::RKF45Integrator *>(I.get())->getLastStepSize() : h;
            if (again && used != last) mc::fail("redo-step", "%s: after undo the step is %g instead of %g", NAME[k], used, last);
            last = used;
            t = I->getIndyVar();
            if (std::fabs(used) > std::fabs(h) || used * h <= 0) mc::fail("rkf-step", "step %g beyond the maximum %g", used, h);
            if (!near(t, tb + used)) mc::fail("time", "%s: t0 %g step %d of %g gives %.17g, expected %.17g", NAME[k], t0, s, used, t, tb + used);
            if (deg <= quad_order(k, s))
                for (unsigned i = 0; i < n; i++) {
                    double want = b[i] + pint(p, tb, tb + used, i);
                    if (!near(y[i], want, 10)) mc::fail("exact", "%s: t0 %g h %g step %d%s degree %d: state %u is %.17g, expected %.17g", NAME[k], t0, h, s, again ? " (redone)" : "", deg, i, y[i], want);
                }
            if (s == undo_at && !again) {
                double r = I->undo_integrate();
                if (r != used) mc::fail("undo-result", "%s: undo_integrate returns %g, last step %g", NAME[k], r, used);
                if (memcmp(b, y, sizeof b)) mc::fail("undo-state", "%s: states differ after undo", NAME[k]);
                if (I->getIndyVar() != tb) mc::fail("undo-time", "%s: independent variable %.17g after undo, expected %.17g", NAME[k], I->getIndyVar(), tb);
            }
        }
    }
    mc::outcome((uint64_t)k);
}
// y' = lambda y: one step multiplies by the method's polynomial in lambda h
static void linear() {
    int k = mc::choose(NKIND, "kind");
    double h = HS[mc::choose(4, "h")];
    LAM = (const double[]){1, -.5, .1, -2}[mc::choose(4, "lambda")];
    if (!first(k) || isabm(k) || k >= SABM2 || k == RKF45) { mc::outcome((uint64_t)100); return; }
    double y[1] = {3}, *ptr[1] = {y};
    std::unique_ptr<SA::Integrator> I(make(k, h, 1, ptr, ptr, d_lin, 0, 0));
    int o = k <= EULER ? 1 : k <= RK2 ? 2 : 4;
    double z = LAM * h, want = 3, term = 1, fac = 1;
    for (int i = 1; i <= o; i++) { term *= z / i; fac += term; }
    for (int s = 0; s < 4; s++) {
        want *= fac;
        I->integrate();
        if (!near(y[0], want)) mc::fail("linear", "%s: lambda %g h %g: %.17g after %d steps, expected %.17g", NAME[k], LAM, h, y[0], s + 1, want);
    }
    mc::outcome((uint64_t)k);
}
// RKF45 keeps its error estimate below epsilon per unit step
static void d_curve(double t, double y[], double d[], void *) { d[0] = LAM * y[0] + 0 * t; }
static void rkf() {
    LAM = (const double[]){1, -1, -20, 8, .01}[mc::choose(5, "lambda")];
    double h = (const double[]){1, .3, 4, -1}[mc::choose(4, "h")], eps = (const double[]){1e-3, 1e-6, 1e-9}[mc::choose(3, "epsilon")];
    double y[1] = {1}, *ptr[1] = {y}, t = 0;
    SA::RKF45Integrator I(eps, h, 1, ptr, d_curve, 0);
    for (int s = 0; s < 12; s++) {
        double b = y[0];
        I.integrate();
        double u = I.getLastStepSize(), d = I.getIndyVar() - t;
        if (!near(d, u) || u * h <= 0 || std::fabs(u) > std::fabs(h)) mc::fail("rkf-step", "lambda %g: step %.17g advances the time by %.17g (maximum %g)", LAM, u, d, h);
        double err = std::fabs(y[0] - b * std::exp(LAM * u));
        if (err > 3 * eps * std::fabs(u) + 1e-13 * (1 + std::fabs(b) + std::fabs(y[0]))) mc::fail("rkf-error", "lambda %g maximum step %g: a step of %g errs by %g with epsilon %g", LAM, h, u, err, eps);
        t = I.getIndyVar();
        if (s % 3 == 2) {
            double e = y[0];
            if (I.undo_integrate() != u || y[0] != b) mc::fail("rkf-undo", "undo of a step of %g", u);
            I.integrate();
            if (I.getLastStepSize() != u || y[0] != e) mc::fail("rkf-redo", "lambda %g: redoing a step of %g takes a step of %g", LAM, u, I.getLastStepSize());
        }
    }
    mc::outcome((uint64_t)101);
}
// refusals and missing variables
static void refusals() {
    int k = mc::choose(NKIND, "kind");
    switch (mc::choose(3, "what")) {
        case 0:
            if (first(k)) {
                double y = 0, *p = &y; bool thrown = false;
                try { delete make(k, 1, 1, &p, &p, NULL, 0, 0); } catch (std::invalid_argument &) { thrown = true; }
                if (!thrown) mc::fail("null-function", "%s accepts a NULL derivative function", NAME[k]);
            }
            if (k == ABM1)
                for (unsigned o : {0u, 6u}) {
                    double y = 0, *p = &y; bool thrown = false;
                    try { SA::ABMIntegrator I(o, 1, 1, &p, d_nl, 0); } catch (std::invalid_argument &) { thrown = true; }
                    if (!thrown) mc::fail("abm-history", "history of %u accepted", o);
                }
            break;
        case 1: {   // no variables set: nothing crashes, nothing moves
            if (k == BASE) break;
            std::unique_ptr<SA::Integrator> I(make(k, .5, 1, NULL, NULL, d_nl, g_nl, &UD));
            I->load(); I->unload(); I->undo_integrate();
            if (I->getIndyVar() != 0) mc::fail("no-variables", "%s without variables moves the independent variable", NAME[k]);
            break;
        }
        case 2:
            if (vstep(k)) {
                double y = 1, *p = &y; bool thrown = false;
                std::unique_ptr<SA::Integrator> I(make(k, .5, 1, &p, &p, d_lin, g_nl, 0));
                LAM = 1;
                try { static_cast<SA::FirstOrderODEVariableStepIntegrator *>(I.get())->add_Rootfinder(1e-9, Positive, NULL); } catch (std::invalid_argument &) { thrown = true; }
                if (!thrown) mc::fail("null-function", "%s accepts a NULL root error function", NAME[k]);
                I->integrate();
                if (!near(I->getIndyVar(), .5)) mc::fail("time", "%s does not step after a refused root finder", NAME[k]);
            }
            break;
    }
    mc::outcome((uint64_t)101);
}

// ---- part 3: the root finder on its own --------------------------------------
static const double TOL = 1e-9;
static bool wanted(SlopeConstraint c, int from) { return c == Unconstrained || (c == Positive ? from < 0 : from > 0); }
// f is piecewise linear through v[0], v[1], ... at x = 0, 1, ...
static void finder() {
    SlopeConstraint con = (SlopeConstraint)(mc::choose(3, "constraint") - 1);
    const double A[] = {-2, -1, -TOL / 2, 0, TOL / 2, 1, 2};
    int len = mc::thorough() ? 7 : 5;
    RootFinder R(TOL, con);
    vector<double> v; std::string seq;
    int prev = 0, events = 0; double lastv = 0;
    for (int x = 0; x < len; x++) {
        int c = mc::choose(8, "value");
        if (c == 7) break;
        double f = A[c];
        seq += mc::fmt(" %g", f);
        if (mc::choose(x == 2 ? 2 : 1, "copy")) { RootFinder S(0.5, Unconstrained); S = R; R = RootFinder(S); }
        // what has to happen
        double want = DBL_MAX;
        if (std::fabs(f) < TOL && (con == Unconstrained || (prev && wanted(con, prev)))) want = x;
        else {
            int s = f > 0 ? 1 : f < 0 ? -1 : 0;
            if (s && prev && s != prev && wanted(con, prev)) want = x - 1 + lastv / (lastv - f);
        }
        // what happens
        double got = DBL_MAX, at = x, fv = f;
        for (int it = 0;; it++) {
            double r = R.find_roots(at, fv);
            if (r == 0) { got = at; break; }
            if (r == DBL_MAX) { if (it) mc::fail("finder-lost", "constraint %d, values%s: DBL_MAX while closing in on a root", con, seq.c_str()); break; }
            if (it > 40) mc::fail("finder-endless", "constraint %d, values%s: no end of corrections", con, seq.c_str());
            at += r;
            if (!(at >= x - 1 && at <= x)) mc::fail("finder-range", "constraint %d, values%s: correction to %.17g, beyond the last step", con, seq.c_str(), at);
            fv = lastv + (f - lastv) * (at - (x - 1));
        }
        if ((got == DBL_MAX) != (want == DBL_MAX) || (want != DBL_MAX && std::fabs(got - want) > 1e-6))
            mc::fail(want == DBL_MAX ? "finder-spurious" : got == DBL_MAX ? "finder-missed" : "finder-place",
                     "constraint %d, values%s: root %s%.9g, expected %s%.9g", con, seq.c_str(), got == DBL_MAX ? "none " : "at ", got == DBL_MAX ? 0 : got, want == DBL_MAX ? "none " : "at ", want == DBL_MAX ? 0 : want);
        if (want != DBL_MAX) {
            events++;
            R.init(TOL, con);
            prev = 0;
            if (std::fabs(f) >= TOL) {      // the rest of the step
                if (R.find_roots(x, f) != DBL_MAX) mc::fail("finder-repeat", "constraint %d, values%s: the root found is found again", con, seq.c_str());
                prev = f > 0 ? 1 : -1;
            }
        } else if (f != 0) prev = f > 0 ? 1 : -1;
        lastv = f;
        mc::state(mc::hv((uint64_t)(prev + 1) * 3 + con + 1, (uint64_t)events));
    }
    mc::outcome((uint64_t)101);
}

// ---- part 4: roots inside integration -----------------------------------------
struct RootProblem {
    double a[3]; double s; int n;                      // f(x) = s * prod (x - a[i])
    double f(double x) const { double r = s; for (int i = 0; i < n; i++) r *= x - a[i]; return r; }
    double df(double x) const { return (f(x + 1e-3) - f(x - 1e-3)) / 2e-3 + (n == 3 ? -s * 1e-6 : 0); }
    bool by_state; SlopeConstraint con; vector<double> at; int calls;
};
static void d_root(double x, double[], double d[], void *u) { d[0] = ((RootProblem *)u)->df(x); d[1] = 1; }
static double e_root(double x, double st[], RootFinder *R, void *u) {
    RootProblem *p = (RootProblem *)u;
    if (++p->calls > 100000) mc::fail("root-endless", "the search for a root does not end");
    double r = R->find_roots(x, p->by_state ? st[0] : p->f(x));
    if (r == 0) { p->at.push_back(x); R->init(1e-10, p->con); }
    return r;
}
static void roots() {
    int k = VSTEP + mc::choose(RK38 - VSTEP + 1, "kind");
    RootProblem P; P.calls = 0;
    P.n = 1 + mc::choose(3, "roots");
    P.s = mc::choose(2, "sign") ? 1 : -1;
    P.con = (SlopeConstraint)(mc::choose(3, "constraint") - 1);
    double h = (const double[]){.5, .3}[mc::choose(2, "h")];
    const double off[] = {0, .1, .5, .97, 1.3};          // places of a root, in steps
    double base = 2 * h; bool edge = true;                // successive roots at step ends are two steps apart
    for (int i = 0; i < P.n; i++) { base += (1 + off[mc::choose(5, "place")]) * h; P.a[i] = base; bool e = std::fabs(base / h - std::round(base / h)) < 1e-6; if (edge && e && i) { base += h; P.a[i] = base; } edge = e; }
    P.by_state = mc::choose(2, "by state or by time");
    bool separate = mc::choose(2, "separate output");
    int undo_at = mc::choose(mc::thorough() ? 12 : 3, "undo at") * (mc::thorough() ? 1 : 4);
    int order = k <= EULER ? 0 : k <= RK2 ? 1 : 3;
    if (P.by_state && P.n - 1 > order) { mc::outcome((uint64_t)100); return; }
    double y[2] = {P.f(0), 0}, o[2] = {P.f(0), 0}, *in[2] = {&y[0], &y[1]}, *out[2] = {separate ? &o[0] : &y[0], separate ? &o[1] : &y[1]};
    std::unique_ptr<SA::Integrator> I(make(k, h, 2, in, out, d_root, 0, &P));
    auto *vi = static_cast<SA::FirstOrderODEVariableStepIntegrator *>(I.get());
    vi->add_Rootfinder(.5, P.con, e_root);               // replaced at once
    vi->add_Rootfinder(1e-10, P.con, e_root);
    // expected: what sampling at step ends (and after a root, at the end of its step) can see
    vector<double> want; int prev = 0; double t = 0;
    bool odd = false;
    for (int s = 0; s < 22; s++) {
        double b[2] = {y[0], y[1]}, t1 = t + h;
        int before = (int)P.at.size();
        std::unique_ptr<SA::Integrator> keep;
        if (s == 5) { keep.reset(copy(k, I.get())); I.swap(keep); vi = static_cast<SA::FirstOrderODEVariableStepIntegrator *>(I.get()); }
        if (s == 7) { keep.reset(make(k, 9, 1, in, out, d_root, 0, 0)); assign(k, keep.get(), I.get()); I.swap(keep); vi = static_cast<SA::FirstOrderODEVariableStepIntegrator *>(I.get()); }
        if (s == 9) assign(k, I.get(), I.get());
        I->load(); I->step();
        if (separate && (y[0] != b[0] || y[1] != b[1])) mc::fail("root-input", "%s: step() changes the input variables", NAME[k]);
        I->unload();
        t1 = I->getIndyVar();
        if (!near(t1, t + h)) mc::fail("time", "%s: with a root the step ends at %.17g instead of %.17g", NAME[k], t1, t + h);
        double *r = separate ? o : y;
        if (!near(r[1], t1, 1)) mc::fail("root-state", "%s: at %g the clock state is %.17g", NAME[k], t1, r[1]);
        if (P.n - 1 <= order && !near(r[0], P.f(t1), 10, 1e-10)) mc::fail("root-state", "%s: state at %g is %.17g, expected %.17g", NAME[k], t1, r[0], P.f(t1));
        // the model
        double fe = P.f(t1); int se = std::fabs(fe) < 1e-7 ? 0 : fe > 0 ? 1 : -1;
        vector<double> exp;
        for (int i = 0; i < P.n; i++) if (std::fabs(P.a[i] - t1) < 1e-6) se = 0;
        if (!se) odd = true;                             // a root at the end of a step: found now, or at once in the next
        if (se) { if (prev && se != prev && wanted(P.con, prev)) for (int i = 0; i < P.n; i++) if (P.a[i] > t - 1e-6 && P.a[i] < t1) exp.push_back(P.a[i]); }
        else if (prev && wanted(P.con, prev)) {
            for (int i = 0; i < P.n; i++) if (std::fabs(P.a[i] - t1) < 1e-6) exp.push_back(P.a[i]);
        }
        vector<double> got(P.at.begin() + before, P.at.end());
        bool bad = got.size() != exp.size();
        for (size_t i = 0; !bad && i < got.size(); i++) bad = std::fabs(got[i] - exp[i]) > 1e-5;
        if (bad && !se && got.empty()) {                  // rounding put the root just beyond: it is due in the next step
            // prev stays
        } else if (bad)
            mc::fail(got.size() > exp.size() ? "root-spurious" : got.size() < exp.size() ? "root-missed" : "root-place",
                     "%s h %g constraint %d roots %g %g %g sign %g %s: step to %g finds %zu (first %.9g), expected %zu (first %.9g)", NAME[k], h, P.con, P.a[0], P.n > 1 ? P.a[1] : 0, P.n > 2 ? P.a[2] : 0, P.s,
                     P.by_state ? "by state" : "by time", t1, got.size(), got.empty() ? 0 : got[0], exp.size(), exp.empty() ? 0 : exp[0]);
        else if (!se && !got.empty()) {
            // found at the end of the step; whatever tiny rest followed was seen after the root: its sign is that after the crossing
            prev = 0;
        } else if (se) prev = se;
        if (s == undo_at) {
            double u = I->undo_integrate();
            if (!near(u, h)) mc::fail("root-undo", "%s: undo of a step with %zu roots returns %.17g instead of %.17g", NAME[k], got.size(), u, h);
            if (y[0] != b[0] || y[1] != b[1] || I->getIndyVar() != t) mc::fail("root-undo", "%s: undo of a step with %zu roots gives state %g at %g, it began with %g at %g", NAME[k], got.size(), y[0], I->getIndyVar(), b[0], t);
            // go on without redoing: put the end of the step back
            if (!separate) { y[0] = P.f(t1); y[1] = t1; } else { o[0] = P.f(t1); o[1] = t1; }
            I->setIndyVar(t1);
        }
        if (separate) { y[0] = o[0]; y[1] = o[1]; }
        t = t1;
        mc::state(mc::hv((uint64_t)(k * 64 + s), (uint64_t)P.at.size()));
    }
    (void)odd; (void)want;
    mc::outcome((uint64_t)k);
}
// a bouncing ball: the event changes the state the rest of the step starts from
struct Ball { double rest; vector<double> at; int calls; };
static void d_ball(double, double y[], double d[], void *) { d[0] = y[1]; d[1] = -10; }
static double e_ball(double x, double st[], RootFinder *R, void *u) {
    Ball *b = (Ball *)u;
    if (++b->calls > 100000) mc::fail("root-endless", "the search for a root does not end");
    double r = R->find_roots(x, st[0]);
    if (r == 0) { b->at.push_back(x); st[1] *= -b->rest; R->init(1e-11, Negative); }
    return r;
}
static void ball() {
    int k = HEUN + mc::choose(4, "kind");
    Ball B; B.calls = 0;
    B.rest = (const double[]){1, .8}[mc::choose(2, "restitution")];
    double h = (const double[]){.1, .07, .25}[mc::choose(3, "h")];
    double y0 = (const double[]){5, 3.2, 1.25, 7}[mc::choose(4, "height")], v0 = (const double[]){0, 2, -1, 5}[mc::choose(4, "speed")];
    double y[2] = {y0, v0}, *p[2] = {&y[0], &y[1]};
    std::unique_ptr<SA::Integrator> I(make(k, h, 2, p, p, d_ball, 0, &B));
    static_cast<SA::FirstOrderODEVariableStepIntegrator *>(I.get())->add_Rootfinder(1e-11, Negative, e_ball);
    // exact flights
    double ts = 0, ys = y0, vs = v0;
    size_t n = 0;
    for (int s = 0; s < 30; s++) {
        I->integrate();
        double t = I->getIndyVar();
        if (!near(t, (s + 1) * h)) mc::fail("time", "%s: ball step %d ends at %.17g", NAME[k], s, t);
        double land = ts + (vs + std::sqrt(vs * vs + 20 * ys)) / 10;
        if (land < t - 1e-9) {
            double vl = vs - 10 * (land - ts);
            if (B.at.size() != n + 1) mc::fail("ball-events", "%s h %g: %zu landings by %g, expected %zu", NAME[k], h, B.at.size(), t, n + 1);
            if (std::fabs(B.at[n] - land) > 1e-7) mc::fail("ball-time", "%s h %g: landing at %.12g, expected %.12g", NAME[k], h, B.at[n], land);
            n++; ts = land; ys = 0; vs = -B.rest * vl;
        } else if (B.at.size() != n) {
            if (std::fabs(land - t) > 1e-7) mc::fail("ball-events", "%s h %g: a landing at %.12g, expected %.12g", NAME[k], h, B.at.back(), land);
            double vl = vs - 10 * (land - ts);
            n++; ts = land; ys = 0; vs = -B.rest * vl;
        }
        if (2 * vs / 10 < 2.2 * h) break;              // flights too short to be sampled
        double ye = ys + vs * (t - ts) - 5 * (t - ts) * (t - ts), ve = vs - 10 * (t - ts);
        if (std::fabs(y[0] - ye) > 1e-6 || std::fabs(y[1] - ve) > 1e-6) mc::fail("ball-state", "%s h %g: at %g height %.12g speed %.12g, expected %.12g %.12g", NAME[k], h, t, y[0], y[1], ye, ve);
    }
    mc::outcome((uint64_t)k);
}
static double e_none(double, double[], RootFinder *, void *) { return DBL_MAX; }
static void leaks() {
    int k = mc::choose(NKIND, "kind");
    size_t used[3];
    for (int round = 0; round < 3; round++) {
        size_t before = __sanitizer_get_current_allocated_bytes();
        {
            double y[3] = {1, 2, 3}, *p[3] = {&y[0], &y[1], &y[2]}, w[3] = {1, 2, 3}, *q[3] = {&w[0], &w[1], &w[2]};
            std::unique_ptr<SA::Integrator> I(make(k, .25, 2, p, k == CROMER ? q : p, d_nl2, g_nl2, &UD)), J(make(k, .5, 3, q, p, d_nl2, g_nl2, &UD)), C;
            for (int s = 0; s < 7; s++) {
                I->integrate();
                if (s == 1) I->undo_integrate();
                C.reset(copy(k, I.get()));
                if (s & 1) assign(k, J.get(), I.get()); else assign(k, I.get(), I.get());
                if (vstep(k) && s != 3)
                    for (int i = 0; i < 2; i++) static_cast<SA::FirstOrderODEVariableStepIntegrator *>(I.get())->add_Rootfinder(1e-9, Positive, e_none);
            }
        }
        used[round] = __sanitizer_get_current_allocated_bytes() - before;
    }
    if (used[1] || used[2]) mc::fail("leak", "%s: %zu bytes remain after everything is destroyed", NAME[k], used[2]);
    mc::outcome((uint64_t)k);
}
int main(int c, char **v) {
    struct Null : std::streambuf { int overflow(int ch) { return ch; } };
    static Null nb; std::cout.rdbuf(&nb); std::cerr.rdbuf(&nb);
    mc::Options o; o.split = 5; o.timeout_s = 60;
    return mc::run(c, v, o, [] {
        switch (mc::choose(9, "part")) {
            case 0: histories(); break;
            case 1: exact(); break;
            case 2: linear(); break;
            case 3: rkf(); break;
            case 4: refusals(); break;
            case 5: finder(); break;
            case 6: roots(); break;
            case 7: ball(); break;
            case 8: leaks(); break;
        }
    });
}
