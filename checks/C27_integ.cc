// C27: integration loops and integrators.
#define MC_MAIN
#include "exec_world.hh"
#include "trick/Integrator.hh"
#include "trick/IntegAlgorithms.hh"
#include "trick/IntegLoopSimObject.hh"
#include "trick/MultiDtIntegLoopSimObject.hh"
#include "trick/integrator_c_intf.h"
#include "trick/regula_falsi.h"
#include <memory>
#include <set>
using namespace ew;
using std::vector; using std::string;
typedef long double LD;

// ------------------------------------------------------------------ part A: the integrators
struct Tab { int s; vector<LD> c; vector<vector<LD>> a; vector<LD> b; };
static Tab tableau(int k) {
    LD r2 = sqrtl(2.0L); Tab t;
    switch (k) {
        case Euler: t = {1, {0}, {{}}, {1}}; break;
        case Runge_Kutta_2: t = {2, {0, 1}, {{}, {1}}, {.5L, .5L}}; break;
        case Runge_Kutta_4: case ABM_Method: t = {4, {0, .5L, .5L, 1}, {{}, {.5L}, {0, .5L}, {0, 0, 1}}, {1 / 6.L, 1 / 3.L, 1 / 3.L, 1 / 6.L}}; break;
        case Runge_Kutta_Gill_4: t = {4, {0, .5L, .5L, 1}, {{}, {.5L}, {(r2 - 1) / 2, (2 - r2) / 2}, {0, -r2 / 2, 1 + r2 / 2}}, {1 / 6.L, (2 - r2) / 6, (2 + r2) / 6, 1 / 6.L}}; break;
        case Runge_Kutta_Fehlberg_45:
            t = {6, {0, .25L, 3 / 8.L, 12 / 13.L, 1, .5L}, {{}, {.25L}, {3 / 32.L, 9 / 32.L}, {1932 / 2197.L, -7200 / 2197.L, 7296 / 2197.L}, {439 / 216.L, -8, 3680 / 513.L, -845 / 4104.L}, {-8 / 27.L, 2, -3544 / 2565.L, 1859 / 4104.L, -11 / 40.L}},
                 {16 / 135.L, 0, 6656 / 12825.L, 28561 / 56430.L, -9 / 50.L, 2 / 55.L}}; break;
        case Runge_Kutta_Fehlberg_78:
// the stage at the end of the step that the eighth order solution does not use is left out
            t = {12, {0, 2 / 27.L, 1 / 9.L, 1 / 6.L, 5 / 12.L, .5L, 5 / 6.L, 1 / 6.L, 2 / 3.L, 1 / 3.L, 0, 1},
                 {{}, {2 / 27.L}, {1 / 36.L, 1 / 12.L}, {1 / 24.L, 0, 1 / 8.L}, {5 / 12.L, 0, -25 / 16.L, 25 / 16.L}, {.05L, 0, 0, .25L, .2L}, {-25 / 108.L, 0, 0, 125 / 108.L, -65 / 27.L, 125 / 54.L},
                  {31 / 300.L, 0, 0, 0, 61 / 225.L, -2 / 9.L, 13 / 900.L}, {2, 0, 0, -53 / 6.L, 704 / 45.L, -107 / 9.L, 67 / 90.L, 3}, {-91 / 108.L, 0, 0, 23 / 108.L, -976 / 135.L, 311 / 54.L, -19 / 60.L, 17 / 6.L, -1 / 12.L},
                  {3 / 205.L, 0, 0, 0, 0, -6 / 41.L, -3 / 205.L, -3 / 41.L, 3 / 41.L, 6 / 41.L},
                  {-1777 / 4100.L, 0, 0, -341 / 164.L, 4496 / 1025.L, -289 / 82.L, 2193 / 4100.L, 51 / 82.L, 33 / 164.L, 12 / 41.L, 1}},
                 {0, 0, 0, 0, 0, 34 / 105.L, 9 / 35.L, 9 / 35.L, 9 / 280.L, 9 / 280.L, 41 / 840.L, 41 / 840.L}}; break;
    }
    return t;
}
static bool second_only(int k) { return k == Euler_Cromer || k == Nystrom_Lear_2 || k == Modified_Midpoint_4; }
static const char *INAME[] = {"Euler", "Euler_Cromer", "NL2", "RK2", "MM4", "RK4", "RKG4", "RKF45", "RKF78", "ABM"};
// the problem: first order y' = f(t, y); second order x' = v, v' = f(t, x, v)
template <class T> static void rhs(bool second, int n, T t, const T *y, T *d) {
    if (!second) { for (int i = 0; i < n; i++) d[i] = cos((T)(i + 1) * t) + (T).3 * y[(i + 1) % n] - (T).05 * y[i] * y[i]; return; }
    int h = n / 2;
    for (int i = 0; i < h; i++) { d[i] = y[h + i]; d[h + i] = cos((T)(i + 1) * t) - (T).7 * y[i] - (T).1 * y[h + i] + (T).05 * y[(i + 1) % h] * y[i]; }
}
struct Ref {        // the textbook method
    int k, n; bool second; vector<LD> y; LD t; vector<vector<LD>> hist; LD lasth; int primed; vector<LD> times;
    void rk(LD h) {
        Tab q = tableau(k); vector<vector<LD>> f(q.s, vector<LD>(n));
        for (int i = 0; i < q.s; i++) {
            vector<LD> z = y; for (int j = 0; j < i && j < (int)q.a[i].size(); j++) for (int m = 0; m < n; m++) z[m] += h * q.a[i][j] * f[j][m];
            times.push_back(t + q.c[i] * h); rhs<LD>(second, n, t + q.c[i] * h, z.data(), f[i].data());
            if (i == 0) { hist.insert(hist.begin(), f[0]); if (hist.size() > 4) hist.pop_back(); }
        }
        for (int i = 0; i < q.s; i++) for (int m = 0; m < n; m++) y[m] += h * q.b[i] * f[i][m];
    }
    void step(LD h) {
        times.clear(); vector<LD> d(n); int hn = n / 2;
        if (k == ABM_Method) {
            if (h != lasth) { primed = 0; hist.clear(); lasth = h; }
            if (primed < 3) { rk(h); primed++; }
            else {
                times.push_back(t); times.push_back(t + h); vector<LD> y0 = y;
                rhs<LD>(second, n, t, y.data(), d.data()); hist.insert(hist.begin(), d); if (hist.size() > 4) hist.pop_back();
                for (int m = 0; m < n; m++) y[m] = y0[m] + h / 24 * (55 * hist[0][m] - 59 * hist[1][m] + 37 * hist[2][m] - 9 * hist[3][m]);
                rhs<LD>(second, n, t + h, y.data(), d.data());
                for (int m = 0; m < n; m++) y[m] = y0[m] + h / 24 * (9 * d[m] + 19 * hist[0][m] - 5 * hist[1][m] + hist[2][m]);
            }
        } else if (k == Euler_Cromer) {
            times.push_back(t); rhs<LD>(true, n, t, y.data(), d.data());
            for (int i = 0; i < hn; i++) { y[hn + i] += h * d[hn + i]; y[i] += h * y[hn + i]; }
        } else if (k == Nystrom_Lear_2) {       // position to the middle, velocity across, position to the end
            times.push_back(t); times.push_back(t + h / 2);
            for (int i = 0; i < hn; i++) y[i] += h / 2 * y[hn + i];
            rhs<LD>(true, n, t + h / 2, y.data(), d.data());
            for (int i = 0; i < hn; i++) { y[hn + i] += h * d[hn + i]; y[i] += h / 2 * y[hn + i]; }
        } else if (k == Modified_Midpoint_4) {
            times.push_back(t); times.push_back(t + h / 2); times.push_back(t + h);
            vector<LD> y0 = y, y1 = y, y2 = y; rhs<LD>(true, n, t, y.data(), d.data());
            for (int m = 0; m < n; m++) y1[m] = y0[m] + h / 2 * d[m];
            if (mm4_semi) for (int i = 0; i < hn; i++) y1[i] = y0[i] + h / 2 * y1[hn + i];
            rhs<LD>(true, n, t + h / 2, y1.data(), d.data());
            for (int m = 0; m < n; m++) y2[m] = y0[m] + h * d[m];
            rhs<LD>(true, n, t + h, y2.data(), d.data());
            for (int i = 0; i < hn; i++) { y[hn + i] = (y1[hn + i] + y2[hn + i] + h / 2 * d[hn + i]) / 2; y[i] = (y1[i] + y2[i] + h / 2 * y[hn + i]) / 2; }
        } else rk(h);
        t += h;
    }
    bool mm4_semi = false;
};
extern Trick::Integrator *trick_curr_integ;
static void integrators() {
    int k = mc::choose(10, "technique"), via = mc::choose(4, "interface"), n = 1 + mc::choose(4, "states"), st = mc::choose(4, "start");
    bool second = second_only(k) || via == 2;
    if (second && n % 2) return;
    if (via == 1 && second_only(k)) return;
    static const double T0[] = {0, 1.5, -2.25, 1e5}, HS[] = {.1, -.05, .25};
    vector<double> hs; if (k == ABM_Method) { int len = mc::thorough() ? 11 : 7; hs.push_back(HS[mc::choose(3, "step")]); int left = 2; for (int i = 1; i < len; i++) { int c = left ? mc::choose(3, "change") : 0; if (c) left--; int at = hs.back() == HS[0] ? 0 : hs.back() == HS[1] ? 1 : 2; hs.push_back(HS[(at + c) % 3]); } }
    else for (int i = 0; i < (mc::thorough() ? 5 : 3); i++) hs.push_back(HS[mc::choose(3, "step")]);
    std::unique_ptr<Trick::Integrator> I;
    Trick::Integrator *in = Trick::getIntegrator((Integrator_type)k, n);
    if (!in) mc::fail("C27:none", "no integrator %s", INAME[k]);
    if (in->get_Integrator_type() != k) mc::fail("C27:type", "%s reports type %d", INAME[k], in->get_Integrator_type());
    trick_curr_integ = in;
    double y[8], d[8]; for (int i = 0; i < 8; i++) y[i] = .5 - .3 * i, d[i] = 0;
    for (int i = n; i < 8; i++) y[i] = 1234 + i;
    Ref r; r.k = k; r.n = n; r.second = second; r.t = T0[st]; r.lasth = 0; r.primed = 0; for (int i = 0; i < n; i++) r.y.push_back(y[i]);
    double t = T0[st]; int hn = n / 2;
    for (size_t s = 0; s < hs.size(); s++) {
        in->time = t; in->dt = hs[s]; in->target_integ_time = t + hs[s];
        r.t = t; r.step(hs[s]); int pass = 0, rc;
        do {
            if (pass >= (int)r.times.size()) mc::fail("C27:passes", "%s takes more than %d passes", INAME[k], (int)r.times.size());
            if (fabsl(get_integ_time() - r.times[pass]) > 4e-16L * fabsl(r.times[pass]) + 1e-16L) mc::fail("C27:stage-time", "%s step %d: derivatives of pass %d are evaluated at %.17g, not %.17Lg (start %g step %g)", INAME[k], (int)s, pass, get_integ_time(), r.times[pass], t, hs[s]);
            if (get_integ_dt() != hs[s]) mc::fail("C27:dt", "%s: dt %g during a step of %g", INAME[k], get_integ_dt(), hs[s]);
            if (get_intermediate_step() != pass) mc::fail("C27:stage", "%s: intermediate step %d in pass %d", INAME[k], get_intermediate_step(), pass);
            rhs<double>(second, n, get_integ_time(), y, d); mc::step();
            switch (via) {
            case 0:
                switch (n) { case 1: load_state(&y[0], NULL); load_deriv(&d[0], NULL); break; case 2: load_state(&y[0], &y[1], NULL); load_deriv(&d[0], &d[1], NULL); break;
                             case 3: load_state(&y[0], &y[1], &y[2], NULL); load_deriv(&d[0], &d[1], &d[2], NULL); break; case 4: load_state(&y[0], &y[1], &y[2], &y[3], NULL); load_deriv(&d[0], &d[1], &d[2], &d[3], NULL); break; }
                if (second) { if (hn == 1) load_deriv2(&d[1], NULL); else load_deriv2(&d[2], &d[3], NULL); }
                rc = integrate();
                switch (n) { case 1: unload_state(&y[0], NULL); break; case 2: unload_state(&y[0], &y[1], NULL); break; case 3: unload_state(&y[0], &y[1], &y[2], NULL); break; case 4: unload_state(&y[0], &y[1], &y[2], &y[3], NULL); break; }
                break;
            case 1: rc = integrate_1st_order_ode(d, y); break;
            case 2: rc = integrate_2nd_order_ode(d + hn, y + hn, y); break;
            default:
                for (int i = n - 1; i >= 0; i--) { load_indexed_state(i, y[i]); load_indexed_deriv(i, d[i]); if (second && i < hn) load_indexed_deriv2(i, d[hn + i]); }
                rc = integrate();
                for (int i = 0; i < n; i++) y[i] = unload_indexed_state(i);
            }
            pass++;
            if (rc != (pass == (int)r.times.size() ? 0 : pass)) mc::fail("C27:return", "%s pass %d of %d returns %d", INAME[k], pass, (int)r.times.size(), rc);
        } while (rc);
        double want = t + hs[s];
        if (get_integ_time() != want && fabs(get_integ_time() - want) > 2e-16 * fabs(want)) mc::fail("C27:end-time", "%s ends a step from %g by %g at %.17g", INAME[k], t, hs[s], get_integ_time());
        t = get_integ_time();
        for (int i = 0; i < n; i++) if (fabsl(y[i] - r.y[i]) > 1e-12L * (1 + fabsl(r.y[i])) + 1e-10L * (fabs(T0[st]) > 1e3)) mc::fail(string("C27:state:") + INAME[k], "%s via %d, %d states, step %d by %g: state %d is %.17g instead of %.17Lg", INAME[k], via, n, (int)s, hs[s], i, y[i], r.y[i]);
        for (int i = n; i < 8; i++) if (y[i] != 1234 + i) mc::fail("C27:others", "%s changes variable %d which is not a state", INAME[k], i);
        for (int i = 0; i < n; i++) mc::state(mc::hv(k, s, (long)(y[i] * 1e6)));
    }
    mc::outcome(mc::hv(k, via, n)); delete in; trick_curr_integ = 0;
}

// ------------------------------------------------------------------ part B: loops in a simulation
struct Rec { int body, cls; ll t; bool operator==(const Rec &o) const { return body == o.body && cls == o.cls && t == o.t; } };
enum { PRE, DER, INT, POST, DYN };
static const char *CN[] = {"pre", "der", "int", "post", "dyn"};
struct Sim; static Sim *S;
struct Body : public Trick::SimObject {
    int b; Trick::Integrator *I; double p, q, dp, dq; double g, e; REGULA_FALSI R; int bounces; bool events, moving;
    Body(int b_, bool ev) : b(b_), p(1 + b_), q(.5 - b_), dp(0), dq(0), g(0), e(1), bounces(0), events(ev), moving(true) {
        I = Trick::getIntegrator(Runge_Kutta_4, 2); memset(&R, 0, sizeof R);
        int i = 0;
        add_job(0, i++, "pre_integration", NULL, 1, "pre", "", 60000);
        add_job(0, i++, "derivative", NULL, 1, "der", "", 60000);
        add_job(0, i++, "integration", &I, 1, "int", "", 60000);
        add_job(0, i++, "post_integration", NULL, 1, "post", "", 60000);
        if (ev) add_job(0, i++, "dynamic_event", NULL, 1, "dyn", "", 60000);
    }
    ~Body() { delete I; }
    virtual int call_function(Trick::JobData *j);
    virtual double call_function_double(Trick::JobData *j);
};
struct Loop {       // the model of a loop
    bool multi, last; ll state; vector<ll> cyc, nxt; vector<int> mem; ll changed = -1;     // changed: when a rate was changed since the state was computed
    ll next() const { ll m = nxt[0]; for (ll x : nxt) m = std::min(m, x); return m; }
};
struct Chg { int kind, a; double x; int b; };        // a change: what, which loop or body, value, rate index
enum { K_NONE, K_CYCLE, K_MOVE, K_DROP, K_DELETE, K_BACK, K_ADDRATE, K_RATE };
struct Sim {
    World *w; Trick::Executive *ex; vector<Body *> bodies; vector<IntegLoopSimObject *> pl; vector<MultiDtIntegLoopSimObject *> ml; vector<Trick::IntegLoopScheduler *> ls;
    vector<Loop> m; vector<Rec> want; size_t at = 0; vector<double> P, Q; vector<bool> in; string log; int calls = 0; bool running = false, events = false;
    ll tt(double x) { return llround(x * 1e6); }
    vector<double> P0, Q0; ll forgets = -1; bool single = false;
    void move(Loop &l, double t0, double t1) {
        auto F = [](double t) { return 3 * t * t - 2 * t; }; auto G = [](double t) { return t * t * t - t * t; }; double hh = t1 - t0;
        for (int b : l.mem) { P[b] += Q[b] * hh + G(t1) - G(t0) - F(t0) * hh; Q[b] += F(t1) - F(t0); }
    }
    void expect_next(ll t) {        // the next call of a loop
        at = 0; want.clear();
        for (;;) {
            int k = -1; for (size_t i = 0; i < m.size(); i++) if (m[i].next() <= t && (k < 0 || m[i].next() < m[k].next())) k = i;
            if (k < 0) return;
            Loop &l = m[k]; ll now = l.next(), h = now - l.state; double t0 = l.state / 1e6, t1 = now / 1e6;
            for (int b : l.mem) want.push_back(Rec{b, PRE, now});
            for (int p = 0; p < 4; p++) { for (int b : l.mem) want.push_back(Rec{b, DER, now}); for (int b : l.mem) want.push_back(Rec{b, INT, now}); }
            if (l.last) for (int b : l.mem) want.push_back(Rec{b, DER, now});
            for (int b : l.mem) want.push_back(Rec{b, POST, now});
            P0 = P; Q0 = Q; move(l, t0, t1); forgets = l.changed; l.changed = -1;
            cur = k; from = l.state; step = h; l.state = now; for (size_t i = 0; i < l.nxt.size(); i++) if (l.nxt[i] == now) l.nxt[i] += l.cyc[i];
            if (want.size()) { calls++; return; }
        }
    }
    int cur = 0; ll from = 0, step = 0;
    void event(int b, int c) {
        if (!running || events) return;
        ll t = ex->get_time_tics(); mc::step();
        if (at == want.size()) expect_next(t);
        if (at == want.size()) mc::fail("C27:extra", "%s: %s job of body %d is called at %lld but no loop is due", log.c_str(), CN[c], b, t);
        Rec &w = want[at];
        if (!(w == Rec{b, c, t})) mc::fail("C27:order", "%s: %s job of body %d is called at %lld, expected %s of body %d at %lld", log.c_str(), CN[c], b, t, CN[w.cls], w.body, w.t);
        if (c == DER && forgets >= 0 && fabs(get_integ_time() - forgets / 1e6) < 1e-9) {
            // a recorded finding: the call starts when the rate was changed and not where the state is
            if (single && mc::flip("report")) mc::fail("C27:rate-change-drops-interval", "%s: the call at %lld integrates from %lld, the state is the one of %lld", log.c_str(), t, forgets, from);
            step -= forgets - from; from = forgets; P = P0; Q = Q0; move(m[cur], from / 1e6, (from + step) / 1e6);
        }
        if (c == DER) forgets = -1;
        if (c == DER || c == INT) {
            // which pass: the derivative jobs run once per pass; the ones after the last pass are at the end
            int n = m[cur].mem.size(), pass = ((int)at - n) / (2 * n); static const double ST[] = {0, .5, .5, 1, 1};
            double tt = (from + ST[std::min(pass, 4)] * step) / 1e6; Trick::Integrator *I = bodies[b]->I;
            if (c == DER && fabs(get_integ_time() - tt) > 1e-9) mc::fail("C27:loop-time", "%s: derivative of body %d in pass %d of the call at %lld with integrator time %.12g, expected %.12g", log.c_str(), b, pass, t, get_integ_time(), tt);
            if (c == INT && (fabs(I->time - tt) > 1e-9 || fabs(I->dt - step / 1e6) > 1e-9)) mc::fail("C27:loop-time", "%s: integration of body %d in pass %d of the call at %lld from %.12g by %.12g, expected %.12g by %.12g", log.c_str(), b, pass, t, I->time, I->dt, tt, step / 1e6);
        }
        at++;
        if (c == POST && (fabs(bodies[b]->p - P[b]) > 1e-9 || fabs(bodies[b]->q - Q[b]) > 1e-9)) mc::fail("C27:motion", "%s: after the call at %lld body %d is at %.12g, %.12g instead of %.12g, %.12g", log.c_str(), t, b, bodies[b]->p, bodies[b]->q, P[b], Q[b]);
        if (at == want.size()) { mc::state(mc::hv(calls, t, b)); if (after_call) after_call(calls); }
        else if (at == 1 && in_call) in_call(calls);
    }
    std::function<void(int)> after_call, in_call;
    void flush(ll t) {
        if (at < want.size()) mc::fail("C27:missing", "%s: at %lld the loop call at %lld lacks %s of body %d", log.c_str(), t, want[at].t, CN[want[at].cls], want[at].body);
        expect_next(t);
        if (want.size()) mc::fail("C27:missed", "%s: at %lld the call of a loop due at %lld did not happen", log.c_str(), t, want[0].t);
        for (size_t i = 0; i < bodies.size(); i++) if (fabs(bodies[i]->p - P[i]) > 1e-9 || fabs(bodies[i]->q - Q[i]) > 1e-9) mc::fail("C27:motion", "%s: at %lld body %d is at %.12g, %.12g instead of %.12g, %.12g", log.c_str(), t, (int)i, bodies[i]->p, bodies[i]->q, P[i], Q[i]);
    }
    int loop_of(int b) { for (size_t i = 0; i < m.size(); i++) for (int x : m[i].mem) if (x == b) return i; return -1; }
    void drop(int b) { for (auto &l : m) l.mem.erase(std::remove(l.mem.begin(), l.mem.end(), b), l.mem.end()); }
    void apply(const Chg &s) {
        ll now = ex->get_time_tics(); char nm[8], line[96]; static const char *SN[] = {"none", "cycle", "move", "drop", "delete", "back", "add_rate", "set_rate"};
        snprintf(line, 96, " [%lld: %s(%d,%g,%d)]", now, SN[s.kind], s.a, s.x, s.b); log += line;
        auto retime = [&](Loop &l, int i, ll due) { l.cyc[i] = tt(s.x); l.nxt[i] = due > now ? now - now % l.cyc[i] + l.cyc[i] : now; if (l.multi && l.state < now) l.changed = now; };
        switch (s.kind) {
        case K_CYCLE: { Loop &l = m[s.a]; ll due = l.next(); if (ls[s.a]->set_integ_cycle(s.x) != 0) mc::fail("C27:refused", "%s: set_integ_cycle refused", log.c_str()); retime(l, 0, due); break; }
        case K_RATE: { Loop &l = m[s.a]; if (!l.multi) break; Trick::MultiDtIntegLoopScheduler *x = (Trick::MultiDtIntegLoopScheduler *)ls[s.a]; ll due = l.next(); bool ok = s.b < (int)l.cyc.size();
            if ((x->set_integ_rate(s.b, s.x) == 0) != ok) mc::fail("C27:refused", "%s: set_integ_rate %s", log.c_str(), ok ? "refused" : "accepted for a missing rate"); if (ok) retime(l, s.b, due); break; }
        case K_ADDRATE: { Loop &l = m[s.a]; if (!l.multi) break; Trick::MultiDtIntegLoopScheduler *x = (Trick::MultiDtIntegLoopScheduler *)ls[s.a]; ll due = l.next(); 
            if (x->add_rate(s.x) != l.cyc.size()) mc::fail("C27:refused", "%s: add_rate gives another index", log.c_str()); l.cyc.push_back(0); l.nxt.push_back(MAXT); retime(l, l.cyc.size() - 1, due); break; }
        case K_MOVE: if (in[s.a]) { int have = loop_of(s.a); int r = ls[s.b]->add_sim_object(*bodies[s.a]); if ((r == 0) != (have != s.b)) mc::fail("C27:refused", "%s: add_sim_object returns %d", log.c_str(), r); if (have != s.b) { drop(s.a); m[s.b].mem.push_back(s.a); } } break;
        case K_DROP: { int r = ls[s.b]->remove_sim_object(*bodies[s.a]); bool had = loop_of(s.a) == s.b; if ((r == 0) != had) mc::fail("C27:refused", "%s: remove_sim_object returns %d", log.c_str(), r); if (had) drop(s.a); break; }
        case K_DELETE: if (in[s.a]) { ex->delete_sim_object(bodies[s.a]); in[s.a] = false; drop(s.a); } break;
        case K_BACK: if (!in[s.a]) { snprintf(nm, 8, "b%d", s.a); ex->add_sim_object(bodies[s.a], nm); in[s.a] = true; } break;
        }
    }
    void make_loop(bool multi, double c) {
        Trick::SimObject *so; char nm[8]; snprintf(nm, 8, "l%d", (int)ls.size());
        if (multi) { auto *l = new MultiDtIntegLoopSimObject(c, 0, (Trick::SimObject *)NULL); ml.push_back(l); ls.push_back(&l->integ_sched); so = l; }
        else { auto *l = new IntegLoopSimObject(c, 0, (Trick::SimObject *)NULL); pl.push_back(l); ls.push_back(&l->integ_sched); so = l; }
        ex->add_sim_object(so, nm);
        m.push_back(Loop{multi, false, 0, {tt(c)}, {tt(c)}, {}});
    }
    void add_body(bool ev = false) { int b = bodies.size(); bodies.push_back(new Body(b, ev)); char nm[8]; snprintf(nm, 8, "b%d", b); ex->add_sim_object(bodies[b], nm); P.push_back(bodies[b]->p); Q.push_back(bodies[b]->q); in.push_back(true); }
    Sim() { S = this; Trick::IntegLoopScheduler::manager.clear_sim_object_info(); trick_curr_integ = 0; }
    ~Sim() { S = 0; Trick::IntegLoopScheduler::manager.clear_sim_object_info(); trick_curr_integ = 0; for (auto p : bodies) delete p; for (auto p : pl) delete p; for (auto p : ml) delete p; }
};
int Body::call_function(Trick::JobData *j) {
    switch (j->id) {
    case PRE: S->event(b, PRE); break;
    case DER:
        S->event(b, DER); dp = q; dq = events ? g : S->running ? 6 * get_integ_time() - 2 : 0; break;
    case INT:
        S->event(b, INT);
        if (trick_curr_integ != I) mc::fail("C27:current", "%s: another integrator is current in the integration job of body %d", S->log.c_str(), b);
        load_state(&p, &q, NULL); load_deriv(&dp, &dq, NULL); { int r = integrate(); unload_state(&p, &q, NULL); return r; }
    case POST: S->event(b, POST); break;
    }
    return 0;
}
double Body::call_function_double(Trick::JobData *) {
    if (!S->running) return BIG_TGO;
    mc::step(); R.error = p; double now = get_integ_time(), tgo = regula_falsi(now, &R);
    if (tgo == 0) { reset_regula_falsi(now, &R); q = -e * q; bounces++; if (bounces > 50) mc::fail("C27:event-endless", "%s: more than 50 events", S->log.c_str()); }
    return tgo;
}
static const double CY[] = {.1, .2, .3};
static void loops() {
    int kinds = mc::choose(3, "loop kinds"), c0 = mc::choose(3, "cycle 0"), c1 = mc::choose(mc::thorough() ? 3 : 2, "cycle 1"), join = mc::choose(2, "members"), last = mc::flip("last derivative");
    int last_k = 0, nact = mc::thorough() ? 3 : 2; vector<std::pair<int, struct Chg>> acts;
    for (int i = 0; i < nact; i++) {
        int a = mc::choose(19, "change"); if (!a) break;
        Chg st; switch (a) {
        case 1: case 2: case 3: st = Chg{K_CYCLE, 0, CY[a - 1], 0}; break;
        case 4: case 5: case 6: st = Chg{K_CYCLE, 1, CY[a - 4], 0}; break;
        case 7: st = Chg{K_MOVE, 1, 0, 0}; break; case 8: st = Chg{K_MOVE, 1, 0, 1}; break; case 9: st = Chg{K_MOVE, 0, 0, 1}; break;
        case 10: st = Chg{K_DROP, 1, 0, 1}; break; case 11: st = Chg{K_DROP, 0, 0, 0}; break; case 12: st = Chg{K_DELETE, 1, 0, 0}; break; case 13: st = Chg{K_DELETE, 0, 0, 0}; break; case 14: st = Chg{K_BACK, 1, 0, 0}; break;
        case 15: st = Chg{K_ADDRATE, 1, .3, 0}; break; case 16: st = Chg{K_ADDRATE, 1, .25, 0}; break; case 17: st = Chg{K_RATE, 1, .15, 0}; break; default: st = Chg{K_RATE, 1, .1, 1}; break; }
        if (st.kind >= K_ADDRATE && !kinds) return;
        if (i && acts[i - 1].second.kind == K_NONE) return;
        // before the start, at a monitor call, or inside the second or third call of a loop (rates only)
        static const int AT[] = {-1, 3, 4, 9, 102, 203}; int k = mc::choose(st.kind == K_CYCLE || st.kind >= K_ADDRATE ? 6 : 4, "when");
        if (k == 0 && (st.kind == K_DELETE || st.kind == K_BACK)) return;
        if (i && k < last_k) return;
        last_k = k; acts.push_back({AT[k], st});
    }
    World w; Config c; c.T = 1.5; c.frame = .1; c.jobs.push_back(JobSpec("scheduled", .05)); Sim s; s.w = &w;
    s.single = acts.size() == 1; bool done = false; s.after_call = [&](int n) { for (auto &a : acts) if (a.first == 100 + n) s.apply(a.second); };
    s.in_call = [&](int n) { for (auto &a : acts) if (a.first == 200 + n) s.apply(a.second); };
    c.setup = [&](Trick::Executive *ex) {
        s.ex = ex; s.add_body(); s.add_body(); s.make_loop(kinds == 2, CY[c0]); s.make_loop(kinds >= 1, CY[c1]);
        for (int b = 0; b < 2; b++) { int l = join ? 0 : b; s.ls[l]->add_sim_object(*s.bodies[b]); s.m[l].mem.push_back(b); }
        if (last) { s.ls[0]->last_step_deriv = true; s.m[0].last = true; }
        char d[96]; snprintf(d, 96, "loops %s %g and %s %g, %s", kinds == 2 ? "multi" : "plain", CY[c0], kinds ? "multi" : "plain", CY[c1], join ? "both bodies in the first" : "one body each"); s.log = d;
    };
    c.input = [&] { for (auto &a : acts) if (a.first == -1) s.apply(a.second); };
    w.controller = [&](int, ll t, int n) { s.running = true; s.flush(t); if (t >= 1450000) done = true; for (auto &a : acts) if (a.first == n) s.apply(a.second); return vector<Act>(); };
    w.build(c); w.run();
    if (!done) mc::fail("C27:end", "%s: the simulation ended early: %s", s.log.c_str(), w.ex->except_message.c_str());
    mc::outcome(mc::hv(s.calls, kinds, (long)(s.P[0] * 1e3))); mc::trace("%s", s.log.c_str());
}
// ------------------------------------------------------------------ part C: dynamic events
static void events() {
    int multi = mc::flip("multi"), cy = mc::choose(3, "cycle"), nb = 1 + mc::choose(3, "bodies");
    struct B0 { double p, q, g, e; int mode; }; vector<B0> in;
    for (int b = 0; b < nb; b++) {
        int up = mc::flip("ceiling"), sp = mc::choose(mc::thorough() ? 6 : 4, "speed"), g = mc::choose(2, "gravity"), e = mc::choose(3, "restitution"), any = mc::flip("any slope");
        if (nb == 3 && (g || e || any)) return;
        static const double V[] = {-2.13, -1.07, -.61, -3.31, .43, -.83}, E[] = {1, .5, 1.25};
        B0 x{.7131 + .1013 * b, V[sp], g ? -2.5 : 0, E[e], any ? Any : Decreasing};
        if (any && nb > 1) return;        // the other body's events take this one through its own crossing again
        if (nb < 3 && mc::flip("other side")) { if (any) return; x.p = -.11, x.q = 1.47 + .1 * sp, x.g = g ? -4.5 : 0; }
        if (up) x.p = -x.p, x.q = -x.q, x.g = -x.g, x.mode = any ? Any : Increasing;
        in.push_back(x);
    }
    World w; Config c; c.T = 1.25; c.frame = .1; c.jobs.push_back(JobSpec("scheduled", .05)); Sim s; s.events = true;
    // the exact motion
    auto exact = [&](const B0 &x, double t, double &p, double &q, int &n, bool &close) {
        p = x.p; q = x.q; n = 0; close = false; double sg = x.mode == Increasing ? -1 : x.mode == Decreasing || x.p > 0 ? 1 : -1, left = t; double P = p * sg, Q = q * sg, G = x.g * sg;
        for (;;) {
            double hit = -1;
            if (G == 0) { if (Q < 0) hit = -P / Q; } else if (Q * Q - 2 * G * P > 0) hit = (Q + sqrt(Q * Q - 2 * G * P)) / -G;
            if (hit < 0 || hit > left) break;
            left -= hit; Q = -(Q + G * hit) * x.e; P = 0; n++;
            if (fabs(left) < 1e-5) close = true;
        }
        P += Q * left + .5 * G * left * left; Q += G * left; p = P * sg; q = Q * sg; if (fabs(p) < 1e-5) close = true;
    };
    bool done = false, two = false; vector<int> seen(3, 0);
    c.setup = [&](Trick::Executive *ex) {
        s.ex = ex; s.make_loop(multi, CY[cy]); char d[160]; snprintf(d, 160, "%s loop at %g:", multi ? "multi" : "plain", CY[cy]); s.log = d;
        for (int b = 0; b < nb; b++) { s.add_body(true); Body *x = s.bodies[b]; x->p = in[b].p; x->q = in[b].q; x->g = in[b].g; x->e = in[b].e; reset_regula_falsi(0, &x->R); x->R.mode = (decltype(x->R.mode))in[b].mode; x->R.error_tol = 1e-10; x->R.error = x->p; regula_falsi(0, &x->R);
            s.ls[0]->add_sim_object(*x); snprintf(d, 160, " p %g v %g g %g e %g mode %d;", x->p, x->q, x->g, x->e, in[b].mode); s.log += d; }
    };
    ll lc = s.tt(CY[cy]);
    w.controller = [&](int, ll t, int) {
        if (t == 0) { return vector<Act>(); }
        if (t % lc == 0) for (int b = 0; b < nb; b++) {
            double p, q, p1, q1; int n, n1; bool close, cl1; exact(in[b], t / 1e6, p, q, n, close); exact(in[b], (t - lc) / 1e6, p1, q1, n1, cl1);
            if (close || cl1 || n - n1 > 1) two = true;            // a second event before the search has two points again is not bracketed
            if (two) continue;
            Body *x = s.bodies[b];
            if (x->bounces != n) mc::fail("C27:event-count", "%s body %d has had %d events at %lld, expected %d", s.log.c_str(), b, x->bounces, t, n);
            if (fabs(x->p - p) > 1e-7 || fabs(x->q - q) > 1e-7) mc::fail("C27:event-motion", "%s at %lld body %d is at %.12g, %.12g instead of %.12g, %.12g after %d events", s.log.c_str(), t, b, x->p, x->q, p, q, n);
            mc::state(mc::hv(t, b, n, (long)(p * 1e6))); seen[b] = n;
        }
        if (t >= 1200000) done = true;
        return vector<Act>();
    };
    w.build(c); s.running = true; s.at = 0; w.run();
    if (!done) mc::fail("C27:end", "%s: the simulation ended early: %s", s.log.c_str(), w.ex->except_message.c_str());
    mc::outcome(mc::hv(multi, cy, seen[0], seen[1], seen[2], nb, two));
}
int main(int c, char **v) {
    static Globals g; mc::Options o; o.split = 4; o.timeout_s = 60;
    return mc::run(c, v, o, [] { switch (mc::choose(3, "part")) { case 0: integrators(); break; case 1: loops(); break; case 2: events(); break; } });
}
