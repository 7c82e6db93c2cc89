// C23: real-time synchronization, in virtual time.
#define MC_MAIN
#include "exec_world.hh"
#include "trick/RealtimeSync.hh"
#include "trick/ITimer.hh"
#include <semaphore.h>
#include <signal.h>
#include <sys/time.h>
using namespace ew;
using std::vector; using std::string;

// ------------------------------------------------------------------ virtual time and the system calls of the clock and timer
struct VT {
    ll now, q; bool armed; ll expiry; ll delay; int eintr; void (*handler)(int); int sem; bool open; ll reads; bool stuck; ll last_expiry; vector<ll> *delays; size_t nd; bool jump; ll jump_to;
    void reset(ll q_) { now = 1000000000LL; q = q_; armed = false; expiry = 0; delay = 0; eintr = 0; handler = 0; sem = 0; open = false; reads = 0; stuck = false; last_expiry = 0; nd = 0; }
    void deliver() { if (armed && now >= expiry + delay) { armed = false; last_expiry = expiry; if (handler) handler(SIGALRM); } }
    void spend(ll us) { ll end = now + us; if (armed && expiry + delay <= end) { now = std::max(now, expiry + delay); deliver(); } now = end; }
};
static VT V; static sem_t vsem;
struct Stuck {};
extern "C" {
int vt_clock_gettime(clockid_t, struct timespec *t) { t->tv_sec = V.now / 1000000; t->tv_nsec = V.now % 1000000 * 1000; V.now += V.q; V.reads++; V.deliver(); return 0; }
int vt_setitimer(int, const struct itimerval *v, struct itimerval *) {
    ll us = v->it_value.tv_sec * 1000000LL + v->it_value.tv_usec;
    if (v->it_value.tv_usec >= 1000000 || v->it_value.tv_usec < 0 || v->it_value.tv_sec < 0) { errno = EINVAL; return -1; }
    V.armed = us > 0; V.expiry = V.now + us; 
    if (us > 0 && V.delays) V.delay = V.nd < V.delays->size() ? (*V.delays)[V.nd++] : 0;
    if (getenv("RT_LOUD")) printf("  timer %lld us at %lld, delay %lld\n", us, V.now, V.delay);
    return 0; }
int vt_sigaction(int s, const struct sigaction *a, struct sigaction *) { if (s == SIGALRM) V.handler = a->sa_handler; return 0; }
sem_t *vt_sem_open(const char *, int, ...) { V.open = true; return &vsem; }
int vt_sem_trywait(sem_t *s) { if (s != &vsem) { V.stuck = true; return -1; } if (V.sem > 0) { V.sem--; return 0; } errno = EAGAIN; return -1; }
int vt_sem_wait(sem_t *s) {
    if (s != &vsem) { V.stuck = true; return 0; }
    if (V.sem > 0) { V.sem--; return 0; }
    if (!V.armed) { V.stuck = true; return 0; }        // a real process would wait for ever
    if (V.eintr > 0) { V.eintr--; V.now += 1000; errno = EINTR; V.deliver(); return -1; }
    V.now = std::max(V.now, V.expiry + V.delay); V.deliver();
    if (V.sem > 0) { V.sem--; return 0; }
    V.stuck = true; return 0; }
int vt_sem_post(sem_t *) { V.sem++; return 0; }
int vt_sem_unlink(const char *) { V.open = false; return 0; }
int vt_nanosleep(const struct timespec *t, struct timespec *) { V.spend(t->tv_sec * 1000000LL + t->tv_nsec / 1000); return 0; }
}

// ------------------------------------------------------------------ scenarios
enum { C_NONE, C_EN, C_DIS, C_EN_DIS, C_DIS_EN, C_RATIO, C_FRAME, C_FFRAME, C_MAXCNT, C_MAXTIME, C_OFREEZE, C_RUN, C_FREEZE, C_FREEZE_AT, C_RESTART, C_TIMER_ON, C_TIMER_OFF, C_STOP };
static const char *CN[] = {"none", "enable", "disable", "enable+disable", "disable+enable", "clock_ratio", "software_frame", "freeze_frame", "max_overrun_cnt", "max_overrun_time", "overrun_freeze", "run", "freeze", "freeze_at", "restart", "timer_on", "timer_off", "stop"};
struct Cmd { int k; double x; Cmd(int k_ = 0, double x_ = 0) : k(k_), x(x_) {} };
struct Scn {
    Config cfg; vector<double> dur, fdur, mid;          // job durations in frames: job at frame start, freeze jobs, job in the middle of a frame
    std::map<int, vector<Cmd>> at, fat, midat;          // commands given by the n-th call of these jobs
    vector<Cmd> input; vector<ll> delays; int eintr = 0; ll q = 100; bool align = false; double align_mult = 1; int nap = 0;
};
enum { RT_START0, RT_RATIO, RT_INIT, RT_START, RT_ENDINIT, RT_RESTART, RT_FINIT, RT_FPAUSE, RT_UNFREEZE, RT_MON, RT_ENDTIME, RT_SHUT };

struct Model {            // what the time is by the clock: c(w) = c0 + (w - w0) * ratio * tic / 1e6
    bool active = false, en = false, dis = false; double w0 = 0, c0 = 0, ratio = 1, u = 0; double tic = 1e6; ll q = 100;
    unsigned cnt = 0, total = 0, maxcnt = 100000000; double maxtime = 1e37; bool ofreeze = false, fshut = false, term = false;
    bool infreeze = false; double ftarget = 0, ff = 0, ffnew = 0; ll allow_late = 0;
    double c(double w) { return c0 + (w - w0) * ratio * tic / 1e6; }
    double w(double cc) { return w0 + (cc - c0) * 1e6 / tic / ratio; }
    double us(double tics) { return tics * 1e6 / tic / ratio; }
    void anchor(double wlo, double whi, double cc) { w0 = (wlo + whi) / 2; c0 = cc; u = (whi - wlo) / 2 + us(1) + 1; }
};

struct RtObj;
static RtObj *RO;
struct RtObj : public Trick::SimObject {
    Trick::GetTimeOfDayClock clk; Trick::ITimer itimer; Trick::RealtimeSync rt; Model m; Scn *s = 0; string err; int nmon = 0, njob = 0, nf = 0, nmid = 0, waits = 0, overs = 0; bool expect_shutdown = false; double frame_us = 0;
    RtObj() : rt(&clk, &itimer) {
        RO = this; int i = 0;
        add_job(0, i++, "default_data", NULL, 1, "a0", "TRK", 0);
        add_job(0, i++, "initialization", NULL, 1, "a1", "TRK", 65535);
        add_job(0, i++, "initialization", NULL, 1, "a2", "TRK", 65535);
        add_job(0, i++, "initialization", NULL, 1, "a3", "TRK", 65535);
        add_job(0, i++, "initialization", NULL, 1, "a4", "TRK", 65535);
        add_job(0, i++, "restart", NULL, 1, "a5", "TRK", 65535);
        add_job(0, i++, "freeze_init", NULL, 1, "a6", "TRK", 60000);
        add_job(0, i++, "freeze", NULL, 1, "a7", "TRK", 65535);
        add_job(0, i++, "unfreeze", NULL, 1, "a8", "TRK", 60000);
        add_job(0, i++, "end_of_frame", NULL, 1, "a9", "TRK", 65535);
        add_job(0, i++, "shutdown", NULL, 1, "a10", "TRK", 65535);
        add_job(0, i++, "shutdown", NULL, 1, "a11", "TRK", 65535);
    }
    double call_function_double(Trick::JobData *) { return 0; }
    void bad(const char *sig, const char *f, ...) { if (!err.empty()) return; char b[600]; va_list a; va_start(a, f); int n = snprintf(b, 100, "%s|monitor %d, freeze %d: ", sig, nmon, nf); vsnprintf(b + n, 500, f, a); va_end(a); err = b; }
    void started(ll ref, ll wi, ll wo) {               // what start_realtime has to do
        if (m.active) { if (ref >= 0) { m.anchor(wi, wo, ref); m.cnt = 0; } else { m.active = false; m.en = true; } }
    }
    // a wait for the clock to reach target, entered at wi, left at wo
    void waited(const char *what, double target, ll wi, ll wo, ll slack) {
        double wb = m.w(target), early = m.u + 2, late = m.u + slack;
        if (m.c(wi) >= target) { if (wo - wi > slack + m.allow_late) bad("needless-wait", "%s waited %lld us although the boundary had passed by %g us", what, wo - wi, wi - wb); return; }
        waits++;
        if (wo < wb - early) bad("early", "%s ended %g us before its boundary at %g", what, wb - wo, target);
        double allow = wb + late + m.allow_late;
        if (wo > allow) bad("late", "%s ended %g us after its boundary at %g (allowed %g)", what, wo - wb, target, late + m.allow_late);
    }
    ll timer_late() { return V.delay > 1000 ? V.delay - 1000 : 0; }
    int call_function(Trick::JobData *j) {
        Trick::Executive *ex = W->ex; ll wi = V.now; int r = 0; ll t = ex->get_time_tics();
        switch (j->id) {
        case RT_START0: rt.get_sim_start_time(); break;
        case RT_RATIO: rt.rt_clock->calc_sim_time_ratio(ex->get_time_tic_value()); break;
        case RT_INIT: {
            r = rt.initialize();
            if (m.en) m.active = true; if (m.dis) m.active = false; m.en = m.dis = false;
            if (s->align) { double iv = s->align_mult * 1e6 / m.ratio; double tc = 1e6 / m.tic / m.ratio, ph = fmod((double)V.now + tc, iv); if (ph > tc + 20 * V.q) bad("align", "aligned start is %g us after a multiple of %g us of the wall clock", ph, iv); }
            break; }
        case RT_START: rt.start_realtime(ex->get_software_frame(), t); started(t, wi, V.now); break;
        case RT_ENDINIT: rt.get_sim_end_init_time(); break;
        case RT_RESTART: rt.restart(t); break;
        case RT_FINIT: rt.freeze_init(ex->get_freeze_frame()); m.infreeze = true; m.ftarget = t; m.ff = m.ffnew = round(ex->get_freeze_frame() * m.tic); break;
        case RT_UNFREEZE: {
            bool was = m.active;
            if (was && m.fshut) { bool th = false; m.term = true; try { rt.unfreeze(t, ex->get_software_frame()); } catch (Trick::ExecutiveException &) { th = true; } if (!th) bad("freeze-shutdown", "not ended after the overrun freeze"); throw Trick::ExecutiveException(-1, "h", 0, "x"); }
            r = rt.unfreeze(t, ex->get_software_frame());
            if (was) { m.c0 -= (m.ftarget - t); m.u += m.us(1) + 1; }
            m.infreeze = false; break; }
        case RT_FPAUSE: freeze_pause(wi, t); break;
        case RT_MON: monitor(wi, t); break;
        case RT_ENDTIME: rt.get_sim_end_time(); break;
        case RT_SHUT: r = rt.shutdown(); break;
        }
        if (getenv("RT_LOUD")) printf("job %d sim %lld wall %lld..%lld\n", j->id, t, wi, V.now);
        if (V.stuck) bad("endless", "waits for a timer that is not running");
        return r;
    }
    void freeze_pause(ll wi, ll) {
        V.eintr = s->eintr; ll tl = timer_late();
        rt.freeze_pause(W->ex->get_freeze_frame()); ll wo = V.now;
        if (!m.active) { if (m.en) { m.active = true; m.en = false; started((ll)m.ftarget, wi, wo); } m.dis = false; if (wo - wi > 20 * V.q) bad("inactive-wait", "freeze waited %lld us with real-time off", wo - wi); return; }
        m.en = false; if (m.dis) { m.active = false; m.dis = false; }
        // the length in force: the old or, if it was changed, the new one; from the next one on the new one
        double t1 = m.ftarget + m.ff, t2 = m.ftarget + m.ffnew;
        string keep = err; Model km = m; m.allow_late = tl;
        waited("freeze frame", t1, wi, wo, 12 * V.q);
        if (t2 != t1 && err != keep) { err = keep; m = km; m.allow_late = tl; t1 = t2; waited("freeze frame", t1, wi, wo, 12 * V.q); }
        m.allow_late = 0; m.ftarget = t1; m.ff = m.ffnew = round(W->ex->get_freeze_frame() * m.tic);
    }
    void monitor(ll wi, ll b) {
        V.eintr = s->eintr; nmon++; ll tl = timer_late();
        if (m.fshut && m.active) { if (fshut_seen++) bad("no-freeze", "no freeze by the end of the frame after the overrun"); }
        unsigned cnt0 = rt.frame_overrun_cnt;
        bool was_async = W->ex->async_freeze_command;
        Trick::ExecutiveException e(0, "", 0, ""); bool thrown = false;
        try { rt.rt_monitor(b); } catch (Trick::ExecutiveException &x) { e = x; thrown = true; }
        ll wo = V.now;
        if (!m.active) {
            if (wo - wi > 20 * V.q) bad("inactive-wait", "waited %lld us with real-time off", wo - wi);
            if (thrown) bad("terminate", "terminated with real-time off");
            if (m.en) { m.active = true; m.en = false; started(b, wi, wo); }
            m.dis = false;
        } else {
            m.en = false; bool off = m.dis; if (m.dis) m.dis = false;
            double c = m.c(wi), over = c - b, amb = (m.u + 2 * V.q) * m.ratio * m.tic / 1e6 + 2;
            bool real_over = rt.frame_overrun_cnt != 0 && rt.frame_overrun_cnt != 0;
            int is; if (over > amb) is = 1; else if (over < -amb) is = 0; else is = rt.frame_overrun_cnt > 0;      // at the boundary: either
            if (is) {
                overs++;
                m.cnt++; m.total++;
                bool lim_cnt = m.cnt >= m.maxcnt; double mt = m.maxtime * m.tic; int lim_t = over >= mt + amb ? 1 : over <= mt - amb ? 0 : 2;
                bool did = thrown || (m.ofreeze && (rt.freeze_shutdown && !m.fshut));
                bool amb_lim = !lim_cnt && lim_t == 2;
                if (!amb_lim) {
                    bool lim = lim_cnt || lim_t == 1;
                    if (lim && !m.ofreeze && !thrown) bad("no-terminate", "overrun %u of %u, by %g of %g s: not terminated", m.cnt, m.maxcnt, over / m.tic, m.maxtime);
                    if (lim && m.ofreeze && (!rt.freeze_shutdown || thrown || !(W->ex->async_freeze_command || was_async))) bad("no-freeze", "overrun %u of %u, by %g of %g s: no freeze", m.cnt, m.maxcnt, over / m.tic, m.maxtime);
                    if (!lim && (thrown || (rt.freeze_shutdown && !m.fshut))) bad("terminate", "overrun %u of %u, by %g of %g s: ended", m.cnt, m.maxcnt, over / m.tic, m.maxtime);
                    if (lim && m.ofreeze) m.fshut = true;
                } else if (did && m.ofreeze) m.fshut = true;
                if (thrown) { if (e.ret_code != -1) bad("terminate-code", "ended with %d", e.ret_code); m.term = true; }
                if (wo - wi > 12 * V.q) bad("overrun-wait", "waited %lld us in an overrun frame", wo - wi);
                double ot = rt.frame_overrun * m.tic; if (fabs(ot - over) > amb + 2) bad("overrun-time", "overrun of %g tics recorded as %g", over, ot);
            } else {
                if (thrown) bad("terminate", "terminated in an underrun frame");
                m.cnt = 0; m.allow_late = tl + late_frame; late_frame = 0;
                double wb = m.w(b);
                if (m.c(wi) < b) waited("frame", b, wi, wo, 12 * V.q);
                if (wo < wb - m.u - 2) bad("early", "frame ended early");
                m.allow_late = 0;
            }
            if (rt.frame_overrun_cnt != m.cnt) bad("consecutive", "%u consecutive overruns counted, expected %u (before %u, over by %g tics)", rt.frame_overrun_cnt, m.cnt, cnt0, over);
            if (rt.total_overrun != m.total) bad("total", "%u overruns counted, expected %u", rt.total_overrun, m.total);
            (void)real_over;
            if (off) m.active = false;
        }
        if (rt.active != m.active) bad("active", "real-time is %s, expected %s", rt.active ? "on" : "off", m.active ? "on" : "off");
        late_frame = 0;
        if (thrown) throw e;
    }
    double late_frame = 0; int fshut_seen = 0;                             // a frame that was shortened while the timer ran
    void cmd(const Cmd &c) {
        Trick::Executive *ex = W->ex; ll wi = V.now;
        switch (c.k) {
        case C_EN: rt.enable(); m.en = true; m.dis = false; break;
        case C_DIS: rt.disable(); m.dis = true; m.en = false; break;
        case C_EN_DIS: cmd(C_EN); cmd(C_DIS); break;
        case C_DIS_EN: cmd(C_DIS); cmd(C_EN); break;
        case C_RATIO: { rt.set_rt_clock_ratio(c.x); ll wo = V.now; double w = (wi + wo) / 2.0, cc = m.c(w), lim = m.u + (wo - wi) / 2.0; double u = lim * m.ratio / c.x; m.w0 = w; m.c0 = cc; m.ratio = c.x; m.u = std::max(u, lim) + m.us(1) + 1; break; }
        case C_FRAME: { double old = ex->get_software_frame(); ex->set_software_frame(c.x); if (c.x < old) late_frame = m.us(old * m.tic); break; }
        case C_FFRAME: ex->set_freeze_frame(c.x); m.ffnew = round(c.x * m.tic); break;
        case C_MAXCNT: rt.rt_max_overrun_cnt = m.maxcnt = (unsigned)c.x; break;
        case C_MAXTIME: rt.rt_max_overrun_time = m.maxtime = c.x; break;
        case C_OFREEZE: rt.rt_overrun_freeze = m.ofreeze = c.x != 0; break;
        case C_RUN: ex->run(); break;
        case C_FREEZE: ex->freeze(); break;
        case C_FREEZE_AT: ex->freeze(ex->get_sim_time() + c.x); break;
        case C_RESTART: { ll t = ex->get_time_tics(); rt.restart(t); ll wo = V.now; if (m.active) started(t, wi, wo); else m.anchor(wi, wo, t); break; }
        case C_TIMER_ON: itimer.enable(); break;
        case C_TIMER_OFF: itimer.disable(); break;
        case C_STOP: ex->stop(); break;
        }
    }
    void cmds(std::map<int, vector<Cmd>> &mm, int n) { auto i = mm.find(n); if (i != mm.end()) for (auto &c : i->second) cmd(c); }
};
static string describe(Scn &s) {
    string o; char b[128]; snprintf(b, 128, "frame=%g tic=%g T=%g t0=%lld ", s.cfg.frame, s.cfg.tic, s.cfg.T, s.cfg.set_t0 ? s.cfg.t0 : 0LL); o = b;
    auto vec = [&](const char *n, vector<double> &v) { if (v.empty()) return; o += n; for (double d : v) { snprintf(b, 128, " %g", d); o += b; } o += "; "; };
    vec("durations", s.dur); vec("mid", s.mid); vec("freeze durations", s.fdur);
    auto cm = [&](const char *n, std::map<int, vector<Cmd>> &m) { for (auto &p : m) for (auto &c : p.second) if (c.k) { snprintf(b, 128, "%s %d: %s(%g); ", n, p.first, CN[c.k], c.x); o += b; } };
    for (auto &c : s.input) { snprintf(b, 128, "input %s(%g); ", CN[c.k], c.x); o += b; }
    cm("job", s.at); cm("mid job", s.midat); cm("freeze job", s.fat);
    if (!s.delays.empty()) { o += "signal delays"; for (ll d : s.delays) { snprintf(b, 128, " %lld", d); o += b; } }
    if (s.eintr) o += " EINTR"; if (s.align) o += " align"; if (s.nap) o += " nap";
    return o;
}
static void run_scn(Scn &s) {
    V.reset(s.q); V.delays = &s.delays; if (s.align) V.now += 123457;
    s.cfg.jobs.clear(); double F = s.cfg.frame;
    s.cfg.jobs.push_back(JobSpec("scheduled", F));                                            // 0
    if (!s.mid.empty() || !s.midat.empty()) s.cfg.jobs.push_back(JobSpec("scheduled", F, 60000, F / 2)); else s.cfg.jobs.push_back(JobSpec("random", F, 60000, 1e20));   // 1
    s.cfg.jobs.push_back(JobSpec("freeze", 1, 1));                                            // 2
    struct Guard { RtObj *p = 0; ~Guard() { delete p; RO = 0; } } g;
    s.cfg.setup = [&](Trick::Executive *ex) {
        if (s.cfg.tic != 1000000) ex->set_time_tic_value((int)s.cfg.tic);
        g.p = new RtObj; g.p->s = &s; g.p->m.tic = s.cfg.tic; g.p->m.q = s.q; ex->add_sim_object(g.p, "trick_real_time"); ex->set_rt_nap(s.nap);
    };
    s.cfg.input = [&] { if (s.align) { RO->rt.align_sim_to_wall_clock = true; RO->rt.align_tic_mult = s.align_mult; } for (auto &c : s.input) RO->cmd(c); };
    World w;
    w.controller = [&](int job, ll, int n) -> vector<Act> {
        if (job == 0) { V.spend((ll)(1e6 * F * (n < (int)s.dur.size() ? s.dur[n] : 0.2))); RO->njob++; RO->cmds(s.at, n); }
        if (job == 1) { V.spend((ll)(1e6 * F * (n < (int)s.mid.size() ? s.mid[n] : 0))); RO->cmds(s.midat, n); }
        if (job == 2) { RO->nf++; V.spend((ll)(1e6 * s.cfg.freeze_frame * (n < (int)s.fdur.size() ? s.fdur[n] : 0.2))); RO->cmds(s.fat, n); if (n > 12) RO->cmd(C_RUN); }
        return vector<Act>();
    };
    w.build(s.cfg);
    int r = w.run();
    RtObj &o = *g.p;
    uint64_t h = mc::hv(V.now); h = mc::mix(h, o.m.total * 64 + o.m.cnt); h = mc::mix(h, o.waits * 1000 + o.nf); mc::state(h); mc::outcome(h);
    mc::count(0, o.waits); mc::count(1, o.overs);
    mc::trace("%s", describe(s).c_str());
    if (!o.err.empty()) { size_t p = o.err.find('|'); mc::fail(o.err.substr(0, p).c_str(), "%s ; %s", o.err.substr(p + 1).c_str(), describe(s).c_str()); }
    if (w.overflow) mc::fail("overflow", "too many calls ; %s", describe(s).c_str());
    if (o.m.term && r != -1 ) mc::fail("return", "ended by an overrun returning %d ; %s", r, describe(s).c_str());
    if (!o.m.term && !o.m.fshut && r != 0) mc::fail("return", "returned %d (%s) ; %s", r, w.ex->except_message.c_str(), describe(s).c_str());
}
static double pick(const char *n, std::initializer_list<double> l) { return *(l.begin() + mc::choose((int)l.size(), n)); }
static void base(Scn &s) {
    s.cfg.frame = .1; s.cfg.freeze_frame = .1; s.cfg.tic = mc::flip("tic") ? 1000 : 1000000;
}
int main(int argc, char **argv) {
    static Globals g; 
    mc::Options o; o.split = 3; o.timeout_s = 20;
    return mc::run(argc, argv, o, [] {
        const bool th = mc::thorough();
        Scn s;
        switch (mc::choose(6, "part")) {
        case 0: {       // durations, signals, limits
            base(s); s.input.push_back(C_EN); bool tm = mc::flip("timer"); if (tm) s.input.push_back(C_TIMER_ON);
            int n = th ? 5 : 4; if (mc::flip("second")) { n = 2; s.cfg.frame = s.cfg.freeze_frame = pick("frame", {1, 1.001, 2.5}); s.q = 500; s.cfg.freeze_frame = 1; } for (int i = 0; i < n; i++) s.dur.push_back(pick("dur", {.3, .95, 1.3, 3.2}));
            if (tm) for (int i = 0; i < (th ? 4 : 2); i++) s.delays.push_back((ll)pick("delay", {0, 15000})); 
            if (tm) s.eintr = mc::flip("eintr");
            int lim = mc::choose(th ? 6 : 5, "limit");
            if (lim == 1) s.input.push_back(Cmd(C_MAXCNT, 2)); if (lim == 2) s.input.push_back(Cmd(C_MAXTIME, .15)); if (lim == 3) s.input.push_back(Cmd(C_MAXCNT, 3)), s.input.push_back(Cmd(C_MAXTIME, .25)); if (lim == 5) s.input.push_back(Cmd(C_MAXCNT, 1));
            if (lim && mc::flip("freeze")) { s.input.push_back(Cmd(C_OFREEZE, 1)); s.fat[1] = {C_RUN}; }
            s.cfg.T = n * s.cfg.frame + 2.5 * s.cfg.frame; break; }
        case 1: {       // commands in successive frames
            base(s); int st = mc::choose(3, "start"); if (st != 1) s.input.push_back(C_EN); if (st == 2) s.input.push_back(Cmd(C_TIMER_ON));
            int n = th ? 4 : 3; static const Cmd L[] = {C_NONE, C_EN, C_DIS, C_EN_DIS, C_DIS_EN, Cmd(C_RATIO, .5), Cmd(C_RATIO, 2), Cmd(C_FRAME, .05), Cmd(C_FRAME, .2), C_RESTART, C_TIMER_ON, C_TIMER_OFF};
            for (int i = 0; i < n; i++) { s.dur.push_back(pick("dur", {.3, 1.3})); int k = mc::choose(12, "cmd"); if (L[k].k) s.at[i] = {L[k]}; }
            s.cfg.T = n * .1 + .35; break; }
        case 2: {       // limits changed while running
            base(s); s.input.push_back(C_EN); if (mc::flip("early")) s.input.push_back(Cmd(C_MAXCNT, 2));
            int n = 4; static const Cmd L[] = {C_NONE, Cmd(C_MAXCNT, 1), Cmd(C_MAXCNT, 2), Cmd(C_MAXCNT, 100), Cmd(C_MAXTIME, .05), Cmd(C_MAXTIME, .2), Cmd(C_MAXTIME, 1e37), Cmd(C_OFREEZE, 1), C_DIS, C_EN};
            for (int i = 0; i < n; i++) { s.dur.push_back(pick("dur", {.3, 1.3, 2.4})); if (i < (th ? 4 : 2)) { int k = mc::choose(10, "cmd"); if (L[k].k) s.at[i] = {L[k]}; } }
            s.fat[1] = {C_RUN}; s.cfg.T = n * .1 + .25; break; }
        case 3: {       // freezes
            base(s); int st = mc::choose(3, "start"); if (st != 1) s.input.push_back(C_EN); if (st == 2) s.input.push_back(C_TIMER_ON);
            s.cfg.freeze_frame = pick("ff", {.1, .06, .25});
            int how = mc::choose(3, "how"); int at = mc::choose(2, "at");
            if (how == 0) s.at[at] = {C_FREEZE}; else s.at[at] = {Cmd(C_FREEZE_AT, how == 1 ? .05 : .02)};
            for (int i = 0; i < 4; i++) s.dur.push_back(i == 0 || i == at + 1 ? pick("dur", {.2, 1.4}) : .2);
            static const Cmd L[] = {C_NONE, C_EN, C_DIS, C_EN_DIS, C_DIS_EN, Cmd(C_RATIO, .5), Cmd(C_RATIO, 2), Cmd(C_FFRAME, .05), Cmd(C_FFRAME, .15), C_TIMER_ON, C_TIMER_OFF, C_FREEZE};
            int nf = mc::choose(th ? 4 : 3, "frozen"); 
            for (int i = 0; i <= nf; i++) { if (i < 2 || th) { s.fdur.push_back(pick("fdur", {.2, 1.5})); int k = i < 2 ? mc::choose(12, "cmd") : 0; if (L[k].k) s.fat[i] = {L[k]}; } if (i == nf) s.fat[i].push_back(C_RUN); }
            if (st == 2 && mc::flip("delay")) s.delays = {0, 15000, 15000, 0, 15000};
            s.cfg.T = .55; break; }
        case 4: {       // starts
            base(s); s.cfg.tic = pick("tic", {1000000, 1000}); bool tm = mc::flip("timer"); if (tm) s.input.push_back(C_TIMER_ON);
            s.cfg.set_t0 = true; s.cfg.t0 = (ll)(s.cfg.tic * pick("t0", {0, -.1, -.25, .3})); 
            s.align = mc::flip("align"); if (s.align) { s.align_mult = pick("mult", {1, .5, 60, 3600}); s.q = s.align_mult > 2 ? 1000 : 100; }
            if (mc::flip("ratio")) s.input.push_back(Cmd(C_RATIO, 2));
            s.nap = s.q == 100 ? mc::flip("nap") : 0;
            int when = mc::choose(4, "when"); if (when == 0) s.input.push_back(C_EN); else if (when < 3) s.at[when - 1] = {C_EN}; 
            for (int i = 0; i < 3; i++) s.dur.push_back(pick("dur", {.2, 1.3}));
            s.cfg.T = (double)s.cfg.t0 / s.cfg.tic + .65; break; }
        case 5: {       // commands and freezes in the middle of frames
            base(s); s.input.push_back(C_EN); if (mc::flip("timer")) s.input.push_back(C_TIMER_ON);
            static const Cmd L[] = {C_NONE, C_EN, C_DIS, Cmd(C_RATIO, .5), Cmd(C_RATIO, 2), C_FREEZE, Cmd(C_FREEZE_AT, .02), C_RESTART, Cmd(C_FRAME, .2), Cmd(C_MAXCNT, 1)};
            for (int i = 0; i < 3; i++) { s.dur.push_back(pick("dur", {.2, .8})); s.mid.push_back(i < 2 ? pick("mid", {0, .5}) : 0); if (i < (th ? 3 : 2)) { int k = mc::choose(10, "cmd"); if (L[k].k) s.midat[i] = {L[k]}; } }
            s.fat[mc::choose(2, "run")] = {C_RUN}; s.fat[4] = {C_RUN}; s.fat[6] = {C_RUN};
            s.cfg.T = .55; break; }
        }
        run_scn(s);
    });
}
