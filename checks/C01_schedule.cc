#define MC_MAIN
#include "exec_world.hh"
using namespace ew;
static const double INFT = 1e37;
static JobSpec pick_job(int obj, bool full) {
    static const char *CF[] = {"environment", "scheduled", "logging", "integ_loop"}, *CS[] = {"scheduled", "sensor"};
    const char *cls = full ? CF[mc::choose(4, "class")] : CS[mc::choose(2, "class")];
    int ph = full ? 1 + mc::choose(2, "phase") : 1;
    double cy = 1 + mc::choose(3, "cycle");
    double st = mc::choose(full ? 3 : 2, "start");
    static const double SF[] = {INFT, 3, 4, -1}, SS[] = {INFT, 3};
    double sp = full ? SF[mc::choose(4, "stop")] : SS[mc::choose(2, "stop")];
    return JobSpec(cls, cy, ph, st, sp < 0 ? st - 1 : sp, "", obj);
}
static void frames(Config &c, bool top) { if (top) { c.jobs.push_back(JobSpec("top_of_frame", 1, 1, 0, INFT, "", 0)); c.jobs.push_back(JobSpec("end_of_frame", 1, 1, 0, INFT, "", 0)); c.jobs.push_back(JobSpec("end_of_frame", 1, 60000, 0, INFT, "", 0)); } }
static void body() {
    int mode = mc::choose(5, "mode");
    Config c;
    if (mode == 0) {                    // two jobs, full menu
        c.tic = 1; c.T = 7;
        static const double FR[] = {1, 2, 3, 5};
        c.jobs.push_back(pick_job(0, true)); c.jobs.push_back(pick_job(mc::choose(2, "obj"), true));
        c.frame = FR[mc::choose(mc::thorough() ? 4 : 2, "frame") + (mc::thorough() ? 0 : 1)];
        frames(c, true);
        run_and_compare(c);
    } else if (mode == 1) {             // three jobs, reduced menu, other end times, events, start times
        c.tic = 1;
        for (int i = 0; i < 3; i++) c.jobs.push_back(pick_job(i % 2, false));
        static const double FR[] = {1, 2, 4}; c.frame = FR[mc::choose(3, "frame")];
        c.T = mc::choose(2, "T") ? 6 : 3;
        if (mc::thorough()) { int e = mc::choose(3, "ip"); if (e == 1) c.ip_times = {1, 5}; if (e == 2) c.ip_times = {0, 2, 3}; }
        frames(c, true);
        run_and_compare(c);
    } else if (mode == 2) {             // events between jobs, time not starting at zero
        c.tic = 10; 
        static const double CY[] = {.2, .5, .7, 1};
        c.jobs.push_back(JobSpec("scheduled", CY[mc::choose(4, "c0")], 1, mc::choose(3, "s0") * .3, INFT, "", 0));
        c.jobs.push_back(JobSpec("integ_loop", CY[mc::choose(4, "c1")], 1, mc::choose(2, "s1") * .1, mc::choose(2, "stop1") ? INFT : 1.5, "", 0));
        c.frame = (1 + mc::choose(10, "frame")) * .1;
        static const ll TZ[] = {0, 3, -4, 20}; c.set_t0 = true; c.t0 = TZ[mc::choose(4, "t0")];
        c.T = (c.t0 + 10 * (1 + mc::choose(2, "T")) + 3) / 10.0;
        int e = mc::choose(4, "ip"); for (int k = 0; k < e; k++) c.ip_times.push_back(c.t0 + (k == 0 ? mc::choose(5, "e0") : 2 + 3 * k));
        frames(c, true);
        run_and_compare(c);
    } else if (mode == 3) {             // decimal periods and offsets that are whole numbers of tics
        static const double TV[] = {1000000, 1000, 100, 10000000, 128, 300};
        double v = TV[mc::choose(6, "tic")];
        int u = mc::choose(mc::thorough() ? 400 : 60, "unit") + 1;           // the period in tics (scaled below)
        static const double SC[] = {1, 10, 1000, 10000};
        double scale = SC[mc::choose(4, "scale")];
        double per = u * scale / v;          // nearest double of the decimal value
        c.tic = v; c.frame = per * 3; int st = mc::choose(3, "start"); double off = (st == 0 ? 0 : st == 1 ? 7 : 1001) * scale / v;
        c.jobs.push_back(JobSpec("scheduled", per, 1, off, mc::choose(2, "stop") ? INFT : off + 4 * u * scale / v, "", 0));
        if (!(c.jobs[0].stop > 1e30)) c.jobs[0].stop = ((st == 0 ? 0 : st == 1 ? 7 : 1001) * scale + 4 * u * scale) / v;
        c.T = ((st == 0 ? 0 : st == 1 ? 7 : 1001) * scale + 7 * u * scale) / v;
        frames(c, true);
        c.setup = [v, per](Trick::Executive *e) {
            if (v != 1000000) e->set_time_tic_value((int)v);
            if (e->check_all_job_cycle_times() != 0) mc::fail("cycle-refused", "a cycle of %.17g is said not to be a whole number of tics of 1/%g", per, v);
        };
        run_and_compare(c);
    } else {                            // the time tic changed after the jobs were declared, in any order with the other settings
        static const int TV[] = {1000000, 1000, 10, 10000000};
        int v = TV[mc::choose(4, "tic")]; c.tic = v;
        int n = mc::choose(4, "order");
        double st = mc::choose(3, "start") * .5, sp = mc::choose(2, "stop") ? INFT : 2.5, T = mc::choose(2, "T") ? 3.5 : 4;
        c.jobs.push_back(JobSpec("scheduled", .5, 1, st, sp, "", 0));
        c.jobs.push_back(JobSpec("integ_loop", 1, 1, 0, sp, "", 0));
        c.frame = 1.5; c.T = T;
        double t0 = mc::choose(2, "t0") ? 2 : 0;
        int twice = mc::choose(2, "twice");
        bool off = mc::choose(2, "offon");
        if (t0) { c.set_t0 = true; c.t0 = (ll)(t0 * v); c.T += t0; if (sp < 1e30) { c.jobs[0].stop += t0; c.jobs[1].stop += t0; } }
        double TT = c.T;
        c.setup = [=](Trick::Executive *e) {
            if (off) e->set_job_onoff("o0.j0", 1, 0);
            if (n & 1) e->set_terminate_time(TT);
            if (t0 && (n & 2)) e->set_time(t0);
            e->set_time_tic_value(v);
            if (twice) { e->set_time_tic_value(1000000); e->set_time_tic_value(v); }
            if (off) e->set_job_onoff("o0.j0", 1, 1);
        };
        if (n & 1) { c.T = -1; }
        Config d = c; 
        frames(c, true);
        // the world leaves the terminate time alone when it was set before the tic change
        World w; w.build(c); int r = w.run();
        c.T = TT; Spec s; std::vector<std::vector<Act>> none; s.init(c, &none); s.predict(w.trace.size() + 1);
        size_t i = 0; while (i < w.trace.size() && i < s.out.size() && w.trace[i] == s.out[i]) i++;
        uint64_t h = mc::hv(v); for (auto &e : w.trace) { h = mc::mix(h, e.job * 1000003ULL + e.t); mc::state(h); } mc::outcome(h);
        if (r == -1 || i < w.trace.size() || i < s.out.size()) mc::fail("tic-change", "tic %d order %d twice %d offon %d t0 %g: call %d: expected%s ; executive called%s ; %s", v, n, twice, off, t0, (int)i, show(s.out, i, i + 3).c_str(), show(w.trace, i, i + 3).c_str(), describe(c).c_str());
        if (fabs(w.ex->get_terminate_time() - TT) > 1e-9) mc::fail("terminate-time", "exec_get_terminate_time returns %g, %g was set", w.ex->get_terminate_time(), TT);
    }
}
int main(int argc, char **argv) {
    Globals g;
    mc::Options o; o.split = 5; o.timeout_s = 20;
    return mc::run(argc, argv, o, body);
}
