#define MC_MAIN
#include "exec_world.hh"
using namespace ew;
static const double INFT = 1e37;
static void body() {
    Config c; c.tic = 10; c.T = .6; c.frame = mc::choose(2, "frame") ? .3 : .2;
    c.fob = mc::choose(2, "fob"); c.freeze_frame = mc::choose(2, "ff") ? .2 : .1;
    int start = mc::choose(3, "start");
    c.jobs.push_back(JobSpec("sensor", .2, 1));                // 0 controller
    c.jobs.push_back(JobSpec("logging", .3, 1));               // 1 controller
    c.jobs.push_back(JobSpec("top_of_frame", 1, 1));           // 2 controller
    c.jobs.push_back(JobSpec("end_of_frame", 1, 1));           // 3 controller, before the freeze bookkeeping
    c.jobs.push_back(JobSpec("end_of_frame", 1, 65535));       // 4 controller, after it
    c.jobs.push_back(JobSpec("freeze_init", 1, 1));            // 5
    c.jobs.push_back(JobSpec("freeze", 1, 1));                 // 6 controller
    c.jobs.push_back(JobSpec("freeze_scheduled", .2, 1));      // 7 controller
    c.jobs.push_back(JobSpec("freeze_scheduled", .1, 2));      // 8
    c.jobs.push_back(JobSpec("unfreeze", 1, 1));               // 9 controller
    c.jobs.push_back(JobSpec("integ_loop", .2, 1));            // 10 controller (after time was advanced)
    c.jobs.push_back(JobSpec("scheduled", .1, 1, .1));         // 11
    c.ip_times = {1, 4};
    if (start == 1) c.pre.push_back(Act(A_FREEZE));
    if (start == 2) { c.pre.push_back(Act(A_FREEZE_AT, 0, .2)); c.pre.push_back(Act(A_FREEZE_AT, 0, .5)); }
    int budget = mc::thorough() ? 3 : 2; int frozen = 0;
    auto ctl = [&](int job, ll t, int n) {
        std::vector<Act> r;
        bool fr = job == 6 || job == 7;
        if (job == 5 || job == 8 || job == 11) return r;
        if (job == 9) frozen = 0;
        if (fr && job == 6) frozen++;
        std::vector<Act> m;
        if (budget > 0) {
            m.push_back(Act(A_FREEZE)); m.push_back(Act(A_FREEZE_AT, 0, (t + 1) / 10.0)); m.push_back(Act(A_FREEZE_AT, 0, (t + 2) / 10.0)); 
            if (!fr) m.push_back(Act(A_FREEZE_AT, 0, t / 10.0));
            m.push_back(Act(A_STOP)); m.push_back(Act(A_STOP_AT, 0, (t + 1) / 10.0)); m.push_back(Act(A_STOP_AT, 0, t / 10.0)); if (job != 10) m.push_back(Act(A_STOP_AT, 0, (t - 1) / 10.0));
            m.push_back(Act(A_RUN));
            if (fr) m.push_back(Act(A_CYCLE, 8, .3));
        }
        int k = m.empty() ? 0 : mc::choose(1 + (int)m.size(), "act");
        if (k) { budget--; r.push_back(m[k - 1]); }
        // a frozen simulation is released after three freeze frames at the latest
        if (job == 6 && frozen >= 2) { r.push_back(Act(A_RUN)); }
        return r;
    };
    run_and_compare(c, ctl, "modes");
}
int main(int argc, char **argv) {
    Globals g;
    mc::Options o; o.split = 5; o.timeout_s = 20;
    return mc::run(argc, argv, o, body);
}
