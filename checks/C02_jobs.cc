#define MC_MAIN
#include "exec_world.hh"
using namespace ew;
static const double INFT = 1e37;
static void body() {
    Config c; c.tic = 10; c.T = .6; c.frame = mc::choose(2, "frame") ? .3 : .2;
    int kind = mc::choose(4, "object");
    c.jobs.push_back(JobSpec("sensor", .1, 1, 0, INFT, "", 0));            // 0 early controller
    c.jobs.push_back(JobSpec("logging", .1, 1, 0, INFT, "", 0));           // 1 late controller
    c.jobs.push_back(JobSpec("top_of_frame", 1, 1, 0, INFT, "", 0));       // 2
    c.jobs.push_back(JobSpec("end_of_frame", 1, 1, 0, INFT, "", 0));       // 3
    c.jobs.push_back(JobSpec("scheduled", .2, 1, 0, INFT, "TG", 1));       // 4 A
    c.jobs.push_back(JobSpec("scheduled", .3, 1, .1, .4, "", 1));          // 5 B, stops
    c.jobs.push_back(JobSpec("random", .2, 1, 0, INFT, "TG", 1));          // 6 C, before the controllers
    c.jobs.push_back(JobSpec("integ_loop", .2, 1, 0, INFT, "", 1));        // 7 D
    if (kind == 1) c.jobs.push_back(JobSpec("sensor", .1, 1, 0, INFT, "", 1));        // 8 right after the early controller
    else if (kind == 2) c.jobs.push_back(JobSpec("sensor", .2, 0, .2, INFT, "", 1));  // 8 right before it
    else c.jobs.push_back(JobSpec("data_record", .3, 1, 0, INFT, "", 1));
    c.jobs.push_back(JobSpec("end_of_frame", 1, 2, 0, INFT, "", 1));       // 9
    c.jobs.push_back(JobSpec("scheduled", .1, 1, 0, INFT, "", 2));         // 10 added late
    c.jobs.push_back(JobSpec("top_of_frame", .1, 1, 0, INFT, "", 2));      // 11 added late
    c.jobs.push_back(JobSpec("scheduled", .2, 1, .1, INFT, "", 3));        // 12 stays
    if (kind == 3) c.late = {}; else c.late = {2};
    c.ip_times = {0, 1, 3};
    int budget = mc::thorough() ? 3 : 2; bool added = kind == 3, removed1 = false, removed2 = false;
    auto ctl = [&](int job, ll t, int n) {
        std::vector<Act> r; if (budget == 0) return r;
        if (job > 3 && job != J_IP) return r;
        std::vector<Act> m;
        bool first = job == J_IP || job == 2 || job == 3;
        m.push_back(Act(A_CYCLE, 4, .1)); m.push_back(Act(A_CYCLE, 4, .3));
        m.push_back(Act(A_CYCLE, 6, .1)); m.push_back(Act(A_CYCLE, 5, .2)); m.push_back(Act(A_CYCLE, 7, .1));
        m.push_back(Act(A_OFF, 4)); m.push_back(Act(A_ON, 4)); m.push_back(Act(A_OFF, 7)); 
        m.push_back(Act(A_TAG_OFF, 4)); m.push_back(Act(A_TAG_ON, 4)); m.push_back(Act(A_TAG_CYCLE, 4, .5));
        m.push_back(Act(A_OBJ_OFF, 1)); m.push_back(Act(A_OBJ_ON, 1)); m.push_back(Act(A_OBJJ_OFF, 1)); m.push_back(Act(A_OBJJ_ON, 1));
        if (kind == 0) m.push_back(Act(A_CYCLE, 8, 0));
        if (!removed1) m.push_back(Act(A_REMOVE, 1));
        if (!added && first) m.push_back(Act(A_ADD, 2));
        if (added && !removed2) m.push_back(Act(A_REMOVE, 2));
        if (job != 3) m.push_back(Act(A_FRAME, 0, .1)), m.push_back(Act(A_FRAME, 0, .4));
        int k = mc::choose(1 + (int)m.size(), "act");
        if (!k) return r;
        Act a = m[k - 1]; budget--; r.push_back(a);
        if (a.kind == A_REMOVE) (a.a == 1 ? removed1 : removed2) = true;
        if (a.kind == A_ADD) added = true;
        return r;
    };
    run_and_compare(c, ctl, "job-control");
}
int main(int argc, char **argv) {
    Globals g;
    mc::Options o; o.split = 5; o.timeout_s = 20;
    return mc::run(argc, argv, o, body);
}
