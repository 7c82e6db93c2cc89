// A simulation made of the real Trick::Executive plus recording jobs, and an independent
// machine that predicts every call from the declarations and the decisions taken.
#ifndef EXEC_WORLD_HH
#define EXEC_WORLD_HH
#include "mc.hh"
#include <algorithm>
#include <cmath>
#include <unistd.h>
#include <linux/close_range.h>
#include <sys/stat.h>
#include "trick/Executive.hh"
#include "trick/SimObject.hh"
#include "trick/MemoryManager.hh"
#include "trick/MessagePublisher.hh"
#include "trick/CommandLineArguments.hh"
#include "trick/GetTimeOfDayClock.hh"
#include "trick/ExecutiveException.hh"
#include "trick/exec_proto.h"
#include "trick/exec_proto.hh"

namespace ew {
typedef long long ll;
const ll MAXT = 9223372036854775807LL;
static const char *CLASSES[] = {"automatic", "random", "environment", "sensor", "sensor_emitter", "sensor_reflector", "sensor_receiver", "scheduled",
    "effector", "effector_emitter", "effector_receiver", "automatic_last", "logging", "data_record", "system_checkpoint", "system_advance_sim_time",
    "system_moding", "integ_loop"};
enum { ADV = 15, NCLS = 18 };
inline int cls_index(const std::string &c) { for (int i = 0; i < NCLS; i++) if (c == CLASSES[i]) return i; return -1; }

struct JobSpec {
    std::string cls; double cycle; int phase; double start, stop; std::string tag; int obj;
    JobSpec(const char *c, double cy = 1, int ph = 60000, double st = 0, double sp = 1e37, const char *tg = "", int o = 0) : cls(c), cycle(cy), phase(ph), start(st), stop(sp), tag(tg), obj(o) {}
};
struct Act { int kind; int a; double x; Act(int k = 0, int a_ = 0, double x_ = 0) : kind(k), a(a_), x(x_) {} };
enum { A_NONE, A_OFF, A_ON, A_CYCLE, A_OBJ_OFF, A_OBJ_ON, A_REMOVE, A_ADD, A_FREEZE, A_FREEZE_AT, A_STOP, A_STOP_AT, A_RUN, A_TAG_OFF, A_TAG_ON, A_TAG_CYCLE, A_OBJJ_OFF, A_OBJJ_ON, A_FRAME, A_IPNEXT };

struct Config {
    double tic = 1000000, frame = 1, freeze_frame = 1, T = 5; ll t0 = 0; bool set_t0 = false;
    bool fob = false;                              // freeze on frame boundary
    std::vector<JobSpec> jobs;                     // user jobs; job number = index
    std::vector<int> late;                         // objects not added at the start
    std::vector<ll> ip_times;                      // calls an input_processor_run job asks for
    bool freeze_at_start = false;
    std::vector<Act> pre;                          // actions before init (input file)
    std::function<void()> input;                   // what the input file does
    std::function<void(Trick::Executive *)> setup; // after the objects were added, before init
};
// what is recorded: (job, time), plus decisions taken at calls
struct Ev { int job; ll t; bool operator==(const Ev &o) const { return job == o.job && t == o.t; } };
enum { J_IP = 900, J_END = 999 };

struct World;
extern World *W;
struct Obj : public Trick::SimObject {
    int base; Obj() : base(0) {}
    virtual int call_function(Trick::JobData *j);
    virtual double call_function_double(Trick::JobData *) { return 0; }
};
struct World {
    Config c; Trick::Executive *ex; Obj sys; std::vector<Obj *> objs; std::vector<Trick::JobData *> jd;
    std::vector<Ev> trace; std::vector<std::vector<Act>> acts;      // acts[k] = actions taken during trace[k]
    std::vector<int> removed;
    std::function<std::vector<Act>(int job, ll t, int n)> controller;
    std::vector<int> ncall;
    size_t ip_i; bool overflow;
    void apply(const Act &a) {
        char nm[64];
        switch (a.kind) {
        case A_OFF: case A_ON: snprintf(nm, 64, "o%d.j%d", c.jobs[a.a].obj, a.a); ex->set_job_onoff(nm, 1, a.kind == A_ON); break;
        case A_CYCLE: snprintf(nm, 64, "o%d.j%d", c.jobs[a.a].obj, a.a); ex->set_job_cycle(nm, 1, a.x); break;
        case A_TAG_OFF: case A_TAG_ON: ex->set_job_onoff(c.jobs[a.a].tag, 1, a.kind == A_TAG_ON); break;
        case A_TAG_CYCLE: ex->set_job_cycle(c.jobs[a.a].tag, 1, a.x); break;
        case A_OBJ_OFF: case A_OBJ_ON: snprintf(nm, 64, "o%d", a.a); ex->set_sim_object_onoff(nm, a.kind == A_OBJ_ON); break;
        case A_OBJJ_OFF: case A_OBJJ_ON: snprintf(nm, 64, "o%d", a.a); ex->set_sim_object_jobs_onoff(nm, a.kind == A_OBJJ_ON); break;
        case A_REMOVE: ex->delete_sim_object(objs[a.a]); break;
        case A_ADD: snprintf(nm, 64, "o%d", a.a); ex->add_sim_object(objs[a.a], nm); break;
        case A_FREEZE: ex->freeze(); break;
        case A_FREEZE_AT: ex->freeze(a.x); break;
        case A_STOP: ex->stop(); break;
        case A_STOP_AT: ex->stop(a.x); break;
        case A_RUN: ex->run(); break;
        case A_FRAME: ex->set_software_frame(a.x); break;
        }
    }
    int user_job(int j) {
        if (trace.size() > 4000) { overflow = true; throw Trick::ExecutiveException(7, "h", 0, "too many calls"); }
        // the time a job sees must be the time of the executive
        ll t = ex->get_time_tics();
        if (ex->get_sim_time() != (double)t / ex->get_time_tic_value()) throw Trick::ExecutiveException(8, "h", 0, "time");
        trace.push_back(Ev{j, t}); acts.push_back(std::vector<Act>());
        mc::step();
        size_t k = trace.size() - 1;
        if (controller) { int n = j < (int)ncall.size() ? ncall[j]++ : 0; acts[k] = controller(j, t, n); for (auto &a : acts[k]) apply(a); }
        return 0;
    }
    void build(const Config &cfg) {
        c = cfg; W = this; overflow = false; ip_i = 0;
        ex = new Trick::Executive;
        for (int i = 0; i < NCLS; i++) ex->add_scheduled_job_class(CLASSES[i]);
        sys.base = 1000;
        int i = 0;
        sys.add_job(0, i++, "default_data", NULL, 1, "sched.get_freeze_job", "TRK", 60000);                       // 0
        sys.add_job(0, i++, "initialization", NULL, 1, "sched.create_threads", "TRK", 65535);                     // 1
        sys.add_job(0, i++, "initialization", NULL, 1, "sched.async_init", "TRK", 65535);                         // 2
        sys.add_job(0, i++, "system_moding", NULL, 1, "sched.sched_freeze_to_exec_command", "TRK", 60000);        // 3
        sys.add_job(0, i++, "end_of_frame", NULL, 1, "sched.sched_freeze_to_exec_command", "TRK", 60000);         // 4
        sys.add_job(0, i++, "end_of_frame", NULL, 1, "sched.async_freeze_to_exec_command", "TRK", 60000);         // 5
        sys.add_job(0, i++, "freeze_init", NULL, 1, "sched.init_freeze_scheduled", "", 60000);                    // 6
        sys.add_job(0, i++, "system_advance_sim_time", NULL, 1, "sched.advance_sim_time", "TRK", 60000);          // 7
        sys.add_job(0, i++, "input_processor_run", NULL, 1, "ip", "TRK", 60000);                                  // 8
        sys.add_job(0, i++, "input_processor", NULL, 1, "input_file", "TRK", 60000);                              // 9
        ex->add_sim_object(&sys, "sys");
        int no = 0; for (auto &j : c.jobs) no = std::max(no, j.obj + 1);
        jd.assign(c.jobs.size(), (Trick::JobData *)0); ncall.assign(c.jobs.size(), 0);
        for (int o = 0; o < no; o++) { Obj *p = new Obj; objs.push_back(p); }
        std::vector<int> cnt(no, 0);
        for (size_t k = 0; k < c.jobs.size(); k++) {
            JobSpec &s = c.jobs[k]; char nm[16]; snprintf(nm, 16, "j%d", (int)k);
            // ids are the job numbers: unique and in declaration order inside an object
            jd[k] = objs[s.obj]->add_job(0, (int)k, s.cls.c_str(), NULL, s.cycle, nm, s.tag.c_str(), s.phase, s.start, s.stop);
        }
        if (c.tic != 1000000 && !c.setup) ex->set_time_tic_value((int)c.tic);
        for (int o = 0; o < no; o++) if (std::find(c.late.begin(), c.late.end(), o) == c.late.end()) { char nm[16]; snprintf(nm, 16, "o%d", o); ex->add_sim_object(objs[o], nm); }
        for (auto j : sys.jobs) if (j->id == 8) j->next_tics = c.ip_times.empty() ? MAXT : c.ip_times[0];
        if (c.setup) c.setup(ex);
        ex->set_software_frame(c.frame); ex->set_freeze_frame(c.freeze_frame);
        if (c.set_t0) ex->set_time((double)c.t0 / ex->get_time_tic_value());
        if (c.T >= 0) ex->set_terminate_time(c.T);
        if (c.fob) ex->set_freeze_on_frame_boundary(true);
    }
    int run() {
        if (ex->init() != 0) return -1;
        int r = ex->loop();
        return r;
    }
    ~World() {
        for (auto p : objs) delete p;
        delete ex; W = 0;
        extern int fd_base; close_range(fd_base, ~0U, 0);     // thread triggers keep their descriptors
    }
};
#ifdef MC_MAIN
World *W;
}
extern "C" __attribute__((weak)) int ip_parse(const char *) { return 0; }
// the executive's only contact with the variable server and the environment: closing the one, printing the other
namespace Trick { class VariableServer { public: void shutdownConnections(); int dummy; }; __attribute__((weak)) void VariableServer::shutdownConnections() {} }
static Trick::VariableServer ew_vs; __attribute__((weak)) Trick::VariableServer *the_vs = &ew_vs;
extern "C" __attribute__((weak)) int env_print_vars(FILE *) { return 0; }
namespace ew {
int Obj::call_function(Trick::JobData *j) {
    if (base != 1000) return W->user_job(j->id);
    Trick::Executive *ex = W->ex;
    switch (j->id) {
    case 0: return ex->get_freeze_job("sys.sched");
    case 1: return ex->create_threads();
    case 2: return ex->async_freeze_to_exec_command();
    case 3: return ex->sched_freeze_to_exec_command(false);
    case 4: return ex->sched_freeze_to_exec_command(true);
    case 5: return ex->async_freeze_to_exec_command();
    case 6: return ex->init_freeze_scheduled();
    case 7: return ex->advance_sim_time();
    case 9: for (auto &a : W->c.pre) W->apply(a); if (W->c.input) W->c.input(); return 0;
    case 8: {
        ll t = ex->get_time_tics();
        W->user_job(J_IP);
        while (W->ip_i < W->c.ip_times.size() && W->c.ip_times[W->ip_i] <= t) W->ip_i++;
        j->next_tics = W->ip_i < W->c.ip_times.size() ? W->c.ip_times[W->ip_i] : MAXT;
        return 0; }
    }
    return 0;
}
int fd_base;
struct Globals {
    Trick::MemoryManager mm; Trick::MessagePublisher mp; Trick::CommandLineArguments cla; Trick::GetTimeOfDayClock clk;
    Globals() {
        clk.set_global_clock(); mp.init();
        static char a0[] = "./S_main", a1[] = "sie"; static char *av[] = {a0, a1, 0};
        cla.process_sim_args(2, av);
        stderr = fopen("/dev/null", "w"); static char b[4096]; setvbuf(stderr, b, _IOFBF, sizeof b);
        fd_base = dup(0); close(fd_base);
    }
};
#endif

// ---------------------------------------------------------------------------------------
// The specification: what has to be called when, from the declarations and the decisions.
struct Spec {
    Config c; ll tic, F, FF, T; ll now, boundary;
    struct J { ll next, cycle, stop; bool on, in; int cls; int kind; bool saved_on; bool has_saved; };
    enum { SCHED, TOP, EOFR, FINIT, FSCHED, FREEZE, UNFREEZE, OTHER };
    std::vector<J> j; std::vector<bool> objoff; std::vector<int> order;    // job numbers in call order
    std::multiset<ll> fz; bool async; int cmd;         // 0 none 1 freeze 2 run 3 exit
    std::vector<Ev> out; const std::vector<std::vector<Act>> *acts; std::string err;
    ll ipnext; size_t ip_i; bool ended, stopped_limit; size_t limit; ll started; bool rearm_lost;
    struct Done {};
    struct Limit {};
    ll tt(double s) { return (ll)llround(s * tic); }
    static int kind_of(const std::string &s) {
        if (cls_index(s) >= 0) return SCHED;
        if (s == "top_of_frame") return TOP; if (s == "end_of_frame") return EOFR; if (s == "freeze_init") return FINIT;
        if (s == "freeze_scheduled") return FSCHED; if (s == "freeze") return FREEZE; if (s == "unfreeze") return UNFREEZE; return OTHER;
    }
    void add_job(int k, ll t) {
        JobSpec &s = c.jobs[k]; J &q = j[k];
        q.in = true; q.on = true; q.cls = cls_index(s.cls); q.kind = kind_of(s.cls); q.cycle = tt(s.cycle);
        q.stop = s.stop > 1e12 ? MAXT : tt(s.stop); q.has_saved = false;
        ll st = s.start > 1e12 ? MAXT : tt(s.start);
        if (s.stop < s.start || st == MAXT) { q.on = false; q.next = MAXT; }
        else q.next = t + st + (s.cls == "integ_loop" ? q.cycle : 0);
    }
    void init(const Config &cfg, const std::vector<std::vector<Act>> *a) {
        c = cfg; acts = a; tic = (ll)c.tic; F = tt(c.frame); FF = tt(c.freeze_frame); T = c.T >= 0 ? tt(c.T) : MAXT - 1;
        now = started = c.set_t0 ? c.t0 : 0; boundary = now + F; async = false; cmd = 0; ip_i = 0; ended = false; limit = MAXT; stopped_limit = false;
        ipnext = c.ip_times.empty() ? MAXT : c.ip_times[0];
        j.assign(c.jobs.size(), J()); int no = 0; for (auto &q : c.jobs) no = std::max(no, q.obj + 1); objoff.assign(no, false);
        for (size_t k = 0; k < c.jobs.size(); k++) { j[k].in = false; j[k].on = true; j[k].cls = cls_index(c.jobs[k].cls); j[k].kind = kind_of(c.jobs[k].cls); order.push_back(k);
            if (std::find(c.late.begin(), c.late.end(), c.jobs[k].obj) == c.late.end()) add_job(k, now); }
        for (int o = 0; o < no; o++) rank.push_back(o);
        sort_jobs();
    }
    std::vector<int> rank;
    void sort_jobs() {
        std::stable_sort(order.begin(), order.end(), [&](int x, int y) {
            JobSpec &p = c.jobs[x], &q = c.jobs[y];
            if (j[x].cls != j[y].cls) return j[x].cls < j[y].cls;
            if (p.phase != q.phase) return p.phase < q.phase;
            if (p.obj != q.obj) return rank[p.obj] < rank[q.obj];
            return x < y; });
    }
    std::vector<ll> fn; ll ft; bool frozen = false;
    void set_cycle(int k, double x) { J &q = j[k]; if (!q.in || tt(x) < 1) return; q.cycle = tt(x);
        if (q.kind == FSCHED) { if (frozen) fn[k] = fn[k] > ft ? ft - ft % q.cycle + q.cycle : ft; return; } 
        if (q.next > now) { ll m = ((now % q.cycle) + q.cycle) % q.cycle; ll n = now - m + q.cycle; q.next = n > q.stop ? MAXT : n; } else q.next = now > q.stop ? MAXT : now; }
    void apply(const Act &a) {
        switch (a.kind) {
        case A_OFF: case A_ON: if (j[a.a].in) j[a.a].on = a.kind == A_ON; break;
        case A_CYCLE: set_cycle(a.a, a.x); break;
        case A_TAG_OFF: case A_TAG_ON: for (size_t k = 0; k < j.size(); k++) if (j[k].in && c.jobs[k].tag == c.jobs[a.a].tag) j[k].on = a.kind == A_TAG_ON; break;
        case A_TAG_CYCLE: for (size_t k = 0; k < j.size(); k++) if (j[k].in && c.jobs[k].tag == c.jobs[a.a].tag) set_cycle(k, a.x); break;
        case A_OBJ_OFF: objoff[a.a] = true;
            for (size_t k = 0; k < j.size(); k++) if (j[k].in && c.jobs[k].obj == a.a) { if (!j[k].has_saved) j[k].saved_on = j[k].on; j[k].has_saved = true; j[k].on = false; } break;
        case A_OBJ_ON: 
            for (size_t k = 0; k < j.size(); k++) if (j[k].in && c.jobs[k].obj == a.a) { j[k].on = j[k].has_saved ? j[k].saved_on : true; j[k].has_saved = false; }
            objoff[a.a] = false; break;
        case A_OBJJ_OFF: case A_OBJJ_ON: for (size_t k = 0; k < j.size(); k++) if (j[k].in && c.jobs[k].obj == a.a) j[k].on = a.kind == A_OBJJ_ON; break;
        case A_REMOVE: for (size_t k = 0; k < j.size(); k++) if (c.jobs[k].obj == a.a) j[k].in = false; break;
        case A_ADD: for (size_t k = 0; k < j.size(); k++) if (c.jobs[k].obj == a.a) add_job(k, now); rank[a.a] = 100; sort_jobs(); break;
        case A_FREEZE: async = true; break;
        case A_FREEZE_AT: { ll t = tt(a.x); if (t > now) fz.insert(t); break; }
        case A_STOP: cmd = 3; break;
        case A_STOP_AT: T = tt(a.x); break;
        case A_RUN: cmd = 2; break;
        case A_FRAME: F = tt(a.x); boundary = started + F; while (boundary <= now) boundary += F; break;
        }
    }
    void emit(int job) {
        if (out.size() >= limit) throw Limit();
        size_t k = out.size(); out.push_back(Ev{job, now});
        if (k < acts->size()) for (auto &a : (*acts)[k]) apply(a);
    }
    void call_all(int kind) { for (size_t i = 0; i < order.size(); i++) { int k = order[i]; if (j[k].kind == kind && j[k].in && j[k].on) emit(k); } }
    void call_eofr(int lo, int hi) { for (size_t i = 0; i < order.size(); i++) { int k = order[i]; if (j[k].kind == EOFR && c.jobs[k].phase >= lo && c.jobs[k].phase <= hi && j[k].in && j[k].on) emit(k); } }
    void due(int lo, int hi) {            // scheduled classes lo..hi at the current time
        for (size_t i = 0; i < order.size(); i++) { int k = order[i]; J &q = j[k];
            if (q.kind != SCHED || !q.in || q.cls < lo || q.cls > hi || q.next != now) continue;
            ll n = q.next + q.cycle; q.next = n > q.stop ? MAXT : n;
            if (q.on) emit(k); }
    }
    void freeze_phase() {
        call_all(FINIT);
        fn.assign(j.size(), 0); ll f = 0; ft = 0; frozen = true;
        ll saved = now;
        for (;;) {
            for (ll t = f; t < f + FF; t++) { ft = t;
                for (size_t i = 0; i < order.size(); i++) { int k = order[i]; if (j[k].kind == FSCHED && j[k].in && fn[k] == t) { fn[k] += j[k].cycle; if (j[k].on) emit(k); } } }
            f += FF; ft = f;
            call_all(FREEZE);
            if (cmd == 2) { cmd = 0; break; }
            if (cmd == 1) cmd = 0;
            if (cmd == 3) throw Done();
        }
        frozen = false; now = saved;
        call_all(UNFREEZE);
    }
    void moding() { while (!fz.empty() && *fz.begin() <= now) { fz.erase(fz.begin()); cmd = 1; } }
    // the call sequence, until the end of the simulation or n calls
    void predict(size_t n) {
        limit = n;
        try {
            if (async) { cmd = 1; async = false; }
            for (;;) {
                if (cmd == 1) { cmd = 0; freeze_phase(); }
                if (now == boundary - F) call_all(TOP);
                if (ipnext == now) { emit(J_IP); while (ip_i < c.ip_times.size() && c.ip_times[ip_i] <= now) ip_i++; ipnext = ip_i < c.ip_times.size() ? c.ip_times[ip_i] : MAXT; }
                due(0, ADV - 1);
                ll last = now, nx = boundary;
                for (auto &q : j) if (q.in && q.kind == SCHED && q.next > now) nx = std::min(nx, q.next);
                if (ipnext > now) nx = std::min(nx, ipnext);
                if (!fz.empty() && *fz.begin() > now) nx = std::min(nx, *fz.begin());
                if (T < nx) nx = std::max(T, now);
                bool over = T <= last;
                now = nx;
                if (!c.fob) moding();
                due(ADV + 1, NCLS);
                if (cmd == 3) throw Done();
                if (cmd == 2) cmd = 0;
                if (over) { now = last; throw Done(); }
                if (now == boundary) {
                    // the executive's own end_of_frame jobs have phase 60000
                    call_eofr(0, 59999); moding(); if (async) { cmd = 1; async = false; } call_eofr(60000, 1 << 20);
                    boundary += F;
                }
            }
        } catch (Done &) { ended = true; } catch (Limit &) { stopped_limit = true; }
    }
};
inline std::string show(const std::vector<Ev> &v, size_t from, size_t to) {
    std::string s; char b[64];
    for (size_t i = from; i < v.size() && i < to; i++) { snprintf(b, 64, " j%d@%lld", v[i].job, v[i].t); s += b; }
    if (to > v.size()) s += " <end>";
    return s;
}
inline std::string describe(const Config &c) {
    std::string s; char b[256];
    snprintf(b, 256, "tic=%g frame=%g T=%g t0=%lld fob=%d", c.tic, c.frame, c.T, c.set_t0 ? c.t0 : 0LL, c.fob); s = b;
    for (size_t k = 0; k < c.jobs.size(); k++) { auto &q = c.jobs[k]; snprintf(b, 256, " j%d(o%d %s ph%d cyc%g st%g sp%g)", (int)k, q.obj, q.cls.c_str(), q.phase, q.cycle, q.start, q.stop); s += b; }
    if (!c.ip_times.empty()) { s += " ip:"; for (ll t : c.ip_times) { snprintf(b, 256, " %lld", t); s += b; } }
    return s;
}
inline std::string describe(const std::vector<Ev> &tr, const std::vector<std::vector<Act>> &a) {
    static const char *N[] = {"none", "off", "on", "cycle", "obj_off", "obj_on", "remove", "add", "freeze", "freeze_at", "stop", "stop_at", "run", "tag_off", "tag_on", "tag_cycle", "objjobs_off", "objjobs_on", "frame", "ipnext"};
    std::string s; char b[128];
    for (size_t i = 0; i < a.size(); i++) for (auto &x : a[i]) if (x.kind) { snprintf(b, 128, " [in call %d = j%d@%lld: %s(%d,%g)]", (int)i, tr[i].job, tr[i].t, N[x.kind], x.a, x.x); s += b; }
    return s;
}
// runs the configuration on the real executive and compares every call with the specification
inline void run_and_compare(const Config &c, std::function<std::vector<Act>(int, ll, int)> ctl = nullptr, const char *sigbase = "schedule") {
    World w; w.controller = ctl; w.build(c);
    int r = w.run();
    Spec s; s.init(c, &w.acts); for (auto &a : c.pre) s.apply(a);
    s.predict(w.trace.size() + 1);
    size_t n = std::min(w.trace.size(), s.out.size()), i = 0;
    while (i < n && w.trace[i] == s.out[i]) i++;
    uint64_t h = mc::hv(w.trace.size());
    for (auto &e : w.trace) { h = mc::mix(h, e.job * 1000003ULL + e.t); mc::state(h); }
    mc::outcome(h);
    std::string extra = describe(c) + " |" + describe(w.trace, w.acts);
    mc::trace("%s", extra.c_str());
    if (r == -1) mc::fail("init", "init failed: %s / %s", w.ex->except_file.c_str(), extra.c_str());
    if (r == 8) mc::fail("job-time", "a job saw a sim time different from the time tics: %s", extra.c_str());
    if (i < w.trace.size() || i < s.out.size())
        mc::fail(sigbase, "call %d: expected%s ; executive called%s ; %s ; before:%s", (int)i, show(s.out, i, i + 3).c_str(), show(w.trace, i, i + 3).c_str(), extra.c_str(), show(w.trace, i > 6 ? i - 6 : 0, i).c_str());
    if (!w.overflow && (!s.ended || w.ex->time_tics != s.now)) mc::fail("end-time", "simulation ended at %lld, expected %lld (%s)", (ll)w.ex->time_tics, s.now, extra.c_str());
    if (!w.overflow && w.ex->get_time_tics() != s.now) mc::fail("end-sim-time", "after the end the sim time is %lld, expected %lld (%s)", (ll)w.ex->get_time_tics(), s.now, extra.c_str());
}
}
#endif
