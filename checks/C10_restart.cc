// C10: real simulations (Executive, CheckPointRestart, MemoryManager, agents, with attributes written by the tree's own trick-ICG)
// write a checkpoint at every point of their run and load it at every point of the same or of a new process. The reference is the
// same simulation without checkpoint and restart: its calls, times and states after the point of the checkpoint.
#define MC_MAIN
#include "mc.hh"
#include "c10_types.hh"
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>
#include <iostream>
#include "trick/MemoryManager.hh"
#include "trick/MessagePublisher.hh"
#include "trick/CommandLineArguments.hh"
#include "trick/GetTimeOfDayClock.hh"
#include "trick/ExecutiveException.hh"
#include "trick/UdUnits.hh"
#include "trick/memorymanager_c_intf.h"
#include <sys/stat.h>
#include "trick/exec_proto.h"
#include "trick/exec_proto.hh"
typedef long long ll;
extern "C" int ip_parse(const char *) { return 0; }
namespace Trick { class VariableServer { public: void shutdownConnections(); int dummy; }; void VariableServer::shutdownConnections() {} }
static Trick::VariableServer vs_; Trick::VariableServer *the_vs = &vs_;
extern "C" int env_print_vars(FILE *) { return 0; }

// ---- what a simulation is made of
struct Job { const char *cls; double cycle; int phase; double start, stop; int obj; };
struct Model { const char *name; std::vector<Job> jobs; double frame, T; int tic; };
enum Kind { A_NONE, A_CP, A_CP_AT, A_LOAD, A_OFF, A_CYCLE, A_OBJOFF, A_FREEZE_AT, A_FREEZE, A_RUN, A_STOP_AT, A_FRAME, A_SAFE };
struct Act { int kind; int a; double x; };
struct At { int call; Act act; };                     // in the given call of the trace
struct Plan {
    std::vector<At> at, cmds;          // by number of the call; by number of calls of the first object, which is a part of the state
    bool pre = false, post = false, end = false; double safe = 0;
    bool load_in_input = false; bool fob = false; double freeze_at = -1;
    std::vector<Act> input;
    int run_after = 0;                                // number of freeze jobs called before the run command
    int load_freeze = -1;                             // load in the n-th freeze call
    int cp_freeze = -1;                               // checkpoint in the n-th freeze call
};
struct Ev { int job; ll t; double x; long n; double dyn; int hist; };
static bool same(const Ev &a, const Ev &b) { return a.job == b.job && a.t == b.t && a.x == b.x && a.n == b.n && a.dyn == b.dyn && a.hist == b.hist; }
enum { MAXEV = 400, J_CP = 100, J_POST = 101, J_PRELOAD = 102, J_RESTART = 103, J_FREEZE = 104, J_FRINIT = 105, J_UNFREEZE = 106, J_TOP = 107, J_EOF = 108 };
struct Trace { int n, calls; Ev e[MAXEV]; int cp[16], ncp; int rs[16], nrs; int ret; bool over; ll end; int freezes, infreeze; char err[300]; };
static Trace *T_; static const Model *M; static const Plan *P;
static SysSO *sys_; static CprSO *cpr_; static UserSO *usr_[2];
static std::string file_;

static void apply(const Act &a) {
    char nm[32];
    switch (a.kind) {
    case A_CP: cpr_->cpr.checkpoint(std::string("c10"), false); break;
    case A_CP_AT: cpr_->cpr.checkpoint(a.x); break;
    case A_LOAD: cpr_->cpr.load_checkpoint(file_); break;
    case A_OFF: snprintf(nm, 32, "u%d.j%d", M->jobs[a.a].obj, a.a); sys_->sched.set_job_onoff(nm, 1, a.x != 0); break;
    case A_CYCLE: snprintf(nm, 32, "u%d.j%d", M->jobs[a.a].obj, a.a); sys_->sched.set_job_cycle(nm, 1, a.x); break;
    case A_OBJOFF: snprintf(nm, 32, "u%d", a.a); sys_->sched.set_sim_object_onoff(nm, a.x != 0); break;
    case A_FREEZE_AT: sys_->sched.freeze(a.x); break;
    case A_FREEZE: sys_->sched.freeze(); break;
    case A_RUN: sys_->sched.run(); break;
    case A_STOP_AT: sys_->sched.stop(a.x); break;
    case A_FRAME: sys_->sched.set_software_frame(a.x); break;
    case A_SAFE: cpr_->cpr.set_safestore_enabled(a.x > 0); if (a.x > 0) cpr_->cpr.set_safestore_time(a.x); break;
    }
}
static void record(int job, UserSO *u) {
    if (T_->n >= MAXEV) { T_->over = true; throw Trick::ExecutiveException(7, "h", 0, "too many calls"); }
    Ev &e = T_->e[T_->n]; memset(&e, 0, sizeof e); e.job = job; e.t = exec_get_time_tics();
    if (u) { e.x = u->x; e.n = u->n; e.dyn = u->dyn ? u->dyn[0] + 10 * u->dyn[1] : -1; e.hist = (int)u->hist.size(); }
    T_->n++; if (job == J_CP || job == J_RESTART) return;
    int k = T_->calls++;
    if (u && u->base == 0) for (auto &a : P->cmds) if (a.call == u->n) apply(a.act);
    for (auto &a : P->at) if (a.call == k) apply(a.act);
}
int UserSO::call_function(Trick::JobData *j) {
    int id = j->id;
    if (id < 90) {
        // the job changes its state first, a checkpoint written by the call holds the state after it
        x = x * 0.5 + exec_get_sim_time() + id * 0.25; n++; hist.push_back(x);
        if (!dyn) dyn = (double *)TMM_declare_var_s("double[2]");
        dyn[n % 2] = x;
        record(id, this); return 0;
    }
    record(id, 0);
    if (id == J_FREEZE) {
        int k = T_->freezes++;
        if (k == P->cp_freeze) { Act a = {A_CP, 0, 0}; apply(a); }
        if (k == P->load_freeze) { Act a = {A_LOAD, 0, 0}; apply(a); }
        if (T_->infreeze++ >= P->run_after && k > P->load_freeze) sys_->sched.run();
    }
    if (id == J_FRINIT) T_->infreeze = 0;
    if (id == J_CP && T_->ncp < 16) T_->cp[T_->ncp++] = T_->n;
    if (id == J_RESTART && T_->nrs < 16) T_->rs[T_->nrs++] = T_->n;
    return 0;
}
SysSO::SysSO() {
    static const char *C[] = {"automatic", "random", "environment", "sensor", "sensor_emitter", "sensor_reflector", "sensor_receiver", "scheduled", "effector", "effector_emitter", "effector_receiver",
        "automatic_last", "logging", "data_record", "system_checkpoint", "system_advance_sim_time", "system_moding", "integ_loop"};
    for (auto c : C) sched.add_scheduled_job_class(c);
    int i = 0;
    add_job(0, i++, "default_data", NULL, 1, "sched.get_freeze_job", "TRK", 60000);
    add_job(0, i++, "initialization", NULL, 1, "sched.create_threads", "TRK", 65535);
    add_job(0, i++, "initialization", NULL, 1, "sched.async_freeze_to_exec_command", "TRK", 65535);
    add_job(0, i++, "system_moding", NULL, 1, "sched.sched_freeze_to_exec_command", "TRK", 60000);
    add_job(0, i++, "end_of_frame", NULL, 1, "sched.sched_freeze_to_exec_command", "TRK", 60000);
    add_job(0, i++, "end_of_frame", NULL, 1, "sched.async_freeze_to_exec_command", "TRK", 60000);
    add_job(0, i++, "freeze_init", NULL, 1, "sched.init_freeze_scheduled", "", 60000);
    add_job(0, i++, "system_advance_sim_time", NULL, 1, "sched.advance_sim_time", "TRK", 60000);
    add_job(0, i++, "checkpoint", NULL, 1, "sched.checkpoint", "TRK", 0);
    add_job(0, i++, "post_checkpoint", NULL, 1, "sched.post_checkpoint", "TRK", 0);
    add_job(0, i++, "input_processor", NULL, 1, "input", "TRK", 60000);
}
int SysSO::call_function(Trick::JobData *j) {
    switch (j->id) {
    case 0: return sched.get_freeze_job("trick_sys.sched");
    case 1: return sched.create_threads();
    case 2: return sched.async_freeze_to_exec_command();
    case 3: return sched.sched_freeze_to_exec_command(false);
    case 4: return sched.sched_freeze_to_exec_command(true);
    case 5: return sched.async_freeze_to_exec_command();
    case 6: return sched.init_freeze_scheduled();
    case 7: return sched.advance_sim_time();
    case 8: return sched.checkpoint();
    case 9: return sched.post_checkpoint();
    case 10:
        sched.set_software_frame(M->frame); sched.set_terminate_time(M->T);
        sched.set_freeze_frame(M->frame);
        if (P->fob) sched.set_freeze_on_frame_boundary(true);
        if (P->freeze_at >= 0) sched.freeze(P->freeze_at);
        if (P->pre) cpr_->cpr.set_pre_init_checkpoint(true);
        if (P->post) cpr_->cpr.set_post_init_checkpoint(true);
        if (P->end) cpr_->cpr.set_end_checkpoint(true);
        if (P->safe > 0) { Act a = {A_SAFE, 0, P->safe}; apply(a); }
        for (auto &a : P->input) apply(a);
        if (P->load_in_input) { Act a = {A_LOAD, 0, 0}; apply(a); cpr_->cpr.load_checkpoint_job(); }
        return 0;
    }
    return 0;
}
CprSO::CprSO() {
    exec_register_scheduler(&cpr);
    int i = 0;
    add_job(0, i++, "default_data", NULL, 1, "cpr.find_write_checkpoint_jobs", "TRK", 0);
    add_job(0, i++, "initialization", NULL, 1, "cpr.write_pre_init_checkpoint", "TRK", 1);
    add_job(0, i++, "initialization", NULL, 1, "cpr.write_post_init_checkpoint", "TRK", 65535);
    add_job(0, i++, "system_checkpoint", NULL, 1, "cpr.write_checkpoint", "TRK", 0);
    add_job(0, i++, "system_checkpoint", NULL, 1, "cpr.safestore_checkpoint", "TRK", 0);
    add_job(0, i++, "shutdown", NULL, 1, "cpr.write_end_checkpoint", "TRK", 0);
    add_job(0, i++, "freeze", NULL, 1, "cpr.load_checkpoint_job", "TRK", 0);
    add_job(0, i++, "end_of_frame", NULL, 1, "cpr.load_checkpoint_job", "TRK", 0);
}
int CprSO::call_function(Trick::JobData *j) {
    switch (j->id) {
    case 0: return cpr.find_write_checkpoint_jobs("trick_cpr.cpr");
    case 1: return cpr.write_pre_init_checkpoint();
    case 2: return cpr.write_post_init_checkpoint();
    case 3: return cpr.write_checkpoint();
    case 4: return cpr.safestore_checkpoint();
    case 5: return cpr.write_end_checkpoint();
    case 6: case 7: return cpr.load_checkpoint_job();
    }
    return 0;
}
// ---- one simulation in a process of its own
static void simulation(const std::string &dir) {
    Trick::MessagePublisher mp; Trick::CommandLineArguments cla; Trick::GetTimeOfDayClock clk;
    if (!getenv("MM_LOUD")) { std::cout.rdbuf(0); std::cerr.rdbuf(0); }
    clk.set_global_clock(); mp.init();
    std::string o = dir; std::vector<char *> av; static char a0[] = "./S_main", a1[] = "sie", a2[] = "-O"; static char a3[300]; snprintf(a3, 300, "%s", o.c_str());
    char *v[] = {a0, a1, 0}; cla.process_sim_args(2, v); cla.set_output_dir(a3);
    new Trick::MemoryManager;
    sys_ = new SysSO; 
    sys_->sched.set_time_tic_value(M->tic);
    cpr_ = new CprSO;
    for (int i = 0; i < 2; i++) {
        usr_[i] = new UserSO; usr_[i]->base = i;
    }
    int k = 0; for (auto &j : M->jobs) { char nm[16]; snprintf(nm, 16, "j%d", k); usr_[j.obj]->add_job(0, k, j.cls, NULL, j.cycle, nm, "", j.phase, j.start, j.stop); k++; }
    UserSO *u = usr_[0];
    u->add_job(0, J_CP, "checkpoint", NULL, 1, "cp", "", 60000); u->add_job(0, J_RESTART, "restart", NULL, 1, "rs", "", 65535);
    u->add_job(0, J_FREEZE, "freeze", NULL, 1, "fz", "", 0xffff); u->add_job(0, J_FRINIT, "freeze_init", NULL, 1, "fi", "", 60000); u->add_job(0, J_UNFREEZE, "unfreeze", NULL, 1, "uf", "", 60000);
    u->add_job(0, J_TOP, "top_of_frame", NULL, 1, "top", "", 60000); u->add_job(0, J_EOF, "end_of_frame", NULL, 1, "eof", "", 60000);
    TMM_declare_ext_var(sys_, TRICK_STRUCTURED, "SysSO", 0, "trick_sys", 0, NULL); exec_add_sim_object(sys_, "trick_sys");
    TMM_declare_ext_var(cpr_, TRICK_STRUCTURED, "CprSO", 0, "trick_cpr", 0, NULL); exec_add_sim_object(cpr_, "trick_cpr");
    for (int i = 0; i < 2; i++) { char nm[8]; snprintf(nm, 8, "u%d", i); TMM_declare_ext_var(usr_[i], TRICK_STRUCTURED, "UserSO", 0, nm, 0, NULL); exec_add_sim_object(usr_[i], nm); }
    int r = sys_->sched.init();
    if (r == 0) r = sys_->sched.loop();
    T_->ret = r; T_->end = sys_->sched.get_time_tics();
    if (sys_->sched.except_message.size()) snprintf(T_->err, sizeof T_->err, "%s", sys_->sched.except_message.c_str());
    if (T_->ret != 7) sys_->sched.shutdown();
}
static std::string dir_, kfile;
static Trace run(const Model &m, const Plan &p, const char *what) {
    M = &m; P = &p;
    memset(T_, 0, sizeof *T_); T_->ret = -99;
    fflush(stdout); fflush(stderr);
    pid_t pid = fork();
    if (pid == 0) { alarm(10); if (!getenv("MM_LOUD")) { freopen("/dev/null", "w", stdout); freopen("/dev/null", "w", stderr); } simulation(dir_); _exit(0); }
    int st; waitpid(pid, &st, 0);
    mc::step(T_->n + 1);
    if (WIFSIGNALED(st)) mc::fail("crash", "%s: the simulation dies of signal %d after %d calls", what, WTERMSIG(st), T_->n);
    if (WEXITSTATUS(st)) mc::fail("exit", "%s: the simulation exits with %d after %d calls", what, WEXITSTATUS(st), T_->n);
    if (T_->ret == -99) mc::fail("exit", "%s: no result", what);
    return *T_;
}
static std::string show(const std::vector<Ev> &v, size_t from, size_t n) {
    std::string s; char b[120];
    for (size_t i = from; i < v.size() && i < from + n; i++) { snprintf(b, 120, " %d@%lld(x=%.17g n=%ld dyn=%g hist=%d)", v[i].job, v[i].t, v[i].x, v[i].n, v[i].dyn, v[i].hist); s += b; }
    return from + n > v.size() ? s + " <end>" : s;
}
static std::vector<Ev> part(const Trace &t, int from, bool cp) { std::vector<Ev> v; for (int i = from; i < t.n; i++) if (t.e[i].job != J_RESTART && (cp || t.e[i].job != J_CP)) v.push_back(t.e[i]); return v; }
static void compare(const char *sig, const std::vector<Ev> &want, const std::vector<Ev> &got, const std::string &what) {
    size_t i = 0; while (i < want.size() && i < got.size() && same(want[i], got[i])) i++;
    if (i == want.size() && i == got.size()) return;
    mc::fail(sig, "%s: after %d calls expected%s, got%s", what.c_str(), (int)i, show(want, i, 3).c_str(), show(got, i, 3).c_str());
}
static std::vector<Model> models() {
    std::vector<Model> v;
    v.push_back(Model{"one", {{"scheduled", 1, 60000, 0, 1e37, 0}}, 1, 4, 1000000});
    v.push_back(Model{"half", {{"scheduled", 0.5, 60000, 0, 1e37, 0}, {"environment", 0.75, 60000, 0, 1e37, 1}}, 1, 3, 1000000});
    v.push_back(Model{"phases", {{"scheduled", 1, 2, 0, 1e37, 0}, {"scheduled", 1, 1, 0, 1e37, 1}, {"logging", 1, 60000, 0, 1e37, 0}}, 1, 3, 1000});
    v.push_back(Model{"startstop", {{"scheduled", 0.5, 60000, 1.25, 1e37, 0}, {"scheduled", 0.5, 60000, 0, 1.5, 1}, {"effector", 1, 60000, 2, 2, 0}}, 1, 3, 1000000});
    v.push_back(Model{"slowframe", {{"scheduled", 0.25, 60000, 0, 1e37, 0}, {"environment", 1.5, 60000, 0, 1e37, 1}}, 2, 4, 1000000});
    return v;
}
static const std::vector<Model> &MODELS = *new std::vector<Model>(models());

int main(int c, char **v) {
    T_ = (Trace *)mmap(0, sizeof(Trace), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    static Trick::UdUnits uds; uds.read_default_xml();
    mc::Options o; o.split = 3; o.timeout_s = 30;
    return mc::run(c, v, o, [] {
        static int made; if (made != getpid()) { made = getpid(); T_ = (Trace *)mmap(0, sizeof(Trace), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); char d[64]; const char *t = getenv("C10_TAG"); snprintf(d, 64, "/dev/shm/c10_%s_%d", t ? t : "", made); dir_ = d; mkdir(d, 0700); }
        const Model &m = MODELS[mc::choose((int)MODELS.size(), "model")];
        std::string d = std::string(m.name);
        // the run, with what is done to it, without any checkpoint
        Plan base;
        int pert = mc::choose(8, "before");
        switch (pert) {
        case 1: base.cmds.push_back({1, {A_OFF, 0, 0}}); break;
        case 2: base.cmds.push_back({2, {A_CYCLE, 0, 0.75}}); break;
        case 3: base.cmds.push_back({1, {A_OBJOFF, 1, 0}}); break;
        case 4: base.cmds.push_back({1, {A_FREEZE_AT, 0, 2}}); break;
        case 5: base.cmds.push_back({1, {A_FREEZE_AT, 0, 1.25}}); base.run_after = 1; break;
        case 6: base.cmds.push_back({1, {A_FRAME, 0, 0.5}}); break;
        case 7: base.fob = true; base.cmds.push_back({1, {A_FREEZE_AT, 0, 1.25}}); break;
        }
        char b[200]; snprintf(b, 200, " before=%d", pert); d += b;
        static std::string kref, kwr; static Trace ref, wr;              // the same runs begin many executions
        if (kref != d) {
            kref = kwr = ""; ref = run(m, base, (d + " reference").c_str()); 
            if (ref.ret || ref.over) mc::fail("reference", "%s: the reference run ends with %d %s", d.c_str(), ref.ret, ref.err);
            kref = d;
        }
        // the checkpoint
        Plan w = base; int how = mc::choose(5, "how"); std::string fn = "c10";
        if (how == 0) { int k = mc::choose(ref.calls, "call"); int j = ref.e[k].job; if (j == J_TOP || j == J_EOF || j == J_FRINIT) return; w.at.push_back({k, {A_CP, 0, 0}}); snprintf(b, 200, " checkpoint in call %d", k); }
        else if (how == 1) { double t = mc::choose((int)(m.T * 4) + 1, "time") * 0.25; w.input.push_back({A_CP_AT, 0, t}); snprintf(b, 200, "chkpnt_%.6f", t); fn = b; snprintf(b, 200, " checkpoint(%g)", t); }
        else if (how == 2) { w.pre = true; fn = "chkpnt_pre_init"; snprintf(b, 200, " pre-init checkpoint"); }
        else if (how == 3) { w.post = true; fn = "chkpnt_post_init"; snprintf(b, 200, " post-init checkpoint"); }
        else { w.safe = (1 + mc::choose(3, "period")) * 0.5; fn = "chkpnt_safestore"; snprintf(b, 200, " safestore %g", w.safe); }
        d += b;
        file_ = dir_ + "/" + fn;
        auto write = [&] {
            for (auto f : {"c10", "chkpnt_pre_init", "chkpnt_post_init", "chkpnt_safestore"}) unlink((dir_ + "/" + f).c_str());
            if (kfile.size()) unlink(kfile.c_str());
            kfile = file_; kwr = ""; wr = run(m, w, d.c_str()); kwr = d;
        };
        if (kwr != d) write();
        compare("checkpoint-changes-run", part(ref, 0, false), part(wr, 0, false), d);
        if (wr.end != ref.end || wr.ret != ref.ret) mc::fail("checkpoint-changes-end", "%s: ends at %lld with %d, not at %lld with %d", d.c_str(), wr.end, wr.ret, ref.end, ref.ret);
        if (!wr.ncp || access(file_.c_str(), R_OK)) {
            if (how == 1) mc::fail("no-checkpoint", "%s: no checkpoint is written", d.c_str());
            if (how == 4) mc::fail("no-safestore", "%s: no checkpoint is written", d.c_str());
            mc::fail("no-checkpoint", "%s: no checkpoint is written", d.c_str());
        }
        int p = wr.cp[wr.ncp - 1];
        mc::state(mc::hash(&wr.e, sizeof(Ev) * wr.n));
        // the restart
        int where = mc::choose(4, "where");
        Plan l = base; if (where == 2) l = w;
        int k = -1, change = 0;
        if (where == 0) { l.load_in_input = true; d += " loaded by the input file"; }
        else if (where == 3) { l.input.push_back({A_FREEZE, 0, 0}); l.load_freeze = mc::choose(2, "freeze call"); snprintf(b, 200, " loaded in a freeze at the start, call %d", l.load_freeze); d += b; }
        else {
            std::vector<int> ks; int n = 0;                              // a load takes place at the end of the frame
            for (int i = 0; i < wr.n; i++) if (wr.e[i].job != J_CP && wr.e[i].job != J_RESTART) { if (mc::thorough() || wr.e[i].job == J_TOP) ks.push_back(n); n++; }
            k = ks[mc::choose((int)ks.size(), "load call")];
            // what is changed before the load has to be undone
            bool few = !mc::thorough() && (pert || (strcmp(m.name, "half") && strcmp(m.name, "startstop")));
            Act mess[] = {{A_NONE, 0, 0}, {A_OFF, 0, 0}, {A_CYCLE, 0, 0.25}, {A_OBJOFF, 1, 0}, {A_FREEZE_AT, 0, 2.75}, {A_CP_AT, 0, 2.75}, {A_FRAME, 0, 0.25}, {A_STOP_AT, 0, 2.5}};
            int x = few ? 0 : mc::choose(8, "changed");
            change = x; if (x) l.at.push_back({k, mess[x]});
            l.at.push_back({k, {A_LOAD, 0, 0}});
            snprintf(b, 200, " loaded in %s process after call %d, change %d", where == 1 ? "a new" : "the same", k, x); d += b;
            if (x == 4 && m.T <= 2.75) return;
        }
        Trace lr = run(m, l, d.c_str());
        if (where == 2) kwr = "";                                        // it writes checkpoints of its own
        if (!lr.nrs) { if (where == 1 || where == 2) return; mc::fail("not-loaded", "%s: the checkpoint is not loaded", d.c_str()); }
        int q = lr.rs[0];
        if (getenv("C10_SHOW")) { for (int i = 0; i < lr.n; i++) fprintf(stderr, "%s%d@%lld ", i == q ? " || " : "", lr.e[i].job, lr.e[i].t); fprintf(stderr, "\n"); }
        if (where == 2) { int i = 0; while (i < lr.ncp && lr.cp[i] < q) i++; if (!i || (change == 5 && lr.e[lr.cp[i - 1] - 1].t == (ll)(2.75 * m.tic))) return; p = lr.cp[i - 1]; if (p > wr.n) return;
            int n = 0, at = 0; for (; at < lr.n; at++) if (lr.e[at].job != J_CP && lr.e[at].job != J_RESTART && n++ == k) break;
            if (change && at < p) return; }                              // the checkpoint holds the change
        std::vector<Ev> rest = part(wr, p, true), got = part(lr, q, true);
        // the freeze in which it was written is over or not, the freeze or the frame in which it is loaded is finished
        auto thaw = [](std::vector<Ev> &v) { while (!v.empty() && (v[0].job == J_FREEZE || v[0].job == J_UNFREEZE)) v.erase(v.begin()); };
        ll t = lr.e[q - 1].t;
        thaw(rest); thaw(got);
        if (where && (rest.empty() || rest[0].job != J_EOF || rest[0].t != t)) { while (!got.empty() && got[0].job == J_EOF && got[0].t == t) got.erase(got.begin()); thaw(got); }
        // a freeze commanded before the load at the time of the load takes place
        if ((where == 1 || where == 2) && !got.empty() && got[0].job == J_FRINIT && got[0].t == t && (rest.empty() || rest[0].job != J_FRINIT || rest[0].t != t)) {
            got.erase(got.begin()); thaw(got);
            // and so does one that waits for the end of a frame
            if (base.fob) for (size_t i = 0; i < rest.size(); i++) if (rest[i].job == J_FRINIT) { while (i < rest.size() && (rest[i].job == J_FRINIT || rest[i].job == J_FREEZE || rest[i].job == J_UNFREEZE)) rest.erase(rest.begin() + i); break; }
        }
        bool again = !got.empty() && got[0].job == J_TOP && got[0].t == t && (rest.empty() || rest[0].job != J_TOP || rest[0].t != t);
        if (again) got.erase(got.begin());
        compare("continues", rest, got, d);
        if (lr.end != ref.end || lr.ret != ref.ret) mc::fail("end", "%s: ends at %lld with %d %s, not at %lld with %d", d.c_str(), lr.end, lr.ret, lr.err, ref.end, ref.ret);
        if (again) mc::fail("top-of-frame-again", "%s: the top_of_frame jobs, called before the checkpoint was written, are called again at %lld", d.c_str(), t);
        mc::outcome(mc::hash(&got[0], sizeof(Ev) * got.size()));
    });
}
