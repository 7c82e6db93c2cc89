// C25: Monte Carlo: the real master against scripted slaves in virtual time, the real slave against a scripted master and child,
// and the variables that give each run its values.
#define MC_MAIN
#include "mc.hh"
#include <setjmp.h>
#include <arpa/inet.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <signal.h>
#include <algorithm>
#include <exception>
#include <memory>
#include <limits>
#include <math.h>
#include "trick/MonteCarlo.hh"
#include "trick/MonteVarFile.hh"
#include "trick/MonteVarFixed.hh"
#include "trick/MonteVarCalculated.hh"
#include "trick/Executive.hh"
#include "trick/MemoryManager.hh"
#include "trick/reference.h"
#include "trick/tc.h"
using std::string; using std::vector; using Trick::MonteRun; using Trick::MonteSlave; using Trick::MonteCarlo; using Trick::MonteVar;
typedef Trick::MonteVar MV;

// ------------------------------------------------------------------ stubs of the rest of the simulation
struct World; static World *W;
static string dir, out_dir, user_out; static vector<char *> args; static std::string infile = "RUN_x/input.py";
static bool loud() { static bool l = getenv("MC_LOUD"); return l; }
extern "C" {
int message_publish(int, const char *f, ...) { if (loud()) { va_list a; va_start(a, f); vfprintf(stderr, f, a); va_end(a); } return 0; }
int command_line_args_get_argc(void) { return (int)args.size(); }
char **command_line_args_get_argv(void) { return args.data(); }
const char *command_line_args_get_output_dir(void) { return out_dir.c_str(); }
const char *command_line_args_get_user_output_dir(void) { return user_out.c_str(); }
const char *command_line_args_get_input_file(void) { return infile.c_str(); }
const char *command_line_args_get_default_dir(void) { return "/sim"; }
const char *command_line_args_get_cmdline_name(void) { return "S_main"; }
int env_print_vars(FILE *) { return 0; }
void *__wrap_TMM_declare_var_s(const char *) { return calloc(16, sizeof(void *)); }
void *__wrap_TMM_resize_array_1d_a(void *p, int) { return p; }
static REF2 the_ref; static ATTRIBUTES the_attr; static bool have_ref;
REF2 *__wrap_ref_attributes(const char *) { return have_ref ? &the_ref : NULL; }
}
namespace Trick { class VariableServer { public: void shutdownConnections(); int d; }; void VariableServer::shutdownConnections() {} }
static Trick::VariableServer a_vs; Trick::VariableServer *the_vs = &a_vs;
static Trick::Executive *EX;

// leaving the code under test from inside a stub: it catches everything, so nothing is thrown through it
static jmp_buf out; static bool inside; static std::exception_ptr pending_ex; static int exit_code; enum { J_EXIT = 1, J_EX = 2, J_STOP = 3 };
[[noreturn]] static void leave(int how) { inside = false; longjmp(out, how); }
static int pick(int n, const char *t) { try { return mc::choose(n, t); } catch (...) { pending_ex = std::current_exception(); } leave(J_EX); }
[[noreturn]] static void bad(const char *sig, const char *f, ...) { char b[2000]; va_list a; va_start(a, f); vsnprintf(b, sizeof b, f, a); va_end(a);
    try { mc::fail(string(sig), "%s", b); } catch (...) { pending_ex = std::current_exception(); } leave(J_EX); }

// ------------------------------------------------------------------ the world the master runs in
struct VSlave { enum Ph { NONE, SPAWNED, IDLE, BUSY } ph = NONE; int run = -1; bool hung = false, dead = false, lost = false, stopped = false, timedout = false; double t0 = 0, mult = 1; int results = 0, disp = 0; int last = -1; bool shut = false; double cpu = 0; };
struct VRun { bool queued = true, prepared = false, in = true, gone = false; int tries = 0, status = 0; double t0 = 0; };
enum { S_COMPLETE = 1, S_FAILED, S_CORE, S_TIMEOUT, S_CANT, S_BADIN, S_UNREC };
struct Cfg { int ns = 1, nr = 1; unsigned max = 2; vector<std::pair<int,int>> ranges; int eof = -1; int budget = 0; bool grow = false; int prefail = -1, postfail = -1; double mult = 1; bool post_core = false; bool disabled = false; };
static bool late_core;
struct World {
    Cfg c; MonteCarlo *mc = 0; vector<VSlave> s; vector<VRun> r; double now = 1000; int budget = 0, resolved = 0; vector<int> failed, errors; int nvals = 0, prejobs = 0, postjobs = 0, shutjobs = 0, initjobs = 0, posts = 0;
    string conn_out; int conn_to = -1; bool conn_open = false; string in; size_t inpos = 0; bool in_open = false, shutting = false, thrown = false; int iters = 0, stall = 0, disp_this = 0; bool inited = false, last_got = false; int expect_code = 0; int nrv = 0;
    string what;

    bool running_elsewhere(int run, int me) { for (int i = 0; i < (int)s.size(); i++) if (i != me && s[i].ph == VSlave::BUSY && s[i].run == run && !s[i].timedout && !s[i].lost) return true; return false; }
    void resolve(int k, int st, int sl) { VRun &q = r[k]; q.status = st; q.queued = false; resolved++; s[sl].results++; s[sl].cpu += now - q.t0; if (st == S_FAILED) failed.push_back(k); else if (st != S_COMPLETE) errors.push_back(k); }
    void retry(int k, int st, int sl) { VRun &q = r[k]; if (q.status) return; if (q.queued || running_elsewhere(k, sl)) return; if (c.max == 0 || q.tries < (int)c.max) q.queued = true; else resolve(k, st, sl); }
    // what the master must make of the message it has just accepted
    void received(int sl, int st) {
        VSlave &v = s[sl]; int k = v.run; v.ph = VSlave::IDLE; v.timedout = false; v.last = k;
        if (r[k].status) return;
        switch (st) { case S_COMPLETE: case S_FAILED: resolve(k, st, sl); posts++; break; case S_CORE: case S_BADIN: resolve(k, st, sl); break;
            case S_CANT: case S_TIMEOUT: retry(k, st, sl); break; default: resolve(k, S_UNREC, sl); }
    }
    void lose(int sl) { VSlave &v = s[sl]; bool was = v.ph == VSlave::BUSY && !v.timedout; int k = v.run; v.lost = true; v.timedout = false; if (was && !r[k].status) retry(k, -1, sl); v.ph = VSlave::NONE; }
    void compare(const char *when) {
        if ((int)mc->num_results != resolved) bad("accounting", "%s: %u runs are counted as finished, %d are (%s)", when, mc->num_results, resolved, what.c_str());
        vector<int> f, e; for (auto *x : mc->failed_runs) f.push_back(x->id); for (auto *x : mc->error_runs) e.push_back(x->id);
        vector<int> f2 = failed, e2 = errors; for (auto *p : {&f, &e, &f2, &e2}) std::sort(p->begin(), p->end());
        if (f != f2 || e != e2) bad("lists", "%s: %zu failed and %zu erroneous runs are listed, %zu and %zu are (%s)", when, f.size(), e.size(), f2.size(), e2.size(), what.c_str());
        for (int i = 0; i < (int)s.size(); i++) { MonteSlave *m = mc->slaves[i];
            if ((int)m->num_results != s[i].results || (int)m->num_dispatches != s[i].disp) bad("slave-statistics", "%s: slave %d has %u results of %u runs, should be %d of %d (%s)", when, i + 1, m->num_results, m->num_dispatches, s[i].results, s[i].disp, what.c_str());
            if (fabs(m->cpu_time - s[i].cpu) > 1e-6) bad("slave-statistics", "%s: slave %d worked %g s, should be %g (%s)", when, i + 1, m->cpu_time, s[i].cpu, what.c_str()); }
    }
    int unresolved() { int n = 0; for (auto &q : r) n += q.in && !q.gone && !q.status; return n; }
    bool all_lost() { for (auto &v : s) if (!v.lost) return false; return true; }
    bool dispatchable() { for (auto &q : r) if (q.in && !q.gone && !q.status && q.queued) return true; return false; }
    bool ready() { for (auto &v : s) if (v.ph == VSlave::IDLE && !v.lost && !v.stopped) return true; return false; }
    // the master looks for slaves that have been silent for too long
    void timeouts() { for (int i = 0; i < (int)s.size(); i++) { VSlave &v = s[i]; if (v.ph == VSlave::BUSY && !v.timedout && !v.lost && (now - v.t0) * v.mult > 120) { if (!r[v.run].status) retry(v.run, S_TIMEOUT, i); v.timedout = true; } } }
    void put(int v) { uint32_t n = htonl(v); in.append((char *)&n, 4); }
    void begin_in() { in.clear(); inpos = 0; in_open = true; }
    void answer(int sl, int st) { begin_in(); put(sl + 1); put(st == S_UNREC ? 42 : st); received(sl, st); mc::step(1); }
    void say(const char *f, ...) { char b[100]; va_list a; va_start(a, f); vsnprintf(b, sizeof b, f, a); va_end(a); what += b; what += ' '; }
    bool accept();
};
static const int ST[] = {S_COMPLETE, S_FAILED, S_CORE, S_TIMEOUT, S_CANT, S_BADIN, S_UNREC};
static const char *STN[] = {"?", "complete", "failed", "core", "timeout", "cantcreate", "badinput", "code42"};

struct Evt { int sl, kind, arg; };
enum { E_NONE, E_INIT, E_ANSWER, E_INITCUT, E_CUT, E_HANG, E_DIE, E_STOP, E_START, E_LATE, E_GARBAGE, E_TICK, E_SETRUNS, E_DUP };
// called when the master asks for a pending connection: true if there is one
bool World::accept() {
    compare("while running");
    if (++iters > 120) bad("endless", "the campaign does not end: %d of the runs are unresolved after %d rounds (%s)", unresolved(), iters, what.c_str());
    if (last_got) { }
    else if (unresolved() == 0 && iters > 1 && inited && (ready() || c.eof < 0)) { if (++stall > 3) bad("endless", "all runs are resolved but the campaign goes on (%s)", what.c_str()); }
    else if (all_lost()) { if (++stall > 3) bad("endless-no-slaves", "all slaves are disconnected but the campaign goes on (%s)", what.c_str()); }
    else if (inited && dispatchable() && ready()) { if (++stall > 4) bad("stalled", "a run can be given to a ready slave, but is not (%s)", what.c_str()); }
    else stall = 0;
    inited = true;
    vector<Evt> alt; Evt def = {-1, E_NONE, 0};
    for (int i = 0; i < (int)s.size() && def.kind == E_NONE; i++) if (s[i].ph == VSlave::SPAWNED && !s[i].dead) def = {i, E_INIT, 0};
    for (int i = 0; i < (int)s.size() && def.kind == E_NONE; i++) if (s[i].ph == VSlave::BUSY && !s[i].hung && !s[i].dead) def = {i, E_ANSWER, S_COMPLETE};
    bool canwait = dispatchable() && ready();
    if (def.kind == E_NONE && !canwait) {
        for (int i = 0; i < (int)s.size() && def.kind == E_NONE; i++) if (s[i].ph == VSlave::BUSY && !s[i].timedout && !s[i].lost) def = {-1, E_LATE, 0};
        if ((unresolved() || c.eof >= 0) && !all_lost()) {
        for (int i = 0; i < (int)s.size() && def.kind == E_NONE; i++) if (s[i].stopped && !s[i].lost) def = {i, E_START, 0};
        for (int i = 0; i < (int)s.size() && def.kind == E_NONE; i++) if (s[i].ph == VSlave::BUSY && s[i].hung && !s[i].dead) def = {i, E_ANSWER, S_COMPLETE};
        }
    }
    if (budget > 0) {
        for (int i = 0; i < (int)s.size(); i++) { VSlave &v = s[i]; if (v.lost && !v.stopped) continue;
            if (v.ph == VSlave::SPAWNED && !v.dead) for (int k = 0; k < 4; k++) alt.push_back({i, E_INITCUT, k});
            if (v.ph == VSlave::BUSY && !v.dead && !v.lost) { for (int st : ST) if (!(def.kind == E_ANSWER && def.sl == i && st == S_COMPLETE)) alt.push_back({i, E_ANSWER, st}); for (int k = 0; k < 3; k++) alt.push_back({i, E_CUT, k}); if (!v.hung) alt.push_back({i, E_HANG, 0}); }
            if (v.ph != VSlave::SPAWNED && !v.dead) alt.push_back({i, E_DIE, 0});
            if (c.post_core && v.ph == VSlave::BUSY && v.last >= 0 && !v.dead) alt.push_back({i, E_DUP, S_CORE});
            if (v.ph == VSlave::BUSY || v.ph == VSlave::IDLE || (v.stopped && v.ph == VSlave::NONE)) alt.push_back({i, v.stopped ? E_START : E_STOP, 0}); }
        if (def.kind != E_LATE) alt.push_back({-1, E_LATE, 0});
        if (def.kind != E_NONE) alt.push_back({-1, E_NONE, 0});
        alt.push_back({-1, E_GARBAGE, 0}); alt.push_back({-1, E_GARBAGE, 1}); alt.push_back({-1, E_TICK, 0});
        if (c.grow) { alt.push_back({-1, E_SETRUNS, nrv + 1}); for (int k = nrv - 1; k >= 1; k--) alt.push_back({-1, E_SETRUNS, k}); }
    }
    Evt e = def; int x = budget > 0 ? pick(1 + (int)alt.size(), "event") : 0; if (x) { e = alt[x - 1]; budget--; }
    if (e.kind == E_NONE && !canwait && !(unresolved() == 0 && ready()) &&  !all_lost() && def.kind == E_NONE) leave(J_STOP);      // nobody is left who could go on
    bool got = false;
    switch (e.kind) {
    case E_NONE: break;
    case E_TICK: now += 70; say("70s"); break;
    case E_LATE: now += 130; say("130s"); break;
    case E_INIT: { say("init%d", e.sl + 1); begin_in(); put(e.sl + 1); string h = "host" + std::to_string(e.sl + 1); put((int)h.size()); in += h; put(7001 + e.sl); s[e.sl].ph = VSlave::IDLE; got = true; break; }
    case E_INITCUT: { say("init%d-cut%d", e.sl + 1, e.arg); begin_in(); put(e.sl + 1); string h = "host"; if (e.arg == 3) put(-1); else if (e.arg > 0) { put(8); in += h; } if (e.arg == 2) { in += "home"; in += "xx"; } s[e.sl].lost = true; s[e.sl].ph = VSlave::NONE; got = true; break; }
    case E_ANSWER: say("%d:%s", e.sl + 1, STN[e.arg]); s[e.sl].hung = false; answer(e.sl, e.arg); got = true; break;
    case E_CUT: say("%d-cut%d", e.sl + 1, e.arg); begin_in();
        if (e.arg == 0) { in += string("\0\0", 2); got = true; s[e.sl].hung = true; break; }           // the id is lost: the run times out
        put(e.sl + 1); if (e.arg == 2) in += string("\0\0", 2); if (r[s[e.sl].run].status) { received(e.sl, S_COMPLETE); } else lose(e.sl); got = true; break;
    case E_HANG: say("hang%d", e.sl + 1); s[e.sl].hung = true; break;
    case E_DIE: say("die%d", e.sl + 1); s[e.sl].dead = true; s[e.sl].hung = true; break;
    case E_STOP: say("stop%d", e.sl + 1); s[e.sl].stopped = true; mc->stop_slave(e.sl + 1); break;
    case E_START: say("start%d", e.sl + 1); s[e.sl].stopped = false; mc->start_slave(e.sl + 1); if (c.disabled && s[e.sl].ph == VSlave::NONE) { s[e.sl].ph = VSlave::IDLE; s[e.sl].dead = true; } break;
    case E_GARBAGE: say("garbage"); begin_in(); if (e.arg) put(99); got = true; break;
    case E_DUP: say("%d:core-after-complete", e.sl + 1); begin_in(); put(e.sl + 1); put(S_CORE); late_core = true; got = true; break;
    case E_SETRUNS: { say("runs=%d", e.arg); mc->set_num_runs(e.arg); while (nrv < e.arg) { if ((int)r.size() <= nrv) r.push_back(VRun()); nrv++; } if (e.arg < nrv) { for (int k = e.arg; k < (int)r.size(); k++) if (r[k].queued && !r[k].tries) { r[k].gone = true; } nrv = e.arg; c.grow = false; }
        for (int k = 0; k < (int)r.size(); k++) if (r[k].gone) r[k].queued = false; break; }
    }
    last_got = got; if (!got) { timeouts(); disp_this = 0; }
    mc::state(mc::hv(resolved, budget, (int)now, unresolved()) ^ mc::hash(what));
    return got;
}

// ------------------------------------------------------------------ the calls the code under test makes
static int slave_of(TCDevice *d) { if (!d->hostname) return -1; for (int i = 0; i < (int)W->s.size(); i++) if (d->port == 7001 + i && string(d->hostname) == "host" + std::to_string(i + 1)) return i; return -1; }
static uint32_t be(const string &s, size_t o) { uint32_t n = 0; if (o + 4 <= s.size()) memcpy(&n, &s[o], 4); return ntohl(n); }
static void delivered() {                     // the message the master has just sent
    World &w = *W; if (!w.conn_open) return; w.conn_open = false; int i = w.conn_to; VSlave &v = w.s[i]; string m = w.conn_out;
    if (m.size() < 4) { bad("protocol", "slave %d is sent %zu bytes (%s)", i + 1, m.size(), w.what.c_str()); }
    int cmd = be(m, 0);
    if (cmd == MonteSlave::MC_SHUTDOWN) { if (m.size() != 4 || v.shut) bad("protocol", "slave %d is shut down twice or with %zu bytes", i + 1, m.size()); v.shut = true; return; }
    if (cmd != MonteSlave::MC_PROCESS_RUN || m.size() < 8 || be(m, 4) != m.size() - 8) bad("protocol", "slave %d is sent command %d with %zu bytes", i + 1, cmd, m.size());
    if (w.shutting) bad("dispatch", "a run is given out after the shutdown");
    string t = m.substr(8); int id = -1; size_t p = t.find("trick.mc_set_current_run("); if (p != string::npos) id = atoi(t.c_str() + p + 25);
    if (id < 0 || id >= (int)w.r.size()) bad("dispatch", "run %d is given to slave %d (%s)", id, i + 1, w.what.c_str());
    VRun &q = w.r[id];
    w.say("run%d->%d", id, i + 1);
    if (v.ph != VSlave::IDLE || v.stopped || v.lost) bad("dispatch-slave", "run %d is given to slave %d, which is %s (%s)", id, i + 1, v.stopped ? "stopped" : v.lost ? "disconnected" : "not ready", w.what.c_str());
    if (!q.in || q.gone) bad("dispatch", "run %d is given out although it is not in the range (%s)", id, w.what.c_str());
    if (q.status) bad("dispatch", "run %d is given out although it is resolved (%s)", id, w.what.c_str());
    if (!q.queued) bad("dispatch", "run %d is given out twice at once (%s)", id, w.what.c_str());
    if (w.c.max && q.tries >= (int)w.c.max) bad("dispatch-tries", "run %d is given out %d times, %u allowed (%s)", id, q.tries + 1, w.c.max, w.what.c_str());
    char b[200]; snprintf(b, sizeof b, "a = %d\nb = trick.attach_units(\"m\", %d)\ntrick.set_output_dir(\"%s/RUN_%05d\")\ntrick.mc_set_current_run(%d)\n", 100 + id, 200 + id, dir.c_str(), id, id);
    if (t != b) bad("values", "run %d is given [%s], should be [%s] (%s)", id, t.c_str(), b, w.what.c_str());
    q.queued = false; q.tries++; q.t0 = w.now; q.prepared = true; v.ph = VSlave::BUSY; v.run = id; v.t0 = w.now; v.timedout = false; v.disp++; w.disp_this++; w.stall = 0; mc::step(1);
}
extern "C" {
int vt_tc_init(TCDevice *d) { d->port = 7000; return TC_SUCCESS; }
int vt_tc_error(TCDevice *, int) { return 0; }
int vt_tc_blockio(TCDevice *, TCCommBlocking) { return 0; }
int slave_accept(TCDevice *); int slave_connect(TCDevice *); int slave_read(char *, int); int slave_write(const char *, int); void slave_disconnect();
int vt_tc_accept_(TCDevice *l, TCDevice *, const char *, int) { if (!W) return slave_accept(l); delivered(); return W->accept() ? TC_SUCCESS : TC_COULD_NOT_ACCEPT; }
int vt_tc_connect_(TCDevice *d, const char *, int) { if (!W) return slave_connect(d); delivered(); int i = slave_of(d); World &w = *W;
    if (i < 0 && !w.shutjobs && w.c.disabled) { for (int k = 0; k < (int)w.s.size(); k++) if (w.mc->slaves[k]->port == (unsigned)d->port && w.s[k].ph == VSlave::IDLE && w.s[k].dead) i = k; }
    if (i < 0) { if (!w.shutjobs) bad("dispatch-slave", "a run is given to a slave at %s:%d that does not exist (%s)", d->hostname, d->port, w.what.c_str()); return TC_HOST_NOT_FOUND; }
    if (w.s[i].dead) { if (!w.shutjobs) { if (w.s[i].stopped || w.s[i].lost || w.s[i].ph != VSlave::IDLE) bad("dispatch-slave", "slave %d is asked to run although it is not ready (%s)", i + 1, w.what.c_str()); w.say("refused%d", i + 1); w.s[i].lost = true; w.s[i].ph = VSlave::NONE; w.stall = 0; } return TC_HOST_NOT_FOUND; }
    w.conn_open = true; w.conn_to = i; w.conn_out.clear(); return TC_SUCCESS; }
int vt_tc_read_(TCDevice *, char *b, int n, const char *, int) { if (!W) return slave_read(b, n); World &w = *W; if (!w.in_open) return -1; int k = std::min(n, (int)(w.in.size() - w.inpos)); if (k < 0) k = 0; memcpy(b, w.in.data() + w.inpos, k); w.inpos += k; return k; }
int vt_tc_write_(TCDevice *, char *b, int n, const char *, int) { if (!W) return slave_write(b, n); if (!W->conn_open) return -1; W->conn_out.append(b, n); return n; }
int vt_tc_disconnect(TCDevice *) { if (!W) { slave_disconnect(); return 0; } if (W->in_open) { W->in_open = false; return 0; } delivered(); return 0; }
int vt_gettimeofday(struct timeval *t, void *) { double n = W ? W->now : 0; t->tv_sec = (long)n; t->tv_usec = (long)((n - (long)n) * 1e6); return 0; }
int __wrap_system(const char *c) { World &w = *W; const char *p = strstr(c, "--monte_client_id "); int i = p ? atoi(p + 18) - 1 : -1; 
    if (i < 0 || i >= (int)w.s.size() || w.s[i].ph != VSlave::NONE || w.s[i].lost || w.s[i].stopped) { bad("spawn", "slave %d is started: %s (%s)", i + 1, c, w.what.c_str()); }
    const char *q = strstr(c, "--monte_sync_port "); if (!q || atoi(q + 18) != 7000) bad("spawn", "wrong port: %s", c);
    w.s[i].ph = VSlave::SPAWNED; return 0; }
void __real_exit(int); void __wrap_exit(int c) { if (!inside) __real_exit(c); exit_code = c; leave(J_EXIT); }
}

struct Var : MV { int base, eof, n = 0; bool u; Var(const char *nm, int b, int e, bool un) : base(b), eof(e), u(un) { name = nm; unit = un ? "m" : ""; } std::string describe_variable() override { return "#NAME:\t\t" + name; }
    std::string get_next_value() override { if (eof >= 0 && n >= eof) return "EOF"; value = std::to_string(base + n++); return u ? name + " = trick.attach_units(\"m\", " + value + ")" : name + " = " + value; } };
enum { J_MINIT, J_MPRE, J_MPOST, J_MSHUT };
struct Obj : Trick::SimObject { int call_function(Trick::JobData *j) override { World &w = *W; switch (j->id) { case J_MINIT: w.initjobs++; return 0; case J_MPRE: return w.prejobs++ == w.c.prefail ? (w.thrown = true, 7) : 0;
        case J_MPOST: return w.postjobs++ == w.c.postfail ? (w.thrown = true, 9) : 0; case J_MSHUT: w.shutjobs++; w.shutting = true; return 0; } return 0; } double call_function_double(Trick::JobData *) override { return 0; } };

static string slurp(const string &f) { string r; FILE *p = fopen(f.c_str(), "r"); if (!p) return "<none>"; char b[4096]; size_t n; while ((n = fread(b, 1, sizeof b, p)) > 0) r.append(b, n); fclose(p); return r; }
static void fresh_dir() { dir = "/dev/shm/c25_" + std::to_string(getpid()); mkdir(dir.c_str(), 0775); }
static MonteCarlo *new_mc() { MonteCarlo *m = new MonteCarlo; m->run_data_file = m->run_header_file = 0; m->set_verbosity(loud() ? MonteCarlo::MC_ALL : (MonteCarlo::Verbosity)MonteCarlo::MC_ALL); m->set_enabled(true); return m; }
struct Guard { MonteCarlo *m; FILE *so = 0; FILE *keep = stdout; char *buf = 0; size_t n = 0; vector<Trick::JobData *> jobs; vector<MV *> vars; ~Guard() {
        if (so) { fclose(so); stdout = keep; } free(buf); W = 0; inside = false; if (m) { if (m->run_data_file) fclose(m->run_data_file); if (m->run_header_file) fclose(m->run_header_file); for (auto *s : m->slaves) delete s; for (auto *r : m->run_ranges) delete r; free(m->slaves_head); delete m; } for (auto *j : jobs) delete j; for (auto *v : vars) delete v;
        if (!dir.empty()) { for (auto f : {"/monte_runs", "/monte_header", "/run_summary"}) unlink((dir + f).c_str()); rmdir(dir.c_str()); } } };

static void run_master(Cfg c, bool dry = false) {
    fresh_dir(); World w; w.c = c; w.budget = c.budget; out_dir = dir; user_out = dir;
    Guard g; g.m = w.mc = new_mc(); static Obj o; MonteCarlo &m = *w.mc;
    m.slave_id = 0; m.set_max_tries(c.max); m.set_dry_run(dry);
    w.s.resize(c.ns); for (int i = 0; i < c.ns; i++) { m.add_slave(new MonteSlave(i ? "other" : "localhost")); if (i == 1) { m.slaves[1]->multiplier = c.mult; w.s[1].mult = c.mult; } }
    if (c.disabled) { m.disable_slave("other", true); w.s[1].stopped = true; }
    m.set_num_runs(c.nr); w.nrv = c.nr; w.r.resize(c.nr); for (auto &p : c.ranges) m.add_range(p.first, p.second);
    for (int k = 0; k < c.nr; k++) { w.r[k].in = c.ranges.empty(); for (auto &p : c.ranges) if (k >= p.first && k <= std::max(p.first, p.second)) w.r[k].in = true; if (c.eof >= 0 && k >= c.eof) { w.r[k].gone = true; } if (!w.r[k].in || w.r[k].gone) w.r[k].queued = false; }
    m.add_variable(*g.vars.insert(g.vars.end(), new Var("a", 100, -1, false))); m.add_variable(*g.vars.insert(g.vars.end(), new Var("b", 200, c.eof, true)));
    auto job = [&](int id, const char *cl, Trick::ScheduledJobQueue &q) { Trick::JobData *j = new Trick::JobData(0, id, cl, NULL, 0, cl); j->parent_object = &o; q.push_ignore_sim_object(j); g.jobs.push_back(j); };
    job(J_MINIT, "init", m.master_init_queue); job(J_MPRE, "pre", m.master_pre_queue); job(J_MPOST, "post", m.master_post_queue); job(J_MSHUT, "shutdown", m.master_shutdown_queue);
    g.so = open_memstream(&g.buf, &g.n); if (!loud()) stdout = g.so; W = &w; pending_ex = nullptr; exit_code = -999; volatile int how = 0; 
    bool ret = false;
    how = setjmp(out);
    if (!how) { inside = true; m.execute_monte(); ret = true; inside = false; }
    stdout = g.keep; W = &w;
    if (pending_ex) { auto e = pending_ex; pending_ex = nullptr; std::rethrow_exception(e); }
    if (how == J_STOP) { mc::outcome(mc::hv(77, w.resolved)); return; }
    if (ret) mc::fail("no-exit", "the master returns");
    if (w.conn_open) { how = setjmp(out); if (!how) delivered(); if (pending_ex) { auto e = pending_ex; pending_ex = nullptr; std::rethrow_exception(e); } }
    fflush(g.so); string so(g.buf, g.n); auto die = [&](const char *sig, const char *f, auto... a) { char b[3000]; snprintf(b, sizeof b, f, a...); mc::fail(string(sig), "%s (%s)", b, w.what.c_str()); };
    if (dry) return;
    int un = w.unresolved();
    if (!w.thrown && un && !w.all_lost()) die("early-end", "the campaign ends with %d runs unresolved, code %d", un, exit_code);
    int code = w.thrown ? (c.prefail >= 0 && w.prejobs > c.prefail ? 7 : 9) : !w.failed.empty() ? -2 : 0;
    if ((un || w.all_lost()) && !w.thrown) { if (un && exit_code == 0) die("exit-code", "the master reports success with %d runs unresolved", un); }
    else if (exit_code != code) die("exit-code", "the master exits with %d, should be %d", exit_code, code);
    if (w.initjobs != 1 || w.shutjobs != 1) die("jobs", "initialization jobs are called %d times, shutdown jobs %d times", w.initjobs, w.shutjobs);
    if (w.postjobs != w.posts) die("jobs", "post jobs are called %d times for %d finished runs", w.postjobs, w.posts);
    how = setjmp(out); if (!how) w.compare("at the end"); if (pending_ex) { auto e = pending_ex; pending_ex = nullptr; std::rethrow_exception(e); }
    for (int i = 0; i < c.ns; i++) { VSlave &v = w.s[i]; if (!v.dead && (v.ph == VSlave::IDLE || v.ph == VSlave::BUSY) && !v.shut) die("no-shutdown", "slave %d is not shut down", i + 1); }
    for (auto *x : m.failed_runs) if ((int)x->exit_status != w.r[x->id].status) die("status", "run %u has status %d", x->id, x->exit_status);
    for (auto *x : m.error_runs) if ((int)x->exit_status != w.r[x->id].status && w.r[x->id].status != -1) die("status", "run %u has status %d, should be %d", x->id, x->exit_status, w.r[x->id].status);
    for (auto *x : m.error_runs) if (w.r[x->id].status == -1 && (x->exit_status == MonteRun::MC_RUN_COMPLETE || x->exit_status == MonteRun::MC_RUN_INCOMPLETE || x->exit_status == MonteRun::MC_RUN_FAILED)) die("status", "run %u has status %d", x->id, x->exit_status);
    if (loud()) return;
    unsigned n = 0; size_t ok = 0, fl = 0, er = 0; unsigned rest = 0; const char *p = strstr(so.c_str(), "Monte Carlo complete");
    if (!p || sscanf(p, "Monte Carlo complete: %u runs (%zu successful) (%zu non-zero exit status) (%zu errors) (%u out", &n, &ok, &fl, &er, &rest) != 5) die("summary", "no summary in [%s]", so.c_str());
    int want = w.nrv; if (c.eof >= 0 && c.eof < want) { bool hit = m.num_runs == (unsigned)c.eof; if (hit) want = c.eof; }
    if ((int)n != want || ok != (size_t)w.resolved - w.failed.size() - w.errors.size() || fl != w.failed.size() || er != w.errors.size()) die("summary", "summary %u %zu %zu %zu %u, should be %d %zu %zu %zu", n, ok, fl, er, rest, want, (size_t)w.resolved - w.failed.size() - w.errors.size(), w.failed.size(), w.errors.size());
    if (slurp(dir + "/run_summary") != so) die("summary", "run_summary differs from the printed one: [%s]", slurp(dir + "/run_summary").c_str());
    for (int k : w.failed) { char b[64]; snprintf(b, 64, "\nRUN_%05d\n", k); if (so.find(b) == string::npos) die("summary", "run %d is not listed as failed", k); }
    for (int k : w.errors) { char b[64]; snprintf(b, 64, "\nRUN_%05d MonteRun", k); if (so.find(b) == string::npos) die("summary", "run %d is not listed as erroneous", k); }
    if (!m.runs.empty() && !w.thrown && !un) { for (auto *x : m.runs) if (x->id < w.r.size() && w.r[x->id].in && !w.r[x->id].gone) die("queue", "run %u is still queued at the end", x->id); }
    fflush(m.run_data_file); string d = slurp(dir + "/monte_runs"), e; size_t hd = d.find("# RUN"); hd = hd == string::npos ? string::npos : d.find('\n', hd); 
    int last = -1; for (int k = 0; k < (int)w.r.size(); k++) if (w.r[k].prepared) last = k;
    if (hd == string::npos) die("files", "no header in monte_runs [%s]", d.c_str());
    d = d.substr(hd + 1); for (int k = 0; k * 1 <= last; k++) { char b[64]; snprintf(b, 64, "%05d\t%d\t%d\n", k, 100 + k, 200 + k); e += b; }
    if (d.substr(0, e.size()) != e) die("files", "monte_runs has [%s], should start with [%s]", d.c_str(), e.c_str());
    for (size_t q = 0, k = 0; q < d.size(); k++) { if ((int)strtol(d.c_str() + q, 0, 10) != (int)k) die("files", "monte_runs has a line twice or misses one: [%s]", d.c_str()); q = d.find('\n', q); if (q == string::npos) break; q++; }
    mc::outcome(mc::hv(w.resolved, (int)w.failed.size(), (int)w.errors.size(), exit_code, w.iters) ^ mc::hash(so));
}
static void part_master() {
    Cfg c; c.ns = 1 + mc::choose(mc::thorough() ? 3 : 2, "slaves"); c.nr = 1 + mc::choose(3, "runs"); c.max = mc::choose(3, "max_tries");
    int rg = c.nr == 3 ? mc::choose(4, "ranges") : 0; if (rg == 1) c.ranges = {{1, 1}}; if (rg == 2) c.ranges = {{0, 0}, {2, 5}}; if (rg == 3) c.ranges = {{1, 2}, {2, 2}};
    if (c.ns > 1 && c.max == 1) c.mult = .5;
    int small = c.nr < 3 && c.ns == 1; c.budget = mc::thorough() ? (c.ns == 3 ? 2 : 3) + small : 2 + small; 
    run_master(c);
}
static void part_runs() {                  // the file of values ends early; the number of runs changes while running
    Cfg c; c.ns = 1 + mc::choose(2, "slaves"); c.nr = 2 + mc::choose(2, "runs"); c.max = mc::choose(2, "max_tries") * 2; c.budget = mc::thorough() ? 3 : 2;
    if (mc::flip("what")) { c.eof = mc::choose(c.nr + 1, "eof"); int rg = mc::choose(3, "ranges"); if (rg == 1) c.ranges = {{0, 1}}; if (rg == 2) c.ranges = {{1, 9}}; if (c.eof == c.nr) c.eof = c.nr; }
    else c.grow = true;
    run_master(c);
}
static void part_jobs() {                  // a job fails
    Cfg c; c.ns = 1 + mc::choose(2, "slaves"); c.nr = 1 + mc::choose(3, "runs"); c.budget = mc::thorough() ? 2 : 1; int k = mc::choose(c.nr, "call"); if (mc::flip("which")) c.prefail = k; else c.postfail = k;
    run_master(c);
}
// a child process that crashes after it has reported its run: the message of its parent is taken for the slave's next run
static void part_late() { Cfg c; c.ns = 1 + mc::choose(2, "slaves"); c.nr = 2 + mc::choose(2, "runs"); c.budget = 1; c.post_core = true;
    late_core = false; try { run_master(c); } catch (mc::Violation &v) { if (late_core) mc::fail("late-crash-report", "%s", v.msg.c_str()); throw; } }
static void part_disabled() { Cfg c; c.ns = 2; c.nr = 1 + mc::choose(3, "runs"); c.max = mc::choose(3, "max_tries"); c.disabled = true; c.budget = mc::thorough() ? 3 : 2; run_master(c); }

// ------------------------------------------------------------------ dry run
static void part_dry() {
    Cfg c; c.nr = mc::choose(4, "runs"); c.eof = mc::choose(c.nr + 2, "eof") - 1; int rg = mc::choose(4, "ranges"); if (rg == 1) c.ranges = {{1, 1}}; if (rg == 2) c.ranges = {{0, 0}, {2, 5}}; if (rg == 3) c.ranges = {{5, 9}};
    struct Rm { ~Rm() { for (int k = 0; k < 6; k++) { char b[64]; snprintf(b, 64, "/RUN_%05d", k); unlink((dir + b + "/monte_input").c_str()); rmdir((dir + b).c_str()); } rmdir(dir.c_str()); } } rm;
    run_master(c, true);
    if (exit_code != 0) mc::fail("dry-exit", "a dry run exits with %d", exit_code);
    for (int k = 0; k < 6; k++) {
        char b[64]; snprintf(b, 64, "/RUN_%05d", k); bool in = c.ranges.empty() && k < c.nr; for (auto &p : c.ranges) if (k < c.nr && k >= p.first && k <= p.second) in = true; if (c.eof >= 0 && k >= c.eof) in = false;
        string t = slurp(dir + b + "/monte_input"); bool have = access((dir + b).c_str(), F_OK) == 0;
        if (have != in) mc::fail("dry-runs", "run %d of %d (range %d, end of file at %d) is %s", k, c.nr, rg, c.eof, have ? "written" : "not written");
        if (!in) continue;
        char e[300]; snprintf(e, sizeof e, "trick.mc_set_enabled(0)\na = %d\nb = trick.attach_units(\"m\", %d)\ntrick.set_output_dir(\"%s%s\")\ntrick.mc_set_current_run(%d)\n", 100 + k, 200 + k, dir.c_str(), b, k);
        if (t.size() < strlen(e) || t.substr(t.size() - strlen(e)) != e || t.find("exec(open(\"" + infile + "\").read())") == string::npos) mc::fail("dry-input", "run %d is [%s], should end with [%s]", k, t.c_str(), e);
        mc::outcome(mc::hash(t));
    }
}

// ------------------------------------------------------------------ the slave
struct SWorld { vector<string> conns; size_t nc = 0; bool cfail = false; string in; size_t pos = 0; bool in_open = false, child = false; string outb; vector<string> sent; bool out_open = false; bool connfail = false; vector<int> ports; int forks = 0, fork_kind = 0, wait_status = 0, kills = 0, alarms = -1, parse_ret = 0, pre = 0, post = 0, shut = 0, init = 0; string parsed; vector<string> fre; bool mkdirfail = false; string during_post; MonteCarlo *mc; int prefail = 0; };
static SWorld *Z;
extern "C" {
int slave_accept(TCDevice *) { if (Z->nc >= Z->conns.size() || Z->conns[Z->nc] == "!") return TC_COULD_NOT_ACCEPT; Z->in = Z->conns[Z->nc++]; Z->pos = 0; Z->in_open = true; return TC_SUCCESS; }
int slave_connect(TCDevice *d) { Z->ports.push_back(d->port); if (Z->connfail) return TC_HOST_NOT_FOUND; Z->out_open = true; Z->outb.clear(); return TC_SUCCESS; }
int slave_read(char *b, int n) { int k = std::min(n, (int)(Z->in.size() - Z->pos)); memcpy(b, Z->in.data() + Z->pos, k); Z->pos += k; return k; }
int slave_write(const char *b, int n) { if (!Z->out_open) return -1; Z->outb.append(b, n); return n; }
void slave_disconnect() { if (Z->out_open) { Z->sent.push_back(Z->outb); Z->out_open = false; } Z->in_open = false; }
int ip_parse(const char *s) { if (Z) Z->parsed = s; return Z ? Z->parse_ret : 0; }
pid_t vt_fork(void) { Z->forks++; return Z->fork_kind == 0 ? 1234 : Z->fork_kind == 1 ? 0 : -1; }
pid_t vt_waitpid(pid_t p, int *st, int) { *st = Z->wait_status; return p; }
int vt_kill(pid_t, int) { if (Z) Z->kills++; return 0; }
unsigned vt_alarm(unsigned n) { Z->alarms = n; return 0; }
FILE *__wrap_freopen64(const char *f, const char *, FILE *s) { Z->fre.push_back(f); return s; }
FILE *__wrap_freopen(const char *f, const char *, FILE *s) { Z->fre.push_back(f); return s; }
int vt_sigaction(int, const void *, void *) { return 0; }
int vt_mkdir(const char *p, mode_t m) { if (Z && Z->mkdirfail) { errno = EACCES; return -1; } return mkdir(p, m); }
}
enum { K_INIT, K_PRE, K_POST, K_SHUT };
struct SObj : Trick::SimObject { int call_function(Trick::JobData *j) override { switch (j->id) { case K_INIT: Z->init++; return 0; case K_PRE: Z->pre++; return Z->prefail; case K_POST: Z->post++; Z->mc->write((char *)"more", 4); return 0; case K_SHUT: Z->shut++; return 0; } return 0; } double call_function_double(Trick::JobData *) override { return 0; } };
static string nb(int v) { uint32_t n = htonl(v); return string((char *)&n, 4); }
static void part_slave() {
    fresh_dir(); SWorld z; W = 0; Z = &z; user_out = ""; out_dir = dir + "/MONTE"; Guard g; g.m = z.mc = new_mc(); MonteCarlo &m = *g.m; static SObj o;
    struct End { ~End() { Z = 0; for (auto f : {"/MONTE/monte_input", "/R1/monte_input"}) unlink((dir + f).c_str()); rmdir((dir + "/MONTE").c_str()); rmdir((dir + "/R1").c_str()); } } en;
    m.slave_id = 3; m.master_port = 4567; m.machine_name = "me"; EX->except_return = 0;
    auto job = [&](int id, const char *cl, Trick::ScheduledJobQueue &q) { Trick::JobData *j = new Trick::JobData(0, id, cl, NULL, 0, cl); j->parent_object = &o; q.push_ignore_sim_object(j); g.jobs.push_back(j); };
    job(K_INIT, "init", m.slave_init_queue); job(K_PRE, "pre", m.slave_pre_queue); job(K_POST, "post", m.slave_post_queue); job(K_SHUT, "shut", m.slave_shutdown_queue);
    // the script
    static const char *IN[] = {"", "x = 1\n", "trick.set_output_dir(\"q\")\ny = \"%s\"\n"};
    int n = mc::choose(mc::thorough() ? 5 : 4, "commands"), what = mc::choose(9, "last"); string input = IN[mc::choose(3, "input")];
    int wk = mc::choose(5, "child"); z.wait_status = wk == 0 ? 0 : wk == 1 ? 3 << 8 : wk == 2 ? SIGSEGV | 0x80 : wk == 3 ? SIGALRM : SIGKILL; int timeout = mc::choose(2, "timeout") ? 7 : 120; m.set_timeout(timeout);
    string run = nb(MonteSlave::MC_PROCESS_RUN) + nb(input.size()) + input; bool initfail = false;
    for (int i = 0; i < n; i++) z.conns.push_back(run);
    bool isproc = false, ischild = false; int code = 0; bool shutjob = true;
    switch (what) { case 0: z.conns.push_back("!"); break; case 1: z.conns.push_back(nb(MonteSlave::MC_SHUTDOWN)); break; case 2: z.conns.push_back(nb(MonteSlave::MC_DIE)); code = 1; shutjob = false; break; case 3: z.conns.push_back(nb(77)); break;
        case 4: z.conns.push_back(run.substr(0, mc::choose(8, "cut"))); break; case 5: z.conns.push_back(nb(MonteSlave::MC_PROCESS_RUN) + nb(-5)); break; case 6: z.conns.push_back(nb(0) + nb(input.size() + 1) + input); break;
        case 7: z.conns.push_back(run); ischild = true; break; case 8: z.connfail = initfail = true; break; }
    int parse = 0, mk = 0, except = 0, pre = 0; if (ischild) { parse = mc::choose(2, "parse"); mk = mc::choose(3, "mkdir"); except = mc::choose(2, "except") * 5; pre = 0; }
    vector<int> at; int how = setjmp(out); bool ret = false; int r = 0;
    static bool phase2; if (!how) { phase2 = false; inside = true; exit_code = -999; m.slave_init();
        phase2 = true; if (ischild && n == 0) { z.fork_kind = 1; }
        if (ischild) { // the child is forked at the last command
            struct { } _; (void)_; }
        if (ischild && n > 0) { z.conns.pop_back(); z.conns.push_back("@"); }
        if (ischild && n > 0) { // run the first commands as the parent, then fork the child
            for (int i = 0; i < n; i++) { z.in = z.conns[z.nc++]; z.pos = 4; z.in_open = true; if (m.slave_process_run() != 0) { pending_ex = std::make_exception_ptr(mc::Violation{"slave", "the parent returns from a run"}); leave(J_EX); } }
            z.conns.back() = run; z.fork_kind = 1; }
        if (ischild) { z.parse_ret = parse; z.mkdirfail = mk == 2; out_dir = mk ? dir + "/R1" : dir; }
        r = m.execute_as_slave(); ret = true; inside = false; }
    if (pending_ex) { auto e = pending_ex; pending_ex = nullptr; std::rethrow_exception(e); }
    string hello = nb(3); { char h[300] = {}; gethostname(h, 299); hello += nb((int)strlen(h)) + h + nb(7000); }
    if (initfail) { if (ret || exit_code != -1) mc::fail("slave-init", "a slave that cannot reach its master exits with %d", exit_code); return; }
    if (z.init != 1) mc::fail("slave-jobs", "initialization jobs are called %d times", z.init);
    if (z.sent.empty() || z.sent[0] != hello) mc::fail("slave-hello", "the slave introduces itself with %zu bytes", z.sent.empty() ? 0 : z.sent[0].size());
    vector<string> want = {hello}; int st = wk == 3 ? MonteRun::MC_RUN_TIMED_OUT : MonteRun::MC_RUN_DUMPED_CORE; for (int i = 0; i < n; i++) if (wk >= 2) want.push_back(nb(3) + nb(st));
    if (z.forks != n + ischild) mc::fail("slave-runs", "%d processes are started for %d runs", z.forks, n + ischild);
    for (int p : z.ports) if (p != 4567) mc::fail("slave-port", "the slave connects to port %d", p);
    if (ischild) {
        if (z.parsed != input) mc::fail("slave-input", "the run gets [%s], should get [%s]", z.parsed.c_str(), input.c_str());
        if (parse || mk == 2) { want.push_back(nb(3) + nb(parse ? MonteRun::MC_PROBLEM_PARSING_INPUT : MonteRun::MC_CANT_CREATE_OUTPUT_DIR)); if (ret || exit_code == 0) mc::fail("slave-child", "a run that cannot start goes on"); }
        else {
            if (!ret || r == 0) mc::fail("slave-child", "the run does not start: exit code %d", exit_code);
            if (z.pre != 1 || z.alarms != timeout) mc::fail("slave-child", "pre run jobs are called %d times, the limit is %d s", z.pre, z.alarms);
            if (z.fre.size() != 2 || z.fre[0] != out_dir + "/stdout" || z.fre[1] != out_dir + "/stderr") mc::fail("slave-output", "output goes to %s", z.fre.empty() ? "nowhere" : z.fre[0].c_str());
            string t = slurp(out_dir + "/monte_input"); string e = "trick.mc_set_enabled(0)\n" + input; if (t.size() < e.size() || t.substr(t.size() - e.size()) != e || t.find("exec(open(\"" + infile + "\").read())") == string::npos) mc::fail("slave-monte-input", "monte_input is [%s]", t.c_str());
            unlink((out_dir + "/monte_input").c_str());
            z.out_open = false; EX->except_return = except; m.shutdown(); EX->except_return = 0;
            want.push_back(nb(3) + nb(except ? MonteRun::MC_RUN_FAILED : MonteRun::MC_RUN_COMPLETE) + "more"); if (z.post != 1) mc::fail("slave-jobs", "post run jobs are called %d times", z.post);
        }
    } else {
        if (ret || exit_code != code) mc::fail("slave-exit", "the slave %s with %d, should exit with %d", ret ? "returns" : "exits", exit_code, code);
        if (z.shut != (shutjob ? 1 : 0)) mc::fail("slave-jobs", "shutdown jobs are called %d times", z.shut);
    }
    if (z.sent != want) mc::fail("slave-report", "%zu messages are sent to the master, should be %zu (runs %d, child status %#x, last %d, parse %d, mkdir %d)", z.sent.size(), want.size(), n, z.wait_status, what, parse, mk);
    mc::outcome(mc::hv(n, what, wk, exit_code, ret)); mc::step(n + 1);
}
static void part_args() {
    static const char *A[] = {"--monte_host", "--monte_sync_port", "--monte_client_id", "-O", "h1", "17"};
    int n = mc::choose(mc::thorough() ? 8 : 6, "n"); vector<string> a = {"S_main", "input.py"}; for (int i = 0; i < n; i++) a.push_back(A[mc::choose(6, "arg")]);
    args.clear(); for (auto &x : a) args.push_back((char *)x.c_str()); args.push_back(0); 
    struct End { ~End() { args.clear(); } } en; Guard g; g.m = new_mc(); dir = ""; MonteCarlo &m = *g.m; m.master_port = 1; args.pop_back(); vector<char *> keep = args; args.push_back(0); args.resize(a.size()); args.reserve(a.size() + 1); args.data()[a.size()] = 0;
    string host; unsigned port = 1, id = 0; for (size_t i = 2; i < a.size(); i++) { if (i + 1 >= a.size()) break; if (a[i] == "--monte_host") host = a[++i]; else if (a[i] == "--monte_sync_port") { unsigned v; if (sscanf(a[++i].c_str(), "%u", &v) == 1) port = v; } else if (a[i] == "--monte_client_id") { unsigned v; if (sscanf(a[++i].c_str(), "%u", &v) == 1) id = v; } }
    m.connection_device.hostname = 0; m.process_sim_args();
    string h = m.connection_device.hostname ? m.connection_device.hostname : ""; 
    if (h != host || m.master_port != port || m.slave_id != id) mc::fail("arguments", "host %s port %u id %u, should be %s %u %u", h.c_str(), m.master_port, m.slave_id, host.c_str(), port, id);
    if (m.is_slave() != (id != 0) || m.is_master() == m.is_slave()) mc::fail("arguments", "neither master nor slave"); free(m.connection_device.hostname); m.connection_device.hostname = 0; mc::outcome(mc::hv(port, id)); mc::step(1);
}
// ------------------------------------------------------------------ variables
static string val(MV &v) { return v.get_next_value(); }
static bool parse(const string &s, const char *unit, string &num) { string p = string("v = "); if (s.compare(0, 4, p)) return false; num = s.substr(4); if (*unit) { string q = string("trick.attach_units(\"") + unit + "\", "; if (num.compare(0, q.size(), q) || num.back() != ')') return false; num = num.substr(q.size(), num.size() - q.size() - 1); } return true; }
template <class T> static void put_ref(T v, int type, T *store) { *store = v; memset(&the_ref, 0, sizeof the_ref); memset(&the_attr, 0, sizeof the_attr); the_attr.type = (TRICK_TYPE)type; the_attr.size = sizeof(T); the_ref.attr = &the_attr; the_ref.address = (char *)store; }
template <class T> static void calc(T v, int type, const char *unit) {
    static union { T t; char pad[16]; } store; memset(&store, 0xa5, sizeof store); put_ref(v, type, &store.t); have_ref = true; Trick::MonteVarCalculated c("v", unit); string s = val(c), num; have_ref = false;
    if (!parse(s, unit, num)) mc::fail("calculated", "type %d gives [%s]", type, s.c_str());
    if (std::is_floating_point<T>::value) { char b[64]; snprintf(b, 64, sizeof(T) == 4 ? "%.9g" : "%.15g", (double)v); double d = strtod(num.c_str(), 0); if (!(fabs(d - (double)v) <= 1e-14 * fabs((double)v))) mc::fail("calculated", "%s is written as %s", b, num.c_str()); }
    else { string e = std::to_string((typename std::conditional<std::is_floating_point<T>::value, int, T>::type)v); if (num != e) mc::fail("calculated", "%s of type %d is written as %s", e.c_str(), type, num.c_str()); }
    mc::outcome(mc::hash(s)); mc::step(1);
}
template <class T> static T lim(int k) { typedef std::numeric_limits<T> L; switch (k) { case 0: return 0; case 1: return 1; case 2: return std::is_floating_point<T>::value ? L::max() / 2 : L::max(); case 3: return std::is_floating_point<T>::value ? L::lowest() / 2 : L::lowest(); case 4: return (T)(L::max() / 2 + 1); case 5: return (T)-1; default: return (T)(1.0 / 3 + 100); } }
static void part_vars() {
    static const char *U[] = {"", "m/s"}; const char *u = U[mc::choose(2, "unit")];
    switch (mc::choose(3, "kind")) {
    case 0: { int k = mc::choose(7, "value"); switch (mc::choose(12, "type")) { case 0: calc<char>(lim<char>(k), TRICK_CHARACTER, u); break; case 1: calc<unsigned char>(lim<unsigned char>(k), TRICK_UNSIGNED_CHARACTER, u); break; case 2: calc<short>(lim<short>(k), TRICK_SHORT, u); break; case 3: calc<unsigned short>(lim<unsigned short>(k), TRICK_UNSIGNED_SHORT, u); break;
            case 4: calc<int>(lim<int>(k), TRICK_INTEGER, u); break; case 5: calc<unsigned>(lim<unsigned>(k), TRICK_UNSIGNED_INTEGER, u); break; case 6: calc<long>(lim<long>(k), TRICK_LONG, u); break; case 7: calc<unsigned long>(lim<unsigned long>(k), TRICK_UNSIGNED_LONG, u); break; case 8: calc<long long>(lim<long long>(k), TRICK_LONG_LONG, u); break; case 9: calc<unsigned long long>(lim<unsigned long long>(k), TRICK_UNSIGNED_LONG_LONG, u); break;
            case 10: calc<float>(lim<float>(k), TRICK_FLOAT, u); break; case 11: calc<double>(lim<double>(k), TRICK_DOUBLE, u); break; } break; }
    case 1: { static const double V[] = {0, -0., 1, -1, .1, 1e300, 1e-300, 123456789012345, 1. / 3, 2.5e-7, -17.25, 1e15}; double x = V[mc::choose(12, "value")]; Trick::MonteVarFixed f("v", 99, u); bool set = mc::flip("set"); if (set) f.set_value(x); else { f.~MonteVarFixed(); new (&f) Trick::MonteVarFixed("v", x, u); }
        for (int i = 0; i < 2; i++) { string s = val(f), num; if (!parse(s, u, num) || fabs(strtod(num.c_str(), 0) - x) > 1e-14 * fabs(x)) mc::fail("fixed", "%.17g is written as %s", x, s.c_str()); } mc::step(2); break; }
    case 2: {          // values of a column of a file, line by line
        static const char *L[] = {"1 2.5 x7", "-3\t4e5  \"q\"", "# 9 9 9", "", "  6\t \t7 8", "10 11 12 "}; fresh_dir(); string f = dir + "/vals"; struct End { string f; ~End() { unlink(f.c_str()); rmdir(dir.c_str()); } } en{f};
        int n = mc::choose(mc::thorough() ? 5 : 4, "lines"); string t; vector<vector<string>> rows; for (int i = 0; i < n; i++) { int k = mc::choose(6, "line"); t += L[k]; if (i + 1 < n || !mc::flip("open end")) t += "\n";
            vector<string> row; if (k != 2 && k != 3) { string w; for (const char *p = L[k]; ; p++) { if (*p == ' ' || *p == '\t' || !*p) { if (!w.empty()) row.push_back(w); w.clear(); if (!*p) break; } else w += *p; } rows.push_back(row); } }
        FILE *p = fopen(f.c_str(), "w"); fwrite(t.data(), 1, t.size(), p); fclose(p); int col = 1 + mc::choose(3, "column"); Trick::MonteVarFile v("v", f, col, u);
        for (size_t i = 0; i < rows.size() + 2; i++) { string s = val(v), num; if (i >= rows.size()) { if (s != "EOF") mc::fail("file", "after %zu values column %d of [%s] gives [%s]", rows.size(), col, t.c_str(), s.c_str()); continue; }
            if (!parse(s, u, num) || num != rows[i][col - 1]) mc::fail("file", "value %zu of column %d of [%s] is [%s], should be %s", i, col, t.c_str(), s.c_str(), rows[i][col - 1].c_str()); if (v.value != rows[i][col - 1]) mc::fail("file", "value is %s", v.value.c_str()); mc::step(1); }
        mc::outcome(mc::hash(t)); break; }
    }
}
int main(int c, char **v) {
    stderr = loud() ? stderr : fopen("/dev/null", "w"); EX = new Trick::Executive; 
    mc::Options o; o.split = 8; o.timeout_s = 20;
    return mc::run(c, v, o, [] { switch (mc::choose(9, "part")) { case 0: part_master(); break; case 1: part_runs(); break; case 2: part_jobs(); break; case 3: part_disabled(); break; case 4: part_dry(); break; case 5: part_slave(); break; case 6: part_args(); break; case 7: part_vars(); break; case 8: part_late(); break; } });
}
