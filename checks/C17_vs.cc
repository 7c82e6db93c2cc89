// C17: real variable server session threads and the simulation thread under the controlled scheduler.
#define MC_MAIN
#define SCHED_MEMCPY
#include "mc.hh"
#include "sched.hh"
#include <iostream>
#include <sstream>
#include <cmath>
#include "trick/MemoryManager.hh"
#include "trick/memorymanager_c_intf.h"
#include "trick/ClientConnection.hh"
#include "trick/JobData.hh"
#include "trick/TrickConstant.hh"
#include "trick/VariableServer.hh"
#include "trick/UnitsMap.hh"
#include "trick/UdUnits.hh"
#include "trick/ExecutiveException.hh"
#include "trick/variable_server_proto.h"
#include "trick/sim_mode.h"
typedef long long ll;
int var_add(std::string); int var_units(std::string, std::string); int var_remove(std::string); int var_clear(); int var_send(); int var_send_once(std::string, int); int var_pause(); int var_unpause(); int var_exit(); int var_validate_address(int); int var_sync(int); int var_set_copy_mode(int); int var_set_write_mode(int); int var_binary(); int var_ascii(); int var_exists(std::string); int var_cycle(double);
struct Cl; struct Rec { int thread; double time; std::map<std::string, double> v; };
struct Cfg { std::vector<std::vector<std::string>> scripts; int frames, suspend, fail_at; bool freeze, early; std::string name; Cfg() : frames(2), suspend(0), fail_at(-1), freeze(false), early(false) {} };
static Cfg C; static ll now_tics, freeze_tics; static int frame_no; static double *A, *B; static const char *staleA, *staleB; static bool suspended; static std::map<int, Rec> cur; static std::vector<Rec> recs; static int realtime = 1; static std::string hist;
#define BAD(sig, ...) do { char _b[600]; snprintf(_b, 600, __VA_ARGS__); sched::fail(sig, "%s; %s;%s", _b, C.name.c_str(), hist.c_str()); } while (0)
static void H(const char *f, ...) { char b[100]; va_list a; va_start(a, f); vsnprintf(b, 100, f, a); va_end(a); hist += b; }
struct Conn : Trick::ClientConnection {
    int id = 0; std::vector<std::string> script; size_t next = 0; std::vector<std::string> lists; std::string list; bool ms = false; int n = 0, main_n = 0, sends = 0, once = 0, replies = 0, onces = 0; bool gone = false, closed = false, paused = false; int mode = 0; std::string last; bool done_flag = false; bool started = false, slow = false; double last_time = -1; int steady_from = 0;
    int start() override { sched::point("start"); started = true; return 0; }
    int write(const std::string &m) override { sched::point("send"); if (closed) BAD("a message for a closed connection", "client %d", id); if (n++ == C.fail_at) { gone = true; return -1; } if (gone) return -1; message(m); return m.size(); }
    int write(char *m, int s) override { return write(std::string(m, s)); }
    int read(std::string &s, int) override { sched::point("receive"); if (closed) BAD("reading from a closed connection", "client %d", id); if (gone) return -1; if (next >= script.size()) { done_flag = true; return 0; } s = script[next++]; return s.size(); }
    int setBlockMode(bool) override { return 0; } int disconnect() override { closed = true; return 0; } bool isInitialized() override { return true; } int restart() override { return 0; } std::string getClientTag() override { return "t"; } int setClientTag(std::string) override { return 0; } std::string getClientHostname() override { return "h"; } int getClientPort() override { return 1; }
    void message(const std::string &m) {
        last = m; int type = atoi(m.c_str()); std::string t = m; if (suspended && type == 0) BAD("a message while suspended", "client %d", id); if (t.empty() || t.back() != '\n') BAD("a message is not complete", "client %d: %s", id, m.c_str()); t.pop_back(); H(" [%d:%s", id, t.c_str()); H("]"); if (sched::self() == 0) main_n++; 
        if (type == 4 || (type != 0 && type != 5)) { if (type != 1) BAD("an unexpected message", "client %d: %s", id, m.c_str()); return; }
        std::vector<double> f; size_t p = t.find('\t'); while (p != std::string::npos) { char *e; double d = strtod(t.c_str() + p + 1, &e); if (*e != '\t' && *e != 0 && *e != ' ') BAD("a value is not a number", "client %d: %s", id, m.c_str()); f.push_back(d); p = t.find('\t', p + 1); }
        if (type == 5) { onces++; check(f, "ab", m); return; } replies++; for (auto &l : lists) if (l.size() == f.size() && matches(f, l)) return; BAD("a message mixes samples or lists", "client %d: %s", id, m.c_str());
    }
    bool matches(const std::vector<double> &f, const std::string &l) { for (auto &r : recs) { bool ok = true; for (size_t i = 0; ok && i < f.size(); i++) { if (l[i] == 't') { double w = r.time; ok = f[i] == w || (ms && std::fabs(f[i] - w * 1000) < 1e-6); last_time = r.time; } else { auto k = r.v.find(std::string(1, l[i])); ok = k != r.v.end() && f[i] == k->second; } } if (ok) return true; } return false; }
    void check(const std::vector<double> &f, const std::string &l, const std::string &m) { if (f.size() != l.size() || !matches(f, l)) BAD("a message mixes samples or lists", "client %d: %s", id, m.c_str()); }
};
static std::map<int, Conn *> byt; static std::vector<Conn *> conns; static Trick::VariableServer *vs;
static void on_copy(const void *s, size_t) {
    if (s == staleA || s == staleB) BAD("a variable which was removed is read", "by thread %d", sched::self()); if (sched::self() && suspended) BAD("simulation data is touched while it is suspended", "by thread %d", sched::self());
    Rec &r = cur[sched::self()]; if (s == A) r.v["a"] = *A; if (s == B) r.v["b"] = *B; recs.push_back(r);
}
extern "C" {
static std::string giving_up; int message_publish(int, const char *f, ...) { if (strstr(f, "giving up")) giving_up = f; return 0; }
long long exec_get_time_tics() { Rec r; r.thread = sched::self(); r.time = now_tics / 1000.0; cur[r.thread] = r; recs.push_back(r); return now_tics; }
int exec_get_time_tic_value() { return 1000; } long long exec_get_freeze_time_tics() { return freeze_tics; } long long exec_get_frame_count() { return frame_no; } long long exec_get_freeze_frame_count() { return frame_no; } double exec_get_sim_time() { return now_tics / 1000.0; } int is_real_time() { return realtime; }
void sie_class_attr_map_print_xml() {} void sie_enum_attr_map_print_xml() {} void sie_top_level_objects_print_xml() {} const char *sie_get_runtime_sie_dir() { return ""; } void sie_append_runtime_objs() {}
const char *exec_get_current_version() { return ""; } SIM_MODE exec_get_mode() { return Run; } const char *command_line_args_get_input_file() { return ""; } const char *command_line_args_get_cmdline_name() { return ""; } const char *command_line_args_get_default_dir() { return ""; } static int terminates; void exec_signal_terminate() { terminates++; }
int ip_parse(const char *s) {
    if (suspended) BAD("a command runs while the simulation has clients suspended", "%s", s); Conn *c = byt[sched::self()]; if (!c) BAD("harness", "no client for thread %d", sched::self()); H(" %d:%s", c->id, s); auto L = [&](std::string l) { c->list = l; c->lists.push_back(l); };
    for (; *s; s++) { std::string l = c->list; size_t p;
        switch (*s) {
        case 'a': c->lists.push_back(l + "a"); var_add("A"); L(l + "a"); break; case 'b': c->lists.push_back(l + "b"); var_add("B"); L(l + "b"); break; case 't': c->lists.push_back(l + "t"); var_add("time"); L(l + "t"); break;
        case 'A': p = l.find('a'); if (p != std::string::npos) l.erase(p, 1); c->lists.push_back(l); var_remove("A"); L(l); break; case 'C': var_clear(); L(""); break; case 'u': c->ms = true; var_units("time", "ms"); break;
        case 's': if (!l.empty()) c->sends++; var_send(); break; case 'o': c->once++; var_send_once("A,B", 2); break; case 'p': var_pause(); c->paused = true; break; case 'P': var_unpause(); c->paused = false; break; case 'v': var_validate_address(1); break; case 'e': var_exists("A"); break;
        case '0': case '1': case '2': var_sync(*s - '0'); c->mode = *s - '0'; break; case '3': var_set_copy_mode(2); var_set_write_mode(1); c->mode = 3; break; case '4': var_set_copy_mode(2); var_set_write_mode(0); c->mode = 4; break;
        case 'w': var_cycle(0.3); c->slow = true; break; case 'x': var_exit(); c->done_flag = true; c->mode = 0; break; case 'X': throw Trick::ExecutiveException(1, "f", 1, "client terminates"); default: BAD("harness", "command %c", *s); }
        sched::point("between commands"); }
    return 0;
}
}
int open_custom_message_file(std::string, std::string, int) { return 0; }
static Trick::MemoryManager *mm;
static void declare() { A = (double *)mm->declare_var("double A"); B = (double *)mm->declare_var("double B"); *A = *B = frame_no; sched::watch(A, 8); sched::watch(B, 8); }
static void body() {
    now_tics = freeze_tics = 0; frame_no = 0; suspended = false; staleA = staleB = 0; declare(); vs = new Trick::VariableServer; vs->enabled = true; vs->allow_connections = true; vs->bypass_ip_check = true; vs->log = vs->session_log = false; Trick::JobData *job = new Trick::JobData, *fjob = new Trick::JobData; job->next_tics = fjob->next_tics = TRICK_MAX_LONG_LONG; vs->set_copy_data_job(job); vs->set_copy_and_write_freeze_job(fjob); sched::watch(&job->next_tics, 8); Trick::VariableServerSessionThread::set_vs_ptr(vs);
    std::vector<Trick::VariableServerSessionThread *> th; for (size_t i = 0; i < C.scripts.size(); i++) { Conn *c = new Conn; c->id = i; c->script = C.scripts[i]; c->lists.push_back(""); conns.push_back(c); Trick::VariableServerSessionThread *t = new Trick::VariableServerSessionThread; th.push_back(t); t->set_connection(c); byt[sched::G.t.size()] = c; t->create_thread(); if (t->wait_for_accept() != Trick::CONNECTION_SUCCESS) BAD("connection refused", "client %d", (int)i); if (C.early) break; }
    for (int k = 1; k <= C.frames; k++) {
        frame_no = k; now_tics = k * 100; H(" F%d", k); std::vector<char> steady; std::vector<int> had; for (auto c : conns) { steady.push_back(c->done_flag && !c->gone && !c->paused && !c->list.empty()); had.push_back(c->main_n); if (!steady.back()) c->steady_from = 0; else if (!c->steady_from) c->steady_from = k; }
        if (job->next_tics < now_tics) {} vs->copy_and_write_top(); for (size_t i = 0; i < conns.size(); i++) if (steady[i] && conns[i]->mode == 3 && conns[i]->main_n != had[i] + 1 && !conns[i]->gone) BAD("a client is not sent its values at the top of the frame", "client %d frame %d: %d messages", (int)i, k, conns[i]->main_n - had[i]);
        if (C.suspend == k) {
            vs->suspendPreCheckpointReload(); suspended = true; H(" suspended"); sched::point("suspended"); double *a = A, *b = B; staleA = (char *)a; staleB = (char *)b; double *hold = new double[8]; mm->delete_var((void *)a); mm->delete_var((void *)b); sched::point("reload"); A = (double *)mm->declare_var("double A"); B = (double *)mm->declare_var("double B"); delete[] hold; if ((char *)A == staleA || (char *)B == staleA) staleA = 0; if ((char *)B == staleB || (char *)A == staleB) staleB = 0; sched::watch(A, 8); sched::watch(B, 8); *A = *B = k - 1; sched::point("reloaded"); H(" resumed"); suspended = false; vs->resumePostCheckpointReload();
        }
        *A = k; sched::point("simulation"); *B = k;
        if (job->next_tics == now_tics) { vs->copy_and_write_scheduled(); } for (size_t i = 0; i < conns.size(); i++) if (steady[i] && conns[i]->mode == 2 && !conns[i]->slow && conns[i]->main_n != had[i] + 1 && !conns[i]->gone && k > 1) BAD("a client is not sent its scheduled values", "client %d frame %d: %d messages, next call %lld", (int)i, k, conns[i]->main_n - had[i], (ll)job->next_tics);
        if (C.freeze && k == 1) { vs->freeze_init(); freeze_tics = 0; for (int q = 1; q <= 2; q++) { freeze_tics = q * 100; vs->copy_and_write_freeze(); if (fjob->next_tics == freeze_tics) vs->copy_and_write_freeze_scheduled(); usleep(100000); } }
        usleep(100000);
    }
    usleep(350000); for (auto c : conns) if (c->done_flag && !c->gone && !c->paused && !c->list.empty() && (c->mode == 1 || c->mode == 4) && c->steady_from && c->steady_from < C.frames && c->replies == 0) BAD("a client never gets its values", "client %d", c->id);
    vs->shutdown(); Trick::SysThread::ensureAllShutdown(); if (!giving_up.empty()) BAD("session threads did not stop", "%s", giving_up.c_str()); for (size_t i = 1; i < sched::G.t.size(); i++) if (sched::G.t[i]->st != sched::DONE) BAD("a thread is left", "%d", (int)i);
    for (auto c : conns) { if (!c->closed) BAD("a connection is left open", "client %d", c->id); if (!c->gone && c->onces != c->once) BAD("a request was not answered", "client %d: %d of %d send-once", c->id, c->onces, c->once); if (!c->gone && c->mode == 0 && c->replies < c->sends) BAD("a request was not answered", "client %d: %d of %d", c->id, c->replies, c->sends); }
    delete job; delete fjob; for (auto t : th) delete t; delete vs; mm->delete_var((void *)A); mm->delete_var((void *)B);
}
static Cfg config(int k) {
    Cfg c; auto one = [&](std::vector<std::string> s) { c.scripts = {s}; }; auto two = [&](std::vector<std::string> s, std::vector<std::string> t) { c.scripts = {s, t}; };
    switch (k) {
    case 0: one({"abt3", "C", "ba"}); break;
    case 1: one({"abt2", "A", "a"}); break;
    case 2: one({"3ab", "s", "s"}); break;
    case 3: one({"abt3", "u", "os"}); break;
    case 4: one({"ab1t", "C", "tb"}); c.frames = 3; break;
    case 5: one({"p", "ab", "ss"}); break;
    case 6: one({"abt4", "x"}); break;
    case 7: one({"ab3", "e", "s"}); c.suspend = 1; break;
    case 8: one({"abt2", "A"}); c.suspend = 2; break;
    case 9: one({"ab", "x"}); c.suspend = 1; break;
    case 10: two({"ab2"}, {"ab2", "0"}); c.frames = 3; break;
    case 11: two({"ab3", "x"}, {"bt3"}); break;
    case 12: one({"ab2"}); c.freeze = true; c.frames = 1; break;
    case 13: one({"ab3", "X"}); break;
    case 14: one({"abt3"}); c.fail_at = 0; c.frames = 3; break;
    case 15: two({"ab2"}, {"e", "ab2", "3"}); break;
    case 16: one({"ab0"}); break;
    case 17: two({"ab3"}, {"e", "x"}); c.suspend = 1; break;
    case 18: two({"wab2"}, {"e", "e", "ab2"}); c.frames = 5; break;
    }
    c.name = "config " + std::to_string(k); return c;
}
enum { KINDS = 19 };
static void explore() {
    static bool once = false; if (!once) { once = true; mm = new Trick::MemoryManager; static struct NB : std::streambuf { int overflow(int c) override { return c; } } nb; if (!getenv("MM_LOUD")) { std::cout.rdbuf(&nb); std::cerr.rdbuf(&nb); stderr = fopen("/dev/null", "w"); } 
        sched::point_fn(&Trick::VariableReference::prepareForWrite, "prepareForWrite"); sched::point_fn(&Trick::VariableReference::writeValueAscii, "writeValueAscii"); sched::point_fn(&Trick::VariableReference::setRequestedUnits, "setRequestedUnits"); }
    int kind = mc::choose(KINDS, "configuration"); C = config(kind); static const bool deep[KINDS] = {0,0,1,0,0,0,1,0,0,1,0,0,1,1,1,0,0,0}; int budget = mc::thorough() ? (kind < 10 || kind == 12 || kind == 13 || kind == 14 || kind == 16 ? 2 + deep[kind] * (kind != 2 && kind != 12) : 2) : 1 + deep[kind]; static const char *only = getenv("C17_ONLY"); if (only && atoi(only) != kind) return;
    hist.clear(); recs.clear(); cur.clear(); byt.clear(); for (auto c : conns) delete c; conns.clear(); giving_up.clear(); terminates = 0; if (A && mm->var_exists("A")) { mm->delete_var("A"); mm->delete_var("B"); } Trick::SysThread::all_sys_threads().clear(); Trick::SysThread::shutdown_finished = false; pthread_mutex_init(&Trick::SysThread::list_mutex(), 0);
    sched::G.on_copy = on_copy; sched::G.spurious_left = 1; auto r = sched::run(budget, body); if (r.exited) BAD("the program exited", "%d", r.code); mc::state(mc::hv(kind, std::hash<std::string>()(hist))); mc::outcome(mc::hv(kind, recs.size()));
}
int main(int c, char **v) { static Trick::UnitsMap *um = Trick::UnitsMap::units_map(); (void)um; static Trick::UdUnits uds; uds.read_default_xml(); mc::Options o; o.split = 4; o.timeout_s = 20; return mc::run(c, v, o, explore); }
