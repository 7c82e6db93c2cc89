// C04: the real executive with child threads under the controlled scheduler.
#define MC_MAIN
#include "exec_world.hh"
#include "sched.hh"
using namespace ew;
struct TJ { int thread; const char *cls; double cycle, start, stop; int phase; std::vector<int> deps; TJ(int t, double c = 1, double s = 0, double p = 1e37, int ph = 60000, const char *k = "scheduled") : thread(t), cls(k), cycle(c), start(s), stop(p), phase(ph) {} TJ &on(int d) { deps.push_back(d); return *this; } };
enum { SYNC = 0, ASYNC = 1, AMF = 2 };
struct TT { int type; double cyc; int trig; bool wait; TT(int t = SYNC, double c = 0, int tr = 0, bool w = false) : type(t), cyc(c), trig(tr), wait(w) {} };
struct Cfg { std::vector<TJ> jobs; std::vector<TT> th; double frame, T; bool nap; double freeze; int off_thread; double off_at, on_at; std::string name; Cfg() : frame(1), T(2), nap(true), freeze(-1), off_thread(0), off_at(-1), on_at(-1) {} };
struct E { int job; ll t; int begin, end; int thread; };   // begin/end: positions in the global order of events
static Cfg C; static Trick::Executive *X; static std::vector<E> ev; static int clockpos; static bool frozen, ended; static int freezes; static std::vector<std::pair<ll, int>> adv; static std::vector<std::pair<int, int>> frz; // main's time changes, freeze spans
static ll tt(double s) { return s > 1e12 ? MAXT : (ll)llround(s * 1000000); }
static std::string showev() { std::string s; char b[80]; for (auto &e : ev) { snprintf(b, 80, " %d..%d:j%d(T%d)@%lld", e.begin, e.end, e.job, e.thread, e.t); s += b; } return s; }
#define BAD(sig, ...) do { char _b[300]; snprintf(_b, 300, __VA_ARGS__); sched::fail(sig, "%s; %s; calls%s", _b, C.name.c_str(), showev().c_str()); } while (0)
struct TObj : public Trick::SimObject { int call_function(Trick::JobData *j); double call_function_double(Trick::JobData *) { return 0; } };
int TObj::call_function(Trick::JobData *j) {
    if (j->id < 100) { if (ev.size() > 400) BAD("too many calls", "more than 400 calls"); size_t k = ev.size(); ev.push_back(E{j->id, X->get_time_tics(), clockpos++, -1, (int)sched::self()}); if (X->get_sim_time() != (double)ev[k].t / 1000000) BAD("a job sees a wrong time", "job %d", j->id); sched::point("in a job"); ev[k].end = clockpos++; if (X->get_time_tics() != ev[k].t) BAD("the time changed while a job ran", "job %d", j->id); return 0; }
    switch (j->id) { case 100: return X->get_freeze_job("sys.sched"); case 101: return X->create_threads(); case 102: return X->async_freeze_to_exec_command(); case 103: return X->sched_freeze_to_exec_command(false); case 104: return X->sched_freeze_to_exec_command(true); case 105: return X->async_freeze_to_exec_command(); case 106: frozen = true; frz.push_back({clockpos++, -1}); return X->init_freeze_scheduled();
    case 107: { int r = X->advance_sim_time(); adv.push_back({X->time_tics, clockpos++}); return r; }
    case 108: return X->thread_sync(); case 109: { ll t = X->get_time_tics(); if (C.off_thread) { if (t == tt(C.off_at)) X->set_thread_enabled(C.off_thread, false); if (t == tt(C.on_at)) X->set_thread_enabled(C.off_thread, true); } return 0; }
    case 110: X->run(); return 0; case 111: frozen = false; frz.back().second = clockpos++; freezes++; return 0; case 112: ended = true; return 0; case 113: if (C.freeze >= 0) X->freeze(C.freeze); return 0; }
    return 0;
}
static bool due(const TJ &j, ll t) { ll s = tt(j.start), c = tt(j.cycle); return t >= s && (t - s) % c == 0 && t <= tt(j.stop); }
static void check() {
    int n = C.jobs.size(); ll T = tt(C.T); auto opened = [&](ll t) { if (!t) return 0; for (auto &a : adv) if (a.first == t) return a.second; return 1 << 30; }; auto closed = [&](ll t) { for (auto &a : adv) if (a.first > t) return a.second; return 1 << 30; };
    ll prev = -1; for (auto &a : adv) { if (a.first < prev) BAD("time went back", "from %lld to %lld", prev, a.first); prev = a.first; }
    // order of jobs within a thread
    std::vector<std::vector<int>> byth(C.th.size()); for (int i = 0; i < n; i++) byth[C.jobs[i].thread].push_back(i); for (auto &v : byth) std::stable_sort(v.begin(), v.end(), [&](int a, int b) { int x = cls_index(C.jobs[a].cls), y = cls_index(C.jobs[b].cls); return x != y ? x < y : C.jobs[a].phase < C.jobs[b].phase; });
    for (size_t th = 0; th < C.th.size(); th++) {
        std::vector<std::pair<int, ll>> want, got; std::vector<const E *> ge; for (auto &e : ev) if (C.jobs[e.job].thread == (int)th) { if (e.thread != (int)th) BAD("a job ran on another thread", "job %d on thread %d", e.job, e.thread); got.push_back({e.job, e.t}); ge.push_back(&e); }
        for (size_t i = 1; i < ge.size(); i++) if (ge[i]->begin < ge[i - 1]->end || ge[i - 1]->end < 0) BAD("two jobs of a thread overlap", "thread %d", (int)th);
        int type = C.th[th].type; bool off = C.off_thread > 0 && C.off_thread == (int)th; if (type == ASYNC && C.th[th].cyc == 0) { // whole passes of all its jobs, at the time of the start
            for (size_t i = 0; i < got.size(); i++) { if (got[i].first != byth[th][i % byth[th].size()]) BAD("jobs of an asynchronous thread out of order", "thread %d call %d", (int)th, (int)i); if (i % byth[th].size() && got[i].second != got[i - 1].second) BAD("the time of an asynchronous thread changed during its pass", "thread %d", (int)th); if (ge[i]->begin < opened(got[i].second)) BAD("a thread runs before the time it has", "thread %d", (int)th); } continue; }
        // times at which jobs are due; a job at the termination time runs on synchronous threads only if the main thread gets there, which it does
        for (ll t = 0; t <= T; t += 1000) for (int j : byth[th]) if (due(C.jobs[j], t)) { if (off && t >= tt(C.off_at) && (C.on_at < 0 || t < tt(C.on_at))) continue; want.push_back({j, t}); }
        if (type == SYNC) { if (got != want) { size_t i = 0; while (i < got.size() && i < want.size() && got[i] == want[i]) i++; BAD("calls of a thread differ", "thread %d call %d: got %s", (int)th, (int)i, i < got.size() ? ("j" + std::to_string(got[i].first) + "@" + std::to_string(got[i].second)).c_str() : "nothing"); }
            for (auto *e : ge) { if (e->begin < opened(e->t)) BAD("a job ran before its time", "job %d at %lld", e->job, e->t); if (e->end < 0 || e->end > closed(e->t)) BAD("time advanced past unfinished work", "job %d at %lld", e->job, e->t); for (auto &f : frz) if (e->end > f.first && (f.second < 0 || e->begin < f.second)) BAD("a job ran while frozen", "job %d at %lld", e->job, e->t); } }
        else { ll c = tt(C.th[th].cyc); if (type == AMF) { // every job at its times, in time order, each frame between its sync times
                size_t i = 0; for (; i < got.size(); i++) if (i >= want.size() || got[i] != want[i]) { if (i < want.size() || got[i].second <= (T / c + 1) * c) if (!(i >= want.size() && got[i].second > T)) BAD("calls of a thread differ", "thread %d call %d: got j%d@%lld", (int)th, (int)i, got[i].first, got[i].second); }
                // frames which had to finish: all those whose sync time was reached; with wait also the last one
                for (size_t k = got.size(); k < want.size(); k++) if ((want[k].second / c + 1) * c <= T || (C.th[th].wait && ended)) BAD("a must-finish call is missing", "thread %d j%d@%lld", (int)th, want[k].first, want[k].second); }
            else { // asynchronous with a cycle: whole frames, some skipped
                size_t k = 0; for (auto &g : got) { while (k < want.size() && want[k] != g) k++; if (k >= want.size() && g.second <= T) BAD("calls of a thread differ", "thread %d j%d@%lld", (int)th, g.first, g.second); }
                std::map<ll, size_t> fr; for (auto &g : got) fr[g.second / c]++; size_t left = fr.size(); for (auto &f : fr) { left--; size_t w = 0; for (auto &q : want) if (q.second / c == f.first) w++; if (f.second != w && left) BAD("part of a frame of an asynchronous thread", "thread %d frame %lld", (int)th, f.first); } }
            for (auto *e : ge) { ll f = e->t / c * c; if (e->begin < opened(f)) BAD("a thread runs ahead of its frame", "job %d at %lld", e->job, e->t); if (type == AMF && f + c <= T) { if (e->end < 0) BAD("a must-finish job did not finish", "job %d", e->job); for (auto &m : ev) if (C.th[C.jobs[m.job].thread].type == SYNC && m.t >= f + c && m.begin < e->end) BAD("the frame of a must-finish thread is not complete at its sync time", "job %d at %lld, job %d at %lld began", e->job, e->t, m.job, m.t); } } }
    }
    // dependencies
    for (auto &e : ev) for (int d : C.jobs[e.job].deps) { TJ &D = C.jobs[d]; if (!due(D, e.t) || (C.off_thread > 0 && C.off_thread == D.thread && e.t >= tt(C.off_at) && (C.on_at < 0 || e.t < tt(C.on_at)))) continue; int dt = C.th[D.thread].type; if (dt == ASYNC) continue; bool ok = false; for (auto &x : ev) if (x.job == d && x.t == e.t && x.end >= 0 && x.end < e.begin) ok = true; if (!ok) BAD("a job ran before the job it depends on had finished", "job %d at %lld needs job %d", e.job, e.t, d); }
    if (C.freeze >= 0 && freezes != 1) BAD("freezes", "%d", freezes); if (!ended) BAD("no shutdown", "-"); if (X->time_tics != T) BAD("final time", "%lld", (ll)X->time_tics);
}
static TObj *sys_, *obj;
static void body() {
    X = new Trick::Executive; for (int i = 0; i < NCLS; i++) X->add_scheduled_job_class(CLASSES[i]); sys_ = new TObj; obj = new TObj; TObj &sys = *sys_;
    sys.add_job(0, 100, "default_data", NULL, 1, "sched.get_freeze_job", "TRK", 60000); sys.add_job(0, 101, "initialization", NULL, 1, "sched.create_threads", "TRK", 65535); sys.add_job(0, 102, "initialization", NULL, 1, "sched.async_init", "TRK", 65535); sys.add_job(0, 103, "system_moding", NULL, 1, "sched.sched_freeze_to_exec_command", "TRK", 60000); sys.add_job(0, 104, "end_of_frame", NULL, 1, "sched.sched_freeze_to_exec_command", "TRK", 60000); sys.add_job(0, 105, "end_of_frame", NULL, 1, "sched.async_freeze_to_exec_command", "TRK", 60000); sys.add_job(0, 106, "freeze_init", NULL, 1, "sched.init_freeze_scheduled", "", 60000); sys.add_job(0, 107, "system_advance_sim_time", NULL, 1, "sched.advance_sim_time", "TRK", 60000); sys.add_job(0, 108, "system_thread_sync", NULL, 1, "sched.thread_sync", "TRK", 60000);
    sys.add_job(0, 109, "end_of_frame", NULL, 1, "ctl", "", 1); sys.add_job(0, 110, "freeze", NULL, 1, "unfreezer", "", 60000); sys.add_job(0, 111, "unfreeze", NULL, 1, "unfrozen", "", 60000); sys.add_job(0, 112, "shutdown", NULL, 1, "down", "", 60000); sys.add_job(0, 113, "initialization", NULL, 1, "init", "", 60000); X->add_sim_object(&sys, "sys");
    for (size_t k = 0; k < C.jobs.size(); k++) { char nm[16]; snprintf(nm, 16, "j%d", (int)k); TJ &q = C.jobs[k]; obj->add_job(q.thread, k, q.cls, NULL, q.cycle, nm, "", q.phase, q.start, q.stop); } X->add_sim_object(obj, "o");
    X->set_software_frame(C.frame); X->set_terminate_time(C.T); X->set_rt_nap(C.nap); for (size_t i = 1; i < C.th.size(); i++) { TT &q = C.th[i]; X->set_thread_process_type(i, q.type == SYNC ? Trick::PROCESS_TYPE_SCHEDULED : q.type == AMF ? Trick::PROCESS_TYPE_AMF_CHILD : Trick::PROCESS_TYPE_ASYNC_CHILD); if (q.type != SYNC && q.cyc > 0) X->set_thread_amf_cycle_time(i, q.cyc); X->set_thread_async_wait(i, q.wait); Trick::Threads *th = X->get_thread(i); th->trigger_container.setThreadTrigger((Trick::ThreadTriggerType)q.trig); sched::watch(&th->child_complete, sizeof th->child_complete); sched::watch(&th->trigger_container, sizeof th->trigger_container); th->rt_nap = C.nap; }
    for (size_t k = 0; k < C.jobs.size(); k++) for (int d : C.jobs[k].deps) { char a[16], b[16]; snprintf(a, 16, "o.j%d", (int)k); snprintf(b, 16, "o.j%d", d); if (X->add_depends_on_job(a, 1, b, 1)) BAD("add_depends_on_job refused", "%s %s", a, b); sched::watch(&obj->jobs[d]->complete, sizeof obj->jobs[d]->complete); }
    int r = X->init(); if (r == 0) r = X->loop(); X->shutdown(); if (r) BAD("the run ended with an error", "%d", r);
}
static const char *TRG[] = {"mutex", "flag", "eventfd", "futex"};
static Cfg config(int kind, int trig, bool nap) {
    Cfg c; c.nap = nap; c.name = std::string(TRG[trig]) + (nap ? " nap" : "") + " config " + std::to_string(kind); auto two = [&](TT a) { a.trig = trig; c.th = {TT(), a}; }; auto three = [&](TT a, TT b) { a.trig = b.trig = trig; c.th = {TT(), a, b}; };
    switch (kind) {
    case 0: two(TT()); c.jobs = {TJ(0), TJ(1)}; break;
    case 1: two(TT()); c.jobs = {TJ(0).on(1), TJ(1)}; break;
    case 2: two(TT()); c.jobs = {TJ(0), TJ(1).on(0), TJ(1)}; break;
    case 3: two(TT()); c.jobs = {TJ(0, 1), TJ(1, 0.5), TJ(0, 0.5).on(1)}; c.T = 1; break;
    case 4: three(TT(), TT()); c.jobs = {TJ(0), TJ(1), TJ(2).on(1), TJ(0).on(2)}; c.T = 1; break;
    case 5: two(TT(AMF, 1)); c.jobs = {TJ(0, 0.5), TJ(1, 0.5), TJ(1, 1)}; break;
    case 6: two(TT(AMF, 0.5)); c.jobs = {TJ(0, 1), TJ(1, 0.5)}; break;
    case 7: two(TT(AMF, 1, 0, true)); c.jobs = {TJ(0, 1), TJ(1, 0.5)}; c.T = 1; break;
    case 8: two(TT(ASYNC)); c.jobs = {TJ(0, 1), TJ(1), TJ(1)}; break;
    case 9: two(TT(ASYNC, 1)); c.jobs = {TJ(0, 0.5), TJ(1, 0.5), TJ(1, 1)}; c.T = 2; break;
    case 10: three(TT(), TT(AMF, 1)); c.jobs = {TJ(0), TJ(1), TJ(2, 0.5)}; break;
    case 11: two(TT()); c.jobs = {TJ(0, 1), TJ(1, 0.5)}; c.freeze = 1; break;
    case 12: three(TT(), TT(ASYNC)); c.jobs = {TJ(0).on(1), TJ(1), TJ(2)}; c.T = 1; break;
    case 13: two(TT()); c.jobs = {TJ(0, 1), TJ(1, 0.5), TJ(1, 1, 0.5)}; c.off_thread = 1; c.off_at = 1; c.on_at = 2; c.T = 3; break;
    case 14: two(TT(AMF, 1)); c.jobs = {TJ(0, 1).on(1), TJ(1, 1), TJ(1, 0.5)}; break;
    case 15: two(TT()); c.jobs = {TJ(0, 1), TJ(1, 1, 0.5, 1.6), TJ(1, 0.7, 0.1), TJ(0, 0.5, 0.5).on(2)}; break;
    case 16: two(TT()); c.jobs = {TJ(0, 1), TJ(1, 1, 0, 1e37, 2), TJ(1, 1, 0, 1e37, 1), TJ(1, 1, 0, 1e37, 60000, "logging"), TJ(1, 1, 0, 1e37, 60000, "environment")}; c.T = 1; break;
    }
    return c;
}
enum { KINDS = 17 };
static void explore() {
    int kind = mc::choose(KINDS, "configuration"), trig = kind % 4, budget; bool nap = true;
    if (mc::thorough()) { trig = mc::choose(4, "trigger"); nap = mc::choose(2, "nap"); budget = (kind == 4 || kind == 10) && !nap ? 2 : nap ? 3 : 2; }
    else { budget = kind == 4 || kind == 10 ? 1 : 2; if (kind == 0 || kind == 5 || kind == 8) { trig = mc::choose(4, "trigger"); if (kind == 0) nap = mc::choose(2, "nap"); } }
    C = config(kind, trig, nap);
    ev.clear(); adv.clear(); frz.clear(); clockpos = 1; frozen = ended = false; freezes = 0; sched::G.spurious_left = trig == 0 || trig == 3 ? 1 : 0;
    auto r = sched::run(budget, body); if (r.exited) BAD("the program exited", "%d", r.code); check(); for (auto &e : ev) mc::state(mc::hv(kind, e.job, e.t, e.begin)); mc::outcome(mc::hv(kind, ev.size(), clockpos));
    delete X; delete obj; delete sys_;
}
int main(int c, char **v) { Globals g; mc::Options o; o.split = 4; o.timeout_s = 20; return mc::run(c, v, o, explore); }
