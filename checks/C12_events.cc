// C12: events and timed input statements.
#define MC_MAIN
#include "exec_world.hh"
#include "trick/IPPython.hh"
#include "trick/IPPythonEvent.hh"
#include "trick/MTV.hh"
#include "trick/EventManager.hh"
#include "trick/EventProcessor.hh"
#include "trick/input_processor_proto.h"
#include "trick/memorymanager_c_intf.h"
#include "trick/parameter_types.h"
using namespace ew;
using std::vector; using std::string;

// what the input language provides
 
int ippython_add_event(Trick::IPPythonEvent *); int ippython_add_event_before(Trick::IPPythonEvent *, string, unsigned int); int ippython_add_event_after(Trick::IPPythonEvent *, string, unsigned int);
int ippython_add_read(unsigned int, double, char *); int ippython_delete_event(Trick::IPPythonEvent *);
extern Trick::Executive *the_exec; extern Trick::MTV *the_mtv; extern Trick::EventManager *the_em;
int var_add(string) { return 0; } int var_clear() { return 0; } int var_send() { return 0; } int var_send_list_size() { return 0; }

// ---- minimal type information for the memory manager
extern "C" {
#define TYPEINFO(T, N) \
    ATTRIBUTES attr##N[1]; void init_attr##N##_c_intf() {} size_t io_src_sizeof_##N() { return sizeof(T); } \
    void *io_src_allocate_##N(int n) { T *p = (T *)calloc(n, sizeof(T)); for (int i = 0; i < n; i++) new (&p[i]) T; return p; } \
    void io_src_destruct_##N(void *a, int n) { typedef T TT_; TT_ *p = (TT_ *)a; for (int i = 0; i < n; i++) p[i].~TT_(); } \
    void io_src_delete_##N(void *a) { delete (T *)a; }
TYPEINFO(Trick::condition_t, Trick__condition_t)
TYPEINFO(Trick::action_t, Trick__action_t)
TYPEINFO(Trick::IPPythonEvent, Trick__IPPythonEvent)
ATTRIBUTES attrTrick__Event[1]; void init_attrTrick__Event_c_intf() {} size_t io_src_sizeof_Trick__Event() { return sizeof(Trick::Event); }
}
static void init_types() {
    ATTRIBUTES *a[] = {attrTrick__condition_t, attrTrick__action_t, attrTrick__IPPythonEvent, attrTrick__Event};
    for (auto p : a) { memset(p, 0, sizeof(ATTRIBUTES)); p->name = p->type_name = p->units = p->alias = p->user_defined = p->des = ""; p->language = Language_CPP; }
}

// ---- the harness' input language: conditions and actions are named by index
struct Rec { int kind, e, i; double t; bool operator==(const Rec &o) const { return kind == o.kind && e == o.e && i == o.i && t == o.t; } };
enum { R_COND, R_ACT, R_JOB, R_CJOB, R_AJOB };
enum { C_NONE, C_ADD, C_BEFORE, C_AFTER, C_REMOVE, C_DELETE, C_ACT, C_DEACT, C_MON, C_MOFF, C_MFIRE, C_MDONE, C_CEN, C_CDIS, C_HON, C_HOFF, C_ALL, C_ANY, C_AEN, C_ADIS, C_CYCLE, C_RECOND, C_READ, C_JOFF, C_JON, C_TIC, C_NUM };
static const char *CN[] = {"none", "add", "add_before", "add_after", "remove", "delete", "activate", "deactivate", "manual_on", "manual_off", "manual_fire", "manual_done", "condition_enable", "condition_disable", "hold_on", "hold_off", "condition_all", "condition_any", "action_enable", "action_disable", "set_cycle", "condition", "add_read", "job_off", "job_on", "time_tic"};
struct Cmd { int k, e; double x; int y; Cmd(int k_ = 0, int e_ = 0, double x_ = 0, int y_ = 0) : k(k_), e(e_), x(x_), y(y_) {} };
enum { K_PY, K_VAR, K_JOB };                      // condition kinds
enum { A_PY, A_JOBON, A_JOBOFF, A_JOBCALL };
struct CondSpec { int kind; bool en, hold; int fixed; };     // fixed: -1 decided at every evaluation, else the value
struct ActSpec { int kind; bool en; vector<Cmd> cmds; int job; };
struct EvSpec { double cycle; bool all, active; int thread; vector<CondSpec> c; vector<ActSpec> a; vector<Cmd> input; };
struct Scenario { vector<EvSpec> ev; Config cfg; double tic = 20; vector<vector<Cmd>> ctl; double ctl_t0 = 0; vector<Cmd> pre, post; std::map<std::pair<int, int>, vector<Cmd>> once; };  // once: (event, n-th firing) -> commands

struct Real {
    Scenario s; vector<Trick::IPPythonEvent *> ev; vector<Rec> log; vector<char> dec; vector<int> cv; vector<int> nf; int nread; bool limit;
    vector<Cmd> reads;
    Trick::EventManager em; Trick::EventProcessor ep0, ep1; Trick::MTV mtv; Trick::IPPython ip;
    double now() { return (double)the_exec->get_time_tics() / the_exec->get_time_tic_value(); }
    void rec(int k, int e, int i) { if (log.size() > 3000) { limit = true; throw Trick::ExecutiveException(7, "h", 0, "too many"); } log.push_back(Rec{k, e, i, now()}); mc::step(1); }
    bool truth(int e, int i) { CondSpec &c = s.ev[e].c[i]; bool b = c.fixed >= 0 ? c.fixed : mc::flip("cond"); if (c.fixed < 0) dec.push_back(b); return b; }
    void mkcond(int e, int i) {
        char b[32]; snprintf(b, 32, "c%d.%d", e, i);
        switch (s.ev[e].c[i].kind) { case K_PY: ev[e]->condition(i, b, ""); break;
            case K_VAR: snprintf(b, 32, "cv_%d_%d", e, i); ev[e]->condition_var(i, b, ""); break; case K_JOB: snprintf(b, 32, "trick_em.c%d_%d", e, i); ev[e]->condition_job(i, b, ""); break; } }
    void run(const Cmd &c);
    void run(const vector<Cmd> &v) { for (auto &c : v) run(c); }
};
static Real *R;
Trick::IPPython::IPPython() {} int Trick::IPPython::init() { return 0; } int Trick::IPPython::shutdown() { return 0; } int Trick::IPPython::restart() { return 0; } void Trick::IPPython::get_TMM_named_variables() {}
int Trick::IPPython::parse(string s) {
    int e, i;
    if (s[0] == 'r') { sscanf(s.c_str(), "r%d", &e); R->rec(R_ACT, 100 + e, 0); Cmd c = R->reads[e]; R->run(c); return 0; }
    sscanf(s.c_str(), "a%d.%d", &e, &i); R->rec(R_ACT, e, i);
    if (i == 0) { int n = R->nf[e]++; auto it = R->s.once.find({e, n}); if (it != R->s.once.end()) R->run(vector<Cmd>(it->second)); }
    R->run(vector<Cmd>(R->s.ev[e].a[i].cmds)); return 0;
}
int Trick::IPPython::parse_condition(string s, int &r) { int e, i; sscanf(s.c_str(), "c%d.%d", &e, &i); R->rec(R_COND, e, i); r = R->truth(e, i); return 0; }
void Real::run(const Cmd &c) {
    Trick::IPPythonEvent *p = c.e < (int)ev.size() ? ev[c.e] : 0;
    switch (c.k) {
    case C_ADD: ippython_add_event(p); break;
    case C_BEFORE: ippython_add_event_before(p, c.y ? "o0.j1" : "o0.j0", 1); break;
    case C_AFTER: ippython_add_event_after(p, c.y ? "o0.j1" : "o0.j0", 1); break;
    case C_REMOVE: em.remove_event(p); break; case C_DELETE: ippython_delete_event(p); break;
    case C_ACT: p->activate(); break; case C_DEACT: p->deactivate(); break;
    case C_MON: p->manual_on(); break; case C_MOFF: p->manual_off(); break; case C_MFIRE: p->manual_fire(); break; case C_MDONE: p->manual_done(); break;
    case C_CEN: p->condition_enable((int)c.x); break; case C_CDIS: p->condition_disable((int)c.x); break;
    case C_HON: p->condition_hold_on((int)c.x); break; case C_HOFF: p->condition_hold_off((int)c.x); break;
    case C_ALL: p->condition_all(); break; case C_ANY: p->condition_any(); break;
    case C_AEN: p->action_enable((int)c.x); break; case C_ADIS: p->action_disable((int)c.x); break;
    case C_CYCLE: p->set_cycle(c.x); break; case C_RECOND: mkcond(c.e, (int)c.x); break;
    case C_READ: { char b[32]; snprintf(b, 32, "r%d", (int)reads.size()); reads.push_back(c.y >= 0 ? Cmd(c.y, c.e) : Cmd()); ippython_add_read(c.e >= 1000 ? 1 : 0, c.x, b); break; }
    case C_JOFF: case C_JON: the_exec->set_job_onoff(c.y ? "o0.j1" : "o0.j0", 1, c.k == C_JON); break;
    case C_TIC: the_exec->set_time_tic_value((int)c.x); break;
    }
}
// the simulation objects of the event manager, as in the S_define
struct EvObj : public Trick::SimObject {
    EvObj() {
        add_job(0, 0, "initialization", NULL, 1, "ep0.add_pending_events", "TRK", 65535); add_job(0, 1, "top_of_frame", NULL, 1, "ep0.add_pending_events", "TRK");
        R->ep0.set_process_event_job(add_job(0, 2, "input_processor_run", NULL, 1, "ep0.process_event", "TRK"));
        add_job(0, 3, "exec_time_tic_changed", NULL, 1, "em.time_tic_changed", "TRK");
        add_job(0, 4, "initialization", NULL, 1, "ep1.add_pending_events", "TRK", 65535); add_job(0, 5, "top_of_frame", NULL, 1, "ep1.add_pending_events", "TRK");
        R->ep1.set_process_event_job(add_job(0, 6, "automatic", NULL, 1, "ep1.process_event", "TRK"));
        for (size_t e = 0; e < R->s.ev.size(); e++) for (size_t i = 0; i < R->s.ev[e].c.size(); i++) if (R->s.ev[e].c[i].kind == K_JOB) { char b[32]; snprintf(b, 32, "c%d_%d", (int)e, (int)i); add_job(0, 100 + e * 8 + i, "malfunction", NULL, 1, b, ""); }
        add_job(0, 90, "malfunction", NULL, 1, "called", "");
        R->em.add_event_processor(&R->ep0); R->em.add_event_processor(&R->ep1);
    }
    virtual int call_function(Trick::JobData *j) {
        ll t = the_exec->get_time_tics();
        if (j->id >= 100) { int e = (j->id - 100) / 8, i = (j->id - 100) % 8; R->rec(R_CJOB, e, i); return R->truth(e, i) ? 1 + e + 256 * i : 0; }
        if (j->id == 90) { R->rec(R_AJOB, 3, 0); return 0; }
        switch (j->id) { case 0: case 1: R->ep0.add_pending_events(t); return 0; case 2: return R->ep0.process_event(t); case 3: return R->em.time_tic_changed();
            case 4: case 5: R->ep1.add_pending_events(t); return 0; case 6: return R->ep1.process_event(t); }
        return 0; }
    virtual double call_function_double(Trick::JobData *) { return 0; }
};

// ---- the specification
struct Model {
    Scenario s; double tic; ll now; const vector<char> *dec; const vector<Rec> *real = 0; size_t di; vector<Rec> log; vector<int> nf; size_t limit; bool over; bool input;
    struct Cond { bool en, hold, fired; int n; double t; }; struct Act { bool en; int n; double t; };
    struct E { bool active, manual, mfired, mhold, all; vector<Cond> c; vector<Act> a; ll next, cyc; double cycle; int thread; int n, nran; double t, tran; bool read; Cmd rc; };
    vector<E> e; vector<int> set[2], pend[2]; struct Att { int e, job; bool before; ll id; }; vector<Att> att; int cur[2]; vector<bool> on; int nreads; ll ids; bool decshort;
    struct Limit {};
    double secs() { return now / tic; }
    ll tt(double x) { return (ll)llround(x * tic); }
    void rec(int k, int ev, int i) { if (log.size() >= limit) throw Limit(); log.push_back(Rec{k, ev, i, secs()}); }
    bool truth(int ev, int i) { CondSpec &c = s.ev[ev].c[i]; if (c.fixed >= 0) return c.fixed; if (di >= dec->size()) { decshort = true; return false; } return (*dec)[di++]; }
    void init(const Scenario &sc, const vector<char> *d, size_t lim) {
        s = sc; tic = s.tic; now = 0; dec = d; di = 0; limit = lim; over = false; nreads = 0; cur[0] = cur[1] = -1; ids = 0; decshort = false; on.assign(4, true);
        for (auto &v : s.ev) { E q; q.active = v.active; q.manual = q.mfired = q.mhold = false; q.all = v.all; q.cycle = v.cycle; q.cyc = tt(v.cycle); q.next = 0; q.thread = v.thread; q.n = q.nran = 0; q.t = q.tran = -1; q.read = false;
            for (auto &c : v.c) q.c.push_back(Cond{c.en, c.hold, false, 0, -1}); for (auto &a : v.a) q.a.push_back(Act{a.en, 0, -1}); e.push_back(q); }
        nf.assign(s.ev.size(), 0);
    }
    bool has(const vector<int> &v, int x) { return std::find(v.begin(), v.end(), x) != v.end(); }
    void insert(int th, int x) { auto it = set[th].begin(); while (it != set[th].end() && e[*it].next <= e[x].next) ++it; set[th].insert(it, x); }
    void apply(const Cmd &c) {
        int th = c.e < (int)e.size() ? e[c.e].thread : 0;
        E *p = c.e < (int)e.size() ? &e[c.e] : 0;
        switch (c.k) {
        case C_ADD: if (!has(set[th], c.e) && !has(pend[th], c.e) && !(cur[th] == c.e && p->cyc)) pend[th].push_back(c.e); break;
        case C_BEFORE: case C_AFTER: att.push_back(Att{c.e, c.y, c.k == C_BEFORE, ids++}); break;
        case C_REMOVE: case C_DELETE:
            for (int h = 0; h < 2; h++) { set[h].erase(std::remove(set[h].begin(), set[h].end(), c.e), set[h].end()); pend[h].erase(std::remove(pend[h].begin(), pend[h].end(), c.e), pend[h].end()); if (cur[h] == c.e) cur[h] = -1; }
            for (size_t i = 0; i < att.size();) if (att[i].e == c.e) att.erase(att.begin() + i); else i++;
            break;
        case C_ACT: p->active = true; break; case C_DEACT: p->active = false; break;
        case C_MON: p->manual = p->mfired = p->mhold = true; break; case C_MOFF: p->manual = true; p->mfired = p->mhold = false; break;
        case C_MDONE: p->manual = p->mfired = p->mhold = false; break;
        case C_MFIRE: p->manual = true; p->mfired = true; p->mhold = false; eval(c.e); break;
        case C_CEN: if ((size_t)c.x < p->c.size()) p->c[(int)c.x].en = true; break; case C_CDIS: if ((size_t)c.x < p->c.size()) p->c[(int)c.x].en = false; break;
        case C_HON: if ((size_t)c.x < p->c.size()) p->c[(int)c.x].hold = true; break; case C_HOFF: if ((size_t)c.x < p->c.size()) p->c[(int)c.x].hold = false; break;
        case C_ALL: p->all = true; break; case C_ANY: p->all = false; break;
        case C_AEN: if ((size_t)c.x < p->a.size()) p->a[(int)c.x].en = true; break; case C_ADIS: if ((size_t)c.x < p->a.size()) p->a[(int)c.x].en = false; break;
        case C_CYCLE: p->cycle = c.x; p->cyc = tt(c.x); break;
        case C_RECOND: { Cond &q = p->c[(int)c.x]; q.en = true; q.hold = q.fired = false; break; }
        case C_READ: { E q; q.active = true; q.manual = q.mfired = q.mhold = q.all = false; q.next = tt(c.x); q.cyc = 0; q.cycle = 0; q.thread = c.e >= 1000 ? 1 : 0; q.n = q.nran = 0; q.t = q.tran = -1; q.read = true; q.rc = c.y >= 0 ? Cmd(c.y, c.e) : Cmd();
            // reads are numbered from 1000 so that they do not shift the events
            reads.push_back(q); pend[q.thread].push_back(-(int)reads.size()); break; }
        case C_JOFF: case C_JON: on[c.y ? 1 : 0] = c.k == C_JON; break;
        case C_TIC: break;
        }
    }
    vector<E> reads;
    E &at(int x) { return x >= 0 ? e[x] : reads[-x - 1]; }
    void eval(int x) {
        E *p = &e[x]; bool fired = false;
        if (!p->manual) {
            bool any = false, all = true, some = false;
            for (size_t i = 0; i < p->c.size(); i++) {
                Cond &c = p->c[i]; if (!c.en) { c.fired = false; continue; }
                if (!(c.hold && c.fired)) {
                    CondSpec &cs = s.ev[x].c[i];
                    if (cs.kind == K_PY) rec(R_COND, x, i); else if (cs.kind == K_JOB) rec(R_CJOB, x, i);
                    c.fired = cs.kind == K_VAR ? (bool)var[x * 8 + i] : truth(x, i);
                    if (c.fired) { c.n++; c.t = secs(); }
                }
                any |= c.fired; all &= c.fired; some = true;
            }
            fired = some && (p->all ? all : any);
        }
        if (!(fired || p->mfired)) return;
        p->n++; p->t = secs(); if (!p->mfired) p->active = false;
        bool ran = false;
        for (size_t i = 0; i < p->a.size(); i++) {
            if (!p->a[i].en) continue;
            ActSpec &as = s.ev[x].a[i];
            if (as.kind == A_PY) {
                rec(R_ACT, x, i);
                if (i == 0) { int n = nf[x]++; auto it = s.once.find({x, n}); if (it != s.once.end()) for (auto &c : it->second) apply(c); }
                for (auto &c : s.ev[x].a[i].cmds) apply(c);
            } else if (as.kind == A_JOBCALL) rec(R_AJOB, 3, 0);
            else on[as.job] = as.kind == A_JOBON;
            p = &e[x]; p->a[i].n++; p->a[i].t = secs(); ran = true;
        }
        p->mfired = p->mfired && p->mhold;
        if (ran) { p->nran++; p->tran = secs(); }
    }
    void process(int x) { if (x < 0) { E &q = reads[-x - 1]; if (!q.active) return; q.active = false; rec(R_ACT, 100 - x - 1, 0); Cmd c = q.rc; apply(c); return; } if (e[x].active || e[x].mfired) eval(x); }
    vector<char> var;
    void pending(int th) { for (int x : pend[th]) { E &q = at(x); if (q.cyc) q.next = now; else if (q.next < now) continue;
            auto it = set[th].begin(); while (it != set[th].end() && at(*it).next <= q.next) ++it; set[th].insert(it, x); } pend[th].clear(); }
    void due(int th) {
        while (!set[th].empty() && at(set[th][0]).next == now) {
            int x = set[th][0]; set[th].erase(set[th].begin()); cur[th] = x; process(x);
            if (cur[th] == x && at(x).cyc) { at(x).next += at(x).cyc; auto it = set[th].begin(); while (it != set[th].end() && at(*it).next <= at(x).next) ++it; set[th].insert(it, x); }
            cur[th] = -1;
        }
    }
    void around(int job, bool before) {
        vector<Att> v; for (auto &a : att) if (a.job == job && a.before == before) v.push_back(a);
        for (auto &a : v) { bool still = false; for (auto &b : att) if (b.id == a.id) still = true;
            if (still) process(a.e); }
    }
    int ctl_n = 0;
    void job(int k) {
        if (k < 2) around(k, true);
        rec(R_JOB, k, 0);
        if (k == 2) { if (ctl_n < (int)s.ctl.size()) { auto v = s.ctl[ctl_n]; for (auto &c : v) apply(c); } ctl_n++; }
        if (k < 2) around(k, false);
    }
    void predict() {
        try {
            ll F = tt(s.cfg.frame), T = tt(s.cfg.T);
            for (now = 0; now <= T; now++) {
                if (now == 0) { pending(0); pending(1); }
                if (now % F == 0) { pending(0); pending(1); }
                due(0); due(1);
                for (int k = 0; k < 3; k++) { ll cy = tt(s.cfg.jobs[k].cycle), st = tt(s.cfg.jobs[k].start); if (now >= st && (now - st) % cy == 0 && (k == 2 || on[k])) job(k); }
            }
        } catch (Limit &) { over = true; }
    }
};
static string show(const vector<Rec> &v, size_t f, size_t n) {
    string s; char b[64]; static const char *N[] = {"condition", "action", "job", "condition_job", "action_job"};
    for (size_t i = f; i < v.size() && i < f + n; i++) { snprintf(b, 64, " %s e%d.%d@%g", N[v[i].kind], v[i].e, v[i].i, v[i].t); s += b; }
    if (f + n > v.size()) s += " <end>"; return s; }
static string show(const vector<Cmd> &v) { string s; char b[64]; for (auto &c : v) { snprintf(b, 64, " %s(e%d,%g,%d)", CN[c.k], c.e, c.x, c.y); s += b; } return s; }
static string show(const Scenario &s) {
    string r; char b[128];
    for (size_t i = 0; i < s.ev.size(); i++) { auto &e = s.ev[i]; snprintf(b, 128, " e%d{cycle %g %s %s thread %d", (int)i, e.cycle, e.all ? "all" : "any", e.active ? "active" : "inactive", e.thread); r += b;
        for (auto &c : e.c) { snprintf(b, 128, " c(%s%s%s%s)", c.kind == K_PY ? "py" : c.kind == K_VAR ? "var" : "job", c.en ? "" : " off", c.hold ? " hold" : "", c.fixed < 0 ? "" : c.fixed ? " true" : " false"); r += b; }
        for (auto &a : e.a) { snprintf(b, 128, " a(%d%s", a.kind, a.en ? "" : " off"); r += b; r += show(a.cmds) + ")"; } r += "}" + show(e.input); }
    for (auto &o : s.once) { snprintf(b, 128, " [firing %d of e%d:", o.first.second, o.first.first); r += b; r += show(o.second) + "]"; }
    for (size_t i = 0; i < s.ctl.size(); i++) if (!s.ctl[i].empty()) { snprintf(b, 128, " [at %g:", s.ctl_t0 + i * s.cfg.jobs[2].cycle); r += b; r += show(s.ctl[i]) + "]"; }
    if (!s.post.empty()) r += " input:" + show(s.post);
    snprintf(b, 128, " frame %g tic %g", s.cfg.frame, s.tic); r += b;
    return r; }

static void make_events(Real &r) {
    for (size_t i = 0; i < r.s.ev.size(); i++) {
        char b[64]; snprintf(b, 64, "ev%d", (int)i); auto &v = r.s.ev[i];
        Trick::IPPythonEvent *p = ippython_new_event(b); r.ev.push_back(p);
        p->set_cycle(v.cycle); p->set_thread(v.thread); if (v.all) p->condition_all();
        for (size_t k = 0; k < v.c.size(); k++) {
            if (v.c[k].kind == K_VAR) { snprintf(b, 64, "int cv_%d_%d", (int)i, (int)k); *(int *)TMM_declare_var_s(b) = v.c[k].fixed > 0 ? 1 : 0; }
            r.mkcond(i, k); if (!v.c[k].en) p->condition_disable(k); if (v.c[k].hold) p->condition_hold_on(k); }
        for (size_t k = 0; k < v.a.size(); k++) {
            snprintf(b, 64, "a%d.%d", (int)i, (int)k);
            switch (v.a[k].kind) { case A_PY: p->action(k, b, ""); break; case A_JOBON: p->action_job_on(k, v.a[k].job ? "o0.j1" : "o0.j0", ""); break; case A_JOBOFF: p->action_job_off(k, v.a[k].job ? "o0.j1" : "o0.j0", ""); break; case A_JOBCALL: p->action_job(k, "trick_em.called", ""); break; }
            if (!v.a[k].en) p->action_disable(k); }
        if (v.active) p->activate();
    }
    for (size_t i = 0; i < r.s.ev.size(); i++) r.run(r.s.ev[i].input);
    r.run(r.s.post);
}
static void cleanup(Real &r) {
    for (auto p : r.ev) TMM_delete_var_a(p);
    if (r.em.active_events) TMM_delete_var_a(r.em.active_events);
    if (r.mtv.mtv_list) TMM_delete_var_a(r.mtv.mtv_list);
    for (auto x : r.em.events_instrumented) delete x;
    R = 0; the_em = 0; the_mtv = 0;
}
struct Clean { Real &r; Scenario s; Trick::SimObject *o; Clean(Real &q, const Scenario &x, Trick::SimObject *p = 0) : r(q), s(x), o(p) {} ~Clean(); };
static void compare_state(Real &r, Model &m, const string &ds) {
    for (size_t i = 0; i < r.s.ev.size(); i++) {
        Trick::IPPythonEvent *p = r.ev[i]; Model::E &q = m.e[i];
        if (p->fired_count != q.n || p->ran_count != q.nran) mc::fail("count", "e%d fired %d times and ran %d times, expected %d and %d:%s", (int)i, p->fired_count, p->ran_count, q.n, q.nran, ds.c_str());
        if (p->fired_time != q.t || p->ran_time != q.tran) mc::fail("time", "e%d fired last at %.9g s, ran at %.9g s, expected %.9g and %.9g:%s", (int)i, p->fired_time, p->ran_time, q.t, q.tran, ds.c_str());
        if (p->is_active() != q.active) mc::fail("active", "e%d active=%d, expected %d:%s", (int)i, p->is_active(), q.active, ds.c_str());
        if (p->manual != q.manual || p->manual_fired != q.mfired) mc::fail("manual", "e%d manual=%d manual_fired=%d, expected %d %d:%s", (int)i, p->manual, p->manual_fired, q.manual, q.mfired, ds.c_str());
        for (size_t k = 0; k < q.c.size(); k++) if (p->condition_fired_count(k) != q.c[k].n || p->condition_fired_time(k) != q.c[k].t || p->condition_fired(k) != q.c[k].fired)
            mc::fail("condition-state", "e%d condition %d: fired=%d count=%d time=%.9g, expected %d %d %.9g:%s", (int)i, (int)k, p->condition_fired(k), p->condition_fired_count(k), p->condition_fired_time(k), q.c[k].fired, q.c[k].n, q.c[k].t, ds.c_str());
        for (size_t k = 0; k < q.a.size(); k++) if (p->action_ran_count(k) != q.a[k].n || p->action_ran_time(k) != q.a[k].t)
            mc::fail("action-state", "e%d action %d: count=%d time=%.9g, expected %d %.9g:%s", (int)i, (int)k, p->action_ran_count(k), p->action_ran_time(k), q.a[k].n, q.a[k].t, ds.c_str());
    }
}
static void compare_log(Real &r, Model &m, const string &ds) {
    size_t i = 0; while (i < r.log.size() && i < m.log.size() && r.log[i] == m.log[i]) i++;
    uint64_t h = mc::hv(r.log.size()); for (auto &e : r.log) { h = mc::mix(h, e.kind * 7919 + e.e * 101 + e.i + (uint64_t)(e.t * 1000) * 1000003ULL); mc::state(h); } mc::outcome(h);
    if (i < r.log.size() || i < m.log.size()) mc::fail("run", "step %d: expected%s ; got%s ; before%s ; %s", (int)i, show(m.log, i, 3).c_str(), show(r.log, i, 3).c_str(), show(r.log, i > 5 ? i - 5 : 0, i > 5 ? 5 : i).c_str(), ds.c_str());
}
static JobSpec js(const char *c, double cy, double st = 0) { return JobSpec(c, cy, 60000, st); }
static void base_cfg(Scenario &s) {
    s.cfg.jobs = {js("scheduled", 1), js("scheduled", .5), js("scheduled", .5, .25)};
    s.ctl_t0 = .25; s.cfg.frame = 1; s.cfg.T = 3;
}
static void free_vars(const Scenario &s) { char b[64]; for (size_t i = 0; i < s.ev.size(); i++) for (size_t k = 0; k < s.ev[i].c.size(); k++) if (s.ev[i].c[k].kind == K_VAR) { snprintf(b, 64, "cv_%d_%d", (int)i, (int)k); TMM_delete_var_n(b); } }
Clean::~Clean() { if (R) cleanup(r); delete o; free_vars(s); }
// the whole thing in the executive
static void run_world(Scenario s, bool check_state = true) {
    Real r; R = &r; r.s = s; r.nread = 0; r.limit = false; r.nf.assign(s.ev.size(), 0); r.mtv.mtv_list = 0; the_em = &r.em; the_mtv = &r.mtv;
    Trick::IPPythonEvent::set_python_processor(&r.ip); Trick::IPPythonEvent::set_mtv(&r.mtv);
    s.cfg.tic = s.tic; string ds = show(s); mc::trace("%s", ds.c_str());
    bool crashed = false; int ctl = 0;
    {
        World w; EvObj *eo = 0;
        s.cfg.setup = [&](Trick::Executive *ex) { ex->set_time_tic_value((int)s.tic); eo = new EvObj; ex->add_sim_object(eo, "trick_em"); };
        s.cfg.input = [&] { make_events(r); };
        w.controller = [&](int job, ll, int n) -> vector<ew::Act> {
            if (job >= 900) return {};
            r.rec(R_JOB, job, 0);
            if (job == 2) { if (ctl < (int)r.s.ctl.size()) r.run(vector<Cmd>(r.s.ctl[ctl])); ctl++; }
            return {}; };
        w.build(s.cfg); Clean cl(r, s, eo);
        int rc = w.run(); if (rc == -1 || rc == 8) crashed = true;
        // the events go while the executive exists
        Model m; m.init(s, &r.dec, r.log.size() + 3); m.real = &r.log; m.var.assign(64, 0);
        for (size_t i = 0; i < s.ev.size(); i++) { for (size_t k = 0; k < s.ev[i].c.size(); k++) if (s.ev[i].c[k].kind == K_VAR) m.var[i * 8 + k] = s.ev[i].c[k].fixed > 0; }
        for (auto &e : s.ev) for (auto &c : e.input) m.apply(c); for (auto &c : s.post) m.apply(c);
        m.predict();
        if (crashed) mc::fail("init", "the simulation did not start:%s", ds.c_str());
        compare_log(r, m, ds);
        if (r.limit) mc::fail("endless", "more than 3000 calls:%s", ds.c_str());
        if (check_state && !m.over) compare_state(r, m, ds);
        for (int h = 0; h < 2; h++) if (!m.over) { auto &es = h ? r.ep1 : r.ep0; if (es.event_set.size() != m.set[h].size()) mc::fail("set", "%d events in processor %d at the end, expected %d:%s", (int)es.event_set.size(), h, (int)m.set[h].size(), ds.c_str()); }
    }
}
static EvSpec ev(double cycle, vector<CondSpec> c, vector<ActSpec> a, bool active = true) { EvSpec e; e.cycle = cycle; e.all = false; e.active = active; e.thread = 0; e.c = c; e.a = a; return e; }
static ActSpec act(vector<Cmd> c = {}, bool en = true) { ActSpec a; a.kind = A_PY; a.en = en; a.cmds = c; a.job = 0; return a; }
static ActSpec jact(int kind, int job) { ActSpec a; a.kind = kind; a.en = true; a.job = job; return a; }
static CondSpec py(int fixed = 1) { return CondSpec{K_PY, true, false, fixed}; }


// ------------------------------------------------ part A: conditions and actions of one event, evaluated directly
static void part_logic() {
    Scenario s; base_cfg(s); s.cfg.T = 0;
    int shape = mc::choose(4, "shape"), nc = shape == 3 ? 3 : shape; bool all = nc > 1 && mc::flip("all");
    vector<CondSpec> c; int rot = mc::choose(nc ? 3 : 1, "kinds");
    for (int i = 0; i < nc; i++) { CondSpec q; q.kind = (i + rot) % 3; q.en = i && nc == 3 ? true : !mc::flip("off"); q.hold = mc::flip("hold"); q.fixed = q.kind == K_VAR ? (int)mc::flip("var") : -1; c.push_back(q); }
    s.ev.push_back(ev(1, c, {act(), act({Cmd(C_ACT, 0)}, nc > 1 && !mc::thorough() ? true : !mc::flip("self")), jact(A_JOBCALL, 0)})); s.ev[0].all = all;
    int acts = mc::choose(nc > 1 && !mc::thorough() ? 1 : 3, "acts"); if (acts == 1) s.ev[0].a[0].en = false; if (acts == 2) s.ev[0].a.clear();
    int N = nc == 3 || (nc == 2 && !mc::thorough()) ? 3 : 4, ncmd = nc == 3 && !mc::thorough() ? 1 : 1 + mc::thorough() * (nc < 3);
    vector<vector<Cmd>> at(N + 1);
    static const int CK[] = {C_NONE, C_ACT, C_DEACT, C_MON, C_MOFF, C_MFIRE, C_MDONE, C_ALL, C_ANY, C_CEN, C_CDIS, C_HON, C_HOFF, C_RECOND, C_AEN, C_ADIS};
    for (int q = 0; q < ncmd; q++) {
        int k = CK[mc::choose(nc == 3 && !mc::thorough() ? 8 : 16, "cmd")]; if (k == C_NONE) break;
        if (k >= C_CEN && k <= C_HOFF) { if (!nc) return; }
        if (k == C_RECOND && !nc) return;
        if ((k == C_AEN || k == C_ADIS) && acts == 2) return;
        int arg = (k >= C_CEN && k <= C_HOFF) || k == C_RECOND ? mc::choose(nc, "arg") : k == C_AEN || k == C_ADIS ? mc::choose(2, "arg") : 0;
        if (k == C_ALL && all) return;
        if (k == C_ANY && !all) return;
        at[mc::choose(N, "when")].push_back(Cmd(k, 0, arg));
        // a manual command is followed by the return to normal at every later time
        if (k >= C_MON && k <= C_MFIRE && q == 0) { int w = mc::choose(N + 1, "done"); if (w < N) at[w].push_back(Cmd(C_MDONE, 0)); }
    }
    for (int k = 0; k < N; k++) if (!at[k].empty()) { s.ctl.resize(N); s.ctl[k] = at[k]; }
    Real r; R = &r; r.s = s; r.nread = 0; r.limit = false; r.nf.assign(1, 0); the_em = &r.em; the_mtv = &r.mtv;
    Trick::IPPythonEvent::set_python_processor(&r.ip); Trick::IPPythonEvent::set_mtv(&r.mtv);
    string ds = show(s); mc::trace("%s", ds.c_str());
    {
        Trick::Executive ex; ex.set_time_tic_value(20); ex.set_time(0); EvObj eo; ex.add_sim_object(&eo, "trick_em"); Clean cl(r, s);
        make_events(r);
        Model m; m.init(s, &r.dec, 1000000); m.var.assign(64, 0); for (int k = 0; k < nc; k++) if (c[k].kind == K_VAR) m.var[k] = c[k].fixed;
        for (int t = 0; t < N; t++) {
            ex.set_time(t); m.now = t * 20;
            r.run(at[t]); r.ev[0]->process(t * 20);
            for (auto &q : at[t]) m.apply(q); m.process(0);
            compare_log(r, m, ds); compare_state(r, m, ds);
        }
    }
}
// ------------------------------------------------ part B: two events in the executive, commands from a job and from their own actions
static void place(Scenario &s, int e, int w) {
    switch (w) { case 0: s.ev[e].input = {Cmd(C_ADD, e)}; break; case 1: s.ev[e].thread = 1; s.ev[e].input = {Cmd(C_ADD, e)}; break;
        case 2: s.ev[e].input = {Cmd(C_BEFORE, e, 0, 0)}; break; case 3: s.ev[e].input = {Cmd(C_AFTER, e, 0, 1)}; break;
        case 4: s.ev[e].input = {Cmd(C_ADD, e), Cmd(C_BEFORE, e, 0, 1)}; break; case 5: s.ev[e].input = {Cmd(C_BEFORE, e, 0, 0), Cmd(C_AFTER, e, 0, 0), Cmd(C_BEFORE, e, 0, 1)}; break; }
}
static Cmd pick_cmd(int self, bool inside) {
    static const int K[] = {C_NONE, C_REMOVE, C_DELETE, C_ADD, C_BEFORE, C_AFTER, C_ACT, C_DEACT, C_MON, C_MOFF, C_MDONE, C_CYCLE, C_JOFF, C_MFIRE};
    int k = K[mc::choose(14, "cmd")]; if (k == C_NONE) return Cmd();
    if (k == C_JOFF) return Cmd(k, 0, 0, mc::choose(2, "job"));
    int e = mc::choose(2, "target");
    if (k == C_MFIRE && inside && e == self) return Cmd();          // an event that fires itself from its own action never returns
    if (k == C_CYCLE) return Cmd(k, e, mc::flip("c") ? .75 : .25);
    if (k == C_BEFORE || k == C_AFTER) return Cmd(k, e, 0, mc::choose(2, "job"));
    return Cmd(k, e);
}
static void part_two() {
    static const double CY[] = {1, .5, .75, .3};
    Scenario s; base_cfg(s); s.cfg.T = 2;
    int w0 = mc::choose(6, "place0"), w1 = mc::choose(6, "place1"); s.cfg.frame = (mc::thorough() || w0 == w1) && mc::flip("frame") ? .5 : 1;
    double c0 = CY[w0 == 0 || w0 == 1 || w0 == 4 ? mc::choose(mc::thorough() ? 4 : 2, "cycle0") : 0], c1 = CY[w1 == 0 || w1 == 1 || w1 == 4 ? mc::choose(mc::thorough() ? 4 : 2, "cycle1") + (mc::thorough() ? 0 : 1) : 0];
    bool reac = !(mc::thorough() || w0 == w1 ? mc::flip("once") : 0);
    s.ev.push_back(ev(c0, {py()}, reac ? vector<ActSpec>{act(), act({Cmd(C_ACT, 0)})} : vector<ActSpec>{act()}));
    s.ev.push_back(ev(c1, {py()}, {act(), act({Cmd(C_ACT, 1)})}));
    place(s, 0, w0); place(s, 1, w1);
    int where = mc::choose(3, "where"), n = mc::thorough() ? 2 : 1;
    if (where == 0) { int t = mc::choose(3, "time"); s.ctl.resize(4); Cmd a = pick_cmd(9, false); s.ctl[t].push_back(a); if (a.k && (mc::thorough() || (w0 == w1 && reac))) { Cmd b = pick_cmd(9, false); if (b.k) s.ctl[t + (mc::flip("later") ? 1 : 0)].push_back(b); } }
    else { int e = where - 1, f = mc::choose(2, "firing"); vector<Cmd> v; for (int i = 0; i < n + (mc::thorough() || (w0 == w1 && reac)); i++) { Cmd a = pick_cmd(e, true); if (!a.k) break; v.push_back(a); }
        bool mf = false; for (auto &c : v) if (c.k == C_MFIRE) { if (mf) return; mf = true; }
        if (!v.empty()) s.once[{e, f}] = v; }
    run_world(s);
}
// ------------------------------------------------ part C: timed statements
static void part_reads() {
    Scenario s; base_cfg(s); s.cfg.T = 2; s.cfg.frame = mc::flip("frame") ? .5 : 1;
    s.ev.push_back(ev(.5, {py(1)}, {act(), act({Cmd(C_ACT, 0)})})); place(s, 0, mc::choose(2, "place") ? 2 : 0);
    static const double T[] = {0, .25, .5, 1, 1.5, 2, .35};
    static const int K[] = {-1, C_DEACT, C_REMOVE, C_ADD, C_MON};
    int n = 1 + mc::choose(3, "n");
    for (int i = 0; i < n; i++) { int th = mc::flip("thread"); if (i == 2 && !mc::thorough() && (th || s.cfg.frame != 1)) return; Cmd c(C_READ, th ? 1000 : 0, T[mc::choose(7, "t")], th ? -1 : K[mc::choose(i == 2 ? 1 : 5, "what")]); s.post.push_back(c); }
    // one more from a running job
    int late = mc::choose(n == 3 && !mc::thorough() ? 1 : 3, "late"); if (late) { s.ctl.resize(4); s.ctl[late].push_back(Cmd(C_READ, 0, T[mc::choose(7, "t")], -1)); }
    run_world(s);
}
// ------------------------------------------------ part D: three events on one job
static void part_target() {
    Scenario s; base_cfg(s); s.cfg.T = 2;
    for (int e = 0; e < 3; e++) { s.ev.push_back(ev(1, {py()}, {act(), act({Cmd(C_ACT, e)})})); bool b = mc::flip("before"); s.ev[e].input = {Cmd(b ? C_BEFORE : C_AFTER, e, 0, 0)}; }
    int src = mc::choose(4, "source"), n = 1 + mc::flip("n"); vector<Cmd> v;
    for (int i = 0; i < n; i++) { static const int K[] = {C_REMOVE, C_DELETE, C_BEFORE, C_AFTER, C_DEACT, C_MON}; int k = mc::choose(6, "cmd"); v.push_back(Cmd(K[k], mc::choose(3, "target"), 0, 0)); }
    if (src == 3) { s.ctl.resize(3); s.ctl[mc::choose(3, "time")] = v; } else s.once[{src, mc::choose(2, "firing")}] = v;
    run_world(s);
}
// ------------------------------------------------ part E: the length of a tic
static void part_tic() {
    static const int TT[] = {20, 40, 100, 1000, 1000000}; 
    Scenario s; base_cfg(s); s.cfg.T = 2; int a = TT[mc::choose(5, "tic")], b = TT[mc::choose(5, "newtic")]; s.tic = a;
    static const double CY[] = {.5, 1, .75, .35, .25};
    s.ev.push_back(ev(CY[mc::choose(5, "cycle")], {py(1)}, {act(), act({Cmd(C_ACT, 0)})})); place(s, 0, mc::choose(2, "thread"));
    s.post.push_back(Cmd(C_READ, 0, mc::flip("t") ? 1.5 : .35, -1));
    switch (mc::choose(3, "when")) { case 0: s.ev[0].input.insert(s.ev[0].input.begin(), Cmd(C_TIC, 0, b)); break; case 1: s.ev[0].input.push_back(Cmd(C_TIC, 0, b)); break; case 2: s.post.push_back(Cmd(C_TIC, 0, b)); break; }
    run_world(s);
}
// cycles that are a whole number of tics, in decimal
static void part_cycle() {
    static const int TT[] = {1000000, 1000, 100, 10};
    int tic = TT[mc::choose(4, "tic")], n = 1 + mc::choose(mc::thorough() ? 2000 : 400, "n");
    Trick::Executive ex; ex.set_time_tic_value(tic);
    struct Ev : public Trick::Event { int process(ll) { return 0; } void add() {} void remove() {} void restart() {} } e;
    char b[32]; snprintf(b, 32, "%.6f", (double)n / tic); double c = atof(b); e.set_cycle(c);
    mc::state(mc::hv(tic * 10000LL + n)); mc::outcome(mc::hv(e.get_cycle_tics()));
    if (e.get_cycle_tics() != n) mc::fail("cycle-tics", "a cycle of %s s with %d tics a second is %lld tics", b, tic, e.get_cycle_tics());
}
static size_t io_size(const string &t) { if (t == "bool" || t.find("char") != string::npos) return 1; if (t.find("short") != string::npos) return 2; if (t == "int" || t == "unsigned int" || t == "float") return 4; return 8; }
// ------------------------------------------------ part F: variables as conditions
static void part_vars() {
    static const char *T[] = {"bool", "char", "unsigned char", "short", "unsigned short", "int", "unsigned int", "long", "unsigned long", "long long", "unsigned long long", "float", "double"};
    static const double V[] = {0, 1, 2, 100, 256, 65536, 1099511627776., -1, -256, .5, 1e-30, 3.5, -0.};
    int t = mc::choose(13, "type"), v = mc::choose(13, "value"), how = mc::choose(3, "how"); double x = V[v];
    Scenario s; base_cfg(s); s.ev.push_back(ev(1, {}, {act()})); char b[64];
    Real r; R = &r; r.s = s; r.nread = 0; r.limit = false; r.nf.assign(1, 0); the_em = &r.em; the_mtv = &r.mtv; Trick::IPPythonEvent::set_python_processor(&r.ip);
    {
        Trick::Executive ex; ex.set_time_tic_value(20); EvObj eo; ex.add_sim_object(&eo, "trick_em"); Clean cl(r, s); make_events(r);
        snprintf(b, 64, how ? how == 1 ? "%s vv[3]" : "%s *vv" : "%s vv", T[t]); void *p = TMM_declare_var_s(b); void *q = 0;
        if (how == 2) { snprintf(b, 64, "%s ww[2]", T[t]); q = TMM_declare_var_s(b); *(void **)p = q; } else q = p;
        int ix = how ? 1 : 0; bool expect = false;
#define SET(C) { ((C *)q)[ix] = (C)x; expect = ((C *)q)[ix] != 0; }
        if (t < 11 && (x < 0 ? (t == 0 || t == 2 || t == 4 || t == 6 || t == 8 || t == 10) : false)) x = 3;
        static const double MX[] = {1, 127, 255, 32767, 65535, 2147483647., 4294967295., 9e18, 9e18, 9e18, 9e18, 1e38, 1e300}; if (fabs(x) > MX[t]) x = MX[t];
        switch (t) { case 0: ((bool *)q)[ix] = expect = x != 0; break; case 1: SET(char) break; case 2: SET(unsigned char) break; case 3: SET(short) break; case 4: SET(unsigned short) break; case 5: SET(int) break; case 6: SET(unsigned) break;
            case 7: SET(long) break; case 8: SET(unsigned long) break; case 9: SET(long long) break; case 10: SET(unsigned long long) break; case 11: SET(float) break; case 12: SET(double) break; }
        r.ev[0]->condition_var(0, how ? "vv[1]" : "vv", "");
        r.ev[0]->process(0); int n = r.ev[0]->fired_count; r.ev[0]->activate();
        // and again with the value changed under it
        ex.set_time(1); memset((char *)q + 0, 0, io_size(T[t]) * (how ? 2 : 1)); r.ev[0]->process(20);
        int n2 = r.ev[0]->fired_count;
        if (how == 2) { *(void **)p = 0; r.ev[0]->activate(); r.ev[0]->process(40); }
        int n3 = r.ev[0]->fired_count;
        mc::state(mc::hv(t * 100 + v)); mc::outcome(mc::hv(t * 1000 + v * 10 + n)); mc::step(3);
        cleanup(r); TMM_delete_var_n("vv"); if (how == 2) TMM_delete_var_n("ww");
        if (n != (int)expect) mc::fail("condition_var", "a %s condition variable of value %.17g is taken as %s", T[t], x, n ? "true" : "false");
        if (n2 != n) mc::fail("condition_var", "a %s condition variable of value 0 is taken as true", T[t]);
        if (n3 != n2) mc::fail("condition_var", "a condition variable behind a NULL pointer is taken as true");
    }
}
// ------------------------------------------------ part G: many events
static void part_many() {
    static const int N[] = {1, 2, 99, 100, 101, 199, 200, 201, 250}; int n = N[mc::choose(9, "n")], rm = mc::choose(5, "remove"), th = mc::choose(2, "how");
    Scenario s; base_cfg(s); for (int i = 0; i < n; i++) s.ev.push_back(ev(1, {}, {act()}));
    Real r; R = &r; r.s = s; r.nread = 0; r.limit = false; r.nf.assign(n, 0); the_em = &r.em; the_mtv = &r.mtv; Trick::IPPythonEvent::set_python_processor(&r.ip);
    {
        Trick::Executive ex; ex.set_time_tic_value(20); EvObj eo; ex.add_sim_object(&eo, "trick_em"); Clean cl(r, s); make_events(r);
        vector<int> act_, mtv;
        for (int i = 0; i < n; i++) { ippython_add_event(r.ev[i]); if (i % 3 == 0) ippython_add_event(r.ev[i]); act_.push_back(i); mtv.push_back(i); }
        auto del = [&](int i) { if (th) { ippython_delete_event(r.ev[i]); for (auto &q : mtv) if (q == i) q = -1; } else r.em.remove_event(r.ev[i]); act_.erase(std::remove(act_.begin(), act_.end(), i), act_.end()); };
        if (rm == 1) del(0); if (rm == 2) del(n - 1); if (rm == 3) for (int i = 0; i < n; i += 2) del(i); if (rm == 4) { for (int i = 0; i < n; i++) del(i); for (int i = n - 1; i >= 0; i--) { ippython_add_event(r.ev[i]); act_.push_back(i); bool in = false; for (int q : mtv) in |= q == i; if (!in) mtv.push_back(i); } }
        bool ok = r.em.num_active_events == act_.size(); for (size_t i = 0; ok && i < act_.size(); i++) ok = r.em.active_events[i] == r.ev[act_[i]];
        bool okm = r.mtv.mtv_count == mtv.size(); for (size_t i = 0; okm && i < mtv.size(); i++) okm = r.mtv.mtv_list[i] == (mtv[i] < 0 ? &r.mtv.dummy_event : r.ev[mtv[i]]);
        bool okg = true; char b[32];
        for (int i = 0; okg && i < n; i++) { snprintf(b, 32, "ev%d", i); bool in = std::find(act_.begin(), act_.end(), i) != act_.end(), inm = std::find(mtv.begin(), mtv.end(), i) != mtv.end();
            okg = r.em.get_event(b) == (in ? (Trick::Event *)r.ev[i] : 0) && r.mtv.get_event(b) == (inm ? r.ev[i] : 0);
            if (okg) { r.em.activate_event(b); okg = r.ev[i]->is_active() || !in; } }
        // every remaining event is evaluated once
        r.ep0.add_pending_events(0); size_t set = r.ep0.event_set.size(); r.ep0.process_event(0); size_t proc = r.ep0.event_set.size();
        // a thread that does not exist
        r.ev[0]->set_thread(7); r.em.remove_event(r.ev[0]); int rc = r.em.add_event(r.ev[0]); r.em.remove_event(r.ev[0]);
        size_t na = r.em.num_active_events;
        mc::state(mc::hv(n * 10 + rm)); mc::outcome(mc::hv(n * 100 + rm * 10 + th)); mc::step(n);
        cleanup(r);
        if (!ok) mc::fail("active-list", "%d events, removal pattern %d: the list of active events differs", n, rm);
        if (!okm) mc::fail("mtv-list", "%d events, removal pattern %d: the list of the viewer differs", n, rm);
        if (!okg) mc::fail("get_event", "%d events, removal pattern %d: an event is not found, or a removed one is", n, rm);
        if (set != act_.size() || proc != act_.size()) mc::fail("set", "%d events, removal pattern %d: %d events waiting, %d after they were processed, expected %d", n, rm, (int)set, (int)proc, (int)act_.size());
        if (rc != -1) mc::fail("thread", "an event on a thread that does not exist is accepted");
        (void)na;
    }
}
int main(int c, char **v) {
    init_types(); static Globals g;
    mc::Options o; o.split = 4; o.timeout_s = 20;
    return mc::run(c, v, o, [] { switch (mc::choose(8, "part")) { case 0: part_logic(); break; case 1: part_two(); break; case 2: part_reads(); break; case 3: part_target(); break; case 4: part_tic(); break; case 5: part_cycle(); break; case 6: part_vars(); break; case 7: part_many(); break; } });
}
