// C35: the real real-time injector (RtiStager, RtiExec, RtiList, RtiEvent) with client threads and the frame
// threads under the controlled scheduler, and its command histories and value types against a reference model.
#define MC_MAIN
#include "mc.hh"
#include "sched.hh"
#include <iostream>
#include "trick/MemoryManager.hh"
#include "trick/RtiStager.hh"
#include "trick/UdUnits.hh"
#include "mm_types.hh"
typedef long long ll;
static long long frame_no; static int silent;
extern "C" { long long exec_get_frame_count() { return frame_no; } int message_publish(int, const char *, ...) { return 0; } }
static Trick::MemoryManager *mm; static std::string what;
#define BAD(sig, ...) do { char _b[600]; snprintf(_b, 600, __VA_ARGS__); sched::fail(sig, "%s; %s", _b, what.c_str()); } while (0)
static int *X, *V[8][2]; static char vn[8][2][8];
static void setup() {
    static bool once = false; if (once) return; once = true; static Trick::UdUnits uds; uds.read_default_xml(); mm = new Trick::MemoryManager; static struct NB : std::streambuf { int overflow(int c) override { return c; } } nb; std::cout.rdbuf(&nb); std::cerr.rdbuf(&nb); stderr = fopen("/dev/null", "w");
    X = (int *)mm->declare_var("int X"); for (int i = 0; i < 8; i++) for (int k = 0; k < 2; k++) { sprintf(vn[i][k], "V%d%c", i, 'a' + k); V[i][k] = (int *)mm->declare_var((std::string("int ") + vn[i][k]).c_str()); }
}
static char xname[] = "X";
// ---- interleavings
struct RefList { int id, client, exec, seq; bool fired; long applied; };
static std::map<int, RefList> fired; static int order; static bool done[3]; static std::vector<std::pair<long, int>> last_x; static int only_exec;
static Trick::RtiStager *rtis; static Trick::RtiExec *ex[2];
// list i assigns X = i*10, both of its own variables, X = i*10+1
static void client_list(int i, int client, int exec, bool fire) {
    rtis->Add(xname, (ll)i * 10); rtis->Add(vn[i][0], (ll)i + 1); sched::point("between commands"); rtis->Add(vn[i][1], (double)i + 1); rtis->Add(xname, (double)(i * 10 + 1));
    RefList l = {i, client, exec, -1, fire, -1}; if (!fire) { l.fired = false; return; } l.seq = order++; fired[i] = l; rtis->Fire(exec);
}
static void run_exec(int e) {
    ex[e]->Exec(); std::string got; int lastx = *X; std::vector<int> now; for (int i = 0; i < 8; i++) {
        bool mine = fired.count(i) && fired[i].exec == e; if (!mine) { if (!fired.count(i) && (*V[i][0] || *V[i][1])) BAD("a list which was not fired is applied", "list %d", i); continue; }
        int n = (*V[i][0] == i + 1) + (*V[i][1] == i + 1); if (n == 1) BAD("a list is applied in part", "list %d in frame %lld", i, frame_no); if (n == 2) { if (fired[i].applied >= 0) BAD("a list is applied twice", "list %d in frames %ld and %lld", i, fired[i].applied, frame_no); fired[i].applied = frame_no; now.push_back(i); *V[i][0] = *V[i][1] = 0; }
    }
    if (only_exec >= 0 && !now.empty()) { if (lastx % 10 != 1) BAD("assignments of a list are out of order", "X is %d in frame %lld", lastx, frame_no); int li = lastx / 10; bool in = false; for (int i : now) in |= i == li; if (!in) BAD("assignments of a list are out of order", "X is %d in frame %lld", lastx, frame_no); for (int i : now) if (fired[i].client == fired[li].client && fired[i].seq > fired[li].seq) BAD("lists of a client are applied out of order", "list %d after list %d", li, i); }
    for (int i : now) for (auto &f : fired) if (f.second.exec == e && f.second.client == fired[i].client && f.second.seq < fired[i].seq && f.second.applied < 0) BAD("lists of a client are applied out of order", "list %d before list %d", i, f.first);
}
static int kind; static int clients_left;
static void *client(void *a) {
    long c = (long)a; switch (kind) {
    case 0: client_list(0, c, 0, true); client_list(1, c, 0, true); break;
    case 1: case 5: client_list(c, c, 0, true); break;
    case 2: client_list(0, c, 0, true); client_list(1, c, 0, false); break;
    case 3: client_list(0, c, 0, true); client_list(1, c, 0, true); break;
    case 4: client_list(0, c, 0, true); client_list(1, c, 1, true); break;
    case 6: rtis->Fire(0); client_list(0, c, 0, true); rtis->Fire(0); break;
    case 7: client_list(c * 2, c, 0, true); client_list(c * 2 + 1, c, 0, true); break;
    }
    clients_left--; return 0;
}
static bool stop2; static void *second(void *) { for (int f = 0; f < 3 || !stop2; f++) { run_exec(1); usleep(1000); } run_exec(1); return 0; }
static void threads_body() {
    rtis = new Trick::RtiStager; ex[0] = new Trick::RtiExec; ex[1] = new Trick::RtiExec; rtis->AddInjectorExecutor(ex[0]); rtis->AddInjectorExecutor(ex[1]); sched::watch(&rtis->list_map, sizeof rtis->list_map); sched::watch(&ex[0]->fire_list, sizeof ex[0]->fire_list); sched::watch(&ex[1]->fire_list, sizeof ex[1]->fire_list); for (int i = 0; i < 8; i++) for (int k = 0; k < 2; k++) sched::watch(V[i][k], 4);
    int n = kind == 1 || kind == 7 ? 2 : 1; clients_left = n; pthread_t id[3]; frame_no = 0; only_exec = kind == 4 ? -1 : 0; if (kind == 3) { rtis->SetFrameMultiple(0, 2); rtis->SetFrameOffset(0, 1); }
    for (long c = 0; c < n; c++) pthread_create(&id[c], 0, client, (void *)c); stop2 = false; if (kind == 4) pthread_create(&id[2], 0, second, 0);
    if (kind == 5) client_list(1, 1, 0, true);
    for (int f = 0; f < 3; f++) { frame_no++; run_exec(0); sched::point("frame"); usleep(1000); }
    for (int c = 0; c < n; c++) pthread_join(id[c], 0); frame_no++; run_exec(0); frame_no++; run_exec(0); if (kind == 4) { stop2 = true; pthread_join(id[2], 0); }
    for (auto &f : fired) { if (f.second.applied < 0) BAD("a fired list is lost", "list %d", f.first); if (kind == 3 && f.second.applied % 2 != 1) BAD("a list is applied in another frame than configured", "list %d in frame %ld", f.first, f.second.applied); }
    if (kind == 2 && rtis->list_map.size() != 1) BAD("a list which was not fired is lost", "%d lists", (int)rtis->list_map.size());
    for (auto &l : rtis->list_map) { for (auto e : l.second->event_list) delete e; delete l.second; } delete ex[0]; delete ex[1]; delete rtis;
}
static void threads_part() {
    setup(); kind = mc::choose(8, "configuration"); what = "configuration " + std::to_string(kind); fired.clear(); order = 0; *X = 0; for (int i = 0; i < 8; i++) *V[i][0] = *V[i][1] = 0; sched::G.spurious_left = 0;
    sched::run(2 + (mc::thorough() ? kind != 7 && kind != 4 : kind == 2 || kind == 5), threads_body); ll h = kind; for (auto &f : fired) h = mc::hv(h, f.first, f.second.applied); mc::state(h); mc::outcome(h);
}
// ---- histories of one thread
struct ME { int var, val; }; struct MX { std::deque<std::vector<ME>> q; unsigned mult, off; };
static void history_part() {
    setup(); int depth = mc::thorough() ? 6 : 5; what.clear(); Trick::RtiStager st; Trick::RtiExec e[2]; st.AddInjectorExecutor(&e[0]); st.AddInjectorExecutor(&e[1]); MX m[2] = {{{}, 1, 0}, {{}, 1, 0}}; std::vector<ME> staged; bool have = false; int val = 0; int var[3] = {0, 0, 0}; frame_no = 0; int *addr[3] = {X, V[0][0], V[0][1]}; for (int *a : addr) *a = 0;
    auto sync = [&](const char *w) { for (int i = 0; i < 3; i++) if (*addr[i] != var[i]) BAD("a value differs after a history", "%s is %d, expected %d after %s", i ? vn[0][i - 1] : "X", *addr[i], var[i], w); };
    for (int d = 0; d < depth; d++) {
        int op = mc::choose(12, "command"); char w[60];
        switch (op) {
        case 0: case 1: case 2: { val++; char *n = op ? vn[0][op - 1] : xname; if (op == 1) st.Add(n, (double)val); else st.Add(n, (ll)val); staged.push_back({op, val}); have = true; sprintf(w, "add %s=%d", n, val); break; }
        case 3: { char bad[] = "nosuch"; st.Add(bad, 1.0); strcpy(w, "add nosuch"); break; }
        case 4: case 5: st.Fire(op - 4); if (have) { m[op - 4].q.push_back(staged); staged.clear(); have = false; } sprintf(w, "fire %d", op - 4); break;
        case 6: if (st.Fire(7) == 0) BAD("an executor which does not exist is accepted", "fire 7"); strcpy(w, "fire 7"); break;
        case 7: st.SetFrameMultiple(0, 3); m[0].mult = 3; strcpy(w, "multiple 3"); break;
        case 8: { int r = st.SetFrameOffset(0, 2); if ((r == 0) != (2 < m[0].mult)) BAD("a frame offset", "offset 2 of %u: %d", m[0].mult, r); if (!r) m[0].off = 2; strcpy(w, "offset 2"); break; }
        case 9: { int r = st.SetFrameMultiple(0, 2); if ((r == 0) != (m[0].off < 2)) BAD("a frame multiple which no frame fits is accepted", "multiple 2 with offset %u", m[0].off); if (!r) m[0].mult = 2; strcpy(w, "multiple 2"); break; }
        case 10: { int r = st.SetFrameMultiple(0, 0); if (!r) BAD("a frame multiple which no frame fits is accepted", "multiple 0"); strcpy(w, "multiple 0"); break; }
        case 11: frame_no++; for (int i = 0; i < 2; i++) { e[i].Exec(); if (frame_no % m[i].mult == m[i].off) { for (auto &l : m[i].q) for (auto &a : l) var[a.var] = a.val; m[i].q.clear(); } } sprintf(w, "frame %lld", frame_no); break;
        }
        what += std::string(" ") + w; mc::step(); sync(w);
    }
    for (int q = 0; q < 3; q++) { frame_no++; for (int i = 0; i < 2; i++) { e[i].Exec(); if (frame_no % m[i].mult == m[i].off) { for (auto &l : m[i].q) for (auto &a : l) var[a.var] = a.val; m[i].q.clear(); } } sync("the last frames"); }
    for (auto &l : st.list_map) { for (auto x : l.second->event_list) delete x; delete l.second; } mc::state(mc::hv(var[0], var[1], var[2], m[0].mult, m[0].off));
}
// ---- every type and value
static void type_part() {
    setup(); static struct Ty { const char *n; double lo, hi; } ty[] = {{"char", -128, 127}, {"unsigned char", 0, 255}, {"short", -32768, 32767}, {"unsigned short", 0, 65535}, {"int", -2147483648., 2147483647.}, {"unsigned int", 0, 4294967295.}, {"long", -9.2e18, 9.2e18}, {"unsigned long", 0, 1.8e19}, {"long long", -9.2e18, 9.2e18}, {"unsigned long long", 0, 1.8e19}, {"float", -1e30, 1e30}, {"double", -1e300, 1e300}, {"bool", 0, 1}};
    static void *base; if (!base) { for (auto &t : ty) { static int k = 0; char b[80]; sprintf(b, "%s t%d[3]", t.n, k++); mm->declare_var(b); } base = mm->declare_var("MMDeriv dv"); }
    static const ll vals[] = {0, 1, -1, 5, 7, 127, -128, 255, 32767, -32768, 65535, 2147483647, -2147483648LL, 4294967295LL, 9007199254740993LL, -9007199254740993LL, LLONG_MAX, LLONG_MIN, 1000003}; static const double dvals[] = {0.5, -2.75, 1e10, -1e10, 3.999, 1e18};
    int nt = sizeof ty / sizeof *ty; int t = mc::choose(nt + 4, "type"); bool dbl = mc::flip("double"); Trick::RtiStager st; Trick::RtiExec e; st.AddInjectorExecutor(&e); int vi = mc::choose(dbl ? (int)(sizeof vals / sizeof *vals + sizeof dvals / sizeof *dvals) : (int)(sizeof vals / sizeof *vals), "value"); frame_no = 1;
    double dv = vi < (int)(sizeof vals / sizeof *vals) ? (double)vals[vi] : dvals[vi - sizeof vals / sizeof *vals]; ll lv = vi < (int)(sizeof vals / sizeof *vals) ? vals[vi] : 0; char b[300]; snprintf(b, 300, "%s = %s", t < nt ? ty[t].n : "bit-field", dbl ? std::to_string(dv).c_str() : std::to_string(lv).c_str()); what = b;
    if (t < nt) {
        if (dv < ty[t].lo || dv > ty[t].hi) return; char nm[20]; sprintf(nm, "t%d[1]", t); REF2 *r = mm->ref_attributes(nm); char *a = (char *)r->address; int sz = r->attr->size; free(r); memset(a - sz, 0x5a, 3 * sz); if (dbl) st.Add(nm, dv); else st.Add(nm, lv); for (int i = 0; i < sz; i++) if (a[i] != 0x5a) BAD("a list which was not fired is applied", "before fire"); st.Fire(0); e.Exec();
        for (int i = 0; i < sz; i++) if (a[i - sz] != 0x5a || a[i + sz] != 0x5a) BAD("an assignment changes another variable", "beside element 1");
        bool ok = false; char w[16] = {};
#define CASE(k, T) case k: { T x = dbl ? (T)dv : (T)lv; memcpy(w, &x, sizeof x); ok = sz == (int)sizeof x && !memcmp(a, w, sizeof x); break; }
        switch (t) { CASE(0, char) CASE(1, unsigned char) CASE(2, short) CASE(3, unsigned short) CASE(4, int) CASE(5, unsigned) CASE(6, long) CASE(7, unsigned long) CASE(8, long long) CASE(9, unsigned long long) CASE(10, float) CASE(11, double) CASE(12, bool) }
        if (!ok) BAD("a wrong value is stored", "%s", b);
    } else {
        MMDeriv *o = (MMDeriv *)base; int f = t - nt; const char *nm[] = {"dv.u3", "dv.s5", "dv.u1", "dv.u23"}; double lo[] = {0, -16, 0, 0}, hi[] = {7, 15, 1, 8388607}; double tv = (double)(ll)dv; if (tv < lo[f] || tv > hi[f]) return; for (int fill = 0; fill < 2; fill++) { o->u3 = fill ? 7 : 0; o->s5 = fill ? -1 : 0; o->u1 = fill; o->u23 = fill ? 8388607 : 0; o->di = 77; char n[20]; strcpy(n, nm[f]); if (dbl) st.Add(n, dv); else st.Add(n, lv); st.Fire(0); e.Exec(); int got[4] = {(int)o->u3, o->s5, (int)o->u1, (int)o->u23}; int want[4] = {fill ? 7 : 0, fill ? -1 : 0, fill, fill ? 8388607 : 0}; want[f] = (int)tv; for (int i = 0; i < 4; i++) if (got[i] != want[i]) BAD("a wrong value is stored", "%s: %s is %d, expected %d", b, nm[i], got[i], want[i]); if (o->di != 77) BAD("an assignment changes another variable", "%s", nm[f]); }
    }
    mc::outcome(mc::hv(t, vi));
}
int main(int c, char **v) { mc::Options o; o.split = 5; o.timeout_s = 20; return mc::run(c, v, o, [] { switch (mc::choose(3, "part")) { case 0: threads_part(); break; case 1: history_part(); break; case 2: type_part(); } }); }
