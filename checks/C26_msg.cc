// C26: the real message publisher, subscribers and C interface: histories of one thread against a reference model,
// texts and headers, and publishing, subscribing and printing threads under the controlled scheduler.
#define MC_MAIN
#include "mc.hh"
#include "sched.hh"
#include <iostream>
#include <sstream>
#include <cmath>
#include <set>
#include <fstream>
#include <sys/time.h>
#include <sys/stat.h>
#include "trick/MessagePublisher.hh"
#include "trick/MessageCout.hh"
#include "trick/MessageFile.hh"
#include "trick/MessageHSFile.hh"
#include "trick/MessageCustomManager.hh"
#include "trick/MessageTCDevice.hh"
#include "trick/MessageThreadedCout.hh"
#include "trick/PlaybackFile.hh"
#include "trick/Message_proto.hh"
#include "trick/message_proto.h"
#include "trick/command_line_protos.h"
#include "trick/message_type.h"
#include "trick/tc.h"
typedef long long ll; typedef std::string S;
static ll tics; static int tic_value = 1000000; static S dir, what; static struct timeval wall;
#define BAD(sig, ...) do { char _b[900]; snprintf(_b, 900, __VA_ARGS__); sched::fail(sig, "%s; %s", _b, what.c_str()); } while (0)
struct Dev { TCDevice d; S got; int fail_at, n; bool open; }; static std::map<TCDevice *, Dev *> devs;
extern "C" {
long long exec_get_time_tics() { return tics; } int exec_get_time_tic_value() { return tic_value; } unsigned int exec_get_process_id() { return 3; } int mc_is_slave() { return 0; } const char *command_line_args_get_output_dir() { return dir.c_str(); }
void *TMM_declare_var_s(const char *) { return new Trick::MessageCustomFile; } int TMM_delete_var_a(void *p) { delete (Trick::MessageCustomFile *)p; return 0; }
int tc_init(TCDevice *) { return 0; } int tc_accept_(TCDevice *, TCDevice *, const char *, int) { return 1; }
int tc_write_(TCDevice *d, char *b, int n, const char *, int) { Dev *v = devs[d]; sched::point("send"); if (!v->open) BAD("a message to a closed connection", "%s", S(b, n).c_str()); if (v->n++ == v->fail_at) { v->got += S(b, n / 2); return n / 2; } v->got += S(b, n / 2); sched::point("send"); v->got += S(b + n / 2, n - n / 2); return n; }
int tc_disconnect(TCDevice *d) { devs[d]->open = false; return 0; }
int gettimeofday(struct timeval *tv, void *) throw() { *tv = wall; return 0; }
}
void create_path(const char *p) { mkdir(p, 0755); }
struct Out : std::streambuf { S s; bool pts = false; int sync() override { if (pts) { sched::point("print"); sched::check_cancel(); } return 0; } int overflow(int c) override { s += (char)c; return c; } std::streamsize xsputn(const char *p, std::streamsize n) override { if (pts) { sched::point("print"); sched::check_cancel(); } s.append(p, n); return n; } };
static Out out; static FILE *real_err;
static S header(int level, const S &sim) {
    char b[300], t[60]; struct tm m; time_t s = wall.tv_sec; localtime_r(&s, &m); strftime(t, 60, "%Y/%m/%d,%H:%M:%S", &m); char host[64]; gethostname(host, 48); int d = (int)round(log10((double)tic_value)); ll frac = tics % tic_value; S f; ll p = 1; for (int i = 0; i < d; i++) p *= 10; char fb[40]; snprintf(fb, 40, "%0*lld", d, (ll)((__int128)frac * p / tic_value)); f = fb;
    snprintf(b, 300, "|L %3d|%s.%06ld|%s|%s|T %d|%lld.%s| ", level, t, (long)wall.tv_usec, host, sim.c_str(), 3, tics / tic_value, f.c_str()); return b;
}
static S color(int l) { switch (l) { case 1: return "\033[32m"; case 2: return "\033[33m"; case 3: return "\033[31m"; case 10: return "\033[36m"; } return "\033[00m"; }
struct Rec : Trick::MessageSubscriber { std::vector<std::pair<int, S>> got; bool pts; std::vector<S> heads; Rec(const char *n, bool p = false) : pts(p) { name = n; } void update(unsigned l, S h, S m) override { if (pts) sched::point("update"); got.push_back({(int)l, m}); heads.push_back(h); } };
static S slurp(const S &f) { std::ifstream i(f); std::stringstream s; s << i.rdbuf(); return s.str(); }
static void setup() { static bool once = false; if (once) return; once = true; char b[] = "/dev/shm/c26XXXXXX"; dir = mkdtemp(b); setenv("TZ", "UTC", 1); std::cout.rdbuf(&out); real_err = stderr; if (!getenv("MM_LOUD")) stderr = fopen("/dev/null", "w"); wall.tv_sec = 1700000000; wall.tv_usec = 4321; atexit([] {}); }
struct Cleanup { ~Cleanup() { if (!dir.empty()) { for (const char *f : {"log", "send_hs", "varserver_log", "c1", "c2", "c3"}) unlink((dir + "/" + f).c_str()); rmdir(dir.c_str()); } } } ; // the directory is removed at the end of each body
static Trick::MessageSubscriber *sub(int kind, S &file) {
    file = ""; switch (kind) {
    case 0: return new Rec("rec"); case 1: return new Trick::MessageCout; case 2: { auto f = new Trick::MessageFile; f->name = "log"; f->set_file_name("log"); f->init(); file = "log"; return f; } case 3: { auto f = new Trick::MessageHSFile; f->init(); file = "send_hs"; return f; }
    case 4: { auto f = new Trick::PlaybackFile; f->init(); file = "varserver_log"; return f; } case 5: { auto m = new Trick::MessageCustomManager; m->name = "custom"; return m; } case 6: return new Trick::MessageTCDevice; case 7: { auto t = new Trick::MessageThreadedCout; t->print_immediate = true; return t; } }
    return 0;
}
// what subscriber kind prints for a message
static void del(Trick::MessageSubscriber *s) { if (auto *t = dynamic_cast<Trick::MessageThreadedCout *>(s)) { auto *n = t->copy_ptr->next; while (n != t->copy_ptr) { auto *k = n->next; delete n; n = k; } delete n; } if (!dynamic_cast<Trick::MessageTCDevice *>(s)) { delete s; return; } auto *d = (Trick::MessageTCDevice *)s; d->connections.clear(); d->listen_thread.listen_dev.socket = -1; d->listen_thread.listen_dev.hostname = 0; delete d; }
static bool wants(int kind, int level) { switch (kind) { case 0: return true; case 4: return level == MSG_PLAYBACK; case 5: return level == 1337 || level == 200; default: return level >= 0 && level < 100; } }
static S prints(int kind, int level, const S &h, const S &m, bool col) { if (!wants(kind, level)) return ""; switch (kind) { case 1: case 6: return col ? h + color(level) + m + "\033[00m" : h + m; case 7: return h + color(level) + m + "\033[00m"; case 4: return m; default: return h + m; } }
static void say(int api, int level, const char *f, ...) { va_list a, b; va_start(a, f); va_copy(b, a); char t[21000]; vsnprintf(t, sizeof t, f, b); va_end(b); switch (api) { case 0: message_publish(level, "%s", t); break; case 1: vmessage_publish(level, f, a); break; case 2: send_hs(0, "%s", t); break; case 3: vsend_hs(0, f, a); break; } va_end(a); }
static S stdout_of(std::function<void()> f) { FILE *o = stdout; char *b = 0; size_t n = 0; stdout = open_memstream(&b, &n); f(); fclose(stdout); stdout = o; S s(b, n); free(b); return s; }
static const int levels[] = {0, 1, 2, 3, 4, 10, 99, 100, 101, 200, 1337, -1};
struct World { Trick::MessagePublisher *p; Rec r; int kind; Trick::MessageSubscriber *s; S file; Dev dev[2]; S want; std::vector<std::pair<int, S>> rwant; World() : r("witness") {} };
static S got(World &w) { switch (w.kind) { case 0: { S s; auto *r = (Rec *)w.s; for (size_t i = 0; i < r->got.size(); i++) s += r->heads[i] + r->got[i].second; return s; } case 1: case 7: return out.s; case 5: return slurp(dir + "/c1") + slurp(dir + "/c2"); case 6: return w.dev[0].got; default: return slurp(dir + "/" + w.file); } }
static void histories() {
    setup(); mkdir(dir.c_str(), 0755); Cleanup cl; World w; tics = 0; tic_value = 1000000; out.s.clear(); out.pts = false; devs.clear(); w.p = new Trick::MessagePublisher; w.kind = mc::choose(8, "subscriber"); static const char *kn[] = {"recorder", "cout", "file", "hs file", "playback", "custom", "device", "threaded cout"}; what = kn[w.kind]; w.s = sub(w.kind, w.file); bool filed = w.kind >= 2 && w.kind <= 5;
    if (w.kind == 5) { auto *m = (Trick::MessageCustomManager *)w.s; int l1 = m->open_custom_message_file("c1", "one", 1337), l2 = m->open_custom_message_file("c2", "", 200); if (l1 != 1337 || l2 != 200) BAD("a custom file has another level than given", "%d %d", l1, l2); if (m->_custom_message_files[1]->name != "CustomLog200") BAD("a custom file without a name", "%s", m->_custom_message_files[1]->name.c_str()); }
    if (w.kind == 6) { auto *d = (Trick::MessageTCDevice *)w.s; for (int i = 0; i < 2; i++) { w.dev[i].fail_at = i ? 1 : -1; w.dev[i].n = 0; w.dev[i].open = true; memset(&w.dev[i].d, 0, sizeof(TCDevice)); devs[&w.dev[i].d] = &w.dev[i]; d->add_connection(&w.dev[i].d); } }
    message_subscribe(&w.r); bool subd = false, en = true, col = true, ren = true; if (w.kind != 5 || true) col = w.s->color; std::map<int, S> cw; int depth = mc::thorough() ? (filed ? 4 : 5) : (filed ? 3 : 4), published = 0, sent = 0; S want1;
    for (int d = 0; d < depth; d++) {
        int nl = sizeof levels / sizeof *levels, op = mc::choose(6 + nl, "command"); char b[80];
        if (op == 0) { if (mc::flip("C interface")) message_add_subscriber(w.s); else message_subscribe(w.s); subd = true; strcpy(b, "subscribe"); } else if (op == 1) { if (d & 1) message_remove_subscriber(w.s); else message_unsubscribe(w.s); subd = false; strcpy(b, "unsubscribe"); } else if (op == 2) { en = !en; w.s->set_enabled(en); strcpy(b, en ? "enable" : "disable"); } else if (op == 3) { col = !col; w.s->set_color(col); strcpy(b, col ? "color" : "no color"); }
        else if (op == 4) { ren = !ren; w.r.set_enabled(ren); strcpy(b, ren ? "enable witness" : "disable witness"); } else if (op == 5) { Trick::MessageSubscriber *f = (Trick::MessageSubscriber *)message_get_subscriber(w.s->name.c_str()); if ((f == w.s) != subd) BAD("a subscriber is not found by its name", "%s", w.s->name.c_str()); if (message_get_subscriber("witness") != (void *)&w.r || message_get_subscriber("nobody")) BAD("a subscriber is not found by its name", "witness"); strcpy(b, "find"); }
        else { int l = levels[op - 6]; char m[60]; sprintf(m, "message %d 100%% %%s %%n\n", published++); say(d & 1, l, "message %d 100%% %%s %%n\n", published - 1); sprintf(b, "publish %d", l); S h = header(l, " "); if (ren) w.rwant.push_back({l, m}); if (subd && en) { S t = prints(w.kind, l, h, m, col); if (w.kind == 5) { cw[l] += t; } else if (w.kind == 7) { w.want += t.substr(0, 4000); } else w.want += t; if (w.kind == 6 && !t.empty()) { if (sent == 0) want1 = t; else if (sent == 1) want1 += t.substr(0, t.size() / 2); sent++; } } }
        what += S(", ") + b; mc::step();
    }
    if (w.kind == 5) w.want = cw[1337] + cw[200]; S g = got(w); if (g != w.want) BAD("a subscriber does not get exactly the messages published while it is subscribed and enabled", "printed <%s>, expected <%s>", g.c_str(), w.want.c_str()); if (w.kind == 6 && w.dev[1].got != want1) BAD("a connection which fails does not get what was sent before", "<%s>, expected <%s>", w.dev[1].got.c_str(), want1.c_str()); if (w.kind == 6 && w.dev[1].open != (sent < 2)) BAD("a connection which fails is not closed", "%d messages", sent); if (w.r.got != w.rwant) BAD("another subscriber is disturbed", "%d messages, expected %d", (int)w.r.got.size(), (int)w.rwant.size());
    if (w.kind != 1 && w.kind != 7 && !out.s.empty()) BAD("a message is printed though there are subscribers", "%s", out.s.c_str());
    mc::state(mc::hv(w.kind, subd, en, col, ren, w.want.size())); mc::outcome(mc::hv(w.kind, g.size())); del(w.s); delete w.p;
}
// every text through every interface to every subscriber, and to none
static void texts() {
    setup(); mkdir(dir.c_str(), 0755); Cleanup cl; int kind = mc::choose(10, "subscriber"), api = mc::choose(4, "interface"); static const S base[] = {"", "\n", "plain\n", "%", "%s", "%d %n %s %%", "100%\n", "tab\tnul", "\\n", S(1, (char)0xe9) + "\xc3\xa9", S(4000, 'x') + "%s"};
    int ti = mc::choose(11 + 4, "text"); S t = ti < 11 ? base[ti] : S(ti == 11 ? 255 : ti == 12 ? 256 : ti == 13 ? 20000 : 20479, 'y'); int level = kind == 4 ? MSG_PLAYBACK : kind == 5 ? 1337 : mc::choose(2, "level") ? 3 : 0; if (api >= 2) level = 0; char b[80]; snprintf(b, 80, "subscriber %d interface %d text %d", kind, api, ti); what = b; tics = 123; tic_value = 1000000; out.s.clear(); out.pts = false; devs.clear();
    auto tell = [&] { switch (api) { case 0: message_publish(level, "%s", t.c_str()); break; case 1: say(1, level, "%s", t.c_str()); break; case 2: send_hs(0, "%s", t.c_str()); break; case 3: say(3, level, "%s", t.c_str()); break; } };
    if (kind == 9) { // no publisher at all
        S g = stdout_of(tell); struct tm m; time_t s = wall.tv_sec; localtime_r(&s, &m); char d[60], host[64], h[300]; strftime(d, 60, "%Y/%m/%d,%H:%M:%S", &m); gethostname(host, 48); snprintf(h, 300, "|L %d|%s.%06ld|  |%s|T 0|0.00| ", level, d, (long)wall.tv_usec, host); if (g != h + t) BAD("a text is changed", "printed <%.300s>, expected <%.300s>", g.c_str(), (h + t).c_str()); mc::outcome(mc::hv(kind, ti)); return;
    }
    World w; w.kind = kind; w.p = new Trick::MessagePublisher; w.p->init(); w.p->sim_name = "my % sim"; S h = header(level, "my % sim");
    if (kind == 8) { S g0 = stdout_of([&] { tell(); }); if (out.s != h + t || !g0.empty()) BAD("a text is changed", "printed <%.300s>, expected <%.300s>", out.s.c_str(), (h + t).c_str()); mc::outcome(mc::hv(kind, ti)); delete w.p; return; }
    w.s = sub(kind, w.file); if (kind == 5) ((Trick::MessageCustomManager *)w.s)->open_custom_message_file("c1", "one", level); if (kind == 6) { w.dev[0].fail_at = -1; w.dev[0].n = 0; w.dev[0].open = true; devs[&w.dev[0].d] = &w.dev[0]; ((Trick::MessageTCDevice *)w.s)->add_connection(&w.dev[0].d); }
    message_subscribe(w.s); tell(); S want = kind == 5 ? h + t : prints(kind, level, h, t, w.s->color); if (kind == 4 && api >= 2) want = ""; if (kind == 7) want = want.substr(0, 4000); if (kind == 6) want = want.substr(0, 20479); S g = got(w); if (g != want) BAD("a text is changed", "printed <%.300s>, expected <%.300s>", g.c_str(), want.c_str()); mc::outcome(mc::hv(kind, ti)); del(w.s); delete w.p;
}
static void headers() {
    setup(); static const int tv[] = {1000000, 1000, 1, 10000000, 4, 1 << 20, 100, 1000000000}; static const ll tt[] = {0, 1, 3, 7, 999, 1000, 999999, 1000001, 123456789, 4000000001LL, 9007199254740993LL}; tic_value = tv[mc::choose(8, "tic value")]; tics = tt[mc::choose(11, "time")]; int l = levels[mc::choose(12, "level")]; wall.tv_usec = mc::flip("microseconds") ? 999999 : 0; wall.tv_sec = mc::flip("date") ? 951782399 : 1700000000; Trick::MessagePublisher p; p.sim_name = mc::flip("name") ? "a|b" : " "; p.init(); Rec r("r"); p.subscribe(&r); message_publish(l, "x"); S h = header(l, p.sim_name); char b[90]; snprintf(b, 90, "time %lld of %d level %d", tics, tic_value, l); what = b; if (r.heads.size() != 1 || r.heads[0] != h || r.got[0].first != l) BAD("a header is wrong", "<%s>, expected <%s>", r.heads.empty() ? "" : r.heads[0].c_str(), h.c_str()); mc::outcome(mc::hv(std::hash<S>()(h))); wall.tv_sec = 1700000000; wall.tv_usec = 4321;
}
// ---- threads
static int kind, left_; static Trick::MessagePublisher *pub; static Trick::MessageThreadedCout *tc; static Trick::MessageTCDevice *dv; static Rec *R1, *R2; static Dev *D; static std::vector<S> before, during_done; static std::set<S> must2, mustnot2; static std::vector<S> begun, ended; static int r2state; static std::map<S, std::pair<int, int>> span; static int stamp, on_from, on_to, off_at, dev_from;
static void tell(const S &m) { span[m].first = ++stamp; message_publish(1, "%s\n", m.c_str()); span[m].second = ++stamp; }
static int npub; static void *publisher(void *a) { long c = (long)a; for (int i = 0; i < npub; i++) { tell(S(1, 'a' + c) + std::to_string(i)); } left_--; return 0; }
static void *adder(void *) { dv->add_connection(&D->d); dev_from = ++stamp; left_--; return 0; }
static void *subscriber_thread(void *) { message_subscribe(R2); on_to = ++stamp; sched::point("subscribed"); int u = ++stamp; message_unsubscribe(R2); off_at = ++stamp; on_from = u; left_--; return 0; }
static void tbody() {
    pub = new Trick::MessagePublisher; R1 = new Rec("one", true); R2 = new Rec("two", true); tc = new Trick::MessageThreadedCout; dv = 0; message_subscribe(R1); span.clear(); stamp = 0; off_at = on_to = on_from = 0; dev_from = 1 << 30; out.s.clear(); out.pts = true; bool threaded = kind != 1 && kind != 3; if (threaded) { message_subscribe(tc); sched::watch(&tc->copy_ptr, 8); sched::watch(&tc->write_ptr, 8); sched::watch(&tc->print_immediate, 1); tc->init(); tc->init(); } sched::watch(&pub->subscribers, sizeof pub->subscribers);
    Dev dev; if (kind == 3) { dv = new Trick::MessageTCDevice; dev.fail_at = -1; dev.n = 0; dev.open = true; memset(&dev.d, 0, sizeof dev.d); D = &dev; devs.clear(); devs[&dev.d] = D; message_subscribe(dv); sched::watch(&dv->connections, sizeof dv->connections); }
    npub = kind == 0 || kind == 2 ? 1 : 2; int n = kind == 0 ? 2 : 1; if (kind == 4) n = 0; pthread_t id[4]; int k = 0; left_ = 0; for (long c = 0; c < n; c++) { left_++; pthread_create(&id[k++], 0, publisher, (void *)c); } if (kind == 1) { left_++; pthread_create(&id[k++], 0, subscriber_thread, 0); } if (kind == 3) { left_++; pthread_create(&id[k++], 0, adder, 0); }
    if (kind != 2) tell("m0"); if (kind == 1) tell("m1"); if (kind == 4) tell("m1");
    if (kind != 2 && kind != 4) for (int i = 0; i < k; i++) pthread_join(id[i], 0);
    // the end of a simulation: shutdown job, threads are cancelled, late messages
    if (threaded) { tc->shutdown(); sched::point("shut down"); } Trick::SysThread::ensureAllShutdown(); if (kind == 2) pthread_join(id[0], 0); tell("end");
    out.pts = false; std::vector<S> o; for (auto &g : R1->got) o.push_back(g.second.substr(0, g.second.size() - 1)); std::map<S, int> c; for (auto &m : o) c[m]++; for (auto &s : span) if (c[s.first] != 1) BAD("a message does not reach a subscriber exactly once", "%s: %d times", s.first.c_str(), c[s.first]); if (o.size() != span.size()) BAD("a message does not reach a subscriber exactly once", "%d messages", (int)o.size());
    for (size_t i = 0; i < o.size(); i++) for (size_t j = i + 1; j < o.size(); j++) if (span[o[j]].second < span[o[i]].first) BAD("messages are not in publication order", "%s before %s", o[i].c_str(), o[j].c_str()); for (size_t i = 0; i < o.size(); i++) if (R1->got[i].first != 1 || R1->heads[i] != header(1, " ")) BAD("a header is wrong", "%s", R1->heads[i].c_str());
    if (threaded) { S want; for (auto &m : o) want += header(1, " ") + "\033[32m" + m + "\n\033[00m"; if (out.s != want) BAD("the printing thread loses, repeats or mixes messages", "printed <%s>, expected <%s>", out.s.c_str(), want.c_str()); }
    if (kind == 1) { std::vector<S> p; for (auto &g : R2->got) p.push_back(g.second.substr(0, g.second.size() - 1)); size_t q = 0; for (auto &m : o) { bool in = q < p.size() && p[q] == m; if (in) q++; auto s = span[m]; if (!in && s.first > on_to && s.second < on_from) BAD("a subscribed subscriber misses a message", "%s", m.c_str()); if (in && s.first > off_at) BAD("a message reaches an unsubscribed subscriber", "%s", m.c_str()); } if (q != p.size()) BAD("subscribers get messages in different orders", "%d of %d", (int)q, (int)p.size()); }
    if (kind == 3) { S want; size_t pos = 0; for (auto &m : o) { S t = prints(6, 1, header(1, " "), m + "\n", true); bool in = dev.got.compare(pos, t.size(), t) == 0; if (in) pos += t.size(); else if (span[m].first > dev_from) BAD("a connection misses a message", "%s", m.c_str()); } if (pos != dev.got.size()) BAD("a connection gets mixed messages", "<%s>", dev.got.c_str()); }
    for (size_t i = 1; i < sched::G.t.size(); i++) if (sched::G.t[i]->st != sched::DONE) BAD("a thread is left", "%d", (int)i);
}
static void threads() {
    setup(); kind = mc::choose(5, "configuration"); what = "configuration " + std::to_string(kind); tics = 0; tic_value = 1000000; Trick::SysThread::all_sys_threads().clear(); Trick::SysThread::shutdown_finished = false; pthread_mutex_init(&Trick::SysThread::list_mutex(), 0); sched::G.spurious_left = 0; out.pts = false; static const int deep[] = {2, 3, 2, 3, 3};
    sched::run(deep[kind] + (mc::thorough() ? 1 : 0), tbody, 60000); std::vector<S> o; ll h = kind; for (auto &g : R1->got) h = mc::hv(h, std::hash<S>()(g.second)); h = mc::hv(h, R2->got.size(), out.s.size()); mc::state(h); mc::outcome(h); del(tc); if (dv) del(dv); delete R1; delete R2; delete pub;
}
int main(int c, char **v) { mc::Options o; o.split = 4; o.timeout_s = 20; return mc::run(c, v, o, [] { switch (mc::choose(4, "part")) { case 0: threads(); break; case 1: histories(); break; case 2: texts(); break; case 3: headers(); break; } }); }
