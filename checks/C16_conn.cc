// C16: client connections over a scripted kernel: every segmentation of the byte stream, every
// short or failing send, every datagram queue, every failing set-up call within the bound.
#define MC_MAIN
#include "mc.hh"
#include <deque>
#include <sys/socket.h>
#include <netdb.h>
#include <arpa/inet.h>
#include "trick/TCPConnection.hh"
#include "trick/UDPConnection.hh"
#include "trick/MulticastGroup.hh"
#include "trick/TCPClientListener.hh"
#define CK(c, sig, ...) do { if (!(c)) mc::fail(sig, __VA_ARGS__); } while (0)
static std::string show(const std::string &s) { std::string r; char b[8]; for (unsigned char c : s) { if (c >= 32 && c < 127) r += c; else { snprintf(b, sizeof b, "\\x%02x", c); r += b; } } return r; }
struct Dgram { std::string b; unsigned addr; unsigned short port; };
static unsigned self_addr = 0; static int setup_fault = -1, setup_calls = 0; static int nopen = 0, nfd = 700, closed_twice = 0, bound_port = 0; static std::set<int> open_fds; static bool hostlookup = true;
static bool setup_bad() { return setup_calls++ == setup_fault; }
static int do_close(int fd) { if (fd < 700) return 0; if (!open_fds.erase(fd)) closed_twice++; return 0; }
extern "C" const char *__asan_default_options() { return "new_delete_type_mismatch=0:detect_leaks=0"; }   // ~TCPClientListener deletes its SystemInterface through a base without virtual destructor
extern "C" {     // calls that the code makes directly
int setsockopt(int, int, int, const void *, socklen_t) { return 0; }
int getsockname(int, struct sockaddr *a, socklen_t *) { ((sockaddr_in *)a)->sin_addr.s_addr = self_addr; ((sockaddr_in *)a)->sin_port = htons(4000); return 0; }
int socket(int, int, int) { return 1 << 20; }
int bind(int, const struct sockaddr *, socklen_t) { return 0; }
int gethostname(char *n, size_t s) { snprintf(n, s, "thishost"); return 0; }
struct hostent *gethostbyname(const char *) { static char ad[4] = {10, 0, 0, 7}; static char *l[2] = {ad, 0}; static struct hostent h; h.h_addr_list = l; h.h_length = 4; h.h_addrtype = AF_INET; return hostlookup ? &h : NULL; }
}
struct Kernel : SystemInterface {
    std::string in; bool eof = false; int reset_at = -1, recvs = 0; const char *bad = 0;   // stream
    std::string out; bool shut = false; int budget = 0;
    std::deque<Dgram> dg; std::vector<Dgram> sent; int dgerr_at = -1, dgs = 0; int flags = 0; bool conn = true;
    int fresh() { int f = nfd++; open_fds.insert(f); return f; }
    int socket(int, int, int) override { if (setup_bad()) return -1; return fresh(); }
    int accept(int, struct sockaddr *, socklen_t *) override { if (setup_bad()) return -1; return fresh(); }
    int setsockopt(int, int, int, const void *, socklen_t) override { return setup_bad() ? -1 : 0; }
    int bind(int, const struct sockaddr *a, socklen_t) override { if (setup_bad()) return -1; bound_port = ntohs(((sockaddr_in *)a)->sin_port); return 0; }
    int getsockname(int, struct sockaddr *a, socklen_t *) override { ((sockaddr_in *)a)->sin_port = htons(setup_bad() ? 4999 : bound_port ? bound_port : 4000); return 0; }
    int listen(int, int) override { return setup_bad() ? -1 : 0; }
    int select(int, fd_set *r, fd_set *, fd_set *, struct timeval *) override { if (setup_bad()) return -1; if (!conn) FD_ZERO(r); return conn; }
    int close(int fd) override { return do_close(fd); }
    int fcntl(int, int cmd, int arg) override { if (cmd == F_GETFL) return flags; if (cmd == F_SETFL) flags = arg; return 0; }
    int shutdown(int, int) override { shut = true; return 0; }
    in_addr_t inet_addr(const char *c) override { return ::inet_addr(c); }
    ssize_t recv(int, void *b, size_t n, int f) override {
        mc::step(); if (!n) bad = "a receive of no bytes";
        if (shut) return 0;
        if (recvs++ == reset_at || (reset_at >= 0 && recvs > reset_at)) { errno = ECONNRESET; return -1; }
        if (in.empty()) { if (eof) return 0; errno = EAGAIN; return -1; }
        size_t k = std::min(n, in.size()); memcpy(b, in.data(), k); if (!(f & MSG_PEEK)) in.erase(0, k); return k;
    }
    ssize_t send(int, const void *b, size_t n, int) override {
        mc::step(); if (!n) return 0; if (shut) { errno = EPIPE; return -1; }
        int k = (int)n; enum { FULL, ONE, ALMOST, AGAIN, PIPE }; int o = FULL;
        if (budget > 0) { o = mc::choose(5, "send"); if (o) budget--; if (o == ONE) k = 1; else if (o == ALMOST) k = n > 1 ? n - 1 : 1; }
        if (o == PIPE) shut = true; if (o >= AGAIN) { errno = o == AGAIN ? EAGAIN : EPIPE; return -1; }
        out.append((const char *)b, k); return k;
    }
    ssize_t recvfrom(int, void *b, size_t n, int f, struct sockaddr *a, socklen_t *) override {
        mc::step(); if (dgs++ == dgerr_at) { errno = ECONNREFUSED; return -1; }
        if (dg.empty()) { errno = EAGAIN; return -1; }
        Dgram &d = dg.front(); size_t k = std::min(n, d.b.size()); memcpy(b, d.b.data(), k); if (a) { ((sockaddr_in *)a)->sin_family = AF_INET; ((sockaddr_in *)a)->sin_addr.s_addr = d.addr; ((sockaddr_in *)a)->sin_port = htons(d.port); }
        if (!(f & MSG_PEEK)) dg.pop_front(); return k;
    }
    ssize_t sendto(int, const void *b, size_t n, int, const struct sockaddr *a, socklen_t) override { mc::step(); Dgram d; d.b.assign((const char *)b, n); d.addr = ((sockaddr_in *)a)->sin_addr.s_addr; d.port = ntohs(((sockaddr_in *)a)->sin_port); if (budget > 0 && mc::flip("send fails")) { budget--; errno = EAGAIN; return -1; } sent.push_back(d); return n; }
};
static void reset_world() { setup_fault = -1; setup_calls = 0; open_fds.clear(); closed_twice = 0; nfd = 700; bound_port = 0; self_addr = 0; hostlookup = true; }
// the commands a message carries: text up to the first NUL
static std::string text(const std::string &m) { return m.substr(0, m.find('\0')); }
static std::string strip(const std::string &s) { std::string r; for (char c : s) if (c != '\r') r += c; return r; }

static void stream_in() {
    reset_world(); Kernel k; Trick::TCPConnection c(5, &k); CK(c.start() == 0 && (k.flags & O_NONBLOCK), "start", "connection does not start or blocks");
    static const int LIM[] = {4, 8, 200000}; int lim = LIM[mc::choose(3, "read limit")]; bool dflt = lim > 8; int L = mc::choose((mc::thorough() ? 8 : 6) + 1, "stream length"); std::string s;
    for (int i = 0; i < L; i++) { int t = mc::choose(3, "byte"); s += t == 0 ? (char)('a' + i) : t == 1 ? '\n' : '\r'; }
    std::string got, want; size_t fed = 0; bool failed = false; bool toolong = false; { size_t p = 0; for (;;) { size_t e = s.find('\n', p); size_t n = (e == std::string::npos ? s.size() : e + 1) - p; if ((int)n > lim || ((int)n == lim && e == std::string::npos)) toolong = true; if (e == std::string::npos) break; p = e + 1; } }
    bool faults = L <= 4 || mc::thorough(); int end = mc::choose(faults ? 3 : 1, "end of the connection"); int when = end ? mc::choose(2 * L + 2, "when") : 0; if (end == 1) k.reset_at = when;
    auto rd = [&] { std::string m = "stale"; int n = dflt ? c.read(m) : c.read(m, lim); mc::step(); CK(!k.bad, "empty-receive", "%s", k.bad ? k.bad : ""); if (n < 0) { failed = true; CK(m.empty(), "message-with-error", "an error comes with the message %s", show(m).c_str()); return 0; } if (n == 0) { CK(text(m).empty(), "message-without-length", "length 0 for %s", show(m).c_str()); return 0; } CK((size_t)n == m.size(), "length", "length %d for a message of %zu bytes", n, m.size()); std::string t = text(m); CK(!t.empty() && t.back() == '\n', "partial-command", "the message %s ends inside a command", show(t).c_str()); CK(m.size() <= t.size() + 1, "text-after-nul", "message %s", show(m).c_str()); got += t; return 1; };
    while (fed < s.size() || fed == 0) {
        if (fed < s.size()) { int d = 1 + mc::choose((int)(s.size() - fed), "bytes arriving"); k.in += s.substr(fed, d); fed += d; }
        int r = 0; while (rd()) CK(++r < 20, "endless-read", "read keeps delivering"); if (failed || (end == 2 && when <= (int)fed && fed == s.size())) break; if (s.empty()) break;
    }
    if (end == 2) { k.eof = true; int r = 0; while (rd()) CK(++r < 20, "endless-read", "read keeps delivering after the end"); }
    size_t e = s.rfind('\n'); want = e == std::string::npos ? "" : strip(s.substr(0, e + 1));
    CK(want.compare(0, got.size(), got) == 0, "commands", "sent %s, commands executed %s", show(s).c_str(), show(got).c_str());
    if (end == 1 && k.recvs > k.reset_at) { if (!failed) { rd(); CK(failed, "error-hidden", "a reset connection is not reported"); } }
    else { CK(!failed, "error-invented", "an error is reported on a good connection"); if (!toolong) CK(got == want, "commands-lost", "sent %s with read limit %d, commands executed %s", show(s).c_str(), lim, show(got).c_str()); }
    CK(k.out.empty(), "unasked-output", "bytes were sent"); c.disconnect(); CK(open_fds.empty() && !closed_twice, "socket-leak", "socket left open or closed twice");
    std::string x = "x"; CK(c.read(x) == 0 && x.empty() && c.write(std::string("z")) == -1, "closed", "a closed connection transfers");
    mc::state(mc::mix(mc::hash(s), mc::hv(lim, end, when))); mc::outcome(mc::hash(got));
}
static void stream_out() {
    reset_world(); Kernel k; Trick::TCPConnection c(5, &k); CK(c.start() == 0, "start", "start"); k.budget = mc::thorough() ? 4 : 3;
    int n = 1 + mc::choose(3, "messages"); std::string want; bool partial = false, failed = false;
    for (int i = 0; i < n; i++) { int len = mc::choose(5, "length"); std::string m; for (int j = 0; j < len; j++) m += (char)('a' + i * 5 + j); int nul = mc::choose(len + 1, "nul"); if (nul) m[nul - 1] = 0; bool str = mc::flip("string"); std::string keep = m; size_t before = k.out.size();
        int r = str ? c.write(m) : c.write(&m[0], len); CK(m == keep, "write-input", "the message changed"); std::string acc = k.out.substr(before);
        CK(acc == m.substr(0, acc.size()), "bytes-wrong", "message %s: %s was sent", show(m).c_str(), show(acc).c_str());
        if (partial) { CK(acc.empty(), "message-after-cut", "%s is sent although the message before was cut short", show(acc).c_str()); if (len) CK(r < 0, "failure-hidden", "write after a cut message succeeds"); continue; }
        if (r >= 0) { CK(acc == m && r == len, "message-cut", "write returns %d for %s, of which %zu bytes were sent", r, show(m).c_str(), acc.size()); } else { failed = true; CK(k.budget < (mc::thorough() ? 4 : 3), "error-invented", "write fails on a good connection"); if (!acc.empty()) partial = true; }
        if (acc.size() == m.size()) want += m; }
    mc::state(mc::mix(mc::hash(k.out), mc::hv(n, failed, partial))); mc::outcome(mc::hash(k.out)); c.disconnect(); CK(open_fds.empty() && !closed_twice, "socket-leak", "socket left open or closed twice");
}
static void datagrams() {
    reset_world(); Kernel k; bool multi = mc::flip("multicast"); static const char *B[] = {"", "p", "\n", "qr\n", "s\r\nt\n", "u\nv", "\rw\n\n", "abcdefghij\n"};
    Trick::UDPConnection u(&k); Trick::MulticastGroup g(&k); unsigned grp = inet_addr("224.3.3.3"), A[3] = {inet_addr("10.0.0.1"), inet_addr("10.0.0.2"), inet_addr("10.0.0.7")}; Trick::UDPConnection &c = multi ? (Trick::UDPConnection &)g : u;
    bool known = multi && mc::flip("address known"); if (known) self_addr = A[2];
    if (multi) CK(g.initialize_with_receiving("127.0.0.1", "224.3.3.3", 4000) == 0, "initialize", "initialize"); else CK(u.initialize("", 4000) == 0, "initialize", "initialize"); { std::string m; CK(c.read(m) == 0 && c.write(std::string("a")) == -1, "unstarted", "transfers before start"); } CK(c.start() == 0, "start", "start");
    int lim = mc::flip("small limit") ? 6 : 200000, n = 1 + mc::choose(mc::thorough() ? 4 : 3, "datagrams"); struct X { std::string t; unsigned a; unsigned short p; bool opt; }; std::deque<X> want; 
    for (int i = 0; i < n; i++) { Dgram d; d.b = B[mc::choose(8, "datagram")]; int w = mc::choose(multi ? 4 : 2, "sender"); d.addr = A[w == 3 ? 2 : w]; d.port = w == 3 ? 4001 : 4000; if (w == 2 && multi) { k.dg.push_back(d); continue; } k.dg.push_back(d); size_t e = d.b.rfind('\n'); bool over = (int)d.b.size() > lim; if (e == std::string::npos || over) { if (over) want.push_back({"", d.addr, d.port, true}); continue; } want.push_back({strip(d.b.substr(0, e + 1)), d.addr, d.port, false}); }
    if (n < 3) { k.dgerr_at = mc::choose(4, "failing call") - 1; } int errs = 0; 
    for (int r = 0; r < 2 * n + 3; r++) { std::string m; int rc = lim > 6 ? c.read(m) : c.read(m, lim); if (rc < 0) { errs++; CK(text(m).empty(), "message-with-error", "%s", show(m).c_str()); continue; } std::string t = text(m); if (rc == 0) { CK(t.empty(), "message-without-length", "%s", show(m).c_str()); continue; }
        while (!want.empty() && want.front().opt && want.front().t != t) want.pop_front(); if (!want.empty() && t == "" ) continue;
        CK(!want.empty(), "extra-message", "the message %s was not sent", show(t).c_str()); CK(t == want.front().t, "datagram", "message %s, the datagram holds %s", show(t).c_str(), show(want.front().t).c_str());
        k.sent.clear(); std::string rep = std::string("r\0s", 3); bool str = mc::flip("string"); int w = str ? c.write(rep) : c.write(&rep[0], 3); CK(w == 3 && k.sent.size() == 1 && k.sent[0].b == rep, "reply", "the reply is not sent as it is"); unsigned ra = multi ? grp : want.front().a; unsigned short rp = multi ? 4000 : want.front().p; CK(k.sent[0].addr == ra && k.sent[0].port == rp, "reply-address", "the reply goes to another address than the command came from"); want.pop_front(); }
    bool lost = k.dgerr_at >= 0 && k.dgs > k.dgerr_at; CK(errs <= (lost ? 1 : 0), "error-invented", "%d errors", errs); if (lost && k.dgerr_at == 0) CK(errs == 1, "error-hidden", "a failing receive is not reported");
    while (!want.empty() && want.front().opt) want.pop_front(); CK(want.empty(), "datagram-lost", "the datagram %s is never delivered", want.empty() ? "" : show(want.front().t).c_str()); CK(k.dg.empty(), "datagram-stuck", "a datagram stays in the queue");
    mc::state(mc::hv(9, multi, n, lim, k.dgs)); mc::outcome(mc::hv(errs, k.dgs)); u.disconnect();
}
static void setups() {
    reset_world(); int kind = mc::choose(4, "class"); static const char *H[] = {"", "localhost", "thishost", "10.1.2.3", "other", "nowhere"}; int h = mc::choose(6, "host"); int port = mc::flip("port") ? 5005 : 0; setup_fault = mc::choose(9, "failing call") - 1; hostlookup = h != 5; int rc; bool init; int tot;
    if (kind == 0) { Kernel *k = new Kernel; { Trick::TCPClientListener l(k); rc = l.initialize(H[h], port); init = l.isInitialized(); tot = setup_calls; CK((rc == 0) == init, "state", "initialize returns %d, initialized %d", rc, init); if (!init) { CK(open_fds.empty(), "socket-leak", "a listener that cannot be initialized keeps its socket"); CK(!l.checkForNewConnections() && l.setUpNewConnection() == NULL && l.getPort() == -1, "uninitialized", "works uninitialized"); } else { CK(open_fds.size() == 1 && l.getPort() == (port ? port : bound_port ? bound_port : l.getPort()), "listening", "port"); setup_fault = -1; k->conn = true; CK(l.checkForNewConnections(), "connection-missed", "a waiting connection is not seen"); k->conn = false; CK(!l.checkForNewConnections(), "connection-invented", "a connection is seen"); setup_fault = setup_calls; k->conn = true; CK(!l.checkForNewConnections(), "connection-invented", "a connection is seen when select fails"); CK(l.setBlockMode(false) == 0 && (k->flags & O_NONBLOCK) && l.setBlockMode(true) == 0 && !(k->flags & O_NONBLOCK), "blocking", "block mode"); CK(l.disconnect() == 0 && l.disconnect() == -1 && open_fds.empty() && !closed_twice, "disconnect", "socket left open or closed twice"); } } }
    else if (kind == 1) { Kernel k; Trick::UDPConnection u(&k); rc = u.initialize(H[h], port); tot = setup_calls; init = u.start() == 0; CK((rc == 0) == init, "state", "initialize returns %d, starts %d", rc, init); if (!init) CK(open_fds.empty(), "socket-leak", "a connection that cannot be initialized keeps its socket"); else { CK(k.flags & O_NONBLOCK, "blocking", "datagram socket blocks"); u.disconnect(); CK(open_fds.empty() && !closed_twice && u.disconnect() == -1, "disconnect", "socket left open or closed twice"); } }
    else if (kind == 2) { Kernel k; Trick::TCPConnection c(h ? 5 : 0, &k); rc = c.start(); tot = setup_calls; init = c.isInitialized(); CK((rc == 0) == init, "state", "start returns %d, initialized %d", rc, init); if (init) { c.setBlockMode(true); CK(!(k.flags & O_NONBLOCK), "blocking", "mode"); CK(c.disconnect() == 0 && c.disconnect() == -1, "disconnect", "disconnect"); } CK(open_fds.empty() && !closed_twice, "socket-leak", "socket left open or closed twice"); if (!h) CK(rc == -1, "state", "starts without a listener"); }
    else { Kernel k; Trick::MulticastGroup g(&k); CK(g.broadcast("x") == -1 && k.sent.empty(), "uninitialized", "broadcasts uninitialized"); rc = g.initialize(); tot = setup_calls; init = g.isInitialized(); CK((rc == 0) == init, "state", "initialize returns %d, initialized %d", rc, init); if (init) { int na = mc::choose(4, "addresses"); static const char *AD[] = {"239.3.14.15", "224.0.0.1", "239.1.1.1"}; for (int i = 0; i < na; i++) CK(g.addAddress(AD[i], 9000 + i) == 0, "address", "address refused"); CK(g.addAddress("no address", 1) == -1, "address", "a bad address is accepted"); k.budget = 1; g.broadcast("one message"); int miss = 1 - k.budget; CK((int)k.sent.size() == na - miss, "broadcast", "%zu of %d addresses", k.sent.size(), na); size_t j = 0; for (int i = 0; i < na && j < k.sent.size(); i++) { if (k.sent[j].port != 9000 + i) { CK(miss-- > 0, "broadcast", "wrong address"); continue; } CK(k.sent[j].b == "one message" && k.sent[j].addr == inet_addr(AD[i]), "broadcast", "wrong datagram"); j++; } } g.disconnect(); }
    bool hit = setup_fault >= 0 && setup_fault < tot; if (kind < 2 && h != 5 && !hit) CK(rc == 0, "setup-refused", "class %d host '%s' port %d cannot be set up", kind, H[h], port); if (kind < 2 && h == 5) CK(rc != 0, "unknown-host", "an unknown host is accepted"); if (hit && !(kind < 2 && rc == 0 && port == 0)) CK(rc != 0, "failure-hidden", "class %d: call %d fails and initialize succeeds", kind, setup_fault);
    mc::state(mc::hv(11, kind, h, port, setup_fault)); mc::outcome(mc::hv(kind, rc, init)); mc::step(tot);
}
int main(int c, char **v) {
    stderr = fopen("/dev/null", "w"); std::cerr.rdbuf(NULL); mc::Options o; o.split = 3; o.timeout_s = 20;
    return mc::run(c, v, o, [] { switch (mc::choose(4, "part")) { case 0: return stream_in(); case 1: return stream_out(); case 2: return datagrams(); default: return setups(); } });
}
