// C18: the socket library over a scripted peer: every sequence of socket-call outcomes within the bound.
#define MC_MAIN
#include "mc.hh"
#include <sys/socket.h>
#include <sys/ioctl.h>
#include <sys/syscall.h>
#include <netdb.h>
#include <netinet/in.h>
#include <poll.h>
#include <unistd.h>
#include "trick/attributes.h"
#include "trick/tc.h"
#include "trick/tc_proto.h"
#include "trick/trick_byteswap.h"
#define CK(c, sig, ...) do { if (!(c)) mc::fail(sig, __VA_ARGS__); } while (0)
enum { FD = 777 };
enum Out { FULL, ONE, ALMOST, INTR, AGAIN, CLOSED, RESET };
struct Ev { Out o; int k; double clock; };
static struct World {
    bool on = false, dgram, timed; std::string tag;
    std::string in; size_t inpos; std::string out;        // bytes from and to the peer
    std::vector<Ev> ev; int budget; double clock; int opened, shut, fdclosed, nonblock; bool usable, short_sends;
    const char *bad; std::string badmsg; int calls; bool pend_fail; int pend;
} w;
static void bad(const char *s, const char *m) { if (!w.bad) { w.bad = s; w.badmsg = m; } }   // not thrown through C frames
static unsigned char inbyte(size_t i) { return i < w.in.size() ? w.in[i] : (unsigned char)(i * 37 + 5); }
static Out pick(int len, bool rd, bool peek) {
    w.calls++;
    if (w.timed && w.budget > 0 && mc::flip("time passes")) { w.clock += 0.7; w.budget--; }
    if (w.budget <= 0) return FULL;
    Out o[7]; int n = 0; o[n++] = FULL;
    if (!peek && !(w.dgram && !rd)) { if (len > 1 && (rd || w.short_sends)) o[n++] = ONE; if (len > 2 && (rd || w.short_sends)) o[n++] = ALMOST; }
    o[n++] = INTR; if (w.short_sends) o[n++] = AGAIN; if (!w.dgram && rd) o[n++] = CLOSED; o[n++] = RESET;
    Out r = o[mc::choose(n, rd ? "receive" : "send")]; if (r != FULL) w.budget--; return r;
}
static ssize_t io(int fd, void *p, size_t len, bool rd, bool peek) {
    if (fd != FD || !w.usable) { bad("io-on-closed", "a socket call on a closed device"); errno = EBADF; return -1; }
    if (len == 0 || len > 1 << 20) { bad("io-length", "a socket call with a length of zero or beyond the buffer"); errno = EINVAL; return -1; }
    Out o = pick((int)len, rd, peek); mc::step();
    int k = o == FULL ? (int)len : o == ONE ? 1 : o == ALMOST ? (int)len - 1 : o == CLOSED ? 0 : -1;
    w.ev.push_back({o, k, w.clock});
    if (k > 0) { if (rd) for (int i = 0; i < k; i++) ((unsigned char *)p)[i] = inbyte(w.inpos + i); else w.out.append((char *)p, k); if (rd && !peek) w.inpos += k; }
    if (k < 0) errno = o == INTR ? EINTR : o == AGAIN ? EAGAIN : rd ? ECONNRESET : EPIPE;
    if (o == CLOSED || o == RESET) w.pend = 0;
    return k;
}
extern "C" {
ssize_t recvfrom(int fd, void *p, size_t n, int, struct sockaddr *, socklen_t *) { return io(fd, p, n, true, false); }
ssize_t sendto(int fd, const void *p, size_t n, int, const struct sockaddr *, socklen_t) { return io(fd, (void *)p, n, false, false); }
ssize_t recv(int fd, void *p, size_t n, int f) { return io(fd, p, n, true, f & MSG_PEEK); }
ssize_t send(int fd, const void *p, size_t n, int) { return io(fd, (void *)p, n, false, false); }
int shutdown(int fd, int) { if (fd != FD) { errno = EBADF; return -1; } w.shut++; return 0; }
int close(int fd) { if (fd == FD) { w.fdclosed++; w.usable = false; return 0; } if (fd < 0) { errno = EBADF; return -1; } return syscall(SYS_close, fd); }
int usleep(useconds_t) { return 0; }
int ioctl(int fd, unsigned long rq, ...) { va_list a; va_start(a, rq); void *p = va_arg(a, void *); va_end(a);
    if (fd != FD || !w.usable || w.pend_fail) { errno = EBADF; return -1; }
    if (rq == FIONREAD) *(int *)p = w.pend; else if (rq == FIONBIO) w.nonblock = *(int *)p; return 0; }
int clock_gettime(clockid_t c, struct timespec *t) { if (!w.on || c != CLOCK_REALTIME) return syscall(SYS_clock_gettime, c, t); double s = 1000 + w.clock; t->tv_sec = (time_t)s; t->tv_nsec = (long)((s - (time_t)s) * 1e9); return 0; }
int accept(int, struct sockaddr *, socklen_t *) { w.opened++; w.usable = true; return FD; }
int socket(int, int, int) { w.opened++; w.usable = true; return FD; }
int connect(int, const struct sockaddr *, socklen_t) { return 0; }
int setsockopt(int, int, int, const void *, socklen_t) { return 0; }
struct hostent *gethostbyname(const char *) { static char ad[4] = {127, 0, 0, 1}; static char *l[2] = {ad, 0}; static struct hostent h; h.h_addr_list = l; h.h_length = 4; h.h_addrtype = AF_INET; return &h; }
int poll(struct pollfd *f, nfds_t n, int t) { if (n == 1 && f->fd == FD) { if (t) bad("listen-blocks", "tc_listen waits"); f->revents = w.pend ? POLLIN : 0; return w.pend ? 1 : 0; } struct timespec ts = {t / 1000, t % 1000 * 1000000L}; return syscall(SYS_ppoll, f, n, t < 0 ? 0 : &ts, 0, 0); }
}
struct On { On() { w.on = true; } ~On() { w.on = false; } };
static int errcount;
static int quiet(TrickErrorHndlr *, TrickErrorLevel, char *, int, char *) { errcount++; return 0; }
static TrickErrorHndlr eh;
static void reset(int budget) { w.in.clear(); w.inpos = 0; w.out.clear(); w.ev.clear(); w.budget = budget; w.clock = 0; w.opened = w.shut = w.fdclosed = w.nonblock = w.calls = 0; w.usable = false; w.bad = 0; w.dgram = w.timed = false; w.short_sends = true; w.pend_fail = false; w.pend = 0; }
static void devinit(TCDevice &d) { memset(&d, 0, sizeof d); d.socket = TRICKCOMM_INVALID_SOCKET; trick_error_init(&eh, (TrickErrorFuncPtr)quiet, NULL, TRICK_ERROR_ALL); d.error_handler = &eh; d.blockio_limit = 1.0; }
static const char *MN[] = {"blocking", "non-blocking", "timed", "all-or-nothing"}, *ON[] = {"full", "one byte", "all but one", "interrupted", "would block", "peer closed", "reset"};
static void noerr() { if (w.bad) mc::fail(w.bad, "%s", w.badmsg.c_str()); }
// what the outcome of the socket calls must lead to
struct Exp { int ret; bool disc; size_t used; bool ok; };
static Exp expect(int mode, bool dgram, bool rd, int n, double limit, double t0) {
    Exp e{0, false, 0, false}; int got = 0; if (n == 0) { e.ok = true; return e; }
    for (auto &v : w.ev) { e.used++;
        if (v.o == INTR) continue;
        if (v.k > 0) { got += v.k; if (got == n || (rd && dgram)) { e.ret = got; e.ok = true; return e; } }
        if (v.o == CLOSED || v.o == RESET) { e.ret = got; e.disc = true; e.ok = true; return e; }
        if (mode == TC_COMM_TIMED_BLOCKIO && v.clock - t0 > limit) { e.ret = got; e.ok = true; return e; }
        if (v.o == AGAIN && mode == TC_COMM_NOBLOCKIO) { e.ret = got ? got : -1; e.ok = true; return e; }
        if (v.o == AGAIN && mode == TC_COMM_ALL_OR_NOTHING && !got) { e.ret = -1; e.ok = true; return e; } }
    return e;
}
struct Rec { int a; short b[2]; double d; };
static ATTRIBUTES at[4];
static void mkattr() { auto A = [](const char *n, TRICK_TYPE t, int sz, long off) { ATTRIBUTES a; memset(&a, 0, sizeof a); a.name = n; a.type = t; a.size = sz; a.offset = off; return a; };
    at[0] = A("a", TRICK_INTEGER, 4, 0); at[1] = A("b", TRICK_SHORT, 2, 4); at[1].num_index = 1; at[1].index[0].size = 2; at[2] = A("d", TRICK_DOUBLE, 8, 8); at[3] = A("", TRICK_VOID, 0, 0); }
static int wirepos(int i) { return i < 4 ? 3 - i : i < 6 ? 4 + (5 - i) : i < 8 ? 6 + (7 - i) : 8 + (15 - i); }
static void ops() {
    int mode = mc::choose(4, "mode"); bool dg = mc::flip("datagrams"); int fl = mc::choose(6, "outgoing") ; bool rev = fl & 1, wr0 = fl >= 4; (void)wr0;
    reset(mc::thorough() ? 5 : 4); TCDevice d; devinit(d); w.usable = true; w.opened = 1; w.dgram = dg; d.socket = FD; d.socket_type = dg ? SOCK_DGRAM : SOCK_STREAM; d.blockio_type = (TCCommBlocking)mode; strcpy(d.client_tag, fl == 2 ? "50%n%s%s%s" : "tag");
    char order; TRICK_GET_BYTE_ORDER(order); d.byte_info[0] = rev ? !order : order;
    On on; int nops = 2 + mc::thorough();
    for (int q = 0; q < nops; q++) {
        static const int NK = 13; int k = mc::choose(NK, "operation"); w.ev.clear(); w.calls = 0; w.timed = d.blockio_type == TC_COMM_TIMED_BLOCKIO && k < 7; double t0 = w.clock; bool live = d.socket == FD && !d.disabled; int fc = w.fdclosed; mode = d.blockio_type; int sock0 = d.socket;
        if (k < 4) { int n = k == 0 ? 1 : k == 1 ? 3 : k == 2 ? 8 : 0; char *buf = (char *)malloc(n ? n : 1); memset(buf, 0xA5, n ? n : 1); size_t p0 = w.inpos; int r = tc_read(&d, buf, n); mc::trace("read %d -> %d", n, r); noerr();
            if (!live) { free(buf); CK(r == -1, "read-closed", "reading from a closed or disabled device returned %d", r); CK(!w.calls, "io-on-closed", "reading from a closed device reaches the socket"); continue; }
            Exp e = expect(mode, dg, true, n, d.blockio_limit, t0);
            CK(e.ok, "read-gives-up", "%s read of %d bytes returned %d after %zu socket calls although it had to go on (last outcome: %s)", MN[mode], n, r, w.ev.size(), w.ev.empty() ? "-" : ON[w.ev.back().o]);
            CK(e.used == w.ev.size(), "read-goes-on", "%s read of %d bytes went on after call %zu (%s)", MN[mode], n, e.used, ON[w.ev[e.used - 1].o]);
            CK(r == e.ret, "read-count", "%s read of %d bytes returned %d instead of %d", MN[mode], n, r, e.ret);
            int got = r > 0 ? r : 0; CK((size_t)got == w.inpos - p0, "read-loses", "%s read returned %d but took %zu bytes from the socket", MN[mode], r, w.inpos - p0);
            for (int i = 0; i < got; i++) CK((unsigned char)buf[i] == inbyte(p0 + i), "read-bytes", "byte %d of the read differs from what was sent", i);
            for (int i = got; i < n; i++) CK((unsigned char)buf[i] == 0xA5, "read-beyond", "byte %d was written although only %d arrived", i, got);
            CK((d.socket == TRICKCOMM_INVALID_SOCKET) == e.disc, "read-disconnect", "after %s the device is %s", ON[w.ev.empty() ? 0 : w.ev.back().o], d.socket == FD ? "still open" : "closed"); CK(w.fdclosed - fc == (e.disc ? 1 : 0), "read-close", "the socket was closed %d times", w.fdclosed - fc); free(buf);
        } else if (k < 6) { int n = k == 4 ? 1 : 5; char *buf = (char *)malloc(n); for (int i = 0; i < n; i++) buf[i] = (char)(0x40 + q * 16 + i); size_t o0 = w.out.size(); int r = tc_write(&d, buf, n); mc::trace("write %d -> %d", n, r); noerr();
            if (!live) { free(buf); CK(r == -1, "write-closed", "writing to a closed or disabled device returned %d", r); CK(!w.calls, "io-on-closed", "writing to a closed device reaches the socket"); continue; }
            Exp e = expect(mode, dg, false, n, d.blockio_limit, t0);
            CK(e.ok, "write-gives-up", "%s write of %d bytes returned %d after %zu socket calls although it had to go on", MN[mode], n, r, w.ev.size());
            CK(e.used == w.ev.size(), "write-goes-on", "%s write of %d bytes went on after call %zu (%s)", MN[mode], n, e.used, ON[w.ev[e.used - 1].o]);
            CK(r == e.ret, "write-count", "%s write of %d bytes returned %d instead of %d", MN[mode], n, r, e.ret);
            int put = r > 0 ? r : 0; CK(w.out.size() - o0 == (size_t)put, "write-loses", "%s write returned %d but sent %zu bytes", MN[mode], r, w.out.size() - o0);
            for (int i = 0; i < put; i++) CK(w.out[o0 + i] == buf[i], "write-bytes", "byte %d of the write is wrong", i);
            CK((d.socket == TRICKCOMM_INVALID_SOCKET) == e.disc, "write-disconnect", "device %s", d.socket == FD ? "still open" : "closed"); CK(w.fdclosed - fc == (e.disc ? 1 : 0), "write-close", "the socket was closed %d times", w.fdclosed - fc); free(buf);
        } else if (k == 6) { bool rd = mc::flip("byteswap read"); Rec rec; unsigned char old[16]; for (int i = 0; i < 16; i++) old[i] = 0x11 * (i % 15) + 3; memcpy(&rec, old, 16); size_t p0 = w.inpos, o0 = w.out.size();
            int r = rd ? tc_read_byteswap(&d, (char *)&rec, 16, at) : tc_write_byteswap(&d, (char *)&rec, 16, at); mc::trace("%s byteswap -> %d", rd ? "read" : "write", r); noerr();
            unsigned char *b = (unsigned char *)&rec;
            if (!live) { CK(r == -1, "swap-closed", "a closed device returned %d", r); CK(!memcmp(b, old, 16), "swap-clobbers", "the data changed although nothing was read"); continue; }
            Exp e = expect(mode, dg, rd, 16, d.blockio_limit, t0); CK(e.ok && e.used == w.ev.size(), "swap-loop", "%zu socket calls, %zu expected", w.ev.size(), e.used); CK(r == e.ret, "swap-count", "returned %d instead of %d", r, e.ret);
            int m = r > 0 ? r : 0;
            if (rd) for (int i = 0; i < 16; i++) { int x = rev ? wirepos(i) : i; unsigned char ev = x < m ? inbyte(p0 + x) : old[i]; CK(b[i] == ev, "swap-read-bytes", "byte %d is %02x instead of %02x after %d of 16 bytes arrived", i, b[i], ev, m); }
            else { CK(w.out.size() - o0 == (size_t)m, "swap-write-loses", "returned %d, sent %zu", r, w.out.size() - o0); for (int i = 0; i < m; i++) CK((unsigned char)w.out[o0 + i] == old[rev ? wirepos(i) : i], "swap-write-bytes", "byte %d on the wire is wrong", i); CK(!memcmp(b, old, 16), "swap-source", "writing changed the data"); }
        } else if (k == 7) { size_t p0 = w.inpos; int r = tc_isValid(&d); mc::trace("isValid -> %d", r); noerr(); if (sock0 != FD) { CK(!r, "valid-closed", "a closed device is valid"); continue; }
            CK(!w.ev.empty(), "valid-no-look", "no socket call"); size_t u = 0; while (u < w.ev.size() && w.ev[u].o == INTR) u++; CK(u == w.ev.size() - 1, "valid-loop", "%zu calls", w.ev.size()); Out o = w.ev[u].o;
            CK(r == (o == FULL || o == AGAIN), "valid", "after %s the device is reported %s", ON[o], r ? "valid" : "not valid"); CK(w.inpos == p0, "valid-consumes", "looking consumed data"); CK(d.socket == FD, "valid-closes", "looking closed the device");
        } else if (k == 8) { w.pend = mc::choose(2, "pending") * 5; int r = tc_pending(&d); CK(sock0 == FD ? r == w.pend : r <= 0, "pending", "%d bytes pending, reported %d", sock0 == FD ? w.pend : 0, r); int l = tc_listen(&d); CK(sock0 != FD || l == (w.pend ? 1 : 0), "listen", "tc_listen returned %d", l); noerr();
        } else if (k == 9) { int r = tc_disconnect(&d); (void)r; noerr(); CK(d.socket == TRICKCOMM_INVALID_SOCKET, "disconnect", "the device keeps its socket"); CK(w.fdclosed - fc == (sock0 == FD ? 1 : 0), "disconnect-close", "closed %d times", w.fdclosed - fc);
        } else if (k == 10) { int m = mc::choose(5, "new mode"); w.pend_fail = mc::flip("ioctl fails"); int r = tc_blockio(&d, (TCCommBlocking)m); bool ok = m < 4 && sock0 == FD && !w.pend_fail; w.pend_fail = false;
            CK((r == 0) == ok, "blockio-return", "setting mode %d returned %d", m, r); CK((int)d.blockio_type == (ok ? m : mode), "blockio-mode", "mode is %d", d.blockio_type); if (ok) CK((w.nonblock != 0) == (m != TC_COMM_BLOCKIO), "blockio-socket", "the socket is %sblocking in mode %s", w.nonblock ? "non-" : "", MN[m]);
        } else if (k == 11) { d.disabled = d.disabled ? TC_COMM_FALSE : TC_COMM_TRUE;
        } else { double l = mc::flip("limit") ? 0.5 : 1.0; tc_set_blockio_timeout_limit(&d, l); CK(d.blockio_limit == l, "limit", "limit %g", d.blockio_limit); }
        mc::state(mc::hv(d.socket, d.blockio_type, d.disabled, w.inpos, w.out.size(), w.budget, (int)(w.clock * 10), w.fdclosed));
    }
    noerr(); CK(w.fdclosed <= 1 && w.shut <= 1, "close-twice", "the socket was closed %d times", w.fdclosed); CK((d.socket == FD) == (w.fdclosed == 0), "socket-leak", "the device forgot its socket without closing it");
    mc::outcome(mc::hash(w.out.data(), w.out.size(), mc::hv(w.inpos, d.socket)));
}
static void handshake() {
    bool server = mc::flip("accept"); bool hs = mc::flip("handshake"); int mode = mc::choose(2, "mode") * 2; reset(mc::thorough() ? 4 : 3); w.short_sends = false;
    TCDevice l, d; devinit(l); devinit(d); l.socket = 5000; d.disable_handshaking = hs ? TC_COMM_FALSE : TC_COMM_TRUE; d.blockio_type = (TCCommBlocking)mode; d.port = 7000; char order; TRICK_GET_BYTE_ORDER(order);
    std::string tag(80, 'x'); int tk = mc::choose(3, "tag"); if (tk == 0) { tag = "client"; tag.resize(80); } if (tk == 1) { tag = "%s%n"; tag.resize(80); }
    unsigned char info[2] = {(unsigned char)!order, 4}; uint32_t id = htonl(0x01020304);
    On on; int r;
    if (server) { w.in = std::string((char *)info, 2) + std::string((char *)&id, 4) + tag; r = tc_accept(&l, &d); }
    else { w.in = std::string((char *)info, 2); memcpy(d.client_tag, tag.data(), 80); d.client_tag[79] = 0; d.client_id = 0x01020304; d.hostname = (char *)"localhost"; r = tc_connect(&d); }
    noerr(); mc::trace("%s -> %d, %zu calls", server ? "accept" : "connect", r, w.ev.size());
    bool dead = false; for (auto &v : w.ev) dead |= v.o == CLOSED || v.o == RESET;
    CK(w.opened == 1, "handshake-sockets", "%d sockets", w.opened);
    if (dead) { CK(r != TC_SUCCESS, "handshake-lost", "the peer went away during the handshake, %s reports success", server ? "tc_accept" : "tc_connect"); CK(w.fdclosed == 1, "handshake-leak", "socket closed %d times after a failed handshake", w.fdclosed); CK(d.socket != FD, "handshake-socket", "failed, but the device has the socket"); CK(w.ev.back().o == CLOSED || w.ev.back().o == RESET, "handshake-goes-on", "the handshake went on after the connection was lost"); }
    else { CK(r == TC_SUCCESS, "handshake-fails", "returned %d although every byte was transferred", r); CK(d.socket == FD && !w.fdclosed, "handshake-socket", "device has no socket"); CK(d.socket_type == SOCK_STREAM, "handshake-type", "socket type %d", d.socket_type);
        CK((w.nonblock != 0) == (mode != 0), "handshake-mode", "socket %sblocking", w.nonblock ? "non-" : "");
        if (!hs) { CK(w.out.empty() && !w.inpos, "handshake-disabled", "bytes were exchanged"); return; }
        CK(w.inpos == w.in.size(), "handshake-read", "%zu of %zu bytes of the handshake were read", w.inpos, w.in.size()); CK(d.byte_info[0] == info[0] && d.byte_info[1] == info[1], "handshake-info", "byte order and long size are %d %d", d.byte_info[0], d.byte_info[1]);
        std::string o; o += order; o += (char)sizeof(long);
        if (server) { CK(d.client_id == 0x01020304, "handshake-id", "client id %x", d.client_id); CK(!memcmp(d.client_tag, tag.data(), 79), "handshake-tag", "client tag differs"); CK(d.client_tag[79] == 0, "handshake-tag-end", "client tag has no end"); }
        else { o += std::string((char *)&id, 4) + std::string(d.client_tag, 80); }
        CK(w.out == o, "handshake-sent", "%zu bytes sent, %zu expected, or different ones", w.out.size(), o.size()); }
    mc::state(mc::hv(r, server, hs, w.ev.size(), dead)); mc::outcome(mc::hv(r, w.inpos, w.out.size()));
}
int main(int c, char **v) {
    stderr = fopen("/dev/null", "w"); mkattr(); mc::Options o; o.split = 4; o.timeout_s = 20;
    return mc::run(c, v, o, [] { int p = mc::choose(3, "part"); if (p == 0) return ops(); if (p == 1) return handshake();
        // no device at all
        reset(0); On on; char b[4]; CK(tc_read((TCDevice *)0, b, 4) == -1 && tc_write((TCDevice *)0, b, 4) == -1 && tc_pending(0) == -1 && !tc_isValid(0) && tc_disconnect(0) == TC_DRIVER_ALREADY_DISCONNECTED && tc_read_byteswap(0, b, 4, at) == -1 && tc_write_byteswap(0, b, 4, at) == -1 && tc_blockio(0, TC_COMM_BLOCKIO) != 0 && tc_set_blockio_timeout_limit(0, 1) == -1, "null-device", "a NULL device is not refused");
        TCDevice x, y; devinit(x); CK(tc_dev_copy(&y, 0) == -1 && tc_dev_copy(0, &x) == -1, "copy-null", "NULL device copied"); x.socket = 9; x.client_id = 7; CK(tc_dev_copy(&y, &x) == 0 && y.socket == 9 && y.client_id == 7, "copy", "copy differs"); CK(!w.calls, "io-on-closed", "socket calls"); mc::state(1); });
}
