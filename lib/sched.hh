// Controlled scheduler for model checking threaded code: every pthread is a coroutine, every synchronisation
// operation, sleep and access to a watched variable is a scheduling point, and which thread goes on there is
// decided by mc::choose(). Deviations from round-robin are bounded (delay bounding); everything within the bound
// is enumerated. Sources compiled with -fsanitize=thread report their memory accesses through the hooks below
// (the tsan run time itself is not linked). Time is virtual: it advances when nobody else can run.
#ifndef SCHED_HH
#define SCHED_HH
#include "mc.hh"
#include <ucontext.h>
#include <pthread.h>
#include <cxxabi.h>
#include <deque>
#include <algorithm>
#include <functional>
#include <stdarg.h>
#include <sys/syscall.h>
#include <unistd.h>
#include <exception>
#include <signal.h>
#include <limits.h>

namespace sched {
struct Cancel : abi::__forced_unwind { void __pure_dummy() {} }; struct Exit {};
enum St { READY, BLOCKED, SLEEP, DONE };
struct Eh { void *a; unsigned b; };
struct T {
    int id; ucontext_t c; void *stack; St st; const char *why; std::function<bool()> ready; long long wake; bool yielded; unsigned long ver; void *(*fn)(void *); void *arg; std::function<void()> f0;
    bool cancel, cancel_off, joined, detached, started; int spins; Eh eh; const char *name; void *ret;
};
struct M { int owner; int count; }; struct C { std::deque<int> w; };
struct State {
    std::vector<T *> t; std::vector<void *> pool; int cur; bool on; ucontext_t home; Eh home_eh; std::exception_ptr err; bool exited; int exit_code; long points; unsigned long ver; long long now; int budget, used; std::map<const void *, M> m; std::map<const void *, C> c;
    std::map<const void *, std::deque<int>> futex; std::map<int, unsigned long long> efd; int next_efd; std::map<const char *, const char *> watch; int idle; long maxpoints; bool spurious; int spurious_left; std::string log; bool keeplog; std::map<const char *, const char *> fns; void (*on_copy)(const void *, size_t); struct Freed { void **v; size_t n, cap; void push_back(void *p) { if (n == cap) { cap = cap ? cap * 2 : 1024; v = (void **)realloc(v, cap * sizeof(void *)); } v[n++] = p; } void release() { for (size_t i = 0; i < n; i++) ::free(v[i]); n = 0; } } freed;
};
extern State G;
inline Eh *ehg() { return (Eh *)abi::__cxa_get_globals(); }
inline int self() { return G.on ? G.cur : 0; }
inline bool eligible(T *t) { return t->st == READY || (t->st == BLOCKED && t->ready && t->ready()); }
inline void jump(int to) {
    T *a = G.t[G.cur], *b = G.t[to]; if (a == b) return; a->eh = *ehg(); G.cur = to; *ehg() = b->eh; swapcontext(&a->c, &b->c);
}
inline void home() { T *a = G.t[G.cur]; a->eh = *ehg(); *ehg() = G.home_eh; swapcontext(&a->c, &G.home); }
[[noreturn]] inline void stop_all() { home(); abort(); }
inline std::string stacks() { std::string s; for (auto t : G.t) if (t->st != DONE) { char b[120]; snprintf(b, 120, " T%d%s%s: %s", t->id, t->name ? " " : "", t->name ? t->name : "", t->st == READY ? (t->yielded ? t->why : "ready") : t->why); s += b; } return s; }
template <class... A> inline void fail(const char *sig, const char *f, A... a) { try { mc::fail(sig, f, a...); } catch (...) { G.err = std::current_exception(); } if (!G.on) std::rethrow_exception(G.err); stop_all(); }
inline void abort_with(const char *sig, const char *msg) { try { mc::fail(sig, "%s;%s", msg, stacks().c_str()); } catch (...) { G.err = std::current_exception(); } stop_all(); }
inline bool flip(const char *w) { bool r = false; try { r = mc::flip(w); } catch (...) { G.err = std::current_exception(); stop_all(); } return r; }
// picks who runs next; the current thread has set its own state
inline void pick(bool voluntary) {
    if (++G.points > G.maxpoints) abort_with("endless", "the threads do not come to an end");
    T *me = G.t[G.cur]; int n = G.t.size();
    std::vector<int> e; auto collect = [&](bool y) { e.clear(); for (int i = 0; i < n; i++) { int k = (G.cur + (voluntary ? 1 : 0) + i) % n; T *t = G.t[k]; if (t->st != DONE && eligible(t) && (y || !t->yielded || (t != me && t->ver != G.ver))) e.push_back(k); } };
    bool mine = !voluntary; collect(false);
    if (mine && (e.empty() || e[0] != G.cur)) mine = false;
    std::vector<int> s; for (int i = 0; i < n; i++) { T *t = G.t[i]; if (t->st == SLEEP || (t->st == BLOCKED && t->wake >= 0 && !eligible(t))) s.push_back(i); }
    std::sort(s.begin(), s.end(), [](int a, int b) { return G.t[a]->wake < G.t[b]->wake; });
    if (e.empty()) { // all the others wait or spin
        if (!s.empty()) { G.idle = 0; }
        else { collect(true); if (e.empty()) abort_with("deadlock", "all threads wait for each other"); if (++G.idle > 6 * n) abort_with("deadlock", "all threads spin and nothing changes"); }
    } else if (!voluntary) G.idle = 0;
    // candidates in default order, then sleepers (waking one means the others were slow)
    std::vector<int> cand = e; for (int k : s) cand.push_back(k);
    int c = 0; if (cand.size() > 1 && G.used < G.budget) { try { c = mc::choose((int)std::min<size_t>(cand.size(), 4), mine ? "preempt" : "next"); } catch (...) { G.err = std::current_exception(); stop_all(); } if (c) G.used++; }
    int to = cand[c]; T *t = G.t[to]; if (t->st == SLEEP || (t->wake >= 0 && !eligible(t))) { if (t->wake > G.now) G.now = t->wake; t->st = READY; t->ready = nullptr; }
    else if (t->st == BLOCKED) { t->st = READY; t->ready = nullptr; }
    t->wake = -1; t->yielded = false; if (G.keeplog && to != G.cur) { char b[60]; snprintf(b, 60, " ->T%d", to); G.log += b; } mc::step(); jump(to);
}
inline void check_cancel() { T *t = G.t[G.cur]; if (t->cancel && !t->cancel_off) { t->cancel = false; throw Cancel(); } }
inline void point(const char *why) { if (!G.on) return; T *t = G.t[G.cur]; t->why = why; pick(false); }
inline void block(const char *why, std::function<bool()> r, long long until = -1) { if (!G.on) return; T *t = G.t[G.cur]; t->why = why; t->st = BLOCKED; t->ready = r; t->wake = until; pick(true); }
inline void yield(const char *why) { if (!G.on) return; T *t = G.t[G.cur]; t->why = why; t->yielded = true; t->ver = G.ver; pick(true); G.t[G.cur]->spins = 0; }
inline void sleep_us(long long us, const char *why) { if (!G.on) return; if (us <= 0) { yield(why); return; } T *t = G.t[G.cur]; t->why = why; t->st = SLEEP; t->wake = G.now + us; pick(true); G.t[G.cur]->spins = 0; }
inline void changed() { G.ver++; G.idle = 0; }
inline void watch(const volatile void *p, size_t n) { G.watch[(const char *)p] = (const char *)p + n; }
// the entry of fn is a scheduling point (fn in a source compiled with the hooks)
template <class F> inline void point_fn(F fn, const char *name) { const char *p; memcpy(&p, &fn, sizeof p); G.fns[p] = name; }
inline void unwatch_all() { G.watch.clear(); }
inline bool watched(const void *p) { if (!G.on || G.watch.empty()) return false; auto i = G.watch.upper_bound((const char *)p); if (i == G.watch.begin()) return false; --i; return (const char *)p < i->second; }
inline void access(const void *p, bool w) {
    if (!watched(p)) return; T *t = G.t[G.cur]; if (w) { point("write"); changed(); G.t[G.cur]->spins = 0; return; }
    if (t->ver == G.ver) t->spins++; else { t->spins = 0; t->ver = G.ver; } if (t->spins > 12) yield("spin"); else point("read"); }
inline void entry(int lo, int hi) {
    T *t = (T *)(((uintptr_t)(unsigned)hi << 32) | (unsigned)lo); t->started = true;
    try { if (t->fn) t->ret = t->fn(t->arg); else t->f0(); } catch (Cancel &) {} catch (Exit &) {} catch (...) { G.err = std::current_exception(); stop_all(); }
    t->st = DONE; t->cancel_off = true; changed(); if (t->id == 0) stop_all();
    pick(true); abort();
}
inline T *spawn() {
    T *t = new T(); t->id = G.t.size(); if (G.pool.empty()) { t->stack = mmap(0, 1 << 18, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); } else { t->stack = G.pool.back(); G.pool.pop_back(); }
    t->st = READY; t->why = "start"; t->wake = -1; t->eh.a = 0; t->eh.b = 0; getcontext(&t->c); t->c.uc_stack.ss_sp = t->stack; t->c.uc_stack.ss_size = 1 << 18; t->c.uc_link = 0; makecontext(&t->c, (void (*)())entry, 2, (int)(uintptr_t)t, (int)((uintptr_t)t >> 32)); G.t.push_back(t); return t;
}
struct Result { bool exited; int code; };
// runs f as the main thread under the scheduler; other threads alive at its end are abandoned
inline Result run(int budget, std::function<void()> f, long maxpoints = 20000) {
    for (auto t : G.t) { G.pool.push_back(t->stack); delete t; } G.t.clear(); G.cur = 0; G.err = nullptr; G.exited = false; G.exit_code = 0; G.points = 0; G.ver = 1; G.now = 1000000; G.budget = budget; G.used = 0; G.m.clear(); G.c.clear(); G.futex.clear(); G.efd.clear(); G.next_efd = 100000; G.idle = 0; G.maxpoints = maxpoints; G.log.clear();
    T *t = spawn(); t->f0 = f; t->name = "main"; G.home_eh = *ehg(); G.on = true; *ehg() = t->eh; swapcontext(&G.home, &t->c); G.on = false; *ehg() = G.home_eh; G.watch.clear(); G.freed.release();
    if (G.err) { auto e = G.err; G.err = nullptr; std::rethrow_exception(e); } Result r = {G.exited, G.exit_code}; return r;
}
}
#ifdef MC_MAIN
namespace __cxxabiv1 { __forced_unwind::~__forced_unwind() throw() {} }
namespace sched { State G; }
#define SG sched::G
extern "C" {
int pthread_create(pthread_t *id, const pthread_attr_t *, void *(*fn)(void *), void *arg) { if (!SG.on) abort(); sched::T *t = sched::spawn(); t->fn = fn; t->arg = arg; *id = (pthread_t)(t->id + 1); sched::changed(); sched::point("create"); return 0; }
pthread_t pthread_self() { return (pthread_t)(sched::self() + 1); }
int pthread_equal(pthread_t a, pthread_t b) { return a == b; }
int pthread_join(pthread_t id, void **r) { if (!SG.on) return 0; size_t k = (size_t)id - 1; if (k >= SG.t.size() || SG.t[k]->detached || SG.t[k]->joined) return ESRCH; sched::T *t = SG.t[k]; if ((int)k == SG.cur) return EDEADLK; sched::check_cancel(); sched::block("join", [t] { return t->st == sched::DONE; }); t->joined = true; if (r) *r = t->ret; return 0; }
int pthread_detach(pthread_t id) { if (SG.on && (size_t)id - 1 < SG.t.size()) SG.t[(size_t)id - 1]->detached = true; return 0; }
int pthread_cancel(pthread_t id) { if (!SG.on) return 0; size_t k = (size_t)id - 1; if (k >= SG.t.size()) return ESRCH; SG.t[k]->cancel = true; sched::changed(); sched::point("cancel"); return 0; }
void pthread_testcancel() { if (SG.on) sched::check_cancel(); }
int pthread_setcancelstate(int s, int *o) { if (!SG.on) { if (o) *o = 0; return 0; } sched::T *t = SG.t[SG.cur]; if (o) *o = t->cancel_off ? PTHREAD_CANCEL_DISABLE : PTHREAD_CANCEL_ENABLE; t->cancel_off = s == PTHREAD_CANCEL_DISABLE; return 0; }
int pthread_setcanceltype(int, int *) { return 0; }
void pthread_exit(void *r) { if (SG.on) SG.t[SG.cur]->ret = r; throw sched::Exit(); }
int pthread_setname_np(pthread_t, const char *) { return 0; }
int pthread_sigmask(int, const sigset_t *, sigset_t *) { return 0; }
int pthread_setschedparam(pthread_t, int, const struct sched_param *) { return 0; }
int pthread_mutex_init(pthread_mutex_t *m, const pthread_mutexattr_t *a) throw() { SG.m.erase(m); memset(m, 0, sizeof *m); if (a) { int k = 0; pthread_mutexattr_gettype(a, &k); ((int *)m)[4] = k; } return 0; }
int pthread_mutex_destroy(pthread_mutex_t *m) throw() { SG.m.erase(m); return 0; }
static inline bool sched_recursive(pthread_mutex_t *m) { return (((int *)m)[4] & 3) == PTHREAD_MUTEX_RECURSIVE; }
int pthread_mutex_lock(pthread_mutex_t *m) throw() { if (!SG.on) return 0; sched::point("lock"); sched::M &q = SG.m.insert({m, sched::M{-1, 0}}).first->second; if (q.count && q.owner == SG.cur && sched_recursive(m)) { q.count++; return 0; } if (q.count) sched::block("mutex", [m] { return SG.m[m].count == 0; }); sched::M &r = SG.m[m]; r.owner = SG.cur; r.count = 1; sched::changed(); return 0; }
int pthread_mutex_trylock(pthread_mutex_t *m) throw() { if (!SG.on) return 0; sched::point("trylock"); sched::M &q = SG.m.insert({m, sched::M{-1, 0}}).first->second; if (q.count && !(q.owner == SG.cur && sched_recursive(m))) return EBUSY; q.owner = SG.cur; q.count++; sched::changed(); return 0; }
int pthread_mutex_unlock(pthread_mutex_t *m) throw() { if (!SG.on) return 0; auto i = SG.m.find(m); if (i == SG.m.end() || !i->second.count) return 0; if (--i->second.count == 0) i->second.owner = -1; sched::changed(); sched::point("unlock"); return 0; }
int pthread_cond_init(pthread_cond_t *c, const pthread_condattr_t *) throw() { SG.c.erase(c); memset(c, 0, sizeof *c); return 0; }
int pthread_cond_destroy(pthread_cond_t *c) throw() { SG.c.erase(c); return 0; }
}
static int sched_cond_wait(pthread_cond_t *c, pthread_mutex_t *m, long long until) {
    if (!SG.on) return 0; sched::check_cancel(); int me = SG.cur; SG.c[c].w.push_back(me); auto i = SG.m.find(m); if (i != SG.m.end()) { i->second.count = 0; i->second.owner = -1; } sched::changed();
    auto in = [c, me] { for (int k : SG.c[c].w) if (k == me) return true; return false; }; bool timeout = false; sched::T *t = SG.t[me];
    if (SG.spurious_left > 0 && sched::flip("spurious wakeup")) { SG.spurious_left--; sched::point("spurious wakeup"); }
    else { sched::block("condition", [in, t] { return !in() || (t->cancel && !t->cancel_off); }, until); timeout = in() && until >= 0 && SG.now >= until; }
    auto &w = SG.c[c].w; for (auto k = w.begin(); k != w.end(); ++k) if (*k == me) { w.erase(k); break; }
    if (SG.m[m].count) sched::block("mutex after condition", [m] { return SG.m[m].count == 0; }); SG.m[m].owner = me; SG.m[m].count = 1; sched::changed(); sched::check_cancel(); return timeout ? ETIMEDOUT : 0;
}
extern "C" {
int pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) { return sched_cond_wait(c, m, -1); }
int pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, const struct timespec *ts) { return sched_cond_wait(c, m, ts->tv_sec * 1000000LL + ts->tv_nsec / 1000); }
int pthread_cond_signal(pthread_cond_t *c) throw() { if (!SG.on) return 0; auto &w = SG.c[c].w; if (!w.empty()) w.pop_front(); sched::changed(); sched::point("signal"); return 0; }
int pthread_cond_broadcast(pthread_cond_t *c) throw() { if (!SG.on) return 0; SG.c[c].w.clear(); sched::changed(); sched::point("broadcast"); return 0; }
int nanosleep(const struct timespec *t, struct timespec *) { if (SG.on) { sched::check_cancel(); sched::sleep_us(t->tv_sec * 1000000LL + (t->tv_nsec + 999) / 1000, "sleep"); sched::check_cancel(); } return 0; }
int usleep(unsigned us) { if (SG.on) { sched::check_cancel(); sched::sleep_us(us, "sleep"); sched::check_cancel(); } return 0; }
unsigned sleep(unsigned s) { if (SG.on) { sched::check_cancel(); sched::sleep_us(s * 1000000LL, "sleep"); sched::check_cancel(); } return 0; }
int sched_yield() throw() { sched::yield("yield"); return 0; }
int sched_setaffinity(pid_t, size_t, const cpu_set_t *) throw() { return 0; }
void exit(int code) throw() { if (!SG.on) { fflush(0); _exit(code); } SG.exited = true; SG.exit_code = code; sched::stop_all(); }
// event descriptors and futexes
int eventfd(unsigned v, int) throw() { int f = SG.next_efd ? SG.next_efd++ : 100000; SG.efd[f] = v; return f; }
ssize_t write(int fd, const void *b, size_t n) { if (fd >= 100000) { SG.efd[fd] += *(const unsigned long long *)b; sched::changed(); sched::point("eventfd write"); return 8; } return syscall(SYS_write, fd, b, n); }
ssize_t read(int fd, void *b, size_t n) { if (fd >= 100000) { sched::T *t = SG.t[SG.cur]; sched::check_cancel(); sched::point("eventfd read"); if (!SG.efd[fd]) sched::block("eventfd", [fd, t] { return SG.efd[fd] || t->cancel; }); sched::check_cancel(); *(unsigned long long *)b = SG.efd[fd]; SG.efd[fd] = 0; sched::changed(); return 8; } long (*sc)(long, ...) = syscall; return sc(SYS_read, fd, b, n); }
}
static long sched_futex(int *a, int op, int val) {
    if (!SG.on) return 0; if ((op & 127) == 1) { auto &q = SG.futex[a]; int n = 0; while (n < val && !q.empty()) { q.pop_front(); n++; } sched::changed(); sched::point("futex wake"); return n; }
    sched::point("futex wait"); if (*a != val) { errno = EAGAIN; return -1; } int me = SG.cur; SG.futex[a].push_back(me); sched::T *t = SG.t[me]; auto in = [a, me] { for (int k : SG.futex[a]) if (k == me) return true; return false; };
    if (SG.spurious_left > 0 && sched::flip("spurious wakeup")) { SG.spurious_left--; sched::point("spurious wakeup"); } else sched::block("futex", [in, t] { return !in() || (t->cancel && !t->cancel_off); }); auto &w = SG.futex[a]; for (auto k = w.begin(); k != w.end(); ++k) if (*k == me) { w.erase(k); break; } return 0;
}
extern "C" long sched_raw_syscall(long, long, long, long, long, long, long);
__asm__(".text\n.globl sched_raw_syscall\nsched_raw_syscall:\nmov %rdi,%rax\nmov %rsi,%rdi\nmov %rdx,%rsi\nmov %rcx,%rdx\nmov %r8,%r10\nmov %r9,%r8\nmov 8(%rsp),%r9\nsyscall\nret\n");
extern "C" long syscall(long n, ...) throw() {
    va_list a; va_start(a, n); long x[6]; for (int i = 0; i < 6; i++) x[i] = va_arg(a, long); va_end(a);
    if (n == SYS_futex) return sched_futex((int *)x[0], (int)x[1], (int)x[2]); if (n == SYS_gettid) return 1000 + sched::self();
    long r = sched_raw_syscall(n, x[0], x[1], x[2], x[3], x[4], x[5]); if (r < 0 && r > -4096) { errno = -r; return -1; } return r;
}
#ifdef SCHED_MEMCPY
// copies of watched memory are scheduling points, and are reported to G.on_copy
extern "C" void *memcpy(void *d, const void *s, size_t n) throw() {
    if (SG.on && !SG.watch.empty()) { if (sched::watched(s)) { sched::access(s, false); if (SG.on_copy) SG.on_copy(s, n); } if (sched::watched(d)) sched::access(d, true); }
    void *r = d; __asm__ volatile("rep movsb" : "+D"(d), "+S"(s), "+c"(n) : : "memory"); return r;
}
// memory freed during a run is overwritten and not used again before its end
#include <malloc.h>
void operator delete(void *p) noexcept { if (p && SG.on) { memset(p, 0xDD, malloc_usable_size(p)); SG.freed.push_back(p); } else free(p); }
void operator delete(void *p, size_t) noexcept { operator delete(p); }
void operator delete[](void *p) noexcept { operator delete(p); }
void operator delete[](void *p, size_t) noexcept { operator delete(p); }
#endif
// memory access hooks of -fsanitize=thread
extern "C" {
void __tsan_init() {} void __tsan_func_entry(void *) { if (SG.on && !SG.fns.empty()) { const char *pc = (const char *)__builtin_return_address(0); auto i = SG.fns.upper_bound(pc); if (i != SG.fns.begin()) { --i; if (pc < i->first + 160) sched::point(i->second); } } } void __tsan_func_exit() {} void __tsan_vptr_update(void **, void *) {} void __tsan_vptr_read(void **) {}
#define RW(n) void __tsan_read##n(void *p) { sched::access(p, false); } void __tsan_write##n(void *p) { sched::access(p, true); } void __tsan_unaligned_read##n(void *p) { sched::access(p, false); } void __tsan_unaligned_write##n(void *p) { sched::access(p, true); } void __tsan_volatile_read##n(void *p) { sched::access(p, false); } void __tsan_volatile_write##n(void *p) { sched::access(p, true); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void *p, size_t) { sched::access(p, false); } void __tsan_write_range(void *p, size_t) { sched::access(p, true); }
#define AT(b, T) T __tsan_atomic##b##_load(const volatile T *p, int) { sched::access((const void *)p, false); return *p; } void __tsan_atomic##b##_store(volatile T *p, T v, int) { sched::access((const void *)p, true); *p = v; } \
 T __tsan_atomic##b##_exchange(volatile T *p, T v, int) { sched::access((const void *)p, true); T o = *p; *p = v; return o; } T __tsan_atomic##b##_fetch_add(volatile T *p, T v, int) { sched::access((const void *)p, true); T o = *p; *p = o + v; return o; } T __tsan_atomic##b##_fetch_sub(volatile T *p, T v, int) { sched::access((const void *)p, true); T o = *p; *p = o - v; return o; } \
 T __tsan_atomic##b##_fetch_or(volatile T *p, T v, int) { sched::access((const void *)p, true); T o = *p; *p = o | v; return o; } T __tsan_atomic##b##_fetch_and(volatile T *p, T v, int) { sched::access((const void *)p, true); T o = *p; *p = o & v; return o; } \
 int __tsan_atomic##b##_compare_exchange_strong(volatile T *p, T *e, T v, int, int) { sched::access((const void *)p, true); if (*p == *e) { *p = v; return 1; } *e = *p; return 0; } int __tsan_atomic##b##_compare_exchange_weak(volatile T *p, T *e, T v, int a, int c) { return __tsan_atomic##b##_compare_exchange_strong(p, e, v, a, c); }
AT(8, unsigned char) AT(16, unsigned short) AT(32, unsigned) AT(64, unsigned long)
void __tsan_atomic_thread_fence(int) {} void __tsan_atomic_signal_fence(int) {}
}
#endif
#endif
