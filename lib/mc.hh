// Stateless explicit exploration of real code: every execution is a sequence of
// choices made through mc::choose(); the explorer enumerates all of them depth first.
// Header-only, one translation unit per harness includes it with MC_MAIN defined.
#ifndef MC_HH
#define MC_HH
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstdarg>
#include <cstring>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <unordered_set>
#include <functional>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/time.h>
#include <sys/resource.h>
#include <unistd.h>
#include <signal.h>
#include <time.h>
#include <errno.h>
#include <fcntl.h>

namespace mc {

struct Violation { std::string sig, msg; };
struct Prune {};

enum { MAXP = 4096, MAXH = 1 << 15, LOGSZ = 1 << 16 };

struct Shm {                       // one per worker
    int npath; int path[MAXP]; int arity[MAXP];
    int nh; uint64_t h[MAXH];      // state hashes of this execution
    int no; uint64_t o[4096];      // outcome hashes of this execution
    long steps; long trans;
    int done;                      // 1 = body returned, 2 = violation, 3 = pruned, 4 = diverged
    int started;
    char sig[512]; char msg[8192];
    char ctx[512];
    int loglen; char log[LOGSZ];
    long executions, pruned; int capped;
    long counters[16];
};

extern Shm *S;
extern std::vector<int> forced;
extern bool replaying, thorough_;
extern int worker_id, n_workers, split_depth;
extern uint64_t split_hash;

inline uint64_t mix(uint64_t h, uint64_t v) {
    h ^= v + 0x9e3779b97f4a7c15ULL + (h << 6) + (h >> 2);
    h *= 0xff51afd7ed558ccdULL; h ^= h >> 32; return h;
}
inline uint64_t hash(const void *p, size_t n, uint64_t h = 1469598103934665603ULL) {
    const unsigned char *c = (const unsigned char *)p;
    for (size_t i = 0; i < n; i++) { h ^= c[i]; h *= 1099511628211ULL; }
    return mix(h, n);
}
inline uint64_t hash(const std::string &s) { return hash(s.data(), s.size()); }

template <class... A> inline uint64_t hv(A... a) { uint64_t h = 0x51ed270b27b4a7c5ULL; int d[] = {0, ((h = mix(h, (uint64_t)a)), 0)...}; (void)d; return h; }
inline bool thorough() { return thorough_; }
inline void step(long n = 1) { S->trans += n; }
inline void count(int i, long n = 1) { S->counters[i] += n; }
inline void state(uint64_t h) { if (S->nh < MAXH) S->h[S->nh++] = h; }
inline void outcome(uint64_t h) { if (S->no < 4096) S->o[S->no++] = h; }
inline void ctx(const char *f, ...) { va_list a; va_start(a, f); vsnprintf(S->ctx, sizeof S->ctx, f, a); va_end(a); }
inline void trace(const char *f, ...) {
    if (S->loglen > LOGSZ - 600) return;
    va_list a; va_start(a, f);
    int n = vsnprintf(S->log + S->loglen, 512, f, a); va_end(a);
    if (n > 511) n = 511;
    if (n > 0) { S->loglen += n; if (S->log[S->loglen-1] != '\n') S->log[S->loglen++] = '\n'; S->log[S->loglen] = 0; }
}
[[noreturn]] inline void fail(const char *sig, const char *f, ...) {
    char b[6000]; va_list a; va_start(a, f); vsnprintf(b, sizeof b, f, a); va_end(a);
    throw Violation{sig, b};
}
[[noreturn]] inline void fail(std::string sig, const char *f, ...) {
    char b[6000]; va_list a; va_start(a, f); vsnprintf(b, sizeof b, f, a); va_end(a);
    throw Violation{sig, b};
}
// For contexts where an exception must not be thrown (threads, C callbacks).
// The harness must check pending_violation at the end of the body.
inline int choose(int n, const char *tag = "") {
    if (n <= 0) { fprintf(stderr, "mc: choose(%d) %s\n", n, tag); abort(); }
    if (n == 1) return 0;
    int i = S->npath;
    if (i >= MAXP) { fprintf(stderr, "mc: path too long\n"); abort(); }
    int c = 0;
    if (i < (int)forced.size()) {
        c = forced[i];
        if (c >= n) { fprintf(stderr, "mc: divergence at choice %d (%s): %d of %d\n", i, tag, c, n); S->done = 4; _exit(97); }
    }
    S->path[i] = c; S->arity[i] = n; S->npath = i + 1;
    if (*tag) trace("choice %s = %d/%d", tag, c, n);
    if (i < split_depth) {
        split_hash = mix(split_hash, c + 1);
        if (i == split_depth - 1 && !replaying && n_workers > 1 && (int)((split_hash >> 7) % n_workers) != worker_id)
            throw Prune{};
    }
    return c;
}
inline bool flip(const char *tag = "") { return choose(2, tag) == 1; }

struct Options {
    bool fork_each = false;
    int timeout_s = 30;
    int split = 2;             // number of leading choices used to share the work
    int workers = 0;           // 0 = number of cores
    double max_seconds = 0;    // 0 = none
    const char *counter_names[16] = {0};
};
typedef std::function<void()> Body;
int run(int argc, char **argv, Options opt, Body body);
}

#ifdef MC_MAIN
namespace mc {
Shm *S; std::vector<int> forced; bool replaying, thorough_; int worker_id, n_workers = 1, split_depth; uint64_t split_hash;

static double now() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
static void esc(FILE *f, const std::string &s) {
    fputc('"', f);
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { fputc('\\', f); fputc(c, f); }
        else if (c == '\n') fputs("\\n", f);
        else if (c < 32 || c > 126) fprintf(f, "\\u%04x", c);
        else fputc(c, f);
    }
    fputc('"', f);
}
static std::string path_str(Shm *s) {
    std::string r; char b[16];
    for (int i = 0; i < s->npath; i++) { snprintf(b, sizeof b, "%s%d", i ? "," : "", s->path[i]); r += b; }
    return r;
}
static void begin_exec() {
    S->npath = S->nh = S->no = S->loglen = 0; S->done = 0; S->sig[0] = S->msg[0] = S->ctx[0] = S->log[0] = 0; split_hash = 12345;
}
static void one(Body &body) {
    try { body(); S->done = 1;
          if (split_depth > 0 && S->npath < split_depth && !replaying && n_workers > 1 &&
              (int)((split_hash >> 7) % n_workers) != worker_id) S->done = 3;
    }
    catch (Violation &v) { snprintf(S->sig, sizeof S->sig, "%s", v.sig.c_str()); snprintf(S->msg, sizeof S->msg, "%s", v.msg.c_str()); S->done = 2; }
    catch (Prune &) { S->done = 3; }
}
struct Viol { std::string sig, msg, path, log; int n; };
static void crash_sig(int st) {
    char b[64];
    if (WIFSIGNALED(st)) snprintf(b, sizeof b, "%s", WTERMSIG(st) == SIGALRM ? "hang" : strsignal(WTERMSIG(st)));
    else if (WEXITSTATUS(st) == 97) snprintf(b, sizeof b, "divergence");
    else snprintf(b, sizeof b, "exit-%d", WEXITSTATUS(st));
    snprintf(S->sig, sizeof S->sig, "abnormal-end:%s%s%.400s", b, S->ctx[0] ? ":" : "", S->ctx);
    snprintf(S->msg, sizeof S->msg, "the execution ended abnormally (%s) %s", b, S->ctx);
    S->done = 2;
}
static bool advance() {       // next path in depth-first order into forced
    forced.assign(S->path, S->path + S->npath);
    std::vector<int> ar(S->arity, S->arity + S->npath);
    while (!forced.empty()) {
        size_t i = forced.size() - 1;
        if (forced[i] + 1 < ar[i]) { forced[i]++; return true; }
        forced.pop_back();
    }
    return false;
}
static int worker(Options &opt, Body &body, const std::string &out, double t0) {
    std::map<std::string, Viol> viols;
    std::unordered_set<uint64_t> states, outs;
    std::vector<std::string> samples;
    long nviol = 0; bool more = true;
    S->started = 1;
    while (more) {
        begin_exec();
        if (opt.fork_each) {
            fflush(0);
            pid_t p = fork();
            if (p == 0) { alarm(opt.timeout_s); one(body); fflush(0); _exit(0); }
            if (p < 0) { perror("fork"); _exit(96); }
            int st; while (waitpid(p, &st, 0) < 0 && errno == EINTR) ;
            if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0 && S->done)) crash_sig(st);
        } else { alarm(opt.timeout_s); one(body); alarm(0); }
        if (S->done == 3) S->pruned++; else {
            S->executions++;
            for (int i = 0; i < S->nh; i++) states.insert(S->h[i]);
            for (int i = 0; i < S->no; i++) outs.insert(S->o[i]);
            if (samples.size() < 2 && S->loglen && (S->executions == 1 || S->executions == 50)) samples.push_back(std::string(S->log, S->loglen));
        }
        if (S->done == 2) {
            nviol++;
            std::string sig = S->sig;
            auto it = viols.find(sig);
            if (it == viols.end()) { if (viols.size() < 200) viols[sig] = Viol{sig, S->msg, path_str(S), std::string(S->log, S->loglen), S->npath}; }
            else if (S->npath < it->second.n) it->second = Viol{sig, S->msg, path_str(S), std::string(S->log, S->loglen), S->npath};
        }
        if (opt.max_seconds > 0 && now() - t0 > opt.max_seconds) { S->capped = 1; break; }
        more = advance();
    }
    FILE *f = fopen(out.c_str(), "w");
    fprintf(f, "{\"violations\":%ld,\"viols\":[", nviol);
    bool first = true;
    for (auto &v : viols) { if (!first) fputc(',', f); first = false;
        fprintf(f, "{\"sig\":"); esc(f, v.second.sig); fprintf(f, ",\"msg\":"); esc(f, v.second.msg);
        fprintf(f, ",\"path\":"); esc(f, v.second.path); fprintf(f, ",\"log\":"); esc(f, v.second.log); fputc('}', f); }
    fprintf(f, "],\"samples\":[");
    for (size_t i = 0; i < samples.size(); i++) { if (i) fputc(',', f); esc(f, samples[i].substr(0, 1500)); }
    fprintf(f, "]}\n"); fclose(f);
    S->started = 2;
    f = fopen((out + ".h").c_str(), "wb"); for (auto h : states) fwrite(&h, 8, 1, f); fclose(f);
    f = fopen((out + ".o").c_str(), "wb"); for (auto h : outs) fwrite(&h, 8, 1, f); fclose(f);
    return 0;
}
int run(int argc, char **argv, Options opt, Body body) {
    std::string out = "/dev/null", replay; bool have_replay = false;
    const char *tier = getenv("VERIF_TIER"); thorough_ = tier && !strcmp(tier, "thorough");
    for (int i = 1; i < argc; i++) {
        std::string a = argv[i];
        if (a == "--out" && i + 1 < argc) out = argv[++i];
        else if (a == "--replay" && i + 1 < argc) { replay = argv[++i]; have_replay = true; }
        else if (a == "--workers" && i + 1 < argc) opt.workers = atoi(argv[++i]);
        else if (a == "--max-seconds" && i + 1 < argc) opt.max_seconds = atof(argv[++i]);
        else if (a == "--timeout" && i + 1 < argc) opt.timeout_s = atoi(argv[++i]);
        else if (a == "--thorough") thorough_ = true;
    }
    if (opt.workers <= 0) { opt.workers = sysconf(_SC_NPROCESSORS_ONLN); if (opt.workers < 1) opt.workers = 1; if (opt.workers > 16) opt.workers = 16; }
    split_depth = opt.split;
    size_t sz = sizeof(Shm) * (opt.workers + 1);
    Shm *all = (Shm *)mmap(0, sz, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (have_replay) {
        S = all; replaying = true; n_workers = 1;
        for (size_t p = 0; p < replay.size();) { forced.push_back(atoi(replay.c_str() + p)); size_t q = replay.find(',', p); if (q == std::string::npos) break; p = q + 1; }
        begin_exec();
        fflush(0);
        pid_t p = fork();
        if (p == 0) { alarm(opt.timeout_s); one(body); fflush(0); _exit(0); }
        int st; waitpid(p, &st, 0);
        if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0 && S->done)) crash_sig(st);
        printf("%s", S->log);
        if (S->done == 2) { printf("\nREPLAY-VIOLATION sig=%s\n%s\n", S->sig, S->msg); return 1; }
        printf("\nREPLAY-OK\n"); return 0;
    }
    n_workers = opt.workers;
    double t0 = now();
    std::vector<pid_t> pids(n_workers); std::vector<int> gen(n_workers, 0);
    std::vector<std::vector<int>> start(n_workers);
    auto spawn = [&](int w) {
        fflush(0);
        pid_t p = fork();
        if (p == 0) { S = &all[w]; worker_id = w; forced = start[w];
            int r = worker(opt, body, out + "." + std::to_string(w) + "." + std::to_string(gen[w]), t0); fflush(0); _exit(r); }
        pids[w] = p;
    };
    for (int w = 0; w < n_workers; w++) spawn(w);
    long executions = 0, pruned = 0, trans = 0; int capped = 0, crashed = 0; long counters[16] = {0};
    int live = n_workers;
    while (live > 0) {
        int st; pid_t p = waitpid(-1, &st, 0);
        if (p < 0) { if (errno == EINTR) continue; break; }
        int w = -1; for (int i = 0; i < n_workers; i++) if (pids[i] == p) w = i;
        if (w < 0) continue;
        S = &all[w];
        if (WIFEXITED(st) && WEXITSTATUS(st) == 0 && S->started == 2) { live--; continue; }
        crash_sig(st); crashed++;
        FILE *f = fopen((out + "." + std::to_string(w) + "." + std::to_string(gen[w])).c_str(), "w");
        if (f) { fprintf(f, "{\"violations\":1,\"viols\":[{\"sig\":"); esc(f, S->sig); fprintf(f, ",\"msg\":"); esc(f, S->msg);
        fprintf(f, ",\"path\":"); esc(f, path_str(S)); fprintf(f, ",\"log\":"); esc(f, std::string(S->log, S->loglen)); fprintf(f, "}],\"samples\":[]}\n"); fclose(f); }
        S->executions++;
        if (gen[w] < 15 && advance()) { start[w] = forced; gen[w]++; spawn(w); }   // go on after the crashing execution
        else { if (gen[w] >= 15) S->capped = 1; live--; }
    }
    for (int w = 0; w < n_workers; w++) {
        S = &all[w];
        executions += S->executions; pruned += S->pruned; trans += S->trans; capped |= S->capped;
        for (int i = 0; i < 16; i++) counters[i] += S->counters[i];
    }
    FILE *f = fopen((out + ".sum").c_str(), "w");
    if (f) {
        fprintf(f, "{\"executions\":%ld,\"pruned\":%ld,\"transitions\":%ld,\"capped\":%d,\"crashed_workers\":%d,\"workers\":%d,\"wall\":%.2f", executions, pruned, trans, capped, crashed, n_workers, now() - t0);
        fprintf(f, ",\"counters\":{"); bool first = true;
        for (int i = 0; i < 16; i++) if (opt.counter_names[i]) { fprintf(f, "%s\"%s\":%ld", first ? "" : ",", opt.counter_names[i], counters[i]); first = false; }
        fprintf(f, "}}\n"); fclose(f);
    }
    return 0;
}
}
#endif
#endif
