// C34: Monte Carlo input generation: the real model writes campaigns into a scratch directory; an independent model of the documentation says what every input must assign.
#define MC_MAIN
#include "../lib/mc.hh"
#include "trick/mc_master.hh"
#include "trick/mc_python_code.hh"
#include "trick/mc_variable_file.hh"
#include "trick/mc_variable_fixed.hh"
#include "trick/mc_variable_random_bool.hh"
#include "trick/mc_variable_random_normal.hh"
#include "trick/mc_variable_random_string.hh"
#include "trick/mc_variable_random_uniform.hh"
#include "trick/mc_variable_semi_fixed.hh"
#include <string>
#include <vector>
#include <map>
#include <set>
#include <memory>
#include <random>
#include <cmath>
#include <algorithm>
#include <cstdarg>
#include <fstream>
#include <sstream>
#include <sys/stat.h>
#include <dirent.h>
#include <unistd.h>
using std::string; using std::vector;

struct Term { int code; };
static int errors, warnings; static bool escaped; static string esc;
extern "C" int message_publish(int lvl, const char *, ...) { if (lvl == 3) errors++; else if (lvl == 2) warnings++; return 0; }
extern "C" int exec_terminate_with_return(int c, const char *, int, const char *) { throw Term{c}; }
extern "C" int __real_system(const char *c);
extern "C" int __wrap_system(const char *c) { // only names below the scratch directory
    string s = c; if (s.find("MONTE_") == string::npos || s.find(" /") != string::npos || s.find("~") != string::npos || s.find("..", 0) != s.find("../monte_variables")) { escaped = true; esc = s; return -1; } return __real_system((s + " 2>/dev/null").c_str()); }
static string dir;
static void wipe(const string &d) { DIR *p = opendir(d.c_str()); if (!p) return; while (dirent *e = readdir(p)) { string n = e->d_name; if (n == "." || n == "..") continue; string f = d + "/" + n; struct stat st; if (!lstat(f.c_str(), &st) && S_ISDIR(st.st_mode)) { wipe(f); rmdir(f.c_str()); } else unlink(f.c_str()); } closedir(p); }
static void enter() { if (dir.empty()) dir = "/dev/shm/c34_"; string d = dir + std::to_string(getpid()); mkdir(d.c_str(), 0775); if (chdir(d.c_str())) abort(); wipe(d); errors = warnings = 0; escaped = false; }
struct Leave { ~Leave() { string d = dir + std::to_string(getpid()); wipe(d); if (chdir("/")) abort(); rmdir(d.c_str()); } };
static string slurp(const string &f) { std::ifstream i(f); if (!i) return "<none>"; std::stringstream s; s << i.rdbuf(); return s.str(); }
static void spew(const string &f, const string &t) { std::ofstream o(f); o << t; }

// ------------------------------------------------------------------ the model of one variable
static string squash(const string &s) { string r; bool q = false; for (char c : s) { if (c == '"' || c == '\'') q = !q; if (!q && (c == ' ' || c == '\t')) continue; r += c; } return r; }
struct Val { bool num = false; bool isint = false; double d = 0; string t; };       // what must be assigned
// the assignment "name = value" must be a line of its own
static bool agrees(const string &cmd, const string &name, const string &units, const Val &v) {
    if (cmd.size() < 2 || cmd[0] != '\n' || cmd.find('\n', 1) != string::npos) return false; string s = squash(cmd.substr(1)), p = name + "="; if (s.compare(0, p.size(), p)) return false; s = s.substr(p.size());
    if (!units.empty()) { string q = "trick.attach_units(\"" + units + "\","; if (s.compare(0, q.size(), q) || s.back() != ')') return false; s = s.substr(q.size(), s.size() - q.size() - 1); }
    if (!v.num) return s == squash(v.t); char *e; double d = strtod(s.c_str(), &e); if (*e || s.empty()) return false; if (v.isint) return d == v.d && s.find_first_of(".e") == string::npos; return fabs(d - v.d) <= 1e-15 * fabs(v.d); }
static Val num(double d) { Val v; v.num = true; v.d = d; return v; }
static Val inum(double d) { Val v = num(d); v.isint = true; return v; }
static Val txt(const string &s) { Val v; v.t = s; return v; }
struct Model { string name, units; bool summary = true; virtual ~Model() {} virtual Val next() = 0; virtual string type() = 0; virtual long seed() { return -1; } virtual string whole(const Val &) { return ""; } };
struct MUni : Model { std::mt19937 g; std::uniform_real_distribution<double> d; long sd; MUni(long s, double a, double b) : g(s), d(a, b), sd(s) {} Val next() override { return num(d(g)); } string type() override { return "Random"; } long seed() override { return sd; } };
struct MInt : Model { std::mt19937 g; std::uniform_int_distribution<int> d; long sd; MInt(long s, int a, int b) : g(s), d(a, b), sd(s) {} Val next() override { return inum(d(g)); } string type() override { return "Random"; } long seed() override { return sd; } };
struct MNorm : Model { std::mt19937 g; std::normal_distribution<double> d; long sd; bool lo = false, hi = false; double mn = 0, mx = 0; unsigned long tries = 10000; MNorm(long s, double a, double b) : g(s), d(a, b), sd(s) {}
    Val next() override { double x = d(g); if (lo && hi && mn == mx) return num(mn); for (unsigned long i = 0; (hi && x > mx) || (lo && x < mn); i++) { if (i >= tries) return num(!hi ? mn : !lo ? mx : (mn + mx) / 2); x = d(g); } return num(x); } string type() override { return "Random"; } long seed() override { return sd; } };
struct MSet : Model { std::mt19937 g; std::uniform_real_distribution<double> d{0, 1}; long sd; vector<string> v; MSet(long s, vector<string> x) : g(s), sd(s), v(x) { summary = false; } Val next() override { return txt(v[(size_t)(d(g) * v.size())]); } string type() override { return "Random"; } long seed() override { return sd; } };
struct MFix : Model { Val v; MFix(Val x) : v(x) { summary = x.num; } Val next() override { return v; } string type() override { return "Constant"; } };
struct MSemi : Model { Val v; bool have = false; Model *from; Val *cur; MSemi(Val *c) : from(0), cur(c) {} Val next() override { if (!have) { v = *cur; have = true; } return v; } string type() override { return "Constant"; } };
struct FileM { vector<vector<string>> rows; size_t at = 0; std::mt19937 g{0}; int skip = 0; vector<string> line() { int k = 0; if (skip) { std::uniform_int_distribution<int> u(0, skip); k = u(g); } at = (at + k) % rows.size(); auto &r = rows[at]; at = (at + 1) % rows.size(); return r; } };
struct MFile : Model { FileM *f; bool head; vector<string> *shared; size_t col; MFile(FileM *ff, bool h, vector<string> *s, size_t c) : f(ff), head(h), shared(s), col(c) {} Val next() override { if (head) *shared = f->line(); if (col >= shared->size()) throw Term{1}; return txt((*shared)[col]); } string type() override { return "Prescribed"; } };
struct MCode : Model { string code; bool cmd; MCode(string c, bool k) : code(c), cmd(k) { summary = false; } Val next() override { return txt(code); } string type() override { return cmd ? "Execute" : "Calculated"; } string whole(const Val &) override { return cmd ? "\n" + code : ""; } };

// ------------------------------------------------------------------ single random variables
static void part_random() {
    static const unsigned SEEDS[] = {0, 1, 12345, 4294967295u}; unsigned sd = SEEDS[mc::choose(4, "seed")]; string units = mc::flip("units") ? "ft" : "";
    std::unique_ptr<MonteCarloVariable> v; std::unique_ptr<Model> m; double lo = 0, hi = 0; bool bound = true; string nm = "a.b[2]"; int term = 0; static const double LIM[] = {-1, 0, .5, 1, 2.5, 1e9}; vector<string> set;
    switch (mc::choose(7, "kind")) {
    case 0: { static const double B[][2] = {{0, 1}, {10, 20}, {-3.5, -3.25}, {-1e300, 1e300}, {0, 1e-300}, {5, 5}}; int k = mc::choose(6, "bounds"); lo = B[k][0]; hi = B[k][1]; if (k == 0 && mc::flip("default")) v.reset(new MonteCarloVariableRandomUniform(nm, sd)); else v.reset(new MonteCarloVariableRandomUniform(nm, sd, lo, hi)); if (k == 3) bound = true; m.reset(new MUni(sd, lo, hi)); break; }
    case 1: { static const int B[][2] = {{0, 1}, {-3, 3}, {-2147483647 - 1, 2147483647}, {7, 7}, {2000000000, 2147483647}}; int k = mc::choose(5, "bounds"); lo = B[k][0]; hi = B[k][1]; v.reset(new MonteCarloVariableRandomUniformInt(nm, sd, lo, hi)); m.reset(new MInt(sd, B[k][0], B[k][1])); break; }
    case 2: { // normal, truncated by up to two calls
        static const double P[][2] = {{0, 1}, {5, 2}, {-100, .001}}; int k = mc::choose(3, "parameters"); auto *n = new MonteCarloVariableRandomNormal(nm, sd, P[k][0], P[k][1]); v.reset(n); auto *q = new MNorm(sd, P[k][0], P[k][1]); m.reset(q); q->tries = n->max_num_tries = mc::choose(2, "tries") ? 3 : 10000;
        int calls = mc::choose(mc::thorough() ? 4 : 3, "calls"); if (calls >= 2 && (units.size() || sd != 1 || (!mc::thorough() && k != 1))) return;
        for (int c = 0; c < calls; c++) {
            int what = mc::choose(5, "call"), ty = what == 4 ? 0 : mc::choose(3, "type"); if (q->tries == 10000 && ty == 2 && false) return; auto T = ty == 0 ? MonteCarloVariableRandomNormal::StandardDeviation : ty == 1 ? MonteCarloVariableRandomNormal::Relative : MonteCarloVariableRandomNormal::Absolute;
            auto real = [&](double x) { return ty == 0 ? P[k][0] + P[k][1] * x : ty == 1 ? P[k][0] + x : x; };
            if (what == 4) { n->untruncate(); q->lo = q->hi = false; continue; }
            double a = LIM[mc::choose(6, "limit")]; if (what == 0) { n->truncate(a, T); a = fabs(a); q->mn = real(-a); q->mx = real(a); q->lo = q->hi = true; } else if (what == 1) { double b = LIM[mc::choose(6, "limit2")]; n->truncate(a, b, T); q->mn = real(a); q->mx = real(b); q->lo = q->hi = true; } else if (what == 2) { n->truncate_low(a, T); q->mn = real(a); q->lo = true; } else { n->truncate_high(a, T); q->mx = real(a); q->hi = true; }
        }
        lo = q->lo ? q->mn : -HUGE_VAL; hi = q->hi ? q->mx : HUGE_VAL; if (q->lo && q->hi && q->mn > q->mx) term = 1; break; }
    case 3: { int n = 1 + mc::choose(4, "strings"); static const char *S[] = {"a", "'b, c'", "x * 3 + 2", "\"d e\""}; auto *r = new MonteCarloVariableRandomStringSet(nm, sd); v.reset(r); for (int i = 0; i < n; i++) { r->add_string(S[i]); set.push_back(S[i]); } m.reset(new MSet(sd, set)); units = ""; bound = false; break; }
    case 4: v.reset(new MonteCarloVariableRandomBool(nm, sd)); set = {"False", "True"}; m.reset(new MSet(sd, set)); m->summary = true; units = ""; bound = false; break;
    case 5: { static const double D[] = {0, -1.5, .1, 1e300, 1. / 3, 123456789012}; int k = mc::choose(9, "value"); bound = false; if (k < 6) { v.reset(new MonteCarloVariableFixed(nm, D[k])); m.reset(new MFix(num(D[k]))); } else if (k < 8) { int x = k == 6 ? -7 : 2147483647; v.reset(new MonteCarloVariableFixed(nm, x)); m.reset(new MFix(inum(x))); } else { v.reset(new MonteCarloVariableFixed(nm, string("'t = 1'"))); m.reset(new MFix(txt("'t = 1'"))); units = ""; } break; }
    case 6: { bound = false; int k = mc::choose(3, "code"); if (k == 0) { v.reset(new MonteCarloPythonLineExec(nm, "x if (y == 1) else z")); m.reset(new MCode("x if (y == 1) else z", false)); } else if (k == 1) { v.reset(new MonteCarloPythonLineExec("f(1)")); m.reset(new MCode("f(1)", true)); } else { v.reset(new MonteCarloPythonFileExec("p.py")); m.reset(new MCode("exec(open('p.py').read())", true)); } units = ""; break; }
    }
    v->units = units; m->name = nm; if (v->include_in_summary != m->summary) mc::fail("summary-flag", "a variable of kind %s is %s the summary", m->type().c_str(), v->include_in_summary ? "in" : "not in");
    if (v->get_type_str() != m->type() || (m->seed() >= 0 && v->get_seed() != m->seed())) mc::fail("type", "type %s seed %u", v->get_type_str().c_str(), v->get_seed());
    for (int i = 0; i < 5; i++) {
        int code = 0; try { v->generate_assignment(); } catch (Term &t) { code = t.code; } if (code != term) mc::fail("limits", "limits %g..%g: the simulation terminates with %d", lo, hi, code); if (term) return;
        Val x = m->next(); string w = m->whole(x); if (w.empty() ? !agrees(v->get_command(), nm, units, x) : w != v->get_command()) mc::fail("value", "%s seed %u units [%s] draw %d: [%s], should be %s%.17g", m->type().c_str(), sd, units.c_str(), i, v->get_command().c_str(), x.t.c_str(), x.d);
        if (bound && x.num) { double d = strtod(v->get_assignment().c_str(), 0); if (d < lo - 1e-15 * fabs(lo) || d > hi + 1e-15 * fabs(hi)) mc::fail("range", "%s is outside %.17g..%.17g", v->get_assignment().c_str(), lo, hi); }
        mc::outcome(mc::hash(v->get_command())); mc::step(1); mc::state(mc::hv(mc::hash(v->get_command()), i, (int)sd));
    }
}
// ------------------------------------------------------------------ values from files
static const char *LINES[] = {"1 2.5 x7", "-3\t4e5  \"q\"", "# 9 9 9", "", "  6\t \t7 8 ", "10 11", "   "}; static const char *LINE8 = "/ 1 2 3";
static vector<vector<string>> rows_of(const vector<string> &lines) { vector<vector<string>> r; for (auto &l : lines) { if (l.empty() || l[0] == '#' || l[0] == '/') continue; std::istringstream s(l); vector<string> w; string x; while (s >> x) w.push_back(x); if (!w.empty()) r.push_back(w); } return r; }
static void part_files() {
    enter(); Leave lv; int n = mc::choose(mc::thorough() ? 5 : 4, "lines"); vector<string> ls; for (int i = 0; i < n; i++) { int k = mc::choose(7, "line"); ls.push_back(k == 6 && i == 1 ? LINE8 : LINES[k]); } bool nl = n == 0 || mc::flip("newline"); string t; for (int i = 0; i < n; i++) t += ls[i] + (i + 1 < n || nl ? "\n" : ""); spew("vals", t);
    int nv = 1 + mc::choose(mc::thorough() ? 3 : 2, "variables"), skip = mc::choose(3, "skip"); if (nv > 1 && n > 2 && (skip || !nl) && !mc::thorough()) return; FileM f; f.rows = rows_of(ls); f.skip = skip; vector<string> shared;
    MonteCarloMaster m("mc"); vector<std::unique_ptr<MonteCarloVariableFile>> v; vector<std::unique_ptr<MFile>> q; bool before = false; string desc;
    for (int i = 0; i < nv; i++) { int first = mc::choose(2, "first"), col = mc::choose(4, "column"); v.emplace_back(new MonteCarloVariableFile("v" + std::to_string(i), "vals", col, first)); v[i]->max_skip = skip; if (col < first) before = true; q.emplace_back(new MFile(&f, i == 0, &shared, col - first)); q[i]->name = "v" + std::to_string(i); m.add_variable(*v[i]); desc += " column " + std::to_string(col) + " of " + std::to_string(first) + ".."; }
    int code = 0; try { v[0]->initialize_file(); } catch (Term &x) { code = x.code; }
    bool bad = before || f.rows.empty(); if (bad != (code != 0)) mc::fail("file-check", "file [%s]%s %s", t.c_str(), desc.c_str(), code ? "is refused" : "is accepted"); if (bad) return;
    for (int i = 0; i < 5; i++) for (int k = 0; k < nv; k++) {
        // a line that is too short for any of the variables is an error
        bool die = false, died = false; Val x; if (k == 0) { shared = f.line(); q[0]->head = false; for (auto &p : q) if (p->col >= shared.size()) die = true; }
        try { v[k]->generate_assignment(); } catch (Term &) { died = true; }
        if (die != died) mc::fail("file-short", "file [%s]%s draw %d: %s", t.c_str(), desc.c_str(), i, died ? "an error" : "no error"); if (die) return;
        x = q[k]->next(); if (!agrees(v[k]->get_command(), q[k]->name, "", x)) mc::fail("file-value", "file [%s]%s skip %d draw %d variable %d: [%s], should be %s", t.c_str(), desc.c_str(), skip, i, k, v[k]->get_command().c_str(), x.t.c_str());
        mc::step(1); mc::outcome(mc::hv(mc::hash(v[k]->get_command()), i)); mc::state(mc::hv(mc::hash(t + desc), i, k));
    }
}
// ------------------------------------------------------------------ campaigns
struct Camp {
    FileM f1, f2; vector<string> s1, s2; std::map<int, std::unique_ptr<MonteCarloVariable>> real; std::map<int, std::unique_ptr<Model>> mod; Val uni; vector<int> used; std::unique_ptr<MonteCarloVariable> seedvar; bool h1 = false, h2 = false; int first1 = -1, first2 = -1;
    void make(int k) {
        MonteCarloVariable *v = 0; Model *m = 0; string nm = "o.v" + std::to_string(k);
        switch (k) {
        case 0: v = new MonteCarloVariableRandomUniform(nm, 1, 10, 20); m = new MUni(1, 10, 20); v->units = m->units = "ft"; break;
        case 1: v = new MonteCarloVariableRandomUniformInt(nm, 2, -3, 3); m = new MInt(2, -3, 3); break;
        case 2: { auto *n = new MonteCarloVariableRandomNormal(nm, 1, 5, 2); n->truncate(1, MonteCarloVariableRandomNormal::StandardDeviation); v = n; auto *q = new MNorm(1, 5, 2); q->lo = q->hi = true; q->mn = 3; q->mx = 7; m = q; break; }
        case 3: { auto *r = new MonteCarloVariableRandomStringSet(nm, 3); r->add_string("\"a\""); r->add_string("b * 2"); v = r; m = new MSet(3, {"\"a\"", "b * 2"}); break; }
        case 4: v = new MonteCarloVariableRandomBool(nm, 2); m = new MSet(2, {"False", "True"}); m->summary = true; break;
        case 5: v = new MonteCarloVariableFixed(nm, 2.5); m = new MFix(num(2.5)); v->units = m->units = "s"; break;
        case 6: { auto *n = new MonteCarloVariableRandomUniform("z", 9, 0, 1); n->generate_assignment(); seedvar.reset(n); v = new MonteCarloVariableSemiFixed(nm, *n); MUni q(9, 0, 1); m = new MFix(q.next()); break; }
        case 7: v = new MonteCarloVariableFile(nm, "f1", 2); m = new MFile(&f1, false, &s1, 1); v->units = m->units = "m"; break;
        case 8: v = new MonteCarloVariableFile(nm, "f1", 1); m = new MFile(&f1, false, &s1, 0); break;
        case 9: { auto *w = new MonteCarloVariableFile(nm, "f2", 0, 0); w->max_skip = 2; f2.skip = 2; v = w; m = new MFile(&f2, false, &s2, 0); break; }
        case 10: v = new MonteCarloPythonLineExec(nm, "1 + o.v0"); m = new MCode("1 + o.v0", false); break;
        case 11: v = new MonteCarloPythonLineExec(nm = "run_me()"); m = new MCode("run_me()", true); break;
        default: v = new MonteCarloPythonFileExec(nm = "extra.py"); m = new MCode("exec(open('extra.py').read())", true); break;
        }
        m->name = nm; real[k].reset(v); mod[k].reset(m);
    }
    Camp() { f1.rows = {{"1", "2"}, {"3", "4"}, {"5", "6"}}; f2.rows = {{"a1"}, {"b2"}}; spew("f1", "1 2\n# c\n3 4\n5 6"); spew("f2", "a1\n\nb2\n"); }
};
static string pad(unsigned r, unsigned n, int mn) { char b[32]; int w = std::max<int>(mn, std::to_string(n - 1).size()); snprintf(b, 32, "%0*u", w, r); return b; }
static void check_campaign(Camp &c, const vector<int> &order, unsigned runs, int padding, bool summary, bool meta, const string &mdir, const string &rname, const string &input, const string &what) {
    auto die = [&](const char *sig, const char *f, auto... a) { char b[3000]; snprintf(b, sizeof b, f, a...); mc::fail(string(sig), "%s (%s)", b, what.c_str()); };
    if (escaped) die("escape", "a command is run outside the campaign: %s", esc.c_str());
    std::set<string> have, want; DIR *p = opendir(mdir.c_str()); if (!p) die("directory", "there is no %s", mdir.c_str()); while (dirent *e = readdir(p)) if (!strncmp(e->d_name, "RUN_", 4)) have.insert(e->d_name); closedir(p);
    for (unsigned r = 0; r < runs; r++) want.insert("RUN_" + pad(r, runs, padding)); if (have != want) die("runs", "%zu runs are written (%s ...), should be %zu (%s ...)", have.size(), have.empty() ? "" : have.begin()->c_str(), want.size(), want.empty() ? "" : want.begin()->c_str());
    bool h1 = false, h2 = false; for (int k : order) { if (k == 7 || k == 8) { auto *q = (MFile *)c.mod[k].get(); q->head = !h1; h1 = true; } if (k == 9) { ((MFile *)c.mod[k].get())->head = !h2; h2 = true; } }
    string all;
    for (unsigned r = 0; r < runs; r++) {
        string d = mdir + "/RUN_" + pad(r, runs, padding), t = slurp(d + "/monte_" + input), w = pad(r, runs, padding);
        vector<string> lines, hd = {"loc.active=True", "loc.generate_dispersions=False", "exec(open('" + rname + "/" + input + "').read())", "loc.monte_run_number=" + std::to_string(r)}; std::istringstream ss(t); string l; while (std::getline(ss, l)) if (!squash(l).empty()) lines.push_back(l);
        if (lines.size() < 4) die("input", "run %u has [%s]", r, t.c_str()); for (int i = 0; i < 4; i++) if (squash(lines[i]) != hd[i]) die("input", "run %u has [%s], should have [%s]", r, lines[i].c_str(), hd[i].c_str()); lines.erase(lines.begin(), lines.begin() + 4);
        if (lines.size() != order.size()) die("assignments", "run %u has %zu assignments, should have %zu: [%s]", r, lines.size(), order.size(), t.c_str());
        for (size_t i = 0; i < order.size(); i++) { Model &m = *c.mod[order[i]]; Val x = m.next(); string wh = m.whole(x), s = "\n" + lines[i]; if (wh.empty() ? !agrees(s, m.name, m.units, x) : squash(s) != squash(wh)) die("values", "run %u has [%s] for %s, should be %s%.17g", r, lines[i].c_str(), m.name.c_str(), x.t.c_str(), x.d);
            if (m.summary) { w += ","; if (!x.num) w += x.t; else { char b[64]; snprintf(b, 64, "%.14g", x.d); w += b; } } }
        if (summary) { string v = slurp(d + "/monte_values"); all += v; std::istringstream vs(v); string o, f; bool firstw = true; string line; std::getline(vs, line); std::istringstream ls(line); while (std::getline(ls, f, ',')) { f = squash(f); size_t at = f.find("attach_units("); char *e; double dd = strtod(f.c_str(), &e); if (!firstw) { o += ","; if (!*e && f.size() && at == string::npos) { char b[64]; snprintf(b, 64, "%.14g", dd); f = b; } } firstw = false; o += f; } 
            string w2; std::istringstream ws(w); firstw = true; while (std::getline(ws, f, ',')) { f = squash(f); char *e; double dd = strtod(f.c_str(), &e); if (!firstw) { w2 += ","; if (!*e && f.size()) { char b[64]; snprintf(b, 64, "%.14g", dd); f = b; } } firstw = false; w2 += f; }
            if (o != w2) die("summary", "the values of run %u are [%s], should be [%s]", r, o.c_str(), w2.c_str());
            if (slurp(d + "/monte_variables") != slurp(mdir + "/monte_variables")) die("summary", "run %u has no monte_variables", r); }
        else if (access((d + "/monte_values").c_str(), F_OK) == 0) die("summary", "run %u has a list of values that was not asked for", r);
        mc::step(order.size());
    }
    if (summary) { string a = slurp(mdir + "/monte_values_all_runs"); if (a != all) die("summary", "the values of all runs are [%s], should be [%s]", a.c_str(), all.c_str()); std::istringstream vs(slurp(mdir + "/monte_variables")); string l; vector<string> got, wt = {"run_number"}; while (std::getline(vs, l)) got.push_back(squash(l)); for (int k : order) if (c.mod[k]->summary) wt.push_back(squash(c.mod[k]->name + "," + c.mod[k]->units)); if (got != wt) die("summary", "%zu columns are listed, should be %zu", got.size(), wt.size()); }
    string md = slurp(mdir + "/MonteCarlo_Meta_data_output"); if (meta != (md != "<none>")) die("meta-data", "meta data %s", meta ? "is missing" : "was not asked for");
    if (meta) {
        std::map<string, int> n; std::multiset<std::pair<long, string>> seeds, dup; for (int k : order) { Model &m = *c.mod[k]; n[m.type()]++; if (m.seed() >= 0) seeds.insert({m.seed(), m.name}); }
        for (auto &s : seeds) { int q = 0; for (auto &x : seeds) q += x.first == s.first; if (q > 1) dup.insert(s); }
        auto cnt = [&](const char *label) { size_t at = md.find(label); if (at == string::npos) return -1; size_t b = md.rfind('\n', at) + 1; while (b < at && !isdigit(md[b])) b++; return atoi(md.c_str() + b); };
        if (cnt(" total assignments") != (int)order.size() || cnt(" constant values") != n["Constant"] || cnt(" calculated variables") != n["Calculated"] || cnt(" prescribed (file-based)") != n["Prescribed"] || cnt(" random variables") != n["Random"] || cnt(" files for execution") != n["Execute"] || cnt(" variables of undefined") != 0) die("meta-data", "wrong counts in [%s]", md.substr(0, 500).c_str());
        auto sect = [&](const char *label) { std::multiset<std::pair<long, string>> r; size_t at = md.find(label); if (at == string::npos) return r; at = md.find('\n', at) + 1; std::istringstream s(md.substr(at)); string l; while (std::getline(s, l) && (l.empty() || l[0] != '*')) { std::istringstream w(l); long a; string b; if (w >> a >> b) r.insert({a, b}); } return r; };
        if (sect("Duplicate seeds") != dup) die("meta-data", "wrong duplicate seeds: [%s]", md.c_str()); if (sect("ALL SEEDS") != seeds) die("meta-data", "wrong seeds: [%s]", md.c_str());
        for (int k : order) if (md.find(k == 12 ? "extra.py" : c.mod[k]->name) == string::npos) die("meta-data", "%s is missing", c.mod[k]->name.c_str());
        auto fsect = [&](const char *file) { std::multiset<std::pair<long, string>> r; size_t at = md.find(string("\n******\n") + file + "\n"); if (at == string::npos) return r; std::istringstream s(md.substr(at + 8)); string l; std::getline(s, l); while (std::getline(s, l) && (l.empty() || l[0] != '*')) { std::istringstream w(l); long a; string b; if (w >> a >> b) r.insert({a, b}); } return r; };
        std::multiset<std::pair<long, string>> w1, w2; for (int k : order) { if (k == 7) w1.insert({2, "o.v7"}); if (k == 8) w1.insert({1, "o.v8"}); if (k == 9) w2.insert({0, "o.v9"}); } if (fsect("f1") != w1 || fsect("f2") != w2) die("meta-data", "wrong list of files: [%s]", md.c_str());
    }
    mc::outcome(mc::hv(mc::hash(all), runs, meta));
}
static void part_campaign() {
    enter(); Leave lv; Camp c; int n = mc::choose(mc::thorough() ? 4 : 3, "variables"); vector<int> order; string what; for (int i = 0; i < n; i++) { int k = mc::choose(13, "variable"); if (std::find(order.begin(), order.end(), k) != order.end()) return; order.push_back(k); what += "variable " + std::to_string(k) + " "; }
    static const unsigned RUNS[] = {1, 3, 11, 0, 10}; int opt = mc::choose(n < 2 ? 10 : 3, "options"); unsigned runs = n < 2 ? RUNS[opt % 5] : 3; bool summary = opt != 1, meta = opt != 2 && opt < 6; int padding = opt == 2 || opt == 8 ? 5 : opt == 1 ? 1 : 0;
    MonteCarloMaster m("loc"); m.activate("R/x"); string mdir = "MONTE_Rx", rn = "R/x", in = "input.py"; m.monte_dir = mdir; if (opt == 2) { m.input_file_name = in = "other.py"; m.run_name = rn = "Q"; }
    if (opt == 0 || opt == 7) { mkdir(mdir.c_str(), 0775); for (auto f : {"/RUN_0", "/RUN_7", "/RUN_00003"}) { mkdir((mdir + f).c_str(), 0775); spew(mdir + f + "/monte_values", "old\n"); spew(mdir + f + "/monte_input.py", "old\n"); } spew(mdir + "/monte_values_all_runs", "old\n"); spew(mdir + "/keep", "k"); }
    m.generate_summary = summary; m.generate_meta_data = meta; m.minimum_padding = padding; m.set_num_runs(runs); for (int k : order) { c.make(k); m.add_variable(*c.real[k]); }
    int code = -1; try { m.execute(); } catch (Term &t) { code = t.code; } what += "options " + std::to_string(opt); if (code != 0) mc::fail("end", "the simulation ends with %d (%s)", code, what.c_str());
    if ((opt == 0 || opt == 7) && slurp(mdir + "/keep") != "k") mc::fail("keep", "a file of the user is removed");
    check_campaign(c, order, runs, padding, summary, meta, mdir, rn, in, what);
}
static void part_history() {
    enter(); Leave lv; Camp c; MonteCarloMaster m("loc"); vector<int> order; unsigned runs = 2; m.set_num_runs(2); string what; bool act = false, gen = true; const bool done = false; m.generate_meta_data = true; vector<int> made; string mdir;
    static const int V[] = {0, 8, 7, 4}; int n = 1 + mc::choose(mc::thorough() ? 5 : 3, "calls"); for (int k : V) c.make(k);
    if (mc::flip("active")) { m.activate("H"); act = true; }
    for (int i = 0; i < n; i++) {
        errors = warnings = 0; int k;
        switch (i == 0 ? 0 : mc::choose(4, "call")) {
        case 0: { k = V[mc::choose(4, "which")]; what += "add" + std::to_string(k) + " "; bool dup = std::find(order.begin(), order.end(), k) != order.end(), died = false; try { m.add_variable(*c.real[k]); } catch (Term &) { died = true; } if (done) { if (!errors) mc::fail("late", "adding a variable after the inputs have been written is not reported (%s)", what.c_str()); break; } if (died != dup) mc::fail("duplicate", "adding a variable %s (%s)", died ? "fails" : "twice is accepted", what.c_str()); if (died) return; order.push_back(k); break; }
        case 1: { k = V[mc::choose(4, "which")]; what += "remove" + std::to_string(k) + " "; bool have = std::find(order.begin(), order.end(), k) != order.end(); if (done) break; m.remove_variable(c.mod[k]->name); if (have == (warnings > 0)) mc::fail("remove", "removing a variable that is %sthere gives %d warnings (%s)", have ? "" : "not ", warnings, what.c_str()); if (have) order.erase(std::find(order.begin(), order.end(), k)); break; }
        case 2: { unsigned r = mc::choose(3, "runs"); what += "runs" + std::to_string(r) + " "; m.set_num_runs(r); if (!done) runs = r; else if (!errors) mc::fail("late", "changing the number of runs after the inputs have been written is not reported"); break; }
        case 3: { gen = !gen; m.generate_dispersions = gen; break; }
        }
        for (int q : V) { auto *v = m.find_variable(c.mod[q]->name); bool have = std::find(order.begin(), order.end(), q) != order.end(); if ((v != 0) != have || (v && v != c.real[q].get())) mc::fail("find", "a variable is %s (%s)", v ? "found" : "not found", what.c_str()); }
        mc::step(1); mc::state(mc::hash(what));
    }
    int code = -1; try { m.execute(); } catch (Term &t) { code = t.code; } what += "execute";
    if (!act || !gen) { if (code != -1 || access("MONTE_H", F_OK) == 0) mc::fail("inactive", "inputs are written although the model is not active (%s)", what.c_str()); return; }
    if (code) mc::fail("end", "the simulation ends with %d (%s)", code, what.c_str());
    check_campaign(c, order, runs, 0, true, true, "MONTE_H", "H", "input.py", what);
    // afterwards nothing can be changed any more
    string before = slurp("MONTE_H/monte_values_all_runs"); errors = 0; MonteCarloVariableFixed late("late", 1); m.add_variable(late); if (!errors || m.find_variable("late")) mc::fail("late", "a variable is added after the inputs have been written (%s)", what.c_str());
    errors = 0; m.set_num_runs(7); if (!errors || m.num_runs != runs) mc::fail("late", "the number of runs is changed after the inputs have been written"); m.prepare_input_files(); if (slurp("MONTE_H/monte_values_all_runs") != before) mc::fail("late", "the inputs are written twice");
}
int main(int c, char **v) {
    mc::Options o; o.split = 6; o.timeout_s = 20; dir = "/dev/shm/c34_";
    return mc::run(c, v, o, [] { switch (mc::choose(4, "part")) { case 0: part_random(); break; case 1: part_files(); break; case 2: part_campaign(); break; case 3: part_history(); break; } });
}
