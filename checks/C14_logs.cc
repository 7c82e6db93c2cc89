// C14: logs written by the simulation's recorders (and their byte-swapped, Trick-07 and single precision time
// forms) read back through the data products readers: names, units, values, positions, truncations.
#define MC_MAIN
#include "mc.hh"
#include <memory>
#include <unistd.h>
#include <sys/stat.h>
#include "dr_world.hh"
#include "Log/DataStreamFactory.hh"
#include "Log/TrickBinary.hh"
#include "Log/Csv.hh"
extern "C" int convert_units_spec(char *a, char *b) { strcpy(b, a); return 0; }
extern "C" size_t __sanitizer_get_current_allocated_bytes();
struct Cell { bool ok; std::string v; }; struct Log { std::vector<Col> cols; std::vector<const Def *> defs; std::vector<std::vector<Cell>> rows; std::string file; };
static void put(const std::string &p, const std::string &s) { std::ofstream f(p.c_str()); f << s; }
static void i4(std::string &o, int v, bool sw) { char b[4]; memcpy(b, &v, 4); if (sw) std::reverse(b, b + 4); o.append(b, 4); }
// the forms a binary log comes in: 0 as recorded, 1 the other byte order, 2 Trick-07, 3 Trick-07 the other byte order, +4 with single precision time
static const char *FORM[] = {"little endian", "big endian", "Trick-07", "big endian Trick-07", "float time", "float time, big endian", "float time, Trick-07", "float time, big endian Trick-07"};
static int seven(int t) { static const int T[][2] = {{TRICK_CHARACTER, 0}, {TRICK_UNSIGNED_CHARACTER, 1}, {TRICK_SHORT, 3}, {TRICK_UNSIGNED_SHORT, 4}, {TRICK_INTEGER, 5}, {TRICK_UNSIGNED_INTEGER, 6}, {TRICK_LONG, 7}, {TRICK_UNSIGNED_LONG, 8}, {TRICK_FLOAT, 9}, {TRICK_DOUBLE, 10}, {TRICK_BITFIELD, 11}, {TRICK_UNSIGNED_BITFIELD, 12}, {TRICK_LONG_LONG, 13}, {TRICK_UNSIGNED_LONG_LONG, 14}, {TRICK_BOOLEAN, 17}, {TRICK_ENUMERATED, 102}}; for (auto &t2 : T) if (t2[0] == t) return t2[1]; mc::fail("type", "%d", t); return 0; }
static void reform(const std::string &file, int form) {
    if (!form) return; bool sw = form & 1, old = form & 2, ft = form & 4; std::vector<Col> c; auto rows = read_trk(file, c); std::string o = std::string(old ? "Trick-07-" : "Trick-10-") + (sw ? "B" : "L"); i4(o, c.size(), sw);
    for (size_t i = 0; i < c.size(); i++) { i4(o, c[i].name.size(), sw); o += c[i].name; i4(o, c[i].units.size(), sw); o += c[i].units; bool f = ft && !i; i4(o, old ? seven(f ? TRICK_FLOAT : c[i].type) : f ? TRICK_FLOAT : c[i].type, sw); i4(o, f ? 4 : c[i].size, sw); }
    for (auto &r : rows) for (size_t i = 0; i < c.size(); i++) { std::string v = r[i]; if (ft && !i) { double t; memcpy(&t, v.data(), 8); float f = (float)t; v = raw(f); } if (sw) std::reverse(v.begin(), v.end()); o += v; } put(file, o);
}
static double number(const Def &d, const std::string &v) {
    switch (d.type) { case TRICK_CHARACTER: return v[0]; case TRICK_UNSIGNED_CHARACTER: return (unsigned char)v[0]; case TRICK_BOOLEAN: return v[0] != 0;
#define N(T) { T q; memcpy(&q, v.data(), sizeof q); return (double)q; }
    case TRICK_SHORT: N(short) case TRICK_UNSIGNED_SHORT: N(unsigned short) case TRICK_ENUMERATED: if (d.size == 2) N(short) case TRICK_INTEGER: case TRICK_BITFIELD: N(int) case TRICK_UNSIGNED_INTEGER: case TRICK_UNSIGNED_BITFIELD: N(unsigned) case TRICK_LONG: case TRICK_LONG_LONG: N(long long) case TRICK_UNSIGNED_LONG: case TRICK_UNSIGNED_LONG_LONG: N(unsigned long long) case TRICK_FLOAT: N(float) default: N(double) }
}
static double expected(const Def &d, const std::string &v, bool ascii) { if (!ascii) return number(d, v); return strtod(text(d, v).c_str(), 0); }
static bool same(double a, double b) { return (a != a && b != b) || (a == b && std::signbit(a) == std::signbit(b)); }
static const Def *def_of(const char *n) { for (auto &d : defs) if (!strcmp(d.name, n)) return &d; static Def XD{"x", TRICK_DOUBLE, 8, "1", [](std::string &r) { r = raw(x); return true; }, true}; return &XD; }
static double tm_of(double t, bool ascii, int form) { if (ascii) { char b[64]; snprintf(b, 64, "%20.8g", t); char c[64]; snprintf(c, 64, "%20.16g", t); return strtod(c, 0); } return form & 4 ? (double)(float)t : t; }
// records n rows of the variables into a new log of the group
static const int TS = 10;
static void record(Log &L, Group &G, const std::vector<const Def *> &vars, int n, int k0, int step = 1) {
    L.cols.push_back(Col{"sys.exec.out.time", "s", TRICK_DOUBLE, 8}); static Def T{"sys.exec.out.time", TRICK_DOUBLE, 8, "s", 0, true}; L.defs.push_back(&T); for (auto *d : vars) { G.g->add_variable(d->name); L.cols.push_back(Col{d->name, d->units, (int)d->type, d->size}); L.defs.push_back(d); }
    values(k0 % 8); G.g->init(); for (int r = 0; r < n; r++) { values((k0 + r * 3 + 1) % 8); x = r + 0.25; now = r * TS * step; G.g->data_record(now / 1000.0); std::vector<Cell> c; Cell t; t.ok = true; t.v = raw(now / 1000.0); c.push_back(t); for (auto *d : vars) { Cell q; q.ok = d->get(q.v); c.push_back(q); } L.rows.push_back(c); } G.shutdown(); L.file = G.file;
}
static void ck_unit(DataStream *s, const std::string &u, const char *of) { CK(s->getUnit() == u, "units read differ", "%s for %s, expected %s%s", s->getUnit().c_str(), of, u.c_str(), hist.c_str()); CK(s->getTimeUnit() == "s", "units of time read differ", "%s for %s%s", s->getTimeUnit().c_str(), of, hist.c_str()); }
// ---- every variable in every form, any column
static void variables() {
    int di = mc::choose((int)defs.size() + 1, "variable"); const Def *D = di < (int)defs.size() ? &defs[di] : def_of("x"); if (!D->ok) return; int form = mc::choose(9, "form"); bool ascii = form == 8; if (ascii && D->type == TRICK_CHARACTER) return; int place = mc::choose(3, "place"), k0 = mc::choose(8, "values"), by = mc::choose(2, "factory");
    std::vector<const Def *> v; static const char *O[] = {"sc.c", "sc.s", "sc.uc"}; for (int i = 0; i < 3; i++) { if (i == place) v.push_back(D); if (strcmp(O[i], D->name) && !(ascii && !i)) v.push_back(def_of(O[i])); } hist = std::string(" from a ") + (ascii ? "csv" : FORM[form]) + " log of " + D->name; Group G(ascii); Log L; record(L, G, v, 4, k0); if (!ascii) reform(L.file, form);
    size_t heap = __sanitizer_get_current_allocated_bytes(); for (size_t c = 0; c < L.cols.size(); c++) {
        if (L.defs[c]->type == TRICK_CHARACTER && ascii) continue; const char *name = L.cols[c].name.c_str(); DataStreamFactory F; DataStream *s = by ? F.create(dir.c_str(), name, "sys.exec.out.time") : ascii ? (DataStream *)new Csv((char *)L.file.c_str(), (char *)name) : new TrickBinary((char *)L.file.c_str(), (char *)name); CK(s, "a recorded variable is not found", "%s%s", name, hist.c_str()); ck_unit(s, L.cols[c].units, name); CK(s->getFileName() == L.file, "file name", "%s", s->getFileName().c_str());
        for (int pass = 0; pass < 2; pass++) { for (size_t r = 0; r < L.rows.size(); r++) { double t = -9, y = -9; CK(!s->end(), "the end comes early", "row %zu%s", r, hist.c_str()); CK(s->get(&t, &y) == 1, "a recorded row is missing", "row %zu%s", r, hist.c_str()); double wt = tm_of(r * TS / 1000.0, ascii, form); CK(t == wt, "a time read differs", "%.17g, expected %.17g%s", t, wt, hist.c_str()); const Cell &q = L.rows[r][c]; if (q.ok) { double w = c ? expected(*L.defs[c], q.v, ascii) : wt; CK(same(w, y), "a value read differs", "row %zu of %s: %.17g, expected %.17g%s", r, name, y, w, hist.c_str()); } } double t, y; CK(!s->get(&t, &y) && s->end(), "there is more to read than recorded", "%s", hist.c_str()); s->begin(); } delete s; mc::step(); }
    if (!ascii) { int n = TrickBinaryGetNumVariables(L.file.c_str()); CK(n == (int)L.cols.size(), "number of variables", "%d%s", n, hist.c_str()); char **nm = TrickBinaryGetVariableNames(L.file.c_str()), **un = TrickBinaryGetVariableUnits(L.file.c_str()); for (int i = 0; i < n; i++) { CK(L.cols[i].name == nm[i] && L.cols[i].units == un[i], "names or units listed differ", "%s {%s}%s", nm[i], un[i], hist.c_str()); delete[] nm[i]; delete[] un[i]; } delete[] nm; delete[] un; int n2; char **nm2; CK(getVariableNames(L.file.c_str(), &n2, &nm2) == 1 && n2 == n, "variable names of a file", "%d%s", n2, hist.c_str()); for (int i = 0; i < n; i++) delete[] nm2[i]; delete[] nm2; }
    CK(__sanitizer_get_current_allocated_bytes() <= heap + (place + k0 + form + di == 0 ? 100000 : 600), "a reader leaks", "%zu bytes%s", __sanitizer_get_current_allocated_bytes() - heap, hist.c_str()); mc::state(di * 30 + form * 3 + place); mc::outcome(form);
}
// ---- positions: every short history of reading, looking, stepping, rewinding
static void positions() {
    int form = mc::choose(3, "form"); bool ascii = form == 2; int n = mc::choose(4, "rows"); Group G(ascii); Log L; std::vector<const Def *> v = {def_of("sc.i"), def_of("x")}; hist = std::string(" in a ") + (ascii ? "csv" : FORM[form]) + " log of " + std::to_string(n) + " rows:"; record(L, G, v, n, 1); if (!ascii) reform(L.file, form); DataStreamFactory F; std::unique_ptr<DataStream> s(F.create(dir.c_str(), "x", "sys.exec.out.time")); CK(s.get(), "a recorded variable is not found", "%s", hist.c_str()); int depth = mc::thorough() ? 6 : 4, pos = 0;
    for (int i = 0; i < depth; i++) { static const char *N[] = {"", " get", " peek", " step", " begin", " end", " value at"}; int op = mc::choose(6 + n + 1, "op"); if (!op) break; hist += N[std::min(op, 6)]; double t = -9, y = -9; int r;
        switch (op) { case 1: case 2: r = op == 1 ? s->get(&t, &y) : s->peek(&t, &y); CK(r == (pos < n), "reading at a position", "returns %d at row %d,%s", r, pos, hist.c_str()); if (r) CK(t == tm_of(pos * TS / 1000.0, ascii, form) && y == pos + 0.25, "another row is read", "%g: %g at row %d,%s", t, y, pos, hist.c_str()); if (op == 1 && r) pos++; break;
        case 3: r = s->step(); CK(r == (pos < n), "stepping", "returns %d at row %d,%s", r, pos, hist.c_str()); if (r) pos++; break; case 4: s->begin(); pos = 0; break; case 5: r = s->end(); CK(!!r == (pos >= n), "end of the data", "returns %d at row %d,%s", r, pos, hist.c_str()); break;
        default: { int k = op - 6; r = s->getValueAtTime(k * TS / 1000.0, &y); CK(r == (k < n), "value at a time", "returns %d for row %d,%s", r, k, hist.c_str()); if (r) CK(y == k + 0.25, "value at a time", "%g for row %d,%s", y, k, hist.c_str()); pos = k < n ? k + 1 : n; } } mc::step(); mc::state(((form * 4 + n) * 6 + op) * 8 + pos); }
    mc::outcome(pos);
}
// ---- a log cut off anywhere after its header reads back as its whole rows
static void truncated() {
    int form = mc::choose(2, "form"); Group G(false); Log L; std::vector<const Def *> v = {def_of("sc.s"), def_of("x")}; record(L, G, v, 3, 1); reform(L.file, form); std::string f = slurp(L.file); size_t rec = 18, head = f.size() - 3 * rec; int cut = mc::choose(3 * rec + 1, "cut"); put(L.file, f.substr(0, head + cut)); hist = " cut at " + std::to_string(cut); int n = cut / rec; DataStreamFactory F; std::unique_ptr<DataStream> s(F.create(dir.c_str(), "x", "sys.exec.out.time")); CK(s.get(), "a recorded variable is not found", "%s", hist.c_str());
    for (int i = 0; i < n; i++) { double t, y; CK(!s->end() && s->get(&t, &y) && t == i * TS / 1000.0 && y == i + 0.25, "a whole row of a log which was cut off", "row %d%s", i, hist.c_str()); mc::step(); } double t, y; CK(s->end() && !s->get(&t, &y), "something after the last whole row is read", "%s", hist.c_str()); mc::state(cut); mc::outcome(n);
}
// ---- finding variables by name, in several logs of a directory
static void names() {
    static const char *NM[] = {"u.len", "u.row[2]", "sc.i", "x", "sc.ia[1][0]", "u.deg"}; static const char *Q[] = {"u.le", "u.lenx", "u", "", "sys", "sys.exec.out.tim", "u.row", "u.row[2", "u.row[2]x", "sc", "sc.ia[1]", "sc.ia", "u.len {m}", "al", "sc.i {1}", "m"}; bool ascii = mc::flip("ascii"); int mask = 1 + mc::choose(62, "variables"); Group G(ascii); Log L; std::vector<const Def *> v; std::set<std::string> in; for (int i = 0; i < 6; i++) if (mask >> i & 1) { v.push_back(def_of(NM[i])); in.insert(NM[i]); } in.insert("sys.exec.out.time"); record(L, G, v, 2, 1); hist = " variables " + std::to_string(mask);
    static const char *OTHER[] = {"a", "x", "trk", "csv", ".t", "q.tr", "abc.trkx"}; for (auto *o : OTHER) put(dir + "/" + o, "u.len,x\n"); struct C { ~C() { for (auto *o : OTHER) unlink((dir + "/" + o).c_str()); } } cl; DataStreamFactory F;
    auto ask = [&](const std::string &q, bool colon) { std::unique_ptr<DataStream> s(colon ? F.create(".", (q + ":" + dir).c_str(), "sys.exec.out.time") : F.create(dir.c_str(), q.c_str(), "sys.exec.out.time")); CK(!!s == !!in.count(q), s ? "a variable which was not recorded is found" : "a recorded variable is not found", "\"%s\"%s%s", q.c_str(), hist.c_str(), colon ? " with the run" : ""); int l = ascii ? CsvLocateParam((char *)L.file.c_str(), (char *)q.c_str()) : TrickBinaryLocateParam(L.file.c_str(), q.c_str()); CK(l == (int)in.count(q), "locating a variable", "\"%s\"%s", q.c_str(), hist.c_str()); if (s) for (size_t c = 0; c < L.cols.size(); c++) if (L.cols[c].name == q) for (int r = 0; r < 2; r++) { double t, y; CK(s->get(&t, &y) && same(y, expected(*L.defs[c], L.rows[r][c].v, ascii)), "the wrong column is read", "%s%s", q.c_str(), hist.c_str()); } mc::step(); };
    for (auto *q : NM) for (int c = 0; c < 2; c++) ask(q, c); for (auto *q : Q) for (int c = 0; c < 2; c++) if (*q || !c) ask(q, c); ask("sys.exec.out.time", false); mc::state(mask * 2 + ascii); mc::outcome(in.size());
}
// ---- logs with many columns
static void wide() {
    static const int N[] = {1, 200, 930, 1000, 1023, 1024, 2100}; bool ascii = mc::flip("ascii"); int n = N[mc::choose(7, "columns")]; std::string f; size_t p = 0; hist = " of " + std::to_string(n) + " columns"; Group G(ascii); for (int i = 0; i < n; i++) G.g->add_variable("x", "variable_" + std::to_string(i)); G.g->add_variable("xs", "last"); G.g->add_variable("w", "w_last"); G.g->init(); for (int r = 0; r < 3; r++) { now = r * TS; x = r + 1.0 / 3; xs = -r; w = 7 - r; G.g->data_record(now / 1000.0); } G.shutdown(); (void)p; DataStreamFactory F;
    int pick[] = {0, n / 2, n - 1, n, n + 1}; for (int k : pick) { std::string q = k < n ? "variable_" + std::to_string(k) : k == n ? "last" : "w_last"; std::unique_ptr<DataStream> s(F.create(dir.c_str(), q.c_str(), "sys.exec.out.time")); CK(s.get(), "a recorded variable is not found", "%s%s", q.c_str(), hist.c_str()); for (int r = 0; r < 3; r++) { double t, y; CK(s->get(&t, &y), "a recorded row is missing", "row %d of %s%s", r, q.c_str(), hist.c_str()); double w0 = k < n ? r + 1.0 / 3 : k == n ? -r : 7 - r; if (ascii && k < n) { char b[40]; snprintf(b, 40, "%.16g", w0); w0 = atof(b); } CK(t == tm_of(r * TS / 1000.0, ascii, 0) && y == w0, "a value read differs", "%g: %g, row %d of %s%s", t, y, r, q.c_str(), hist.c_str()); } double t, y; CK(s->end() && !s->get(&t, &y), "there is more to read than recorded", "%s", hist.c_str()); mc::step(); } mc::state(n * 2 + ascii); mc::outcome(n);
}
// ---- differences of two runs at their common times
static void deltas() {
    int A = mc::choose(32, "rows of one"), B = mc::choose(32, "rows of the other"); std::string d[2] = {dir + "/RUN_a", dir + "/RUN_b"}, keep = dir; int m[2] = {A, B}; struct C { std::string k; std::string *d; ~C() { dir = k; for (int i = 0; i < 2; i++) { unlink((d[i] + "/log_g.trk").c_str()); unlink((d[i] + "/log_g.header").c_str()); rmdir(d[i].c_str()); } } } cl{keep, d};
    bool sw = mc::flip("byte order"); for (int i = 0; i < 2; i++) { mkdir(d[i].c_str(), 0777); dir = d[i]; { Group G(false); G.g->add_variable("x"); G.g->init(); for (int r = 0; r < 5; r++) if (m[i] >> r & 1) { x = i ? r * 10 : r * r; G.g->data_record(r * TS / 1000.0); } G.shutdown(); std::string f = slurp(G.file); link(G.file.c_str(), (dir + "/keep").c_str()); } rename((dir + "/keep").c_str(), (dir + "/log_g.trk").c_str()); if (sw) reform(dir + "/log_g.trk", i); } dir = keep; hist = " runs with rows " + std::to_string(A) + " and " + std::to_string(B);
    DataStreamFactory F; std::unique_ptr<DataStream> s(F.create(0, ("delta(x:" + d[0] + ",x:" + d[1] + ")").c_str(), "sys.exec.out.time")); CK(s.get(), "no stream", "%s", hist.c_str()); double t, y; for (int r = 0; r < 5; r++) if (A >> r & B >> r & 1) { CK(s->get(&t, &y), "a common time of two runs is missing", "%g%s", r * TS / 1000.0, hist.c_str()); CK(t == r * TS / 1000.0 && y == r * r - r * 10, "a difference of two runs", "%g: %g, expected %g: %d%s", t, y, r * TS / 1000.0, r * r - r * 10, hist.c_str()); mc::step(); } CK(!s->get(&t, &y), "a difference where the runs have no common time", "%g: %g%s", t, y, hist.c_str()); mc::state(A * 32 + B); mc::outcome(__builtin_popcount(A & B));
}
int main(int c, char **v) {
    mc::Options opt; opt.split = 3; opt.timeout_s = 60; quiet(); setup();
    return mc::run(c, v, opt, [] { if (dir.empty()) { char t[] = "/dev/shm/c14_XXXXXX"; dir = mkdtemp(t); static std::string d = dir; atexit([] { rmdir(d.c_str()); }); } switch (mc::choose(6, "part")) { case 0: return variables(); case 1: return positions(); case 2: return truncated(); case 3: return names(); case 4: return wide(); default: return deltas(); } });
}
