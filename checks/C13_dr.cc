// C13: data recording groups: every recorded variable type, recording frequency, buffering, buffer size,
// rate mix and enable/disable/flush history gives exactly the documented rows.
#define MC_MAIN
#include "mc.hh"
#include "dr_world.hh"
static void header(const std::vector<Col> &want, bool ascii, const std::vector<const char *> &types) {
    std::string s = ascii ? "log_g is in ASCII\n" : "log_g byte_order is little_endian\n"; for (size_t i = 0; i < want.size(); i++) { char b[200]; snprintf(b, 200, "log_g\t%s\t%6s\t%s\n", types[i], want[i].units.c_str(), want[i].name.c_str()); s += b; }
    std::string g = slurp(dir + "/log_g.header"); CK(g == s, "header file differs", "\"%s\", expected \"%s\" after%s", g.c_str(), s.c_str(), hist.c_str());
}
// ---- every variable: name, units, type and the values at three recordings
static void variables() {
    int d = mc::choose((int)defs.size(), "variable"), alias = mc::choose(3, "alias"), place = mc::choose(2, "place"); bool ascii = mc::flip("ascii"); Def &D = defs[d]; Group G(ascii); hist = std::string(" recording ") + D.name; warned = 0; values(d % 8);
    if (place) G.g->add_variable("x"); G.g->add_variable(alias == 2 ? std::string("  ") + D.name + " \t" : D.name, alias == 1 ? "al[i]as]" : ""); if (!place) G.g->add_variable("x"); G.g->add_variable("sc.i"); if (mc::flip("small buffer")) G.g->set_max_buffer_size(2);
    std::vector<Col> want = {{"sys.exec.out.time", "s", TRICK_DOUBLE, 8}}; std::vector<const char *> types = {"double"}; std::vector<int> idx = {-1}; int xi = -1; for (size_t i = 0; i < defs.size(); i++) if (!strcmp(defs[i].name, "sc.i")) xi = i; static Def XD{"x", TRICK_DOUBLE, 8, "1", [](std::string &r) { r = raw(x); return true; }, true};
    auto wantx = [&] { want.push_back({"x", "1", TRICK_DOUBLE, 8}); types.push_back("double"); idx.push_back(-2); }; if (place) wantx(); if (D.ok) { want.push_back({alias == 1 ? "al[i]as]" : D.name, D.units, D.type, D.size}); types.push_back(tname(D)); idx.push_back(d); } if (!place) wantx(); want.push_back({"sc.i", "1", TRICK_INTEGER, 4}); types.push_back("int"); idx.push_back(xi);
    G.g->init(); CK(D.ok == !warned, "warning about a variable", "%d warnings%s", warned, hist.c_str()); header(want, ascii, types); struct Cell { bool ok; std::string v; }; std::vector<std::vector<Cell>> rows;
    for (int r = 0; r < 3; r++) {
        values(d % 8 + r * 3 + 1); x = r + 0.25; if (r == 1) { o.p = 0; u.pp = 0; u.dp = 0; u.vd.clear(); u.vp.clear(); u.vd.shrink_to_fit(); u.vp.shrink_to_fit(); } now = r * 100; G.g->data_record(now / 1000.0); std::vector<Cell> c;
        for (int i : idx) { Cell k; k.ok = true; if (i == -1) k.v = raw(now / 1000.0); else if (i == -2) k.v = raw(x); else k.ok = defs[i].get(k.v); c.push_back(k); } rows.push_back(c); mc::step();
    }
    G.shutdown();
    if (!ascii) { std::vector<Col> cols; auto got = read_trk(G.file, cols); CK(cols.size() == want.size() && got.size() == 3, "columns or rows", "%zu columns, %zu rows%s", cols.size(), got.size(), hist.c_str());
        for (size_t i = 0; i < cols.size(); i++) { CK(cols[i].name == want[i].name && cols[i].units == want[i].units && cols[i].type == want[i].type && cols[i].size == want[i].size, "a column is described wrongly", "%s {%s} type %d size %d, expected %s {%s} type %d size %d%s", cols[i].name.c_str(), cols[i].units.c_str(), cols[i].type, cols[i].size, want[i].name.c_str(), want[i].units.c_str(), want[i].type, want[i].size, hist.c_str());
            for (int r = 0; r < 3; r++) if (rows[r][i].ok) { bool bf = idx[i] >= 0 && defs[idx[i]].size < (int)rows[r][i].v.size(); (void)bf; CK(got[r][i] == rows[r][i].v, "a recorded value differs", "row %d of %s%s", r, cols[i].name.c_str(), hist.c_str()); } }
    } else { auto lines = split(slurp(G.file), "\n"); CK(lines.size() == 5 && lines[4].empty(), "rows", "%zu lines%s", lines.size(), hist.c_str()); std::string t; for (size_t i = 0; i < want.size(); i++) t += (i ? "," : "") + want[i].name + " {" + want[i].units + "}"; CK(lines[0] == t, "title line", "%s, expected %s", lines[0].c_str(), t.c_str());
        for (int r = 0; r < 3; r++) { auto f = split(lines[r + 1], ","); CK(f.size() == want.size(), "fields", "%s%s", lines[r + 1].c_str(), hist.c_str()); for (size_t i = 0; i < f.size(); i++) if (rows[r][i].ok) { const Def &E = idx[i] == -1 || idx[i] == -2 ? XD : defs[idx[i]]; std::string e = text(E, rows[r][i].v); CK(f[i] == e, "a recorded value differs", "row %d of %s: '%s', expected '%s'%s", r, want[i].name.c_str(), f[i].c_str(), e.c_str(), hist.c_str()); } } }
    mc::state(d * 12 + alias * 4 + place * 2 + ascii); mc::outcome(D.ok);
}
// ---- rows: frequency, buffering, buffer size, rates and histories
struct Row { double t, x; short s; bool step; };
static void rows() {
    static const Trick::DR_Freq F[] = {Trick::DR_Always, Trick::DR_Changes, Trick::DR_Changes_Step}; static const Trick::DR_Buffering B[] = {Trick::DR_Buffer, Trick::DR_No_Buffer, Trick::DR_Ring_Buffer}; static const int M[] = {1, 2, 3, 4, 1000};
    static const std::vector<std::vector<int>> R = {{20}, {10}, {20, 30}, {40, 20, 50}, {30, 30}}; int f = mc::choose(3, "freq"), b = mc::choose(3, "buffering"), m = mc::choose(5, "buffer size"), ra = mc::choose(5, "rates"); Group G(false); Trick::DataRecordGroup *g = G.g; values(0); w = w2 = x = 0; xs = 0; wi = 0; sc.u3 = 1; u.vd.assign(2, 0); o.p = in_; in_[0].d[1] = 0;
    g->set_freq(F[f]); g->set_buffer_type(B[b]); g->set_max_buffer_size(M[m]); g->add_variable("x"); g->add_variable("xs"); int wk = f && (ra == 0 || mc::thorough()) ? mc::choose(5, "watch") : 0; int last = mc::thorough() ? 5 : 3; static const char *W[] = {"w", "wi", "sc.u3", "u.vd[1]", "o.p->d[1]"}; if (f) { g->add_change_variable("w2"); g->add_change_variable(W[wk]); }
    g->set_cycle(R[ra][0] / 1000.0); for (size_t i = 1; i < R[ra].size(); i++) g->add_cycle(R[ra][i] / 1000.0); hist = std::string(" freq ") + std::to_string(f) + " buffering " + std::to_string(b) + " buffer of " + std::to_string(M[m]) + " rates " + std::to_string(ra) + (f ? std::string(" watching ") + W[wk] : "");
    g->init(); long long due = 0; std::vector<int> rate = R[ra]; std::vector<Row> want; bool on = true; double cw = 0, cw2 = 0; double lw = 0, lw2 = 0; double lx = 0; short ls = 0; bool first = true; int steps = last + 3, ops = 0, budget = mc::thorough() ? 3 : 2; auto next = [&](long long t) { long long n = 1LL << 60; for (int r : rate) n = std::min(n, (t / r + 1) * r); return n; };
    auto record = [&](double t) { if (!on) return; bool ch = f == 0 || first; if (f && (cw != lw || cw2 != lw2)) { ch = true; lw = cw; lw2 = cw2; } if (!ch) return; if (f == 2 && !first) want.push_back(Row{t, lx, ls, true}); want.push_back(Row{t, x, xs, false}); lx = x; ls = xs; first = false; };
    auto set = [&](double v) { switch (wk) { case 0: w = v; break; case 1: wi = (int)v; break; case 2: sc.u3 = (unsigned)v + 1; break; case 3: u.vd.assign((size_t)v + 2, -v); u.vd[1] = v; u.vd.shrink_to_fit(); break; case 4: o.p = in_ + ((int)v & 1); in_[(int)v & 1].d[1] = v; break; } cw = v; };
    int nw = 0; auto op = [&](const char *where) { while (ops < budget) { int c = mc::choose(9, where); if (!c) return; ops++; char t[60]; static const char *N[] = {"", "watched value changes", "second watched value changes", "watched value back", "disable", "enable", "record now", "writer thread runs", "neighbouring storage changes"}; snprintf(t, 60, " [%s]", N[c]); hist += t;
        switch (c) { case 1: if (++nw > 4) nw = 1; set(nw); break; case 2: w2 += 1; cw2 = w2; break; case 3: nw = 0; set(0); break; case 4: on = false; g->disable(); break; case 5: on = true; g->enable(); break; case 6: g->data_record(exec_get_sim_time()); record(now / 1000.0); if (due == now) due = next(now); break; case 7: if (B[b] == Trick::DR_Buffer) g->write_data(true); break; case 8: sc.s5++; sc.u24++; in_[0].d[0]++; break; } } };
    for (int st = 0; st < steps; st++) {
        now = st * 10; x = st + 0.5; xs = (short)(st * 3 - 4); char t[40]; snprintf(t, 40, " t=%lld", now); hist += t; if (st && st <= last) op("before");
        if (G.job->next_tics == now) { G.g->call_function(G.job); } CK(G.job->next_tics >= now, "the recording job is left behind", "next %lld at %lld after%s", G.job->next_tics, now, hist.c_str()); if (due == now) { record(now / 1000.0); due = next(now); } CK(G.job->next_tics == due, "next recording time", "%lld, expected %lld after%s", G.job->next_tics, due, hist.c_str());
        if (st < last) op("after"); if (now % 20 == 0) { for (auto *j : g->jobs) if (j->id == 2) g->call_function(j); } mc::step(); if (B[b] == Trick::DR_No_Buffer && on && now % 20 == 0) { struct { bool d; } z; (void)z; std::vector<Col> c; auto r = read_trk(G.file, c); CK(r.size() == want.size(), "unbuffered rows are not on disk", "%zu of %zu after%s", r.size(), want.size(), hist.c_str()); }
    }
    G.shutdown(); std::vector<Col> c; auto r = read_trk(G.file, c); size_t skip = 0; if (B[b] == Trick::DR_Ring_Buffer && want.size() > (size_t)M[m]) skip = want.size() - M[m]; std::string gs, ws;
    auto show = [](double t, double x, int s) { char b[60]; snprintf(b, 60, " (%g %g %d)", t, x, s); return std::string(b); }; for (auto &q : r) { double t, v; short s; memcpy(&t, q[0].data(), 8); memcpy(&v, q[1].data(), 8); memcpy(&s, q[2].data(), 2); gs += show(t, v, s); } for (size_t i = skip; i < want.size(); i++) ws += show(want[i].t, want[i].x, want[i].s);
    CK(gs == ws, "recorded rows differ", "%s, expected%s, after%s", gs.c_str(), ws.c_str(), hist.c_str()); mc::state(std::hash<std::string>()(hist + gs) % 10000019); mc::outcome(want.size() > 6 ? 6 : want.size());
}
// ---- the file size limit keeps a prefix of whole rows
static void limits() {
    bool ascii = mc::flip("ascii"); int lim = mc::choose(40, "limit") * 12 + 1, b = mc::choose(2, "buffering"), m = mc::choose(3, "buffer size"); Group G(ascii); G.g->add_variable("x"); G.g->add_variable("xs"); G.g->set_buffer_type(b ? Trick::DR_No_Buffer : Trick::DR_Buffer); G.g->set_max_buffer_size(1 << m); G.g->set_max_file_size(lim == 1 ? 0 : lim); G.g->set_cycle(0.01); hist = " limit " + std::to_string(lim); G.g->init();
    size_t head = slurp(G.file).size(); for (int i = 0; i < 20; i++) { now = i * 10; x = i + 0.5; xs = i; if (G.job->next_tics == now) G.g->call_function(G.job); if (i % 2) G.g->write_data(!b); mc::step(); } G.shutdown(); std::string f = slurp(G.file); size_t n;
    if (ascii) { auto l = split(f, "\n"); n = l.size() - 2; CK(l.back().empty(), "a partial line", "%s", l.back().c_str()); for (size_t i = 0; i < n; i++) { auto q = split(l[i + 1], ","); CK(q.size() == 3 && atof(q[0].c_str()) == i * 0.01 && atof(q[1].c_str()) == i + 0.5 && atoi(q[2].c_str()) == (int)i, "a row before the limit differs", "%s%s", l[i + 1].c_str(), hist.c_str()); } }
    else { std::vector<Col> c; auto r = read_trk(G.file, c); n = r.size(); for (size_t i = 0; i < n; i++) { double t = i * 10 / 1000.0, v = i + 0.5; short s = i; CK(r[i][0] == raw(t) && r[i][1] == raw(v) && r[i][2] == raw(s), "a row before the limit differs", "row %zu%s", i, hist.c_str()); } }
    if (lim == 1) CK(n == 20, "rows missing without a limit", "%zu rows", n); else { size_t rowlen = n ? (f.size() - head) / n : 1; CK(n == 20 || f.size() > (size_t)lim, "recording stopped before the limit", "%zu bytes in the file,%s", f.size(), hist.c_str()); CK(f.size() <= lim + rowlen * std::max(2, 1 << m) || (f.size() == head && (size_t)lim < head) , "recording went on after the limit", "%zu bytes in the file,%s", f.size(), hist.c_str()); }
    mc::state(lim * 8 + ascii * 4 + m); mc::outcome(n);
}
// ---- cycles which are whole tics record, whatever their decimal representation
static void cycles() {
    static const long long T[] = {1000, 1000000, 100000}; tic_value = T[mc::choose(3, "tics")]; struct R { ~R() { tic_value = 1000; Trick::JobData::time_tic_value = 1000; } } rr; Trick::JobData::time_tic_value = tic_value; int block = mc::choose(mc::thorough() ? 400 : 40, "block");
    for (int i = 0; i < 25; i++) { int k = block * 25 + i + 1; double cyc = (double)k / tic_value; Group G(false); G.g->add_variable("x"); G.g->set_cycle(cyc); hist = " cycle of " + std::to_string(k) + " tics"; x = 3; G.g->init(); for (int j = 0; j < 3; j++) { now = (long long)j * k; CK(G.job->next_tics == now, "recording time", "%lld, expected %lld%s", G.job->next_tics, now, hist.c_str()); G.g->call_function(G.job); } G.shutdown(); std::vector<Col> c; auto r = read_trk(G.file, c); CK(r.size() == 3, "rows missing", "%zu of 3, %s of %lld per second", r.size(), hist.c_str(), tic_value); mc::step(); }
    mc::state(block); mc::outcome(1);
}
int main(int c, char **v) {
    mc::Options opt; opt.split = 4; opt.timeout_s = 60; quiet(); setup();
    return mc::run(c, v, opt, [] { if (dir.empty()) { char t[] = "/dev/shm/c13_XXXXXX"; dir = mkdtemp(t); static std::string d = dir; atexit([] { rmdir(d.c_str()); }); } switch (mc::choose(4, "part")) { case 0: return variables(); case 1: return rows(); case 2: return limits(); default: return cycles(); } });
}
