// C30: the math utilities over a grid of values against their definitions (computed in long double).
#define MC_MAIN
#include "mc.hh"
#include <cmath>
#include <cfloat>
#include "trick/trick_math.h"
#include "trick/matrix_macros.h"
#include "trick/vector_macros.h"
#include "trick/quat_macros.h"
#include "trick/reference_frame.h"
extern "C" { void V_dummy(); }
typedef long double LD;
#define CK(c, sig, ...) do { if (!(c)) mc::fail(sig, __VA_ARGS__); } while (0)
static void near(LD got, LD want, LD scale, const char *sig, const char *what, LD rel = 1e-12L) {
    if (std::isnan((double)got) || fabsl(got - want) > rel * (scale > fabsl(want) ? scale : fabsl(want)) + 1e-300L) mc::fail(sig, "%s is %.17Lg, defined as %.17Lg", what, got, want);
}
struct V3 { double v[3]; }; struct M3 { double m[3][3]; };
static std::vector<V3> vecs; static std::vector<M3> mats;
static const double NP = -7.25e77;   // marks what must be written
#define FILLM(a) for (auto &r_ : a) for (double &x_ : r_) x_ = NP
#define FILLV(a) for (double &x_ : a) x_ = NP
static void setup() {
    const double A[] = {0, 1, -2, 0.375, 1e6};
    for (double a : A) for (double b : A) for (double c : A) vecs.push_back({{a, b, c}});
    vecs.push_back({{1e-3, -1e-3, 2e-3}}); vecs.push_back({{3, 4, 12}}); vecs.push_back({{-1e150, 2e150, 5e149}}); vecs.push_back({{1e-7, 0, 0}});
    for (int s = 0; s < 40; s++) { M3 m; unsigned x = 12345 + s * 7919; for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) { x = x * 1103515245u + 12345; int q = (int)(x >> 16) % 9 - 4; m.m[i][j] = s % 4 == 3 ? q * 0.1 + (x >> 20) * 1e-4 : q; } if (s % 5 == 2) for (int i = 0; i < 3; i++) for (int j = 0; j < i; j++) m.m[i][j] = m.m[j][i]; mats.push_back(m); }
    for (int k = 0; k < 9; k++) { M3 m; memset(&m, 0, sizeof m); m.m[k / 3][k % 3] = k + 2; mats.push_back(m); }
    for (int p = 0; p < 6; p++) { static const int P[6][3] = {{0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}}; M3 m; memset(&m, 0, sizeof m); for (int i = 0; i < 3; i++) m.m[i][P[p][i]] = i + 1; mats.push_back(m); }
}
static LD sum3(const double a[3], const double b[3]) { return (LD)a[0] * b[0] + (LD)a[1] * b[1] + (LD)a[2] * b[2]; }
static LD abs3(const double a[3], const double b[3]) { return fabsl((LD)a[0] * b[0]) + fabsl((LD)a[1] * b[1]) + fabsl((LD)a[2] * b[2]); }
static void vchk(const double r[3], const LD e[3], const LD sc[3], const char *sig) { for (int i = 0; i < 3; i++) near(r[i], e[i], sc[i], sig, sig, 1e-14L * 8); }
static void vectors() {
    int i = mc::choose(vecs.size(), "a"), j = mc::choose(vecs.size(), "b"); double *a = vecs[i].v, *b = vecs[j].v; double a0[3], b0[3], r[3], q[3]; memcpy(a0, a, 24); memcpy(b0, b, 24);
    LD e[3], sc[3];
    auto both = [&](const char *sig) { vchk(r, e, sc, sig); vchk(q, e, sc, sig); FILLV(r); FILLV(q); };
    FILLV(r); FILLV(q);
    for (int k = 0; k < 3; k++) { e[k] = (LD)a[k] + b[k]; sc[k] = fabsl(a[k]) + fabsl(b[k]); } dv_add(r, a, b); V_ADD(q, a, b); both("dv_add");
    for (int k = 0; k < 3; k++) e[k] = (LD)a[k] - b[k]; dv_sub(r, a, b); V_SUB(q, a, b); both("dv_sub");
    LD cr[3], cs[3]; for (int k = 0; k < 3; k++) { int x = (k + 1) % 3, y = (k + 2) % 3; cr[k] = e[k] = (LD)a[x] * b[y] - (LD)a[y] * b[x]; cs[k] = sc[k] = fabsl((LD)a[x] * b[y]) + fabsl((LD)a[y] * b[x]); } dv_cross(r, a, b); V_CROSS(q, a, b); both("dv_cross");
    for (int k = 0; k < 3; k++) { e[k] = 5.0L + cr[k]; sc[k] = 5 + cs[k]; r[k] = q[k] = 5; } dvxv_add(r, a, b); VxV_ADD(q, a, b); both("dvxv_add");
    for (int k = 0; k < 3; k++) { e[k] = 5.0L - cr[k]; r[k] = q[k] = 5; } dvxv_sub(r, a, b); VxV_SUB(q, a, b); both("dvxv_sub");
    near(dv_dot(a, b), sum3(a, b), abs3(a, b), "dv_dot", "dot product"); near(V_DOT(a, b), sum3(a, b), abs3(a, b), "V_DOT", "dot product");
    for (int k = 0; k < 3; k++) { e[k] = (LD)a[k] * b[0]; sc[k] = 0; } dv_scale(r, a, b[0]); V_SCALE(q, a, b[0]); both("dv_scale");
    for (int k = 0; k < 3; k++) { e[k] = a[k]; } dv_copy(r, a); V_COPY(q, a); both("dv_copy");
    if (j == 0) { LD m = sqrtl(sum3(a, a)); near(dv_mag(a), m, 0, "dv_mag", "magnitude"); near(V_MAG(a), m, 0, "V_MAG", "magnitude");
        for (int k = 0; k < 3; k++) e[k] = m > 0 ? a[k] / m : 0; dv_norm(r, a); V_NORM(q, a); both("dv_norm"); memcpy(r, a, 24); memcpy(q, a, 24); dv_norm(r, r); V_NORM(q, q); both("dv_norm in place");
        for (int k = 0; k < 3; k++) e[k] = 0; dv_init(r); V_INIT(q); both("dv_init"); for (int k = 0; k < 3; k++) e[k] = a[1]; dv_store(r, a[1]); V_STORE(q, a[1]); both("dv_store"); for (int k = 0; k < 3; k++) e[k] = -a[k]; V_NEGATE(r, a); memcpy(q, r, 24); both("V_NEGATE"); }
    double S[3][3], T[3][3]; FILLM(S); FILLM(T); dv_skew(S, a); V_SKEW(T, a); for (int k = 0; k < 3; k++) { near(sum3(S[k], b), cr[k], cs[k], "dv_skew", "skew(a)*b"); near(sum3(T[k], b), cr[k], cs[k], "V_SKEW", "skew(a)*b"); CK(S[k][k] == 0 && T[k][k] == 0, "skew-diagonal", "diagonal not zero"); }
    V_OUTER(S, a); for (int x = 0; x < 3; x++) for (int y = 0; y < 3; y++) near(S[x][y], (LD)a[x] * a[y], 0, "V_OUTER", "outer product");
    // the same with the result on top of an operand, where the formula permits
    for (int k = 0; k < 3; k++) { e[k] = (LD)a[k] + b[k]; sc[k] = fabsl(a[k]) + fabsl(b[k]); } memcpy(r, a, 24); memcpy(q, b, 24); dv_add(r, r, b); dv_add(q, a, q); both("dv_add in place"); for (int k = 0; k < 3; k++) e[k] = (LD)a[k] - b[k]; memcpy(r, a, 24); memcpy(q, b, 24); dv_sub(r, r, b); dv_sub(q, a, q); both("dv_sub in place");
    CK(!memcmp(a, a0, 24) && !memcmp(b, b0, 24), "operand-changed", "an operand changed"); mc::state(mc::hv(1, i, j)); mc::outcome(mc::hash(a, 24, mc::hash(b, 24))); mc::step(20);
}
static void mchk(const double r[3][3], const LD e[3][3], const LD sc[3][3], const char *sig) { for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) near(r[i][j], e[i][j], sc[i][j], sig, sig, 1e-13L); }
static double **rows(double (*m)[6], int n, double **p) { for (int i = 0; i < n; i++) p[i] = m[i]; return p; }
static void matrices() {
    int i = mc::choose(mats.size(), "A"), j = mc::choose(mats.size(), "B"); auto a = mats[i].m, b = mats[j].m; double r[3][3], q[3][3]; LD e[3][3], sc[3][3]; M3 a0 = mats[i], b0 = mats[j];
    auto both = [&](const char *s) { mchk(r, e, sc, s); mchk(q, e, sc, s); FILLM(r); FILLM(q); };
#define EACH(E, S) for (int x = 0; x < 3; x++) for (int y = 0; y < 3; y++) { e[x][y] = E; sc[x][y] = S; }
#define PROD(L, R) for (int x = 0; x < 3; x++) for (int y = 0; y < 3; y++) { e[x][y] = sc[x][y] = 0; for (int k = 0; k < 3; k++) { e[x][y] += (LD)L * R; sc[x][y] += fabsl((LD)L * R); } }
    FILLM(r); FILLM(q);
    EACH((LD)a[x][y] + b[x][y], fabsl(a[x][y]) + fabsl(b[x][y])) dm_add(r, a, b); M_ADD(q, a, b); both("dm_add"); EACH((LD)a[x][y] - b[x][y], fabsl(a[x][y]) + fabsl(b[x][y])) dm_sub(r, a, b); M_SUB(q, a, b); both("dm_sub");
    PROD(a[x][k], b[k][y]) dmxm(r, a, b); MxM(q, a, b); both("dmxm"); PROD(a[k][x], b[k][y]) dmtxm(r, a, b); MtxM(q, a, b); both("dmtxm"); PROD(a[x][k], b[y][k]) dmxmt(r, a, b); MxMt(q, a, b); both("dmxmt"); PROD(a[k][x], b[y][k]) dmtxmt(r, a, b); MtxMt(q, a, b); both("dmtxmt");
    if (j < 20) { EACH((LD)a[x][y] * (j - 7.5), 0) dm_scale(r, a, j - 7.5); MxSCALAR(q, a, (j - 7.5)); both("dm_scale");
        double *v = vecs[j * 6 + 1].v, p[3], s[3]; LD ev[3], es[3]; for (int x = 0; x < 3; x++) { ev[x] = sum3(a[x], v); es[x] = abs3(a[x], v); } FILLV(p); FILLV(s); dmxv(p, a, v); MxV(s, a, v); vchk(p, ev, es, "dmxv"); vchk(s, ev, es, "MxV"); for (int x = 0; x < 3; x++) { ev[x] = es[x] = 0; for (int k = 0; k < 3; k++) { ev[x] += (LD)a[k][x] * v[k]; es[x] += fabsl((LD)a[k][x] * v[k]); } } dmtxv(p, a, v); MtxV(s, a, v); vchk(p, ev, es, "dmtxv"); vchk(s, ev, es, "MtxV"); dvxm(p, v, a); VxM(s, v, a); vchk(p, ev, es, "dvxm"); vchk(s, ev, es, "VxM"); }
    if (j == 0) { EACH(a[y][x], 0) dm_trans(r, a); M_TRANS(q, a); both("dm_trans"); EACH(a[x][y], 0) dm_copy(r, a); M_COPY(q, a); both("dm_copy"); EACH(x == y, 0) dm_ident(r); M_IDENT(q); both("dm_ident"); EACH(0, 0) dm_init(r); M_INIT(q); both("dm_init");
        for (int sy = 0; sy < 2; sy++) { double m[3][3], v[3][3]; memcpy(m, a, 72); if (sy) for (int x = 0; x < 3; x++) for (int y = 0; y < x; y++) m[x][y] = m[y][x];
            LD det = 0; for (int k = 0; k < 3; k++) det += (LD)m[0][k] * ((LD)m[1][(k + 1) % 3] * m[2][(k + 2) % 3] - (LD)m[1][(k + 2) % 3] * m[2][(k + 1) % 3]); LD mx = 0; for (auto &x : m) for (double y : x) if (fabs(y) > mx) mx = fabs(y);
            int rc = sy ? dm_invert_symm(v, m) : dm_invert(v, m); bool integral = i % 4 != 3 || i >= 40;
            if (det == 0 && integral) { CK(rc == TM_ZERO_DET, "invert-singular", "a singular matrix is inverted (%d)", rc); } else if (fabsl(det) > 1e-6L * mx * mx * mx) { CK(rc == TM_SUCCESS, "invert-refused", "a regular matrix is refused (%d)", rc); for (int x = 0; x < 3; x++) for (int y = 0; y < 3; y++) { LD s = 0, t = 0; for (int k = 0; k < 3; k++) { s += (LD)m[x][k] * v[k][y]; t += fabsl((LD)m[x][k] * v[k][y]); } near(s, x == y, t + 1, sy ? "dm_invert_symm" : "dm_invert", "A * inverse(A)", 1e-10L); } } } }
    // general n x n routines
    double A[6][6], B[6][6], R[6][6], *pa[6], *pb[6], *pr[6]; int n = 1 + (i + j) % 4; for (int x = 0; x < n; x++) for (int y = 0; y < n; y++) { A[x][y] = a[x % 3][y % 3] + x - y; B[x][y] = b[x % 3][y % 3] - 0.5 * x * y; } rows(A, n, pa); rows(B, n, pb); rows(R, n, pr);
    for (int f = 0; f < 4; f++) { FILLM(R); if (f == 0) matxmat(pr, pa, pb, n); if (f == 1) matxtrans(pr, pa, pb, n); if (f == 2) transxmat(pr, pa, pb, n); if (f == 3) transxtrans(pr, pa, pb, n); static const char *N[] = {"matxmat", "matxtrans", "transxmat", "transxtrans"};
        for (int x = 0; x < 6; x++) for (int y = 0; y < 6; y++) { if (x >= n || y >= n) { CK(R[x][y] == NP, "beyond-matrix", "%s writes element %d,%d of a matrix of order %d", N[f], x, y, n); continue; } LD s = 0, t = 0; for (int k = 0; k < n; k++) { LD z = (LD)(f & 2 ? A[k][x] : A[x][k]) * (f & 1 ? B[y][k] : B[k][y]); s += z; t += fabsl(z); } near(R[x][y], s, t, N[f], N[f]); } }
    double v[6], w[6]; for (int x = 0; x < n; x++) v[x] = b[x % 3][(x + 1) % 3] + x; for (int f = 0; f < 2; f++) { FILLV(w); if (f) transxvec(w, pa, v, n); else matxvec(w, pa, v, n); for (int x = 0; x < n; x++) { LD s = 0, t = 0; for (int k = 0; k < n; k++) { LD z = (LD)(f ? A[k][x] : A[x][k]) * v[k]; s += z; t += fabsl(z); } near(w[x], s, t, f ? "transxvec" : "matxvec", "matrix times vector"); } CK(w[n] == NP, "beyond-vector", "wrote beyond a vector of order %d", n); }
    FILLM(R); mat_trans(pr, pa, n); for (int x = 0; x < n; x++) for (int y = 0; y < n; y++) CK(R[x][y] == A[y][x], "mat_trans", "element %d,%d", x, y); CK(R[n][0] == NP && R[0][n] == NP, "beyond-matrix", "mat_trans"); FILLM(R); { int m = 1 + i % 4; mat_copy(pr, pa, n < m ? n : m, n); for (int x = 0; x < (n < m ? n : m); x++) for (int y = 0; y < n; y++) CK(R[x][y] == A[x][y], "mat_copy", "element %d,%d", x, y); }
    { int dof[6], k = j % 24; std::vector<int> left; for (int x = 0; x < n; x++) left.push_back(x); for (int x = 0; x < n; x++) { int z = k % left.size(); k /= left.size(); dof[x] = left[z]; left.erase(left.begin() + z); } double bs[6]; mat_permute(pa, v, pr, bs, dof, n); for (int x = 0; x < n; x++) { CK(bs[x] == v[dof[x]], "mat_permute", "right-hand side %d", x); for (int y = 0; y < n; y++) CK(R[x][y] == A[dof[x]][dof[y]], "mat_permute", "element %d,%d", x, y); } }
    CK(!memcmp(&a0, a, 72) && !memcmp(&b0, b, 72), "operand-changed", "an operand changed"); mc::state(mc::hv(2, i, j)); mc::step(40); mc::outcome(mc::hash(r, 72, mc::hash(R, 72)));
}
// linear equations
static void solvers() {
    int n = 1 + mc::choose(mc::thorough() ? 6 : 5, "n"), seed = mc::choose(mc::thorough() ? 400 : 60, "matrix"), kind = mc::choose(4, "solver"); double A[6][6], *pa[6], Y[6][6], *py[6], L[6][6], *pl[6], G[6][6]; unsigned x = 99 + seed * 2654435761u; auto rnd = [&] { x = x * 1664525u + 1013904223u; return (int)(x >> 24) % 13 - 6; };
    for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) G[i][j] = rnd(); rows(A, n, pa); rows(Y, n, py); rows(L, n, pl); FILLM(Y); FILLM(L);
    double sc = seed % 3 == 0 ? 1 : seed % 3 == 1 ? 1e-3 : 1e5;
    if (kind == 0) { for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) A[i][j] = sc * (G[i][j] + (seed % 2 && i == (j + 1) % n ? 20 : 0) + (!(seed % 2) && i == j ? 20 : 0)); } else for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) { A[i][j] = i == j ? 3 * sc : 0; for (int k = 0; k < n; k++) A[i][j] += sc * G[i][k] * G[j][k]; }
    double b[6], r[6], y[6], D[6]; for (int i = 0; i < n; i++) b[i] = rnd() + 0.5; FILLV(r);
    auto resid = [&](const char *sig) { for (int i = 0; i < n; i++) { LD s = 0, t = fabsl(b[i]); for (int j = 0; j < n; j++) { s += (LD)A[i][j] * r[j]; t += fabsl((LD)A[i][j] * r[j]); } near(s, b[i], t, sig, "A*x of the solution", 1e-9L); } };
    if (kind == 0) { int idx[6]; double col[6], W[6][6]; memcpy(W, A, sizeof W); int rc = LUD_inv(py, pa, n, idx, col); CK(rc == 0, "LUD_inv", "returned %d", rc); CK(!memcmp(W, A, sizeof W), "LUD_inv-input", "the matrix changed"); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) { LD s = 0, t = 1; for (int k = 0; k < n; k++) { s += (LD)A[i][k] * Y[k][j]; t += fabsl((LD)A[i][k] * Y[k][j]); } near(s, i == j, t, "LUD_inv", "A * inverse(A)", 1e-9L); }
        double *pw[6]; rows(W, n, pw); CK(LU_dcmp(pw, 1, n, idx, col) == 0, "LU_dcmp", "refused"); memcpy(r, b, sizeof r); LU_bksb(r, pw, n, idx); resid("LU_bksb");
        for (int i = 0; i < n; i++) for (int j = i + 1; j < n; j++) A[i][j] = 0; for (int i = 0; i < n; i++) A[i][i] = sc * (7 + i); FILLM(Y); CK(LUT_inv(py, pa, n) == 0, "LUT_inv", "refused"); for (int i = 0; i < n; i++) for (int j = 0; j <= i; j++) { LD s = 0, t = 1; for (int k = j; k <= i; k++) { s += (LD)A[i][k] * Y[k][j]; t += fabsl((LD)A[i][k] * Y[k][j]); } near(s, i == j, t, "LUT_inv", "A * inverse(A)", 1e-9L); }
        A[n / 2][n / 2] = 0; CK(LUT_inv(py, pa, n) != 0, "LUT_inv-singular", "a zero on the diagonal is accepted"); for (int j = 0; j < n; j++) W[n / 2][j] = 0; CK(LU_dcmp(pw, 1, n, idx, col) != 0, "LU_dcmp-singular", "a zero row is accepted");
    } else { // only the lower triangle needs to be loaded
        double U[6][6]; memcpy(U, A, sizeof U); double *pu[6]; rows(U, n, pu); for (int i = 0; i < n; i++) for (int j = i + 1; j < n; j++) U[i][j] = NP; double U0[6][6]; memcpy(U0, U, sizeof U);
        auto call = [&](int mode, double *x) { return kind == 1 ? dLU_Choleski(pu, pl, y, n, b, x, mode) : kind == 2 ? dLU_solver(pu, pl, y, n, b, x, mode) : dLDLt_solver(pu, pl, D, y, n, b, x, mode); };
        static const char *N[] = {"", "dLU_Choleski", "dLU_solver", "dLDLt_solver"};
        CK(call(0, r) == 0, N[kind], "refused"); resid(N[kind]); for (int i = 0; i < n; i++) for (int j = 0; j <= i; j++) { LD s = 0, t = 0; for (int k = 0; k <= j; k++) { LD z = (LD)L[i][k] * L[j][k] * (kind == 3 ? D[k] : 1); s += z; t += fabsl(z); } near(s, A[i][j], t, N[kind], "L*L' of the factors", 1e-9L); }
        double r1[6]; memcpy(r1, r, sizeof r); FILLM(L); FILLV(r); CK(call(1, r) == 0 && r[0] == NP, N[kind], "factoring only touches the solution"); for (int i = 0; i < n; i++) b[i] = rnd() - 0.25; CK(call(2, r) == 0, N[kind], "refused"); resid(N[kind]); CK(!memcmp(U, U0, sizeof U), "solver-input", "the matrix changed");
        if (kind < 3) { U[n - 1][n - 1] = 0; CK(call(0, r) == TM_DIAG_SMALL, "solver-small", "a zero on the diagonal is accepted"); } }
    mc::state(mc::hv(3, n, seed, kind)); mc::outcome(mc::hash(r, n * 8)); mc::step(4);
}
static void eigen() {
    int n = 1 + mc::choose(4, "n"), seed = mc::choose(mc::thorough() ? 600 : 60, "matrix"), kind = mc::choose(3, "method"); if (kind == 1 && n == 1) n = 4; double K[6][6], M[6][6], V[6][6], *pk[6], *pm[6], *pv[6]; unsigned x = 7 + seed * 2654435761u; auto rnd = [&] { x = x * 1664525u + 1013904223u; return (int)(x >> 24) % 7 - 3; };
    rows(K, n, pk); rows(M, n, pm); rows(V, n, pv); double G[4][4], H[4][4]; for (auto &r : G) for (double &v : r) v = rnd(); for (auto &r : H) for (double &v : r) v = rnd() * 0.25; bool diag = seed % 6 == 0, mid = seed % 4 < 2;
    for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) { K[i][j] = i == j ? 2 : 0; M[i][j] = i == j; if (!diag) for (int k = 0; k < n; k++) { K[i][j] += G[i][k] * G[j][k]; if (!mid) M[i][j] += H[i][k] * H[j][k]; } else if (i == j && seed % 4 >= 2) K[i][j] += i; }
    double K0[6][6], M0[6][6], al[6], e[6]; memcpy(K0, K, sizeof K); memcpy(M0, M, sizeof M);
    if (kind == 0) { int rc = eigen_jacobi(pk, pm, pv, al, n, n, 1); if (rc) { mc::count(0); return; } }    // it says that it did not converge
    if (kind == 1) { double k4[4][4], m4[4][4], v4[4][4]; memset(k4, 0, sizeof k4); memset(m4, 0, sizeof m4); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) { k4[i][j] = K[i][j]; m4[i][j] = M[i][j]; } mc::ctx("eigen_jacobi_4"); eigen_jacobi_4(k4, m4, v4, al, n, 4, 1); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) V[i][j] = v4[i][j]; }
    if (kind == 2) { memcpy(V, K, sizeof V); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) M0[i][j] = i == j; mc::ctx("eigen_ql"); eigen_hh_red(pv, n, al, e); eigen_ql(al, e, n, pv); }
    mc::ctx(""); LD tr = 0, nk = 0; for (int i = 0; i < n; i++) { tr += al[i]; for (int j = 0; j < n; j++) nk += fabsl(K0[i][j]); }
    for (int c = 0; c < n; c++) { LD nv = 0; for (int i = 0; i < n; i++) nv += fabsl(V[i][c]); CK(nv > 1e-6, "eigenvector-zero", "eigenvector %d is zero", c); for (int i = 0; i < n; i++) { LD s = 0, t = 0; for (int j = 0; j < n; j++) { s += (LD)K0[i][j] * V[j][c]; t += (LD)M0[i][j] * V[j][c] * al[c]; } near(s, t, nk * nv, kind == 2 ? "eigen_ql" : "eigen_jacobi", "K*v against alpha*M*v", 1e-7L); } if (kind < 2 && c) CK(al[c] >= al[c - 1], "eigen-order", "eigenvalues are not in ascending order"); }
    for (int c = 0; c < n; c++) for (int d = 0; d < c; d++) { LD s = 0, u = 0, w = 0; for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) { s += (LD)V[i][c] * M0[i][j] * V[j][d]; u += (LD)V[i][c] * M0[i][j] * V[j][c]; w += (LD)V[i][d] * M0[i][j] * V[j][d]; } CK(fabsl(s) <= 1e-6L * sqrtl(fabsl(u * w)), "eigenvectors-dependent", "eigenvectors %d and %d are not orthogonal", c, d); }
    if (kind == 2 || mid) { LD t = 0; for (int i = 0; i < n; i++) t += K0[i][i]; near(tr, t, nk, "eigen-trace", "sum of the eigenvalues", 1e-8L); }
    mc::state(mc::hv(4, n, seed, kind)); mc::outcome(mc::hash(al, n * 8)); mc::step();
}
// rotations
typedef int (*EM)(double *, double (*)[3], int, double *, const char *, int); typedef int (*EQ)(double *, double *, int, double *);
struct Seq { const char *n; int ax[3]; EM m; EQ q; Euler_Seq s; int sing; };
static Seq SQ[] = {{"123", {0, 1, 2}, euler123, euler123_quat, Roll_Pitch_Yaw, TM_SING_123_P}, {"132", {0, 2, 1}, euler132, euler132_quat, Roll_Yaw_Pitch, TM_SING_132_P}, {"213", {1, 0, 2}, euler213, euler213_quat, Pitch_Roll_Yaw, TM_SING_213_P}, {"231", {1, 2, 0}, euler231, euler231_quat, Pitch_Yaw_Roll, TM_SING_231_P}, {"312", {2, 0, 1}, euler312, euler312_quat, Yaw_Roll_Pitch, TM_SING_312_P}, {"321", {2, 1, 0}, euler321, euler321_quat, Yaw_Pitch_Roll, TM_SING_321_P}};
static void axis(LD R[3][3], int a, LD t) { int b = (a + 1) % 3, c = (a + 2) % 3; for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) R[i][j] = i == j; R[b][b] = R[c][c] = cosl(t); R[b][c] = sinl(t); R[c][b] = -sinl(t); }
static void mul(LD o[3][3], LD a[3][3], LD b[3][3]) { LD r[3][3]; for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) { r[i][j] = 0; for (int k = 0; k < 3; k++) r[i][j] += a[i][k] * b[k][j]; } memcpy(o, r, sizeof r); }
static void frame(LD R[3][3], const Seq &s, const double *a) { LD X[3][3]; axis(R, s.ax[0], a[0]); for (int k = 1; k < 3; k++) { axis(X, s.ax[k], a[k]); mul(R, X, R); } }
static void same(const double m[3][3], LD R[3][3], LD tol, const char *sig, const char *w) { for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) if (!(fabsl(m[i][j] - R[i][j]) <= tol)) mc::fail(sig, "%s: element %d,%d of the rotation is %.12g, defined as %.12Lg", w, i, j, m[i][j], R[i][j]); }
static void same2(LD Q[3][3], LD R[3][3], LD tol, const char *sig, const char *w) { double m[3][3]; for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) m[i][j] = (double)Q[i][j]; same(m, R, tol, sig, w); }
static std::vector<double> outer_, mid_;
static void euler() {
    Seq &s = SQ[mc::choose(6, "sequence")]; double a[3] = {outer_[mc::choose(outer_.size(), "first")], mid_[mc::choose(mid_.size(), "second")], 0}; char w[80];
    for (size_t z = 0; z < outer_.size(); z++) { a[2] = outer_[z]; snprintf(w, sizeof w, "sequence %s, angles %.9g %.9g %.9g", s.n, a[0], a[1], a[2]); mc::step(8);
        LD R[3][3], X[3][3]; frame(R, s, a); double m[3][3], q[4], m2[3][3], q2[4], b[3], a0[3] = {a[0], a[1], a[2]}; FILLM(m); CK(s.m(a, m, 0, 0, "", 0) == 0, "euler-status", "%s", w); same(m, R, 1e-14L, "euler-matrix", w); FILLM(m2); CK(euler_matrix(a, m2, 0, s.s) == 0, "euler-status", "%s", w); CK(!memcmp(m, m2, sizeof m), "euler_matrix", "%s: differs from the routine of the sequence", w);
        FILLV(q); CK(s.q(a, q, 0, 0) == 0, "euler-status", "%s", w); quat_to_mat(m2, q); same(m2, R, 1e-14L, "euler-quaternion", w); CK(euler_quat(a, q2, 0, s.s) == 0 && !memcmp(q, q2, sizeof q), "euler_quat", "%s: differs from the routine of the sequence", w); CK(!memcmp(a, a0, sizeof a), "euler-input", "%s: the angles changed", w);
        mat_to_quat(q2, m); { LD d = 0, g = 0; for (int k = 0; k < 4; k++) { d += fabsl(q2[k] - q[k]); g += fabsl(q2[k] + q[k]); } CK((d < g ? d : g) < 1e-12L, "mat_to_quat", "%s: quaternion of the matrix differs (%.12g %.12g %.12g %.12g)", w, q2[0], q2[1], q2[2], q2[3]); CK(q2[0] >= 0, "mat_to_quat-sign", "%s: scalar part %g", w, q2[0]); }
        double dist = fabs(fabs(a[1]) - M_PI_2); bool sing = dist < 1e-6, edge = dist > 0.99e-6 && dist < 1.01e-6;
        for (int form = 0; form < 4; form++) { double mm[3][3], qq[4]; memcpy(mm, m, sizeof mm); memcpy(qq, q, sizeof qq); if (form == 3) for (double &v : qq) v = -v; FILLV(b); int rc = form == 0 ? s.m(b, mm, 1, 0, "", 0) : form == 1 ? euler_matrix(b, mm, 1, s.s) : form == 2 ? s.q(b, qq, 1, 0) : euler_quat(b, qq, 1, s.s);
            if (!edge && dist > 2e-6) CK(rc == 0, "euler-singular", "%s: reported as singular (%d)", w, rc); if (dist < 1e-7) CK(rc == s.sing + (a[1] < 0), "euler-not-singular", "%s: status %d, %d expected", w, rc, s.sing + (a[1] < 0));
            frame(X, s, b); same2(X, R, rc ? 3e-6L : dist > 1e-3 ? 1e-12L : 1e-8L, form < 2 ? "angles-from-matrix" : "angles-from-quaternion", w); CK(fabs(b[1]) <= M_PI_2 + 1e-15 && fabs(b[0]) <= M_PI + 1e-15 && fabs(b[2]) <= M_PI + 1e-15, "angle-range", "%s: angles %g %g %g", w, b[0], b[1], b[2]);
            if (!rc && dist > 1e-3 && fabs(a[1]) < M_PI_2) for (int k = 0; k < 3; k += 2) { LD d = fabsl(remainderl((LD)b[k] - a[k], 2 * M_PIl)); CK(d < 1e-9L, "angles-differ", "%s: angle %d comes back as %.12g", w, k, b[k]); } CK(!memcmp(mm, m, sizeof m), "euler-input", "%s: the matrix changed", w); }
        // with previous values: away from the singularity as before, near it the last angle keeps its previous value
        if (z % 3 == 0 || mc::thorough()) for (int pv = 0; pv < 3; pv++) for (int form = 0; form < 2; form++) { double prev[3] = {a[0], a[1], pv == 0 ? a[2] : pv == 1 ? 0.3 : -2.5}; FILLV(b); double mm[3][3], qq[4]; memcpy(mm, m, sizeof mm); memcpy(qq, q, sizeof qq); if (form) s.q(b, qq, 2, prev); else s.m(b, mm, 2, prev, "", 0); frame(X, s, b);
            same2(X, R, dist < 1.5e-3 ? 3e-3L : 1e-12L, "angles-with-previous", w); if (dist < 1e-3) CK(b[2] == prev[2], "previous-angle", "%s: the last angle is %g, previous value %g", w, b[2], prev[2]); if (pv == 0 && dist < 1e-9) CK(fabsl(b[0] - a[0]) < 1e-6L || fabsl(fabsl(b[0] - a[0]) - 2 * M_PIl) > 1e-2L, "angle-jumps", "%s: the first angle jumps by a revolution to %g", w, b[0]); CK(fabs(b[1]) <= M_PI_2 + 1e-15, "angle-range", "%s: %g", w, b[1]); } }
    mc::state(mc::hv(5, (int)(&s - SQ), (int)(a[0] * 1e6), (int)(a[1] * 1e8))); mc::outcome(mc::hash(a, 16));
    double dd[3]; CK(euler_matrix(a, mats[0].m, 9, (Euler_Seq)77) == TM_INV_ROT_SEQ && euler_quat(a, dd, 9, (Euler_Seq)77) == TM_INV_ROT_SEQ, "unknown-sequence", "an unknown sequence is accepted");
}
static void quats() {
    static const double A[] = {0, 1, -0.5, 0.25}; int i = mc::choose(256, "p"); double p[4] = {A[i & 3], A[i >> 2 & 3], A[i >> 4 & 3], A[i >> 6]}; if (!i) return;
    for (int j = 1; j < 256; j++) { double q[4] = {A[j >> 4 & 3], A[j >> 6], A[j & 3], A[j >> 2 & 3]}; if (!q[0] && !q[1] && !q[2] && !q[3]) continue; mc::step();
        auto ham = [](LD *r, const double *a, LD sa, const double *b, LD sb) { LD x[4] = {a[0], sa * a[1], sa * a[2], sa * a[3]}, y[4] = {b[0], sb * b[1], sb * b[2], sb * b[3]}; r[0] = x[0] * y[0] - x[1] * y[1] - x[2] * y[2] - x[3] * y[3]; for (int k = 0; k < 3; k++) { int b1 = (k + 1) % 3, c1 = (k + 2) % 3; r[k + 1] = x[0] * y[k + 1] + y[0] * x[k + 1] + x[b1 + 1] * y[c1 + 1] - x[c1 + 1] * y[b1 + 1]; } };
        LD e[4]; double r[4]; auto chk = [&](const char *s) { for (int k = 0; k < 4; k++) near(r[k], e[k], 4, s, s, 1e-14L); FILLV(r); }; FILLV(r);
        ham(e, p, 1, q, 1); quat_mult(r, p, q); chk("quat_mult"); QxQ(r, p, q); chk("QxQ"); ham(e, p, -1, q, 1); QtxQ(r, p, q); chk("QtxQ"); ham(e, p, 1, q, -1); QxQt(r, p, q); chk("QxQt");
        double v0[4] = {0, q[1], q[2], q[3]}; double *om = q + 1; ham(e, v0, 1, p, 1); VxQ(r, om, p); chk("VxQ"); ham(e, p, 1, v0, 1); QxV(r, p, om); chk("QxV"); double vh[4] = {0, -0.5 * q[1], -0.5 * q[2], -0.5 * q[3]}; ham(e, vh, 1, p, 1); { double *qq_ = p; Q_dot(r, qq_, om); } chk("Q_dot");
        // the matrix of the product is the product of the matrices
        double pn[4], qn[4], pq[4], P[3][3], Q[3][3], PQ[3][3]; quat_norm_integ(pn, p); quat_norm_integ(qn, q); quat_mult(pq, pn, qn); quat_to_mat(P, pn); quat_to_mat(Q, qn); quat_to_mat(PQ, pq); LD X[3][3]; for (int x = 0; x < 3; x++) for (int y = 0; y < 3; y++) { X[x][y] = 0; for (int k = 0; k < 3; k++) X[x][y] += (LD)P[x][k] * Q[k][y]; } same(PQ, X, 1e-13L, "quat_to_mat", "product of quaternions"); }
    LD n = 0; for (double x : p) n += (LD)x * x; n = sqrtl(n); double r[4], t[4]; for (double f : {1.0, 1.0 + 5e-8, 1.0 - 1e-8, 3.0, 1e-3}) { double g[4]; for (int k = 0; k < 4; k++) g[k] = f == 1 || f > 2 || f < 0.5 ? p[k] * f : (double)(p[k] / n * f); LD m = 0; for (double x : g) m += (LD)x * x; m = sqrtl(m); quat_norm_integ(r, g); quat_norm(t, g); for (int k = 0; k < 4; k++) { near(r[k], g[k] / m, 1, "quat_norm_integ", "normalised quaternion", 1e-13L); near(t[k], (g[0] < 0 || (g[0] == 0 && std::signbit(g[0])) ? -1 : 1) * g[k] / m, 1, "quat_norm", "normalised quaternion", 1e-13L); } }
    { double M[3][3], q2[4]; quat_norm_integ(r, p); quat_to_mat(M, r); mat_to_quat(q2, M); LD d = 0, g = 0; for (int k = 0; k < 4; k++) { d += fabsl(q2[k] - r[k]); g += fabsl(q2[k] + r[k]); } CK((d < g ? d : g) < 1e-7L, "mat_to_quat", "does not come back"); double c[4]; Q_TRANS(c, p); for (int k = 0; k < 4; k++) CK(c[k] == (k ? -p[k] : p[k]), "Q_TRANS", "component %d", k); Q_COPY(c, p); CK(!memcmp(c, p, sizeof c), "Q_COPY", "differs"); Q_SCALE(c, p, 2.0); for (int k = 0; k < 4; k++) CK(c[k] == 2 * p[k], "Q_SCALE", "component %d", k); Q_IDENT(c); CK(c[0] == 1 && c[1] == 0 && c[2] == 0 && c[3] == 0, "Q_IDENT", "differs"); }
    mc::state(mc::hv(6, i)); mc::outcome(mc::hash(p, 32));
}
static void rotations() {
    int i = mc::choose(vecs.size(), "axis"); double k[3]; memcpy(k, vecs[i].v, 24); LD n = sqrtl(sum3(k, k)); if (n < 1e-9 || n > 1e100) return; char w[100];
    for (double t : outer_) { double R[3][3], T[3][3], th = t; FILLM(R); FILLM(T); RotAboutLineByAngle(R, k, t); dsingle_axis_rot(1, &th, k, T); snprintf(w, sizeof w, "axis %g %g %g angle %.9g", k[0], k[1], k[2], t); LD u[3] = {k[0] / n, k[1] / n, k[2] / n}, X[3][3], Y[3][3]; for (int x = 0; x < 3; x++) for (int y = 0; y < 3; y++) { LD sk = x == y ? 0 : (y == (x + 1) % 3 ? -u[3 - x - y] : u[3 - x - y]); X[x][y] = (x == y ? cosl(t) : 0) + (1 - cosl(t)) * u[x] * u[y] + sinl(t) * sk; Y[y][x] = X[x][y]; }
        same(R, X, 1e-13L, "RotAboutLineByAngle", w); same(T, Y, 1e-13L, "dsingle_axis_rot", w); double ph = NP, ax[3], T0[3][3]; memcpy(T0, T, sizeof T); dsingle_axis_rot(0, &ph, ax, T); CK(!memcmp(T, T0, sizeof T), "single-axis-input", "%s: the matrix changed", w); near(sqrtl(sum3(ax, ax)), 1, 1, "single-axis-unit", "length of the rotation axis", 1e-8L); CK(ph >= 0 && ph <= M_PI + 1e-12, "single-axis-angle", "%s: angle %g", w, ph); dsingle_axis_rot(1, &ph, ax, T0); same(T0, Y, fabs(remainder(t, 2 * M_PI)) < 1e-7 ? 2e-7L : 1e-8L, "single-axis-back", w); mc::step(3); }
    for (size_t j = 0; j < vecs.size() + 6; j++) { double v[3]; if (j < vecs.size()) memcpy(v, vecs[j].v, 24); else for (int x = 0; x < 3; x++) v[x] = j == vecs.size() ? -k[x] : j == vecs.size() + 1 ? k[x] : k[x] * (1 + 1e-7 * (x - 1.0) * (j - 8.0)); LD m = sqrtl(sum3(v, v)); if (m < 1e-9 || m > 1e100) continue; for (int x = 0; x < 3; x++) v[x] = (double)(v[x] * n / m); double R[3][3]; FILLM(R); RotVectorToNewOrientation(R, k, v); LD X[3][3]; for (int x = 0; x < 3; x++) near(sum3(R[x], k), v[x], n, "RotVectorToNewOrientation", "rotated vector", 1e-6L);
        for (int x = 0; x < 3; x++) for (int y = 0; y < 3; y++) X[x][y] = sum3(R[x], R[y]); double I[3][3]; for (int x = 0; x < 3; x++) for (int y = 0; y < 3; y++) I[x][y] = x == y; same(I, X, 1e-12L, "rotation-orthonormal", "rotation to a new orientation"); LD det = 0; for (int q = 0; q < 3; q++) det += (LD)R[0][q] * ((LD)R[1][(q + 1) % 3] * R[2][(q + 2) % 3] - (LD)R[1][(q + 2) % 3] * R[2][(q + 1) % 3]); near(det, 1, 1, "rotation-mirror", "determinant of the rotation", 1e-10L); mc::step(); }
    // orthonormalisation of a rotation whose rows were scaled
    for (int ax = 0; ax < 3; ax++) for (double t : {0.3, -2.0}) { double R[3][3], M[3][3]; RotAboutLineByAngle(R, k, t); for (int x = 0; x < 3; x++) for (int y = 0; y < 3; y++) M[x][y] = x == ax ? 42 + y : R[x][y] * (x + 1.5); int a = ax; dm_orthonormal(M, &a); LD X[3][3]; for (int x = 0; x < 3; x++) for (int y = 0; y < 3; y++) X[x][y] = R[x][y]; same(M, X, 1e-12L, "dm_orthonormal", "scaled rotation"); CK(a == (ax + 1) % 3, "orthonormal-axis", "next axis %d after %d", a, ax); }
    mc::state(mc::hv(7, i)); mc::outcome(mc::hash(k, 24));
}
// scalar functions
static double wave_ref(const WAVE_FORM &W, double t, bool &edge) { edge = false; double d = W.stop - W.start, P = W.pause, u = t - W.start; auto near_ = [&](double x) { if (fabs(x) < 1e-9) edge = true; return x; }; bool in = W.start <= t && t < W.stop;
    switch (W.type) { case Pulse: return in; case Ramp: if (t < W.start || t >= W.stop + W.ramp) return 0; return t <= W.start + W.ramp ? u / W.ramp : t <= W.stop ? 1 : (W.stop + W.ramp - t) / W.ramp;
        case Square: { if (!in) return 0; double c = W.frequency * u + W.phase / (2 * M_PI); double f = c - floor(c); near_(f); near_(f - 0.5); near_(f - 1); return f < 0.5 ? 1 : -1; } case Square_Doublet: return in ? 1 : W.stop + P <= t && t < W.stop + P + d ? -1 : 0;
        case Triangle: { if (!in) return 0; double c = W.frequency * u + W.phase / (2 * M_PI); return asin(sin(2 * M_PI * c)) / M_PI_2; } case Triangle_Doublet: { double h = d / 2; if (in) return 1 - fabs(u - h) / h; double x = t - W.stop - P; if (x >= 0 && x < d) return -(1 - fabs(x - h) / h); return 0; } case Sine: return in ? sin(2 * M_PI * W.frequency * u + W.phase) : 0; default: return 0; } }
static void scalars() {
    int k = mc::choose(4, "function");
    if (k == 0) { WAVE_FORM W; memset(&W, 0, sizeof W); W.type = (Wave_Form)mc::choose(7, "wave"); static const double ST[] = {0, 1, -2.5}, DU[] = {2, 0.5, 7}, FR[] = {1, 0.3, 4}, PH[] = {0, 1, -1, M_PI, -M_PI, 7, -20}; W.start = ST[mc::choose(3, "start")]; W.stop = W.start + DU[mc::choose(3, "duration")]; W.frequency = FR[mc::choose(3, "frequency")]; W.phase = PH[mc::choose(7, "phase")]; W.ramp = mc::flip("ramp") ? 0.25 : 0.125; W.pause = mc::flip("pause") ? 0.5 : 0;
        for (int i = -40; i < 300; i++) { double t = i / 16.0; bool e; double x = wave_ref(W, t, e), g = wave_form(&W, t); mc::step(); if (!e) CK(fabs(x - g) < 1e-9, "wave_form", "wave %d at %g (start %g stop %g frequency %g phase %g) is %.12g, defined as %.12g", W.type, t, W.start, W.stop, W.frequency, W.phase, g, x); } mc::state(mc::hv(8, W.type, W.phase * 100)); return; }
    if (k == 1) { double res = (double[]){1, 0.1, 0.25, 10, 3, 1e-6}[mc::choose(6, "resolution")]; int neg = mc::choose(2, "sign"); for (int i = 0; i < 4000; i++) { double v = (neg ? -1 : 1) * res * (i / 16.0 + (i % 7) * 1e-3), r = roundoff(res, v); LD c = (LD)v / res, f = floorl(fabsl(c)); LD fr = fabsl(c) - f; LD q = (LD)r / res; mc::step(); if (fabsl(fr - 0.5L) > 1e-6L) { LD want = (fr < 0.5L ? f : f + 1) * (v < 0 ? -1 : 1); CK(fabsl(q - want) < 1e-6L, "roundoff", "%.12g rounded to a multiple of %g is %.12g", v, res, r); } else CK(fabsl(fabsl(q) - fabsl(c)) < 0.5001L, "roundoff", "%.12g rounded to a multiple of %g is %.12g", v, res, r); } mc::state(mc::hv(9, res * 1e6, neg)); return; }
    if (k == 2) { static const double P[][3] = {{0, 1, 2}, {0, 0.5, 2}, {-3, 1, 1.5}}; int c = mc::choose(3, "points"), sg = mc::choose(2, "sign"); double z = P[c][0], m = P[c][1], o = P[c][2]; double prev = -1; for (int i = -100; i <= 400; i++) { double x = z + (o - z) * i / 250.0 + 1e-13 * 0, xx = sg ? -x : x; double g = sg ? dS_function(xx, -z, -m, -o, -1) : dS_function(xx, z, m, o, 1); double e = x >= o ? 1 : x <= z ? 0 : x < m ? (x - z) * (x - z) / (2 * (m - z) * (m - z)) : 1 - (x - o) * (x - o) / (2 * (o - m) * (o - m)); CK(fabs(g - e) < 1e-12, "dS_function", "S(%g) is %.12g, defined as %.12g", xx, g, e); CK(g >= prev - 1e-12, "dS-order", "not monotonic at %g", xx); prev = g; mc::step(); } mc::state(mc::hv(10, c, sg)); return; }
    int ord = mc::choose(2, "order"); double dt = (double[]){0.1, 0.5, 0.01}[mc::choose(3, "dt")], tau = (double[]){1, 0.2, 5}[mc::choose(3, "tau")], z = (double[]){0.5, 0.1, 0.9, 0}[mc::choose(4, "damping")]; double in0[2], out0[2], in[2], out[2], T[2] = {tau, 2 * tau}, Z[2] = {z, 0.7}; int init = 1; LD y[2], dy[2] = {0, 0}; double last[2] = {1, -2}; y[0] = 1; y[1] = -2;
    for (int s = 0; s < 12; s++) { for (int v = 0; v < 2; v++) in[v] = s == 0 ? last[v] : (v ? -1 : 1) * ((s * 7 % 5) - 1.5); double keep[2] = {in[0], in[1]}; if (ord == 0) trns_fnct_1o(2, in0, in, dt, T, out0, out, &init); else trns_fnct_2o(Z, T, dt, in, in0, out, out0, 2, &init); CK(init == 0 && !memcmp(in, keep, sizeof in), "transfer-input", "input changed");
        for (int v = 0; v < 2; v++) { if (s == 0) { CK(fabs(out[v] - in[v]) < 1e-12, "transfer-start", "starts at %g for input %g", out[v], in[v]); continue; } int N = 400; LD h = (LD)dt / N, sl = ((LD)in[v] - last[v]) / dt; for (int i = 0; i < N; i++) { LD t0 = i * h; auto f = [&](LD t, LD Y, LD D, LD &a, LD &b) { LD u = last[v] + sl * t; if (ord == 0) { a = (u - Y) / T[v]; b = 0; } else { a = D; b = (LD)T[v] * T[v] * (u - Y) - 2 * (LD)Z[v] * T[v] * D; } }; LD a1, b1, a2, b2, a3, b3, a4, b4; f(t0, y[v], dy[v], a1, b1); f(t0 + h / 2, y[v] + h / 2 * a1, dy[v] + h / 2 * b1, a2, b2); f(t0 + h / 2, y[v] + h / 2 * a2, dy[v] + h / 2 * b2, a3, b3); f(t0 + h, y[v] + h * a3, dy[v] + h * b3, a4, b4); y[v] += h / 6 * (a1 + 2 * a2 + 2 * a3 + a4); dy[v] += h / 6 * (b1 + 2 * b2 + 2 * b3 + b4); }
            CK(fabsl(out[v] - y[v]) < 1e-7L, "transfer", "order %d response after step %d is %.12g, solution of the equation %.12Lg", ord + 1, s, out[v], y[v]); mc::step(); } memcpy(last, in, sizeof last); }
    mc::state(mc::hv(11, ord, dt * 100, tau * 10, z * 10));
}
int main(int c, char **v) {
    stderr = fopen("/dev/null", "w"); stdout = stdout; setup();
    for (double d : {0., 30., 45., 90., 120., 180., -30., -90., -135., -179.999}) outer_.push_back(d * M_PI / 180); outer_.push_back(1e-9); outer_.push_back(-1e-4); outer_.push_back(2.5);
    for (double d : {0., 30., 45., 60., 80., 89., 89.9, 90.}) { mid_.push_back(d * M_PI / 180); if (d) mid_.push_back(-d * M_PI / 180); } for (double d : {1e-10, 1e-8, 5e-7, 2e-6, 1e-5, 1e-3}) { mid_.push_back(M_PI_2 - d); mid_.push_back(-M_PI_2 + d); } mid_.push_back(1e-7);
    mc::Options o; o.split = 2; o.timeout_s = 60; o.counter_names[0] = "not_converged";
    return mc::run(c, v, o, [] { switch (mc::choose(8, "part")) { case 0: return vectors(); case 1: return matrices(); case 2: return solvers(); case 3: return eigen(); case 4: return euler(); case 5: return quats(); case 6: return rotations(); default: return scalars(); } });
}
