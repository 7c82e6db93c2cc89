// C08: checkpoint and restore of every container of a menu with every content within the bounds, in every place, over every previous content.
#define MC_MAIN
#include "mc.hh"
#include <iostream>
#include <sstream>
#include <typeinfo>
#include "trick/MemoryManager.hh"
#include "mm/stl8_types.hh"
extern "C" int message_publish(int, const char *, ...) { return 0; }
std::vector<int> T8::sv;
static Trick::MemoryManager *mm;
static bool reduced, hexf; static int mode; // 0 emptied manager, 1 fresh manager, 2 live manager
// ---- what a container holds, as text; pointers by the name of the variable and the place in it, anonymous memory by what it holds ----
static std::string where(const void *p) {
    if (!p) return "null"; ALLOC_INFO *ai = mm->get_alloc_info_of((void *)p); if (!ai) return "unknown";
    char b[40]; snprintf(b, sizeof b, "+%ld", (long)((char *)p - (char *)ai->start)); if (ai->name) return ai->name + std::string(b);
    if (ai->type == TRICK_DOUBLE) { snprintf(b, sizeof b, "#%g+%ld", *(double *)ai->start, (long)((char *)p - (char *)ai->start)); return b; }
    if (ai->type == TRICK_STRUCTURED && ai->user_type_name && std::string(ai->user_type_name) == "U8") { snprintf(b, sizeof b, "#U%d+%ld", ((U8 *)ai->start)->a[0], (long)((char *)p - (char *)ai->start)); return b; }
    if (ai->type == TRICK_STRUCTURED) { snprintf(b, sizeof b, "#I%d+%ld", ((MMInner *)ai->start)->i, (long)((char *)p - (char *)ai->start)); return b; }
    if (ai->type == TRICK_STRING) return "#S" + *(std::string *)ai->start + b;
    return "?";
}
typedef std::string Str;
static Str sh(double v) { char b[40]; snprintf(b, sizeof b, "%.15g", v); return b; }
static Str sh(float v) { char b[40]; snprintf(b, sizeof b, "%.7g", v); return b; }
static Str sh(long long v) { return std::to_string(v); }
static Str sh(long v) { return std::to_string(v); } static Str sh(int v) { return std::to_string(v); } static Str sh(short v) { return std::to_string(v); } static Str sh(char v) { return std::to_string(v); } static Str sh(unsigned char v) { return std::to_string(v); } static Str sh(unsigned short v) { return std::to_string(v); }
static Str sh(unsigned v) { return std::to_string(v); } static Str sh(unsigned long v) { return std::to_string(v); } static Str sh(unsigned long long v) { return std::to_string(v); } static Str sh(bool v) { return v ? "true" : "false"; } static Str sh(wchar_t v) { return std::to_string((long)v); }
static Str sh(MMColor v) { return std::to_string((int)v); } static Str sh(mmns::Kind v) { return std::to_string((int)v); } static Str sh(ns8::Col8 v) { return std::to_string((int)v); }
static Str sh(const Str &v) { return "\"" + v + "\""; }
static Str sh(const U8 &u) { return "U(" + sh(u.a[0]) + "," + sh(u.a[1]) + "," + sh(u.b) + "," + sh(u.c) + "," + where(u.d) + ")"; }
static Str sh(const ns8::V8 &v) { return "V(" + sh(v.x) + "," + sh(v.y) + ")"; }
static Str sh(const MMInner &v) { return "I(" + sh(v.i) + "," + sh(v.d[0]) + "," + sh(v.d[1]) + "," + sh(v.c[0]) + ")"; }
template <class T> static Str sh(T *const &p) { return where(p); }
template <class T, class A> static Str sh(const std::vector<T, A> &); template <class T> static Str sh(const std::list<T> &); template <class T> static Str sh(const std::deque<T> &); template <class T, class C> static Str sh(const std::set<T, C> &); template <class T> static Str sh(const std::multiset<T> &); template <class K, class D> static Str sh(const std::map<K, D> &); template <class K, class D> static Str sh(const std::multimap<K, D> &); template <class T, size_t N> static Str sh(const std::array<T, N> &); template <class A, class B> static Str sh(const std::pair<A, B> &); template <class T> static Str sh(std::queue<T> ); template <class T> static Str sh(std::stack<T> ); template <class T, class S, class C> static Str sh(std::priority_queue<T, S, C> ); 
static Str sh(const std::vector<bool> &v);
template <class T> static Str shseq(const T &v);
template <class T, class A> static Str sh(const std::vector<T, A> &v) { return shseq(v); } template <class T> static Str sh(const std::list<T> &v) { return shseq(v); } template <class T> static Str sh(const std::deque<T> &v) { return shseq(v); }
template <class T, class C> static Str sh(const std::set<T, C> &v) { return shseq(v); } template <class T> static Str sh(const std::multiset<T> &v) { return shseq(v); } template <class T, size_t N> static Str sh(const std::array<T, N> &v) { return shseq(v); }
template <class K, class D> static Str sh(const std::map<K, D> &v) { return shseq(v); } template <class K, class D> static Str sh(const std::multimap<K, D> &v) { return shseq(v); }
template <class T> static Str sh(std::queue<T> v) { Str s = "["; while (!v.empty()) { s += sh(v.front()) + " "; v.pop(); } return s + "]"; }
template <class T> static Str sh(std::stack<T> v) { Str s = "["; while (!v.empty()) { s += sh(v.top()) + " "; v.pop(); } return s + "]"; }
template <class T, class S, class C> static Str sh(std::priority_queue<T, S, C> v) { Str s = "["; while (!v.empty()) { s += sh(v.top()) + " "; v.pop(); } return s + "]"; }
template <class A, class B> static Str sh(const std::pair<A, B> &p) { return "(" + sh(p.first) + "," + sh(p.second) + ")"; }
template <class T> static Str shseq(const T &v) { Str s = "["; for (typename T::const_iterator i = v.begin(); i != v.end(); ++i) s += sh((typename T::value_type const &)*i) + " "; return s + "]"; }
static Str shvb(const std::vector<bool> &v) { Str s = "["; for (size_t i = 0; i < v.size(); i++) s += sh((bool)v[i]) + " "; return s + "]"; }
static Str sh(const std::vector<bool> &v) { return shvb(v); }
// ---- every content ----
static std::vector<U8 *> menuU; static std::vector<double *> menuD; static std::vector<MMInner *> menuI; static std::vector<std::string *> menuS;
static int nmax, nmax2, menu; // sizes and number of values
template <class T> static T pick(std::initializer_list<T> l) { int n = std::min<int>(menu, l.size()); return l.begin()[mc::choose(n, "value")]; }
static void gen(double &v) { v = pick<double>({1.5, -2.25, 1e-300, 1e300, 0}); } static void gen(float &v) { v = pick<float>({1.5f, -2.25f, 1e30f, 0}); } static void gen(char &v) { v = pick<char>({'a', 0, '"', -1, '\\', 'n'}); } static void gen(unsigned char &v) { v = pick<unsigned char>({1, 0, 255, 'a'}); }
static void gen(short &v) { v = pick<short>({1, -32768, 0, 32767}); } static void gen(unsigned short &v) { v = pick<unsigned short>({1, 65535, 0}); } static void gen(int &v) { v = pick<int>({1, -2, 0, 2147483647, -2147483647 - 1}); } static void gen(unsigned &v) { v = pick<unsigned>({1, 4294967295u, 0, 2147483648u}); }
static void gen(long &v) { v = pick<long>({1, -5000000000L, 0, 9223372036854775807L}); } static void gen(unsigned long &v) { v = pick<unsigned long>({1, 18446744073709551615UL, 0}); } static void gen(long long &v) { v = pick<long long>({1, -5000000000LL, 0}); } static void gen(unsigned long long &v) { v = pick<unsigned long long>({1, 18446744073709551615ULL, 0}); }
static void gen(bool &v) { v = mc::flip("value"); } static void gen(wchar_t &v) { v = pick<wchar_t>({L'a', L'1', L'\'', 0x263a}); } static void gen(MMColor &v) { v = pick<MMColor>({MM_GREEN, MM_RED, MM_BLUE}); } static void gen(mmns::Kind &v) { v = pick<mmns::Kind>({mmns::Kind::one, mmns::Kind::two}); } static void gen(ns8::Col8 &v) { v = pick<ns8::Col8>({ns8::C8_B, ns8::C8_A, ns8::C8_C}); }
static void gen(Str &v) { v = pick<Str>({"b", "", "a\"\\", "a b;", "x_0", "inner", "*/"}); }
static void gen(U8 &u) { static const char *t[] = {"", "u\"", "v"}; u = U8(); int k = mc::choose(std::min(menu, 3), "value"); u.a[0] = k; u.a[1] = -k; u.b = k * 10000000000LL; u.c = t[k]; u.d = menuU[k + 1]; }
static void gen(ns8::V8 &v) { v.x = mc::choose(2, "value"); v.y = v.x + 0.5; } static void gen(MMInner &v) { memset(&v, 0, sizeof v); v.i = mc::choose(2, "value"); v.d[1] = v.i + 0.25; v.c[0] = 'x'; v.c[1] = 0; }
static void gen(U8 *&p) { p = menuU[mc::choose(menuU.size(), "target")]; } static void gen(double *&p) { p = menuD[mc::choose(menuD.size(), "target")]; } static void gen(MMInner *&p) { p = menuI[mc::choose(menuI.size(), "target")]; } static void gen(std::string *&p) { p = menuS[mc::choose(menuS.size(), "target")]; }
static int depth; struct Deep { Deep() { depth++; } ~Deep() { depth--; } };
static int size() { return mc::choose((depth == 1 ? nmax : nmax2) + 1, "size"); }
template <class T> static void gen(std::vector<T> &); template <class T> static void gen(std::list<T> &); template <class T> static void gen(std::deque<T> &); template <class T, class C> static void gen(std::set<T, C> &); template <class T> static void gen(std::multiset<T> &); template <class K, class D> static void gen(std::map<K, D> &); template <class K, class D> static void gen(std::multimap<K, D> &); template <class T, size_t N> static void gen(std::array<T, N> &); template <class A, class B> static void gen(std::pair<A, B> &); template <class T> static void gen(std::queue<T> &); template <class T> static void gen(std::stack<T> &); template <class T, class S, class C> static void gen(std::priority_queue<T, S, C> &); 
template <class T> static void genseq(T &v); template <class K, class D, class M> static void genmap(M &v);
template <class T> static void gen(std::vector<T> &v) { genseq(v); } template <class T> static void gen(std::list<T> &v) { genseq(v); } template <class T> static void gen(std::deque<T> &v) { genseq(v); } template <class T, class C> static void gen(std::set<T, C> &v) { genseq(v); } template <class T> static void gen(std::multiset<T> &v) { genseq(v); }
template <class K, class D> static void gen(std::map<K, D> &v) { genmap<K, D>(v); } template <class K, class D> static void gen(std::multimap<K, D> &v) { genmap<K, D>(v); }
template <class T> static void genpush(T &v);
template <class T> static void gen(std::queue<T> &v) { genpush(v); } template <class T> static void gen(std::stack<T> &v) { genpush(v); } template <class T, class S, class C> static void gen(std::priority_queue<T, S, C> &v) { genpush(v); }
template <class T, size_t N> static void gen(std::array<T, N> &v) { Deep d; for (auto &x : v) gen(x); }
template <class A, class B> static void gen(std::pair<A, B> &p) { Deep d; gen(p.first); gen(p.second); }
template <class T> static void genseq(T &v) { Deep d; v = T(); int n = size(); for (int i = 0; i < n; i++) { typename T::value_type x{}; gen(x); v.insert(v.end(), x); } }
template <class K, class D, class M> static void genmap(M &v) { Deep d; v = M(); int n = size(); for (int i = 0; i < n; i++) { K k{}; D x{}; gen(k); gen(x); v.insert(std::make_pair(k, x)); } }
template <class T> static void genpush(T &v) { Deep d; v = T(); int n = size(); for (int i = 0; i < n; i++) { typename T::value_type x{}; gen(x); v.push(x); } }
// other contents, for what was there before
static void oth(double &v) { v = 9.5; } static void oth(float &v) { v = 9.5f; } static void oth(bool &v) { v = true; } static void oth(Str &v) { v = "before"; } static void oth(U8 &u) { u.a[0] = 99; u.c = "before"; } static void oth(ns8::V8 &v) { v.x = 99; } static void oth(MMInner &v) { memset(&v, 0, sizeof v); v.i = 99; }
template <class T> static typename std::enable_if<std::is_integral<T>::value || std::is_enum<T>::value>::type oth(T &v) { v = (T)9; } template <class T> static void oth(T *&p) { p = 0; }
template <class T> static void oth(std::vector<T> &); template <class T> static void oth(std::list<T> &); template <class T> static void oth(std::deque<T> &); template <class T, class C> static void oth(std::set<T, C> &); template <class T> static void oth(std::multiset<T> &); template <class K, class D> static void oth(std::map<K, D> &); template <class K, class D> static void oth(std::multimap<K, D> &); template <class T, size_t N> static void oth(std::array<T, N> &); template <class A, class B> static void oth(std::pair<A, B> &); template <class T> static void oth(std::queue<T> &); template <class T> static void oth(std::stack<T> &); template <class T, class S, class C> static void oth(std::priority_queue<T, S, C> &); 
template <class T> static void othseq(T &v, int n = 4) { v = T(); for (int i = 0; i < n; i++) { typename T::value_type x{}; oth(x); v.insert(v.end(), x); } }
template <class T> static void othpush(T &v) { v = T(); for (int i = 0; i < 4; i++) { typename T::value_type x{}; oth(x); v.push(x); } }
template <class T> static void oth(std::vector<T> &v) { othseq(v); } template <class T> static void oth(std::list<T> &v) { othseq(v); } template <class T> static void oth(std::deque<T> &v) { othseq(v); } template <class T, class C> static void oth(std::set<T, C> &v) { othseq(v); } template <class T> static void oth(std::multiset<T> &v) { othseq(v); }
template <class K, class D> static void oth(std::map<K, D> &v) { v.clear(); K k{}; D d{}; oth(k); oth(d); v[k] = d; v[K()] = d; } template <class K, class D> static void oth(std::multimap<K, D> &v) { v.clear(); K k{}; D d{}; oth(k); oth(d); v.insert(std::make_pair(k, d)); v.insert(std::make_pair(k, d)); }
template <class T> static void oth(std::queue<T> &v) { othpush(v); } template <class T> static void oth(std::stack<T> &v) { othpush(v); } template <class T, class S, class C> static void oth(std::priority_queue<T, S, C> &v) { othpush(v); } template <class T, size_t N> static void oth(std::array<T, N> &v) { for (auto &x : v) oth(x); }
template <class A, class B> static void oth(std::pair<A, B> &p) { oth(p.first); oth(p.second); }
// ---- the members ----
struct Mem { const char *name; void (*gen)(S8 &); void (*oth)(S8 &); Str (*sh)(S8 &); };
#define M(x) {#x, [](S8 &s) { gen(s.x); }, [](S8 &s) { oth(s.x); }, [](S8 &s) { return sh(s.x); }}
static Mem flat[] = {M(v_d), M(v_f), M(v_c), M(v_uc), M(v_s), M(v_us), M(v_i), M(v_ui), M(v_l), M(v_ul), M(v_ll), M(v_ull), M(v_b), M(v_str), M(v_e), M(v_k), M(v_ne), M(v_w), M(v_u), M(v_v), M(v_in), M(v_up), M(v_dp), M(v_ip), M(v_sp), M(l_i), M(l_str), M(l_dp), M(d_d), M(d_str), M(s_i), M(s_str), M(ms_i), M(ms_str), M(s_ig),
    M(m_id), M(m_stri), M(m_strstr), M(m_iu), M(m_idp), M(m_ei), M(mm_ii), M(mm_strstr), M(m_bc), M(p_id), M(p_stri), M(p_strstr), M(p_pp), M(q_i), M(q_str), M(k_i), M(k_str), M(pq_i), M(pq_str), M(pq_ig), M(a_i), M(a_str)};
static Mem nested[] = {M(v_v_i), M(v_v_v_i), M(v_l_i), M(l_s_str), M(s_v_i), M(ms_p_ii), M(v_p_istr), M(s_m_sd), M(m_i_v_i), M(m_p_ii_i), M(m_p_p), M(m_v_v), M(mm_i_v_i), M(mm_v_i_i), M(mm_p_v), M(m_str_m), M(p_i_v), M(p_v_i), M(p_v_v), M(p_p_p), M(p_i_m), M(p_v_m), M(q_v_i), M(k_v_i), M(pq_v_i), M(a_v_i), M(v_a_i), M(v_k_i), M(v_q_i), M(v_pq_i), M(m_i_k), M(q_k_i), M(k_q_i), M(k_k_i), M(d_m_v_str), M(l_p_p)};
#undef M
static const int NF = sizeof flat / sizeof *flat, NN = sizeof nested / sizeof *nested;
static Mem &mem(int i) { return i < NF ? flat[i] : nested[i - NF]; }
static Str show(S8 &s, Str pre) { Str r; for (int i = 0; i < NF + NN; i++) { Str x = mem(i).sh(s); if (x != "[]") r += pre + mem(i).name + "=" + x + "\n"; } return r; }
static Str show(E8 &e, Str pre) { return pre + "{" + sh(e.k) + " " + sh(e.v) + sh(e.m) + sh(e.s) + sh(e.p) + sh(e.vv) + "}\n"; }
static Str show(D8 &e, Str pre) { return show((E8 &)e, pre) + sh(e.st) + "\n"; }
static Str show(P8 &p, Str pre, int d = 0) {
    Str r = pre + sh(p.n) + "\n" + show(p.e, pre + "e"); for (int i = 0; i < 2; i++) { r += show(p.arr[i], pre + "arr" + sh(i)); for (int j = 0; j < 3; j++) r += show(p.arr2[i][j], pre + "arr2" + sh(i) + sh(j)); for (int j = 0; j < 4; j++) r += show(p.arr3[i][j / 2][j % 2], pre + "arr3" + sh(i) + sh(j)); }
    r += show(p.d, pre + "d"); auto ptr = [&](E8 *e, Str n) { if (!e) { r += pre + n + " null\n"; return; } ALLOC_INFO *ai = mm->get_alloc_info_of(e); if (!ai) { r += pre + n + " unknown\n"; return; } r += pre + n + " " + (ai->name ? ai->name : "#") + " +" + sh((long)((char *)e - (char *)ai->start)) + "\n"; if (!ai->name) { int c = ai->num; for (int i = 0; i < c; i++) r += show(((E8 *)ai->start)[i], pre + n + "[" + sh(i) + "]"); } };
    ptr(p.ep, "ep"); ptr(p.epa[0], "epa0"); ptr(p.epa[1], "epa1"); return r;
}
static Str show(R8 &x, Str pre) { return pre + sh(x.rw) + sh(x.wo) + sh(x.m) + "\n"; }
static Str show(C8 &c, Str pre) { return pre + sh(c.x) + sh(c.x_0) + sh(c.m) + sh(c.m_keys) + sh(c.m_data) + sh(c.p) + sh(c.p_first) + sh(c.b_v) + "\n" + show(c.b, pre + ".b"); }
static Str show(T8 &t, Str pre) { return pre + sh(t.i) + sh(T8::sv) + "\n"; }
// ---- the world: variables by name ----
struct Var { Str name, decl; void *ext; Str (*show)(void *, Str, int); void (*reset)(void *); int n; };
static std::vector<Var> vars; static Str shown_before, text;
template <class T> static Str vshow(void *p, Str pre, int n) { Str r; for (int i = 0; i < n; i++) r += show(((T *)p)[i], pre + (n > 1 ? "[" + sh(i) + "]." : ".")); return r; }
template <class T> static T *declare(Str type, Str name, Str dims, int n, T *ext) { Var v; v.name = name; v.decl = type + " " + name + dims; v.ext = ext; v.show = vshow<T>; v.n = n; T *p = (T *)(ext ? mm->declare_extern_var(ext, v.decl.c_str()) : mm->declare_var(v.decl.c_str())); if (!p) mc::fail("declare", "%s is refused", v.decl.c_str()); vars.push_back(v); return p; }
static void *addr(const Str &n) { void *a = 0; REF2 *r = mm->ref_attributes(n.c_str()); if (r) { a = r->address; if (r->reference) free(r->reference); free(r); } return a; }
static Str world() { Str r; for (auto &v : vars) { void *a = addr(v.name); if (!a) { r += v.name + " is gone\n"; continue; } if (v.ext && a != v.ext) { r += v.name + " has moved\n"; continue; } r += v.show(a, v.name, v.n); } return r; }
static void new_manager() { delete mm; mm = new Trick::MemoryManager; for (const char *e : {"MMColor", "mmns::Kind", "ns8::Col8"}) { ATTRIBUTES a; memset((void *)&a, 0, sizeof a); mm->add_attr_info(e, &a, __FILE__, __LINE__); } }
// named and anonymous targets of pointers
static double td[3] = {0.5, 1.5, 2.5}; static U8 tu[2]; static MMInner ti[2]; static std::string ts[2];
static void targets() {
    menuU.clear(); menuD.clear(); menuI.clear(); menuS.clear();
    mm->declare_extern_var(td, "double td[3]"); mm->declare_extern_var(tu, "U8 tu[2]"); mm->declare_extern_var(ti, "MMInner ti[2]"); mm->declare_extern_var(ts, "std::string ts[2]");
    tu[0].a[0] = 40; tu[1].a[0] = 41; for (auto &u : tu) { u.d = 0; u.c = "tu"; } ti[0].i = 50; ti[1].i = 51; ts[0] = "t0"; ts[1] = "t1";
    menuD = {0, td, td + 2}; menuU = {0, tu, tu + 1, tu}; menuI = {0, ti + 1}; menuS = {0, ts + 1};
    if (mode != 2) { double *a = (double *)mm->declare_var("double[2]"); a[0] = 77; menuD.push_back(a + 1); U8 *u = (U8 *)mm->declare_var("U8"); u->a[0] = 78; u->c = "anon"; menuU[3] = u; MMInner *i = (MMInner *)mm->declare_var("MMInner[2]"); i->i = 79; menuI.push_back(i + 1); }
}
static Str fmt() { return Str(reduced ? "reduced" : "full") + (hexf ? " hexfloat" : "") + (mode == 0 ? ", emptied manager" : mode == 1 ? ", fresh manager" : ", live manager"); }
static Str diff(const Str &a, const Str &b) { std::istringstream x(a), y(b); Str l, m; while (std::getline(x, l)) { if (!std::getline(y, m)) m = "nothing"; if (l != m) return "was: " + l + "   is: " + m; } if (std::getline(y, m)) return "was: nothing   is: " + m; return ""; }
static size_t nalloc, nvars;
static const char *loose; // the history of a checkpoint read without its containers
static Str write_cp() {
    size_t n = mm->alloc_info_map.size(), v = mm->variable_map.size(); Str before = world();
    mm->set_reduced_checkpoint(reduced); mm->set_hexfloat_checkpoint(hexf); std::stringstream cp; mm->write_checkpoint(cp);
    if (getenv("MM_LOUD")) fprintf(stderr, "%s\n", cp.str().c_str());
    Str after = world(); if (after != before) mc::fail("write-changes", "writing the checkpoint changed a container (%s): %s", fmt().c_str(), diff(before, after).c_str());
    if (mm->alloc_info_map.size() != n || mm->variable_map.size() != v) mc::fail(loose ? loose : "write-storage", "%zu allocations and %zu names before the checkpoint, %zu and %zu after it (%s)\n%.1500s", n, v, mm->alloc_info_map.size(), mm->variable_map.size(), fmt().c_str(), cp.str().c_str());
    mc::state(mc::hash(cp.str())); return cp.str();
}
static void restore_cp(const Str &cp) {
    std::istringstream is(cp); 
    if (mode == 0) mm->init_from_checkpoint(&is, true);
    else if (mode == 1) { new_manager(); if (menuD.size()) { mm->declare_extern_var(td, "double td[3]"); mm->declare_extern_var(tu, "U8 tu[2]"); mm->declare_extern_var(ti, "MMInner ti[2]"); mm->declare_extern_var(ts, "std::string ts[2]"); } for (auto &v : vars) if (v.ext) mm->declare_extern_var(v.ext, v.decl.c_str()); mm->read_checkpoint(&is, true); }
    else mm->read_checkpoint(&is, true);
    if (!mm->get_checkpoint_restore_state()) mc::fail(loose ? loose : "restore-refused", "the checkpoint just written is not restored without errors (%s): %.1500s", fmt().c_str(), cp.c_str());
}
// the two known ways in which a container that was empty keeps what it held before: a full checkpoint does not mention it, a reduced one clears what can be cleared
static const char *kept(const Str &before, const Str &after) {
    std::set<Str> keys; { std::istringstream b(before); Str l; while (std::getline(b, l)) keys.insert(l.substr(0, l.find('='))); }
    Str rest; bool adapters = true, any = false; std::istringstream a(after); Str l;
    while (std::getline(a, l)) { size_t e = l.find('='); if (e == Str::npos || keys.count(l.substr(0, e))) { rest += l + "\n"; continue; } any = true; size_t d = l.find('.'); Str m = l.substr(d + 1, e - d - 1); if (m.compare(0, 2, "q_") && m.compare(0, 2, "k_") && m.compare(0, 3, "pq_")) adapters = false; }
    if (!any || rest != before || mode == 0 && !adapters) return 0; return !reduced ? "empty-kept-full" : adapters ? "empty-kept-adapter" : 0;
}
static void compare(const Str &before, size_t n, size_t v, const Str &cp, const char *sig = "content") {
    Str after = world(); if (after != before) { const char *k = kept(before, after); if (k) sig = k; Str d = diff(before, after); mc::fail(loose ? loose : sig, "after the restore (%s) %s\n%.1500s", fmt().c_str(), d.c_str(), cp.c_str()); }
    if (mm->alloc_info_map.size() != n || mm->variable_map.size() != v) { Str names; for (auto &x : mm->variable_map) names += x.first + " "; mc::fail(loose ? loose : "restore-storage", "%zu allocations and %zu names before, %zu and %zu after the restore (%s): %s\n%.1500s", n, v, mm->alloc_info_map.size(), mm->variable_map.size(), fmt().c_str(), names.c_str(), cp.c_str()); }
    mc::outcome(mc::hash(after));
}
template <class F> static void round_trip(F disturb) {
    Str before = world(); size_t n = mm->alloc_info_map.size(), v = mm->variable_map.size(); Str cp = write_cp(); disturb(); restore_cp(cp); compare(before, n, v, cp);
}
struct Guard { Guard() { mm = 0; vars.clear(); depth = 0; menuD.clear(); } ~Guard() { delete mm; mm = 0; vars.clear(); } };
static S8 ext_s, ext_s2[2]; static P8 ext_p; static E8 ext_e[8]; static R8 ext_r; static C8 ext_c; static T8 ext_t; static E8 ext_ab;
static void format() { int c = mc::choose(mc::thorough() ? 12 : 5, "format"); if (mc::thorough()) { mode = c % 3; reduced = c / 3 % 2; hexf = c / 6; return; } static const int F[5][3] = {{0, 1, 0}, {1, 0, 1}, {2, 1, 0}, {2, 0, 0}, {1, 1, 0}}; mode = F[c][0]; reduced = F[c][1]; hexf = F[c][2]; }
// every content of one container
static void contents() {
    int i = mc::choose(NF + NN, "member"); bool nest = i >= NF; bool T = mc::thorough();
    if (!nest) { nmax = T ? 3 : 3; nmax2 = 0; menu = T ? 5 : 3; if (i < NF && (flat[i].name[0] == 'm' && flat[i].name[1] != 's')) { nmax = 2; menu = T ? 4 : 3; } } else { nmax = 2; nmax2 = 2; menu = 2; if (!strcmp(mem(i).name, "v_v_v_i") || !strcmp(mem(i).name, "d_m_v_str") || !strcmp(mem(i).name, "l_p_p") || !strcmp(mem(i).name, "m_v_v") || !strcmp(mem(i).name, "m_str_m") || !strcmp(mem(i).name, "s_m_sd") || !strcmp(mem(i).name, "mm_p_v")) nmax2 = T ? 2 : 1, menu = T && strcmp(mem(i).name, "d_m_v_str") && strcmp(mem(i).name, "m_v_v") && strcmp(mem(i).name, "l_p_p") ? 2 : 1; if (!strcmp(mem(i).name, "mm_p_v") || !strcmp(mem(i).name, "m_p_p")) nmax = T ? 2 : 1; }
    targets(); bool ext = mode == 2 || mc::flip("external"); ext_s = S8(); S8 *s = declare<S8>("S8", "s", "", 1, ext ? &ext_s : 0);
    mem(i).gen(*s); bool other = ext && mc::flip("other content before");
    round_trip([&] { if (other) mem(i).oth(ext_s); else if (ext) ext_s = S8(); });
}
// two containers of one object
static void pairs() {
    int i = mc::choose(NF + NN, "member"), j = mc::choose(NF + NN, "other member"); if (j <= i) return;
    if (!mc::thorough() && (i + j) % 3 != (mode + reduced) % 3) return;
    bool ext = mode == 2 || mode == 0; S8 *s = declare<S8>("S8", "s", "", 1, ext ? &ext_s : 0); ext_s = S8(); mem(i).oth(*s); mem(j).oth(*s);
    bool clear = ext && mc::flip("changed before"); round_trip([&] { if (clear) ext_s = S8(); });
}
static void fill(E8 &e, int x, int kind) { e = E8(); e.k = x; e.s = "s" + std::to_string(x); e.p = {x, "p" + std::to_string(x)}; if (kind & 1) for (int i = 0; i <= x % 3; i++) e.v.push_back(x * 10 + i); if (kind & 2) e.m = {{x, 1}, {x + 100, 2}}; if (kind & 4) { e.vv = {{x}, {}, {x + 1, x + 2}}; } }
// every place a container can be in
static void places() {
    int kind = 1 + mc::choose(7, "contents"), shape = mc::choose(11, "place"); bool ext = mode == 2 || mc::flip("external"); E8 *e = 0; int n = 1; for (auto &x : ext_e) x = E8(); ext_p = P8();
    switch (shape) {
    case 0: e = declare<E8>("E8", "e", "", 1, ext ? ext_e : 0); break; case 1: e = declare<E8>("E8", "e", "[2]", n = 2, ext ? ext_e : 0); break; case 2: e = declare<E8>("E8", "e", "[2][3]", n = 6, ext ? ext_e : 0); break; case 3: e = declare<E8>("E8", "e", "[2][2][2]", n = 8, ext ? ext_e : 0); break; case 4: e = declare<E8>("E8", "e", "[3][2]", n = 6, ext ? ext_e : 0); break; case 5: e = declare<E8>("E8", "e", "[1][5]", n = 5, ext ? ext_e : 0); break;
    }
    if (e) { for (int i = 0; i < n; i++) fill(e[i], i + 1, kind); round_trip([&] { if (ext) for (auto &x : ext_e) x = E8(); }); return; }
    P8 *p = declare<P8>("P8", "p", "", 1, ext ? &ext_p : 0); p->n = 3;
    switch (shape) {
    case 6: { int x = 0; fill(p->e, ++x, kind); for (int i = 0; i < 2; i++) { fill(p->arr[i], ++x, kind); for (int j = 0; j < 3; j++) fill(p->arr2[i][j], ++x, kind); for (int j = 0; j < 4; j++) fill(p->arr3[i][j / 2][j % 2], ++x, kind); } fill(p->d, ++x, kind); p->d.st.push(4); p->d.st.push(5); break; }
    case 7: { if (mode == 2) return; p->ep = (E8 *)mm->declare_var("E8"); fill(*p->ep, 5, kind); break; }
    case 8: { if (mode == 2) return; p->ep = (E8 *)mm->declare_var("E8[3]"); for (int i = 0; i < 3; i++) fill(p->ep[i], 5 + i, kind); p->epa[1] = (E8 *)mm->declare_var("E8[2]") + 1; fill(p->epa[1][0], 8, kind); fill(p->epa[1][-1], 9, kind); break; }
    case 9: { E8 *x = declare<E8>("E8", "x", "[2]", 2, ext ? ext_e : 0); for (int i = 0; i < 2; i++) fill(x[i], 2 + i, kind); p->ep = x; p->epa[0] = x + 1; p->epa[1] = &p->arr2[1][2]; fill(p->arr2[1][2], 7, kind); fill(p->arr2[0][1], 8, kind); break; }
    case 10: { if (mode == 2) return; p->ep = (E8 *)mm->declare_var("E8[2][2]"); for (int i = 0; i < 4; i++) fill(p->ep[i], 5 + i, kind); break; }
    }
    round_trip([&] { if (ext) { E8 *q = ext_p.ep, *q0 = ext_p.epa[0], *q1 = ext_p.epa[1]; ext_p = P8(); (void)q; (void)q0; (void)q1; } });
}
// histories: several checkpoints, restored in another order
static void history() {
    bool ext = mode == 2 || mc::flip("external"); ext_s = S8(); S8 *s = declare<S8>("S8", "s", "", 1, ext ? &ext_s : 0); int i = mc::choose(NF + NN, "member"); Str w[2], c[2]; size_t n = mm->alloc_info_map.size(), v = mm->variable_map.size(); 
    int first = mc::flip("first filled"), second = mc::flip("second filled");
    auto put = [&](bool f) { S8 *s = (S8 *)addr("s"); *s = S8(); if (f) mem(i).oth(*s); };
    put(first); w[0] = world(); c[0] = write_cp(); put(second); w[1] = world(); c[1] = write_cp(); if (write_cp() != c[1]) mc::fail("written-twice", "two checkpoints of the same contents differ: %.800s", c[1].c_str());
    int k = 1 + mc::choose(mc::thorough() ? 3 : 2, "restores"); for (int r = 0; r < k; r++) { int q = mc::choose(2, "which"); put(mc::flip("filled before")); restore_cp(c[q]); compare(w[q], n, v, c[q], "history"); }
    // and what was restored can be written again
    Str a = world(), again = write_cp(); restore_cp(again); compare(a, n, v, again, "history");
}
// without the containers
static void without() {
    struct L { L() { loose = "without-containers"; } ~L() { loose = 0; } } l;
    ext_s = S8(); bool ext = mode == 2 || mc::flip("external"); S8 *s = declare<S8>("S8", "s", "", 1, ext ? &ext_s : 0); int i = mc::choose(NF + NN, "member"); size_t n = mm->alloc_info_map.size(), v = mm->variable_map.size();
    mem(i).oth(*s); Str w = world(), c = write_cp(); if (mode == 2) ext_s = S8(); std::istringstream is(c); if (mode == 0) mm->init_from_checkpoint(&is, false); else if (mode == 1) { new_manager(); if (ext) mm->declare_extern_var(&ext_s, "S8 s"); mm->read_checkpoint(&is, false); } else mm->read_checkpoint(&is, false);
    s = (S8 *)addr("s"); if (!s) mc::fail("lost", "s"); if (mc::flip("changed")) { *s = S8(); mem((i + 1) % (NF + NN)).oth(*s); } w = world(); mm->set_reduced_checkpoint(reduced);
    std::stringstream cp; mm->write_checkpoint(cp); restore_cp(cp.str()); compare(w, n, v, cp.str(), "history");
}
static void perms() {
    R8 *r = declare<R8>("R8", "r", "", 1, &ext_r); int m = mc::choose(32, "filled"); auto seq = [&](int b, int x) { std::vector<int> v; if (m >> b & 1) v = {x, x + 1}; return v; };
    *r = R8(); r->rw = seq(0, 1); r->ro = seq(1, 3); r->none = seq(2, 5); r->wo = seq(3, 7); if (m & 16) r->m[1] = 2;
    size_t n = mm->alloc_info_map.size(), v = mm->variable_map.size(); R8 before = *r; Str cp = write_cp(); bool junk = mc::flip("other content before"); *r = R8(); if (junk) { r->rw = r->ro = r->none = r->wo = {99}; r->m[99] = 1; }
    R8 dist = *r; restore_cp(cp);
    if (sh(r->rw) != sh(before.rw) || sh(r->m) != sh(before.m)) mc::fail(!reduced && (sh(r->rw) == sh(before.rw) || before.rw.empty() && sh(r->rw) == sh(dist.rw)) && (sh(r->m) == sh(before.m) || before.m.empty() && sh(r->m) == sh(dist.m)) ? "empty-kept-full" : "content", "a container with all permissions was %s and is %s", sh(before.rw).c_str(), sh(r->rw).c_str());
    if (mode == 2 && (sh(r->ro) != sh(dist.ro) || sh(r->none) != sh(dist.none))) mc::fail("perm-not-restorable", "a container without input permission changed (%s): %s %s", fmt().c_str(), sh(r->ro).c_str(), sh(r->none).c_str());
    (void)n; (void)v;
}
// names which meet when they are made from the names of variables and members
static void names() {
    struct L { L() { loose = "name-clash"; } ~L() { loose = 0; } } l;
    int k = mc::choose(6, "names"); C8 *c = declare<C8>("C8", "a", "", 1, &ext_c); *c = C8(); ext_ab = E8();
    switch (k) {
    case 0: c->x = {{1, 2}, {3}}; c->x_0 = {4, 5, 6}; break; case 1: c->m = {{1, 2}}; c->m_keys = {4, 5}; break; case 2: c->m = {{1, 2}}; c->m_data = {4, 5}; break; case 3: c->p = {1, 2}; c->p_first = {4, 5}; break; case 4: c->b.v = {1, 2}; c->b_v = {4, 5, 6}; break;
    case 5: { E8 *e = declare<E8>("E8", "a_b", "", 1, &ext_ab); e->v = {1, 2}; c->b.v = {4, 5, 6}; break; }
    }
    if (mc::flip("user variable")) { int *u = (int *)mm->declare_var("int a_b_v[2]"); u[0] = 5; u[1] = 6; }
    round_trip([&] { *c = C8(); ext_ab = E8(); });
    int *u = (int *)addr("a_b_v"); (void)u;
}
static void statics() { T8::sv = {1, 2, 3}; int n = mc::choose(3, "size"); T8::sv.resize(n); T8 *t = declare<T8>("T8", "t", "", 1, mode == 2 || mc::flip("external") ? &ext_t : 0); t->i = 4; bool junk = (n || reduced) && mc::flip("other content before"); round_trip([&] { T8::sv.clear(); if (junk) T8::sv = {7, 7, 7, 7}; }); }
static void body() {
    Guard g; new_manager(); int what = mc::choose(8, "part"); format();
    switch (what) { case 0: contents(); break; case 1: pairs(); break; case 2: places(); break; case 3: history(); break; case 4: without(); break; case 5: perms(); break; case 6: names(); break; case 7: statics(); break; }
}
int main(int argc, char **argv) {
    static struct Null : std::streambuf { int overflow(int c) { return c; } } nb; if (!getenv("MM_LOUD")) { std::cerr.rdbuf(&nb); fflush(stdout); } std::cout.rdbuf(&nb);
    mc::Options o; o.split = 5; o.timeout_s = 60; return mc::run(argc, argv, o, body);
}
