// Hand-written layout of mm_types.hh (offsetof and sizeof of the compiler): the oracle of the reference checks.
#ifndef MM_MODEL_HH
#define MM_MODEL_HH
#include <stddef.h>
#include <vector>
#include <string>
#include "trick/MemoryManager.hh"
#include "mm_types.hh"
namespace mmm {
struct Type;
// dims: > 0 fixed, 0 pointer, outermost first
struct Member { const char *name; size_t off; const Type *t; std::vector<int> dims; int bit_start, bit_n; };
struct Type { const char *name; size_t size; TRICK_TYPE tt; std::vector<Member> m; Type(const char *n, size_t s, TRICK_TYPE t) : name(n), size(s), tt(t) {} };
static Type t_char("char", 1, TRICK_CHARACTER), t_uchar("unsigned char", 1, TRICK_UNSIGNED_CHARACTER), t_short("short", 2, TRICK_SHORT), t_ushort("unsigned short", 2, TRICK_UNSIGNED_SHORT), t_int("int", 4, TRICK_INTEGER),
    t_uint("unsigned int", 4, TRICK_UNSIGNED_INTEGER), t_long("long", 8, TRICK_LONG), t_ulong("unsigned long", 8, TRICK_UNSIGNED_LONG), t_ll("long long", 8, TRICK_LONG_LONG), t_ull("unsigned long long", 8, TRICK_UNSIGNED_LONG_LONG),
    t_float("float", 4, TRICK_FLOAT), t_double("double", 8, TRICK_DOUBLE), t_bool("bool", sizeof(bool), TRICK_BOOLEAN), t_wchar("wchar_t", sizeof(wchar_t), TRICK_WCHAR), t_string("std::string", sizeof(std::string), TRICK_STRING),
    t_color("MMColor", sizeof(MMColor), TRICK_ENUMERATED), t_kind("mmns::Kind", sizeof(mmns::Kind), TRICK_ENUMERATED), t_ubf("unsigned int", 4, TRICK_UNSIGNED_BITFIELD), t_bf("int", 4, TRICK_BITFIELD),
    t_nested("mmns::Nested", sizeof(mmns::Nested), TRICK_STRUCTURED), t_inner("MMInner", sizeof(MMInner), TRICK_STRUCTURED), t_deriv("MMDeriv", sizeof(MMDeriv), TRICK_STRUCTURED), t_outer("MMOuter", sizeof(MMOuter), TRICK_STRUCTURED),
    t_scalars("MMScalars", sizeof(MMScalars), TRICK_STRUCTURED), t_node("MMNode", sizeof(MMNode), TRICK_STRUCTURED);
static inline size_t elem_size(const Type *t, const std::vector<int> &d, size_t from) {
    size_t n = 1; for (size_t i = from; i < d.size(); i++) { if (d[i] == 0) return n * sizeof(void *); n *= d[i]; } return n * t->size; }
#define MO(S, f) offsetof(S, f)
static void build() {
    t_inner.m = {{"i", MO(MMInner, i), &t_int, {}}, {"d", MO(MMInner, d), &t_double, {2}}, {"c", MO(MMInner, c), &t_char, {4}}};
    t_nested.m = {{"x", MO(mmns::Nested, x), &t_int, {}}, {"y", MO(mmns::Nested, y), &t_float, {2}}};
    static MMDeriv z; size_t b = (size_t)&z;
#define DO(f) ((size_t)&z.f - b)
    t_deriv.m = {{"base_i", DO(base_i), &t_int, {}}, {"bs", DO(bs), &t_short, {}}, {"bp", DO(bp), &t_double, {0}}, {"mixv", DO(mixv), &t_long, {}}, {"mixa", DO(mixa), &t_int, {2}}, {"di", DO(di), &t_int, {}},
        {"u3", DO(di) + 4, &t_ubf, {}, 29, 3}, {"s5", DO(di) + 4, &t_bf, {}, 24, 5}, {"u1", DO(di) + 4, &t_ubf, {}, 23, 1}, {"u23", DO(di) + 4, &t_ubf, {}, 0, 23}, {"in", DO(in), &t_inner, {}}, {"dip", DO(dip), &t_inner, {0}}};
    t_outer.m = {{"in", MO(MMOuter, in), &t_inner, {}}, {"arr", MO(MMOuter, arr), &t_inner, {2, 3}}, {"p", MO(MMOuter, p), &t_inner, {0}}, {"pa", MO(MMOuter, pa), &t_inner, {2, 0}}, {"pp", MO(MMOuter, pp), &t_inner, {0, 0}}, {"dp", MO(MMOuter, dp), &t_double, {0}},
        {"m", MO(MMOuter, m), &t_double, {2, 3}}, {"pm", MO(MMOuter, pm), &t_double, {0, 3}}, {"dpp", MO(MMOuter, dpp), &t_double, {0, 0}}, {"s", MO(MMOuter, s), &t_char, {0}}, {"sa", MO(MMOuter, sa), &t_char, {2, 0}}, {"str", MO(MMOuter, str), &t_string, {}},
        {"strs", MO(MMOuter, strs), &t_string, {2}}, {"col", MO(MMOuter, col), &t_color, {}}, {"cols", MO(MMOuter, cols), &t_color, {2}}, {"kind", MO(MMOuter, kind), &t_kind, {}}, {"flag", MO(MMOuter, flag), &t_bool, {}}, {"flags", MO(MMOuter, flags), &t_bool, {3}},
        {"ns", MO(MMOuter, ns), &t_nested, {}}, {"next", MO(MMOuter, next), &t_outer, {0}}, {"der", MO(MMOuter, der), &t_deriv, {}}, {"wc", MO(MMOuter, wc), &t_wchar, {}}, {"sp", MO(MMOuter, sp), &t_string, {0}}};
#define MS(f, T, ...) {#f, MO(MMScalars, f), &T, __VA_ARGS__}
    static MMScalars y; (void)y; size_t bo = MO(MMScalars, wa) + sizeof(y.wa);
    t_scalars.m = {MS(c, t_char, {}), MS(uc, t_uchar, {}), MS(s, t_short, {}), MS(us, t_ushort, {}), MS(i, t_int, {}), MS(ui, t_uint, {}), MS(l, t_long, {}), MS(ul, t_ulong, {}), MS(ll, t_ll, {}), MS(ull, t_ull, {}), MS(f, t_float, {}), MS(d, t_double, {}), MS(b, t_bool, {}),
        MS(e, t_color, {}), MS(w, t_wchar, {}), MS(ia, t_int, {2, 2}), MS(ca, t_char, {6}), MS(fa, t_float, {3}), MS(da, t_double, {2}), MS(uca, t_uchar, {3}), MS(wa, t_wchar, {4}), {"u3", bo, &t_ubf, {}, 29, 3}, {"s5", bo, &t_bf, {}, 24, 5}, {"u24", bo, &t_ubf, {}, 0, 24},
        MS(str, t_string, {}), MS(cp, t_char, {0}), MS(dp, t_double, {0}), MS(ip, t_int, {0}), MS(k, t_kind, {}), MS(sha, t_short, {2}), MS(la, t_long, {2}), MS(ba, t_bool, {2}), MS(ea, t_color, {2}), MS(ulla, t_ull, {2})};
    t_node.m = {{"v", MO(MMNode, v), &t_int, {}}, {"l", MO(MMNode, l), &t_node, {0}}, {"r", MO(MMNode, r), &t_node, {0}}, {"kids", MO(MMNode, kids), &t_node, {2, 0}}, {"ref", MO(MMNode, ref), &t_int, {0}}, {"own", MO(MMNode, own), &t_int, {3}}};
}
}
#endif
