// Snapshots of the managed memory, by hand-written layout: the oracle of the checkpoint checks.
#ifndef MM_SNAP_HH
#define MM_SNAP_HH
#include "mm_model.hh"
#include <math.h>
#include <map>
#include <string.h>
namespace mmm {
// a cell is a leaf of a type: scalar, string or pointer
struct Cell { int kind; /* 0 integer 1 float 2 double 3 string 4 pointer 5 char pointer */ long long v; double d; std::string s; void *p; std::string path; bool operator==(const Cell &o) const { return kind == o.kind && v == o.v && s == o.s && p == o.p && (kind == 1 || kind == 2 ? (d == o.d || (d != d && o.d != o.d)) : true); } };
struct Obj { std::string name; const Type *t; std::vector<int> dims; char *start; size_t bytes; bool ext; std::vector<Cell> cells; };
static inline long long bits(const char *a, int start, int n, bool sgn) { unsigned w = *(unsigned *)a; unsigned v = (w << start) >> (32 - n); if (sgn && (v >> (n - 1))) return (long long)(int)(v | (~0u << n)); return v; }
// a member which cannot be restored is left out
typedef bool (*Skip)(const Type *, const Member &);
static void cells(char *a, const Type *t, const std::vector<int> &d, size_t k, int bs, int bn, const std::string &path, std::vector<Cell> &out, Skip skip) {
    if (k < d.size()) {
        if (d[k] == 0) {
            Cell c{}; c.path = path; void *p = *(void **)a;
            if (t->tt == TRICK_CHARACTER && k + 1 == d.size()) { c.kind = 5; c.v = p != 0; if (p) c.s = (char *)p; } else { c.kind = 4; c.p = p; }
            out.push_back(c); return;
        }
        size_t sz = elem_size(t, d, k + 1);
        for (int i = 0; i < d[k]; i++) cells(a + i * sz, t, d, k + 1, bs, bn, path + "[" + std::to_string(i) + "]", out, skip);
        return;
    }
    Cell c{}; c.path = path;
    switch (t->tt) {
    case TRICK_STRUCTURED: for (auto &m : t->m) if (!skip || !skip(t, m)) cells(a + m.off, m.t, m.dims, 0, m.bit_start, m.bit_n, path + "." + m.name, out, skip); return;
    case TRICK_CHARACTER: c.v = *(signed char *)a; break; case TRICK_UNSIGNED_CHARACTER: c.v = *(unsigned char *)a; break; case TRICK_SHORT: c.v = *(short *)a; break; case TRICK_UNSIGNED_SHORT: c.v = *(unsigned short *)a; break;
    case TRICK_INTEGER: case TRICK_WCHAR: c.v = *(int *)a; break; case TRICK_UNSIGNED_INTEGER: c.v = *(unsigned *)a; break; case TRICK_LONG: case TRICK_LONG_LONG: case TRICK_UNSIGNED_LONG: case TRICK_UNSIGNED_LONG_LONG: c.v = *(long long *)a; break;
    case TRICK_BOOLEAN: c.v = *(unsigned char *)a; break; case TRICK_ENUMERATED: c.v = t->size == 1 ? *(signed char *)a : t->size == 2 ? *(short *)a : *(int *)a; break;
    case TRICK_BITFIELD: c.v = bits(a, bs, bn, true); break; case TRICK_UNSIGNED_BITFIELD: c.v = bits(a, bs, bn, false); break;
    case TRICK_FLOAT: c.kind = 1; c.d = *(float *)a; break; case TRICK_DOUBLE: c.kind = 2; c.d = *(double *)a; break;
    case TRICK_STRING: c.kind = 3; c.s = *(std::string *)a; break;
    default: abort();
    }
    out.push_back(c);
}
static inline void snap(Obj &o, Skip skip = 0) { o.cells.clear(); o.bytes = elem_size(o.t, o.dims, 0); cells(o.start, o.t, o.dims, 0, 0, 0, o.name, o.cells, skip); }
// what decimal text keeps of a value
static inline double kept(const Cell &c, bool hex) { if (hex || c.d != c.d || isinf(c.d)) return c.d; char b[64]; if (c.kind == 1) { snprintf(b, sizeof b, "%.8g", c.d); return (float)atof(b); } snprintf(b, sizeof b, "%.16g", c.d); return atof(b); }
}
#endif
