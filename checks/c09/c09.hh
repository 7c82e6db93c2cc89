// tables the generated part of the C09 harness fills in
#pragma once
#include <cstddef>
#include <cstring>
#include <vector>
#include <string>
#include "trick/attributes.h"
namespace c09 {
struct Exp {
    const char *name; int need;             // 1: must be described, 0: must be left out
    const char *type_name; int type; long size; long offset; int nd; int d[8]; int io; const char *units; const char *des; int stat; int dash;
    int ref; int sub; int stl; int stl_elem; void (*setbits)(void *); int width;
};
struct Cand { const char *name; long offset; long size; };          // offset -1: the name denotes no member
struct Sub { const char *what; const char *simple; long offset; long size; void (*setbits)(void *); int width; bool hidden; };
struct Cls { const char *name; ATTRIBUTES *attr; void (*init)(); size_t (*size)(); long truesize; const Exp *e; int ne; const Cand *c; int nc; const Sub *s; int ns; };
struct EnE { const char *name; long long value; int fits; };
struct En { const char *name; ENUM_ATTR *attr; const EnE *e; int ne; int uns; size_t (*size)(); long truesize; };
extern const Cls classes[]; extern const int n_classes;
extern const En enums[]; extern const int n_enums;
}
