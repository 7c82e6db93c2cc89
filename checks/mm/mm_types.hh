/*
PURPOSE: (types for the memory manager checks)
LIBRARY DEPENDENCY: ((mm_types.cpp))
*/
#ifndef MM_TYPES_HH
#define MM_TYPES_HH
#include <string>
enum MMColor { MM_RED, MM_GREEN = 5, MM_BLUE = -3 };
namespace mmns { enum class Kind : short { one = 1, two = 2 }; struct Nested { int x; float y[2]; }; }
struct MMInner { int i; double d[2]; char c[4]; };
class MMBase { public: MMBase() : base_i(0), bs(0), bp(0) {} virtual ~MMBase() {} int base_i; short bs; double *bp; };
class MMMix { public: MMMix() : mixv(0) {} long mixv; int mixa[2]; };
class MMDeriv : public MMBase, public MMMix { public: MMDeriv() : di(0), u3(0), s5(0), u1(0), u23(0) { in.i = 0; in.d[0] = in.d[1] = 0; in.c[0] = in.c[1] = in.c[2] = in.c[3] = 0; mixa[0] = mixa[1] = 0; dip = 0; } int di; unsigned u3 : 3; int s5 : 5; unsigned u1 : 1; unsigned u23 : 23; MMInner in; MMInner *dip; };
struct MMOuter {
    MMInner in; MMInner arr[2][3]; MMInner *p; MMInner *pa[2]; MMInner **pp; double *dp; double m[2][3]; double (*pm)[3]; double **dpp;
    char *s; char *sa[2]; std::string str; std::string strs[2]; MMColor col; MMColor cols[2]; mmns::Kind kind; bool flag; bool flags[3];
    mmns::Nested ns; MMOuter *next; void *vp; MMDeriv der; wchar_t wc; std::string *sp;
};
struct MMScalars {
    char c; unsigned char uc; short s; unsigned short us; int i; unsigned int ui; long l; unsigned long ul; long long ll; unsigned long long ull;
    float f; double d; bool b; MMColor e; wchar_t w; int ia[2][2]; char ca[6]; float fa[3]; double da[2]; unsigned char uca[3]; wchar_t wa[4];
    unsigned u3 : 3; int s5 : 5; unsigned u24 : 24; std::string str; char *cp; double *dp; int *ip; mmns::Kind k; short sha[2]; long la[2]; bool ba[2]; MMColor ea[2]; unsigned long long ulla[2];
};
struct MMPerm {
    int rw;   /* *io (--) both */
    int ro;   /* *o (--) checkpoint output only */
    int none; /* ** (--) neither */
    int wo;   /* *i (--) checkpoint input only */
};
struct MMNode { int v; MMNode *l; MMNode *r; MMNode *kids[2]; int *ref; int own[3]; };
#endif
