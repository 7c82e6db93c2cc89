/* PURPOSE: (types the generated classes use) */
#ifndef C09_DEFS_HH
#define C09_DEFS_HH
#include <cstdio>
#include <string>
#include <vector>
#include <deque>
#include <array>
#include <list>
#include <set>
#include <map>
#include <queue>
#include <stack>
#include <complex>
#include <utility>
#include <memory>
#include <unordered_map>
enum GEnum { GE_A, GE_B = 7 };
enum class GScoped : short { A = -1, B = 2 };
typedef enum { TE_A = 3, TE_B } TEnum;
struct GStruct { int i; double d[2]; };
typedef struct { short s; } TStruct;
union GUnion { int i; double d; };
class GOuter { public: struct Emb { char c; long l; }; enum EmbEnum { EE_A = 1, EE_B }; int o; };
namespace ns9 { struct NStruct { float f; }; enum NEnum { NE_A = -4, NE_B }; namespace in9 { struct NNStruct { char c[3]; }; } }
template <class T> struct GT { T t; T arr[2]; T *p; };
template <class T, int N> struct GV { char c; T v[N]; };
template <class T> struct GE { struct In { T a; short b; }; In e; };
typedef int TInt; typedef double TArr[3]; typedef int *TPtr; typedef TInt TInt2; typedef GStruct TGS;
#endif
