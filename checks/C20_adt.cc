// C20: every operation sequence up to a depth on each container, against std containers, under AddressSanitizer.
#define MC_MAIN
#include "mc.hh"
#include <deque>
#include <algorithm>
extern "C" size_t __sanitizer_get_current_allocated_bytes();
extern "C" {
#include "trick/dllist.h"
#include "trick/lqueue.h"
#include "trick/lstack.h"
#include "trick/bst.h"
#include "trick/MapStrToPtr.h"
#include "trick/record_array.h"
}
static int D[16];                                   // data objects
#define CK(c, sig, ...) do { if (!(c)) mc::fail(sig, __VA_ARGS__); } while (0)
static int eqcmp(void *a, void *b) { return *(int *)a == *(int *)b; }
static void check_list(DLLIST *l, const std::vector<int *> &m, const char *op) {
    CK(DLL_GetCount(l) == (int)m.size(), "list-count", "after %s: count %d want %d", op, DLL_GetCount(l), (int)m.size());
    DLLPOS p = DLL_GetHeadPosition(l); size_t i = 0;
    while (p) { CK(i < m.size(), "list-forward-long", "after %s", op); DLLPOS q = p; void *d = DLL_GetNext(&p, l); CK(d == m[i], "list-forward", "after %s at %zu", op, i); CK(DLL_GetAt(q, l) == d, "list-getat", "%s", op); i++; }
    CK(i == m.size(), "list-forward-short", "after %s", op);
    p = DLL_GetTailPosition(l);
    while (p) { CK(i > 0, "list-backward-long", "after %s", op); i--; CK(DLL_GetPrev(&p, l) == m[i], "list-backward", "after %s at %zu", op, i); }
    CK(i == 0, "list-backward-short", "after %s", op);
    for (size_t k = 0; k < m.size(); k++) { DLLPOS q = DLL_FindIndex(k, l); CK(q && q->info == m[k], "list-findindex", "after %s idx %zu", op, k);
        DLLPOS r = DLL_FindPos(m[k], l); size_t f = std::find(m.begin(), m.end(), m[k]) - m.begin(); CK(r == DLL_FindIndex(f, l), "list-findpos", "after %s", op);
        CK(DLL_Find(m[k], l) != 0 && *(int *)DLL_Find(m[k], l) == *m[k], "list-find", "after %s", op); }
    CK(DLL_FindIndex(m.size(), l) == NULL && DLL_FindIndex(-1, l) == NULL, "list-findindex-range", "after %s", op);
    CK(DLL_FindPos(&D[15], l) == NULL, "list-findpos-absent", "after %s", op); CK(DLL_Find(&D[15], l) == NULL, "list-find-absent", "after %s", op);
    uint64_t h = 1; for (auto x : m) h = mc::mix(h, *x + 7); mc::state(h); mc::outcome(h); mc::step();
}
static void t_list() {
    DLLIST *l = DLL_Create(); l->compare = eqcmp; std::vector<int *> m; std::vector<DLLPOS> ps; int depth = mc::thorough() ? 6 : 5;
    DLLIST other; DLL_Init(&other); DLLPOS foreign = DLL_AddHead(&D[9], &other); DLL_AddTail(&D[10], &other);
    for (int k = 0; k < depth; k++) {
        int n = m.size(), op = mc::choose(3 + 4 * n + 1, "op"); int *d = &D[k % 3]; char nm[40];
        int bad = 0; (void)bad;
        if (op == 0) { strcpy(nm, "AddHead"); DLLPOS p = DLL_AddHead(d, l); CK(p && p == DLL_GetHeadPosition(l), "list-ret", "AddHead"); m.insert(m.begin(), d); }
        else if (op == 1) { strcpy(nm, "AddTail"); DLLPOS p = DLL_AddTail(d, l); CK(p && p == DLL_GetTailPosition(l), "list-ret", "AddTail"); m.push_back(d); }
        else if (op == 2) { strcpy(nm, "RemoveAll"); DLL_RemoveAll(l); m.clear(); }
        else if (op == 3 + 4 * n) { strcpy(nm, "illegal"); // foreign nodes and NULLs: refused, nothing changes
            CK(DLL_RemoveAt(foreign, l) == NULL && DLL_GetAt(foreign, l) == NULL && DLL_SetAt(foreign, d, l) == NULL, "list-foreign", "foreign node accepted");
            CK(DLL_RemoveAt(NULL, l) == NULL && DLL_InsertBefore(NULL, d, l) == NULL && DLL_InsertAfter(NULL, d, l) == NULL && DLL_GetAt(NULL, l) == NULL, "list-null", "NULL position accepted");
            CK(DLL_GetCount(&other) == 2 && foreign->info == &D[9], "list-foreign", "foreign list damaged"); }
        else { int w = (op - 3) / n, i = (op - 3) % n; DLLPOS p = DLL_FindIndex(i, l); CK(p, "list-findindex", "%d", i);
            if (w == 0) { sprintf(nm, "InsertBefore(%d)", i); DLLPOS q = DLL_InsertBefore(p, d, l); CK(q && q->info == d, "list-ret", "InsertBefore"); m.insert(m.begin() + i, d); }
            if (w == 1) { sprintf(nm, "InsertAfter(%d)", i); DLLPOS q = DLL_InsertAfter(p, d, l); CK(q && q->info == d, "list-ret", "InsertAfter"); m.insert(m.begin() + i + 1, d); }
            if (w == 2) { sprintf(nm, "RemoveAt(%d)", i); CK(DLL_RemoveAt(p, l) == m[i], "list-remove-ret", "RemoveAt(%d)", i); m.erase(m.begin() + i); }
            if (w == 3) { sprintf(nm, "SetAt(%d)", i); CK(DLL_SetAt(p, &D[4], l) == m[i], "list-setat-ret", "SetAt(%d)", i); m[i] = &D[4]; } }
        mc::trace("%s", nm); check_list(l, m, nm);
    }
    DLL_RemoveAll(&other); DLL_Delete(l);
}
static void t_stackqueue() {
    bool st = mc::flip("stack"); LSTACK *s = LS_Create(); LQUEUE *q = LQ_Create(); std::deque<int *> m; int depth = mc::thorough() ? 11 : 8;
    for (int k = 0; k < depth; k++) {
        int op = mc::choose(4, "op"); int *d = &D[op];
        if (op < 2) { if (st) { LS_Push(d, s); m.push_front(d); } else { LQ_EnQ(d, q); m.push_back(d); } }
        else { void *e = m.empty() ? NULL : m.front(), *r;
            if (op == 2) { r = st ? LS_Pop(s) : LQ_DeQ(q); if (!m.empty()) m.pop_front(); } else r = st ? LS_Peek(s) : LQ_Peek(q);
            CK(r == e, st ? "stack-value" : "queue-value", "op %d returned %ld want %ld", op, r ? (long)((int *)r - D) : -1, e ? (long)((int *)e - D) : -1); }
        int n = st ? LS_GetCount(s) : LQ_GetCount(q); CK(n == (int)m.size(), st ? "stack-count" : "queue-count", "%d want %d", n, (int)m.size());
        uint64_t h = st + 2; for (auto x : m) h = mc::mix(h, x - D); mc::state(h); mc::outcome(h); mc::step();
    }
    while (LS_GetCount(s)) LS_Pop(s); free(s); LQ_Delete(q);
}
static std::vector<int> seen; static std::vector<int> freed;
static int icmp(void *a, void *b) { int x = *(int *)a, y = *(int *)b; return x < y ? -1 : x > y; }
static void trav(void *i) { seen.push_back(*(int *)i); if (seen.size() > 100) mc::fail("tree-traverse-loop", "traversal does not end"); }
static void prt(FILE *, void *i) { trav(i); }
static void del(void *i) { freed.push_back(*(int *)i); }
static int shape(bstNode *n, bstNode *par, int lo, int hi, uint64_t &h) {
    if (!n) { h = mc::mix(h, 99); return 0; }
    CK(n->parent == par, "tree-parent", "parent link wrong at %d", *(int *)n->info);
    int v = *(int *)n->info; CK(v >= lo && v <= hi, "tree-order", "%d outside [%d,%d]", v, lo, hi); h = mc::mix(h, v);
    int a = shape(n->left, n, lo, v, h), b = shape(n->right, n, v, hi, h); return a + b + 1;
}
static void t_tree() {
    BST b; memset(&b, 0, sizeof b); bstInit(&b); bstSetCompareFunc(&b, icmp); bstSetTraverseFunc(&b, trav); bstSetPrintFunc(&b, prt); bstSetDeleteFunc(&b, del);
    std::multiset<int> m; int K = 5, depth = mc::thorough() ? 8 : 6; bool dup = mc::flip("dup");
    if (dup) { K = 3; }
    for (int k = 0; k < depth; k++) {
        int op = mc::choose(2 * K + 1, "op");
        if (op == 2 * K) { freed.clear(); std::vector<int> e(m.begin(), m.end()); bstDeleteTree(&b); std::sort(freed.begin(), freed.end()); CK(freed == e, "tree-deletetree", "deleted %zu of %zu", freed.size(), e.size()); m.clear(); mc::trace("deltree"); }
        else if (op < K) { int v = op; if (!dup && m.count(v)) continue; mc::trace("insert %d", v); bstNode *n = bstInsert(&D[v], &b); CK(n && bstGetInfo(n) == &D[v], "tree-insert-ret", "%d", v); m.insert(v); }
        else { int v = op - K; bstNode *n = bstFind(&D[v], &b); CK((n != NULL) == (m.count(v) > 0), "tree-find", "find %d: %s", v, n ? "found" : "absent");
            if (n) { CK(*(int *)n->info == v, "tree-find-value", "%d", v); void *r = bstDelete(n, &b); CK(r == &D[v], "tree-delete-ret", "%d", v); m.erase(m.find(v)); mc::trace("delete %d", v); } }
        uint64_t h = 5; int n = shape(b.root, NULL, -1, 100, h);
        CK(n == (int)m.size() && bstGetCount(&b) == n, "tree-count", "nodes %d count %d want %d", n, bstGetCount(&b), (int)m.size());
        std::vector<int> e(m.begin(), m.end());
        seen.clear(); bstTraverseTree(&b); CK(seen == e, "tree-traverse", "ascending traversal visits %zu of %zu", seen.size(), e.size());
        seen.clear(); bstPrintAscending(NULL, &b); CK(seen == e, "tree-print", "ascending print visits %zu of %zu", seen.size(), e.size());
        for (int v = 0; v < K; v++) CK((bstFind(&D[v], &b) != NULL) == (m.count(v) > 0), "tree-find", "find %d", v);
        mc::state(mc::mix(h, b.deltype)); mc::outcome(h); mc::step();
    }
    if (b.root) bstDeleteTree(&b);
}
// every insertion order of N keys, then every sequence of deletions
static void t_tree2() {
    int N = 7, ND = mc::thorough() ? 5 : 3; BST b; memset(&b, 0, sizeof b); bstInit(&b); bstSetCompareFunc(&b, icmp); bstSetTraverseFunc(&b, trav); bstSetDeleteFunc(&b, del);
    std::vector<int> left; for (int i = 0; i < N; i++) left.push_back(i);
    while (!left.empty()) { int k = mc::choose(left.size(), "insert"); mc::trace("insert %d", left[k]); bstInsert(&D[left[k]], &b); left.erase(left.begin() + k); }
    std::vector<int> m; for (int i = 0; i < N; i++) m.push_back(i);
    for (int d = 0; d < ND; d++) { int k = mc::choose(m.size(), "delete"); mc::trace("delete %d", m[k]); bstNode *n = bstFind(&D[m[k]], &b); CK(n && n->info == &D[m[k]], "tree-find", "%d", m[k]);
        CK(bstDelete(n, &b) == &D[m[k]], "tree-delete-ret", "%d", m[k]); m.erase(m.begin() + k);
        uint64_t h = 5; int c = shape(b.root, NULL, -1, 100, h); CK(c == (int)m.size() && bstGetCount(&b) == c, "tree-count", "nodes %d want %zu", c, m.size());
        seen.clear(); bstTraverseTree(&b); CK(seen == m, "tree-traverse", "visits %zu of %zu", seen.size(), m.size()); mc::state(h); mc::outcome(h); mc::step(); }
    freed.clear(); bstDeleteTree(&b); CK(freed.size() == m.size(), "tree-deletetree", "%zu of %zu", freed.size(), m.size());
}
static void t_map() {
    static char *keys[] = {(char *)"a", (char *)"b", (char *)"ab", (char *)"i"}; int K = 4, depth = mc::thorough() ? 6 : 5;
    MapStrToPtr *M = SM_Create(1 + mc::choose(3, "size")); std::map<std::string, int *> m;
    for (int k = 0; k < depth; k++) {
        int op = mc::choose(2 * K, "op"), v = op % K; int *d = &D[k];
        char kb[8]; strcpy(kb, keys[v]);             // the map must keep its own copy of the key
        void *e = m.count(kb) ? (void *)m[kb] : NULL;
        if (op < K) { void *r = SM_Map(kb, d, M); CK(r == e, "map-map-ret", "key %s", kb); m[kb] = d; }
        else { void *r = SM_RemoveKey(kb, M); CK(r == e, "map-remove-ret", "key %s", kb); m.erase(kb); }
        strcpy(kb, "zz");
        CK(M->m_Count == (int)m.size(), "map-count", "%d want %zu", M->m_Count, m.size());
        for (int i = 0; i < K; i++) { void *w = m.count(keys[i]) ? (void *)m[keys[i]] : NULL; CK(SM_Lookup(keys[i], M) == w, "map-lookup", "key %s", keys[i]); }
        StrMapIterator *it = SMI_Create(M); char *key = 0; std::map<std::string, int *> got; std::vector<std::string> order;
        void *p = SMI_GetFirst(&key, it);
        while (p) { CK(!got.count(key), "map-iterate-twice", "%s", key); got[key] = (int *)p; order.push_back(key); if (order.size() == m.size()) break; p = SMI_GetNext(&key, it); }
        CK(got == m, "map-iterate", "iteration visits %zu of %zu", got.size(), m.size());
        for (int i = (int)order.size() - 2; i >= 0; i--) { p = SMI_GetPrev(&key, it); CK(p && order[i] == key && p == m[key], "map-iterate-back", "position %d", i); }
        if (order.size()) { CK(SMI_GetPrev(&key, it) == NULL, "map-iterate-back-end", "element before the first"); }
        SMI_Delete(it);
        uint64_t h = 9; for (auto &x : m) h = mc::mix(mc::mix(h, mc::hash(x.first)), x.second - D); mc::state(mc::mix(h, M->m_Size)); mc::outcome(h); mc::step();
    }
    SM_Delete(M);
}
static void t_array() {
    RecordArray *a = Array_Create(); int rs = 1 + mc::choose(3, "recsize") * 5; Array_SetRecordSize(rs, a); std::vector<std::vector<unsigned char>> m; int depth = mc::thorough() ? 6 : 5; unsigned char tag = 1;
    for (int k = 0; k < depth; k++) {
        int op = mc::choose(9, "op");
        auto fill = [&](void *p, size_t i) { memset(p, tag, rs); m[i].assign(rs, tag); tag++; };
        if (op == 0) { void *p = Array_AddRecord(a); m.push_back({}); fill(p, m.size() - 1); }
        else if (op < 5) { int idx[] = {0, (int)m.size() - 1, (int)m.size(), (int)m.size() + 12}; int i = idx[op - 1]; if (i < 0) continue; void *p = Array_GetAt(i, a); if (i >= (int)m.size()) m.resize(i + 1); fill(p, i); }
        else { int ns[] = {0, (int)m.size() - 1, (int)m.size() + 1, 25}; int n = ns[op - 5]; if (n < 0) continue; Array_SetCount(n, a); m.resize(n); }
        CK(Array_GetCount(a) == (int)m.size() && Array_GetRecordSize(a) == rs, "array-count", "%d want %zu", Array_GetCount(a), m.size());
        for (size_t i = 0; i < m.size(); i++) if (m[i].size()) CK(!memcmp(Array_GetAt(i, a), m[i].data(), rs), "array-content", "record %zu of %zu", i, m.size());
        CK(Array_GetBufferSize(a) >= (int)(rs * m.size() + 4), "array-buffersize", "%d", Array_GetBufferSize(a));
        mc::state(mc::hv(rs, m.size(), Array_GetBufferSize(a))); mc::outcome(m.size()); mc::step();
    }
    free(a->BufferSize); free(a);
}
static int gt(void *a, void *b) { return *(int *)a > *(int *)b; }
static void t_sort() {
    int n = mc::choose(mc::thorough() ? 8 : 7, "n"); DLLIST *l = DLL_Create(); l->compare = gt; std::vector<int *> m;
    for (int i = 0; i < n; i++) { int v = mc::choose(4, "v"); m.push_back(&D[v]); DLL_AddTail(&D[v], l); }
    bubble_sort(l); std::stable_sort(m.begin(), m.end(), [](int *a, int *b) { return *a < *b; });
    l->compare = eqcmp; check_list(l, m, "sort"); DLL_Delete(l);
}
int main(int c, char **v) {
    for (int i = 0; i < 16; i++) D[i] = i;
    stderr = fopen("/dev/null", "w"); static char eb[4096]; setvbuf(stderr, eb, _IOFBF, sizeof eb);
    mc::Options o; o.split = 4; o.timeout_s = 60;
    seen.reserve(256); freed.reserve(256);
    return mc::run(c, v, o, [] { size_t b0 = __sanitizer_get_current_allocated_bytes(); int w = mc::choose(7, "container"); switch (w) { case 0: t_list(); break; case 1: t_stackqueue(); break; case 2: t_tree(); break; case 3: t_map(); break; case 4: t_array(); break; case 5: t_sort(); break; case 6: t_tree2(); }
        size_t b1 = __sanitizer_get_current_allocated_bytes(); CK(b1 <= b0, (const char *[]){"leak:list", "leak:stackqueue", "leak:tree", "leak:map", "leak:array", "leak:sort", "leak:tree"}[w], "%zu bytes not returned", b1 - b0); });
}
