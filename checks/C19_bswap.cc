// C19: byte swapping of every structure layout in the bound against a byte-level reference.
#define MC_MAIN
#include "mc.hh"
#include "trick/attributes.h"
extern "C" {
#include "trick/trick_byteswap.h"
void *trick_bswap_buffer(void *out, void *in, ATTRIBUTES *attr, int tofrom);
void *trick_bswap_single_parameter(void *out, void *in, ATTRIBUTES *attr, int tofrom);
}
typedef std::vector<unsigned char> Bytes;
#define CK(c, sig, ...) do { if (!(c)) mc::fail(sig, __VA_ARGS__); } while (0)
// reference: list of (offset,size) scalars plus bit-field words
struct Bf { int off; std::vector<std::pair<int, int>> f; };   // (lsb,width) in the native word
struct Ref { std::vector<std::pair<int, int>> sc; std::vector<Bf> bf; };
static ATTRIBUTES A(const char *n, TRICK_TYPE t, int size, long off) { ATTRIBUTES a; memset(&a, 0, sizeof a); a.name = n; a.type = t; a.size = size; a.offset = off; a.io = 15; return a; }
static const TRICK_TYPE TY[9] = {TRICK_VOID, TRICK_CHARACTER, TRICK_SHORT, TRICK_VOID, TRICK_INTEGER, TRICK_VOID, TRICK_VOID, TRICK_VOID, TRICK_DOUBLE};
static int align(int o, int a) { return (o + a - 1) / a * a; }
struct Layout { std::vector<ATTRIBUTES> a; Ref r; int size = 0, al = 1; };
static Layout inner[3];
static void addk(Layout &L, int kind) {
    auto scalar = [&](int sz, std::vector<int> dims, TRICK_TYPE t) { L.size = align(L.size, sz); if (sz > L.al) L.al = sz; ATTRIBUTES a = A("m", t, sz, L.size); a.num_index = dims.size(); int n = 1; for (size_t i = 0; i < dims.size(); i++) { a.index[i].size = dims[i]; n *= dims[i]; }
        L.a.push_back(a); for (int i = 0; i < n; i++) L.r.sc.push_back({L.size + i * sz, sz}); L.size += n * sz; };
    auto bits = [&](std::vector<int> w) { L.size = align(L.size, 4); if (L.al < 4) L.al = 4; Bf b; b.off = L.size; int lsb = 0; for (int x : w) { ATTRIBUTES a = A("b", lsb % 2 ? TRICK_UNSIGNED_BITFIELD : TRICK_BITFIELD, 4, L.size); a.index[0].size = x; a.index[0].start = 32 - lsb - x; L.a.push_back(a); b.f.push_back({lsb, x}); lsb += x; } L.r.bf.push_back(b); L.size += 4; };
    auto nest = [&](int which, int n) { Layout &I = inner[which]; L.size = align(L.size, I.al); if (I.al > L.al) L.al = I.al; ATTRIBUTES a = A("s", TRICK_STRUCTURED, I.size, L.size); a.attr = I.a.data(); if (n > 1) { a.num_index = 1; a.index[0].size = n; } L.a.push_back(a);
        for (int k = 0; k < n; k++) { for (auto x : I.r.sc) L.r.sc.push_back({L.size + k * I.size + x.first, x.second}); for (auto b : I.r.bf) { b.off += L.size + k * I.size; L.r.bf.push_back(b); } } L.size += n * I.size; };
    switch (kind) {
        case 0: scalar(1, {}, TRICK_CHARACTER); break; case 1: scalar(2, {}, TRICK_UNSIGNED_SHORT); break; case 2: scalar(4, {}, TRICK_INTEGER); break; case 3: scalar(8, {}, TRICK_DOUBLE); break;
        case 4: scalar(1, {3}, TRICK_CHARACTER); break; case 5: scalar(2, {2}, TRICK_SHORT); break; case 6: scalar(4, {2, 3}, TRICK_FLOAT); break; case 7: scalar(8, {3}, TRICK_LONG); break;
        case 8: scalar(4, {2, 2, 2}, TRICK_UNSIGNED_INTEGER); break; case 9: bits({3, 13, 9, 7}); break; case 10: bits({1, 31}); break; case 11: bits({5, 6}); break; case 12: bits({31}); break;
        case 13: nest(0, 1); break; case 14: nest(1, 3); break; case 15: nest(2, 2); break; }
}
static void fin(Layout &L) { L.size = align(L.size, L.al); L.a.push_back(A("", TRICK_VOID, 0, 0)); }
static unsigned char pat(int seed, int i) { return (unsigned char)(seed == 0 ? i * 37 + 11 : seed == 1 ? 0xff : seed == 2 ? 0x80 >> (i % 8) : (i * 101) ^ 0x5A); }
static uint32_t w32(const unsigned char *p) { uint32_t x; memcpy(&x, p, 4); return x; }
static uint32_t rev(uint32_t x) { return x << 24 | (x & 0xff00) << 8 | (x >> 8 & 0xff00) | x >> 24; }
static uint32_t msk(int w) { return w >= 32 ? ~0u : (1u << w) - 1; }
// expected output, given the previous content of the destination
static Bytes expect(const Layout &L, const Bytes &in, Bytes out, int to) {
    for (auto &x : L.r.sc) for (int k = 0; k < x.second; k++) out[x.first + k] = in[x.first + x.second - 1 - k];
    for (auto &b : L.r.bf) { uint32_t i = w32(&in[b.off]), o = w32(&out[b.off]);
        if (to) { for (auto f : b.f) { uint32_t v = i >> f.first & msk(f.second); int l = 32 - f.first - f.second; o = (o & ~(msk(f.second) << l)) | v << l; } o = rev(o); }
        else { i = rev(i); for (auto f : b.f) { int l = 32 - f.first - f.second; uint32_t v = i >> l & msk(f.second); o = (o & ~(msk(f.second) << f.first)) | v << f.first; } }
        memcpy(&out[b.off], &o, 4); }
    return out;
}
static void diff(const Bytes &a, const unsigned char *p, const char *sig, const char *what) { for (size_t i = 0; i < a.size(); i++) CK(p[i] == a[i], sig, "%s: byte %zu is %02x, expected %02x", what, i, p[i], a[i]); }
static void trylayout(Layout &L) {
    for (int seed = 0; seed < 4; seed++) for (int back = 0; back < 2; back++) {
        Bytes in(L.size); for (int i = 0; i < L.size; i++) in[i] = pat(seed, i);
        unsigned char *src = (unsigned char *)malloc(L.size), *dst = (unsigned char *)malloc(L.size), *d2 = (unsigned char *)malloc(L.size);
        memcpy(src, in.data(), L.size);
        for (int to = 0; to < 2; to++) { memset(dst, back ? 0xC3 : 0, L.size); Bytes e = expect(L, in, Bytes(L.size, back ? 0xC3 : 0), to);
            void *r = trick_bswap_buffer(dst, src, L.a.data(), to); CK(r == dst, "return-value", "does not return the destination"); mc::step();
            diff(e, dst, to ? "to-wire" : "from-wire", back ? "destination with old content" : "cleared destination"); diff(in, src, "source-modified", "source"); }
        // there and back again restores every field
        memset(d2, back ? 0x3C : 0, L.size); trick_bswap_buffer(d2, dst, L.a.data(), 0); Bytes mid(dst, dst + L.size), e = expect(L, mid, Bytes(L.size, back ? 0x3C : 0), 0); diff(e, d2, "round-trip", "to then from");
        for (auto &x : L.r.sc) CK(!memcmp(d2 + x.first, &in[x.first], x.second), "round-trip-scalar", "field at %d", x.first);
        for (auto &b : L.r.bf) for (auto f : b.f) CK((w32(d2 + b.off) >> f.first & msk(f.second)) == (w32(&in[b.off]) >> f.first & msk(f.second)), "round-trip-bits", "bits %d+%d", f.first, f.second);
        free(src); free(dst); free(d2); mc::step();
        mc::outcome(mc::hash(mid.data(), mid.size()));
    }
}
int main(int c, char **v) {
    for (int k : {0, 1, 3}) addk(inner[0], k); fin(inner[0]);
    for (int k : {5, 9, 0}) addk(inner[1], k); fin(inner[1]);
    for (int k : {2, 13, 14, 4}) addk(inner[2], k); fin(inner[2]);
    mc::Options o; o.split = 2; o.timeout_s = 60;
    return mc::run(c, v, o, [] {
        int k = mc::choose(3, "part");
        if (k == 0) { int n = 1 + mc::choose(mc::thorough() ? 4 : 3, "members"); Layout L; for (int i = 0; i < n; i++) { int m = mc::choose(16, "kind"); mc::trace("member kind %d", m); addk(L, m); } fin(L); trylayout(L);
            uint64_t h = n; for (auto &a : L.a) h = mc::mix(h, mc::hv(a.offset, a.type, a.num_index)); mc::state(h); return; }
        if (k == 1) { int m = mc::choose(9, "kind"); Layout L; addk(L, m); L.a[0].offset = 64; // a single parameter is addressed directly
            for (int seed = 0; seed < 4; seed++) for (int to = 0; to < 2; to++) { Bytes in(L.size); for (int i = 0; i < L.size; i++) in[i] = pat(seed, i); Bytes e = expect(L, in, Bytes(L.size, 0xC3), to);
                unsigned char *src = (unsigned char *)malloc(L.size), *dst = (unsigned char *)malloc(L.size); memcpy(src, in.data(), L.size); memset(dst, 0xC3, L.size);
                trick_bswap_single_parameter(dst, src, L.a.data(), to); diff(e, dst, "single-parameter", "single parameter"); diff(in, src, "source-modified", "source");
                trick_bswap_single_parameter(src, dst, L.a.data(), !to); diff(in, src, "single-round-trip", "single parameter back"); free(src); free(dst); mc::step(2); }
            mc::state(mc::hv(1, m)); return; }
        int b = mc::choose(256, "block"); // scalar functions
        for (int i = 0; i < 256; i++) { short s = (short)(b * 256 + i), r = trick_byteswap_short(s); CK((uint16_t)r == (uint16_t)(((uint16_t)s >> 8) | ((uint16_t)s << 8)), "short", "%x -> %x", s, r);
            for (int p = 0; p < 4; p++) { unsigned char by[8], ob[8]; for (int q = 0; q < 8; q++) by[q] = pat(p, q); by[b % 8] = i; by[(b / 8) % 8] = b; for (int q = 0; q < 8; q++) ob[q] = by[7 - q];
                double d; memcpy(&d, by, 8); d = trick_byteswap_double(d); CK(!memcmp(&d, ob, 8), "double", "block %d %d", b, i); long l; memcpy(&l, by, 8); l = trick_byteswap_long(l); CK(!memcmp(&l, ob, 8), "long", "block %d %d", b, i);
                int n; memcpy(&n, by, 4); n = trick_byteswap_int(n); CK(!memcmp(&n, ob + 4, 4), "int", "block %d %d", b, i); float f; memcpy(&f, by, 4); f = trick_byteswap_float(f); CK(!memcmp(&f, ob + 4, 4), "float", "block %d %d", b, i); mc::step(5); } }
        mc::state(mc::hv(2, b)); mc::outcome(mc::hv(2, b));
    });
}
