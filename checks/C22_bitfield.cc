// C22: bit-field insert/extract over every (size,start,width), against plain shifts and against the compiler's own layout.
#define MC_MAIN
#include "mc.hh"
#include <stddef.h>
#include "trick/bitfield_proto.h"
typedef uint32_t u32;
static u32 msk(int b) { return b >= 32 ? 0xffffffffu : ((1u << b) - 1); }
static int sx(u32 v, int b) { v &= msk(b); return (b < 32 && (v >> (b - 1) & 1)) ? (int)(v | ~msk(b)) : (int)v; }
template <class T> static void one(T word, int value, int size, int start, int bits) {
    int sh = 8 * size - start - bits;
    // a guard on both sides: neighbours of the storage unit must not be touched
    struct { unsigned char g0[8]; T w; unsigned char g1[8]; } s; memset(&s, 0xA5, sizeof s); s.w = word;
    int gs = GET_BITFIELD((void *)&s.w, size, start, bits);
    unsigned gu = GET_UNSIGNED_BITFIELD((void *)&s.w, size, start, bits);
    u32 W = (u32)word & msk(8 * size);
    if (gu != ((W >> sh) & msk(bits))) mc::fail("extract-unsigned", "size %d start %d bits %d word %x: got %x", size, start, bits, W, gu);
    if (gs != sx(W >> sh, bits)) mc::fail("extract-signed", "size %d start %d bits %d word %x: got %d", size, start, bits, W, gs);
    void *p = &s.w;
    PUT_BITFIELD(p, value, size, start, bits);
    u32 R = (u32)s.w & msk(8 * size), E = (W & ~(msk(bits) << sh)) | (((u32)value & msk(bits)) << sh);
    if (R != E) mc::fail("insert", "size %d start %d bits %d word %x value %x: got %x want %x", size, start, bits, W, value, R, E);
    for (int i = 0; i < 8; i++) if (s.g0[i] != 0xA5 || s.g1[i] != 0xA5) mc::fail("insert-neighbour", "size %d start %d bits %d", size, start, bits);
    int rs = GET_BITFIELD((void *)&s.w, size, start, bits);
    unsigned ru = GET_UNSIGNED_BITFIELD((void *)&s.w, size, start, bits);
    if (rs != sx(value, bits) || ru != ((u32)value & msk(bits))) mc::fail("round-trip", "size %d start %d bits %d value %x: %d %u", size, start, bits, value, rs, ru);
    mc::step(4);
}
// the compiler's layout: fields of widths a,b,c in one unsigned int
template <int A, int B> struct SI { unsigned a : A; unsigned b : B; unsigned c : 32 - A - B; };
template <int A, int B> static void layout() {
    unsigned vals[] = {0, 1, 0xffffffffu, 0xA5A5A5A5u, 0x5A5A5A5Au, 0x80000000u};
    for (unsigned bg : vals) for (unsigned v : vals) {
        union { SI<A, B> s; u32 w; } x, y; x.w = y.w = bg;
        x.s.b = v; PUT_BITFIELD(&y.w, (int)v, 4, (32 - A - B), B);
        if (x.w != y.w) mc::fail("compiler-layout", "widths %d,%d: %x vs %x", A, B, x.w, y.w);
        y.w = bg; x.w = bg; x.s.a = v; PUT_BITFIELD(&y.w, (int)v, 4, (32 - A), A);
        if (x.w != y.w) mc::fail("compiler-layout", "widths %d,%d first: %x vs %x", A, B, x.w, y.w);
        unsigned gb = GET_UNSIGNED_BITFIELD(&y.w, 4, (32 - A - B), B); if (gb != y.s.b) mc::fail("compiler-layout", "widths %d,%d get", A, B);
        mc::step(3);
    }
}
template <int A, int B> struct L { static void go() { layout<A, B>(); if constexpr (B > 1) L<A, B - 1>::go(); } };
template <int A> struct LA { static void go() { L<A, 31 - A>::go(); if constexpr (A > 1) LA<A - 1>::go(); } };
int main(int c, char **v) {
    mc::Options o; o.split = 2; o.timeout_s = 120;
    return mc::run(c, v, o, [] {
        int k = mc::choose(4, "size");
        if (k == 3) { mc::choose(1); LA<30>::go(); mc::state(77); mc::outcome(77); return; }
        int size = 1 << k, n = 8 * size;
        int start = mc::choose(n, "start"), bits = 1 + mc::choose(n - start, "bits-1");
        mc::trace("size %d start %d bits %d", size, start, bits);
        if (size == 1) { for (int w = 0; w < 256; w++) for (int x = -128; x < 256; x++) one<unsigned char>(w, x, size, start, bits); }
        else if (size == 2) {
            int vals[] = {0, 1, -1, 0x5555, 0xAAAA, (int)msk(bits), (int)(1u << (bits - 1)), (int)msk(bits) >> 1, -2, 0x7fffffff};
            for (int w = 0; w < 65536; w++) for (int x : vals) one<unsigned short>(w, x, size, start, bits);
            if (mc::thorough() && bits <= 10) for (int w = 0; w < 65536; w += 257) for (int x = 0; x < (1 << bits); x++) one<unsigned short>(w, x, size, start, bits);
        } else {
            std::vector<u32> ws = {0, 0xffffffffu, 0xA5A5A5A5u, 0x5A5A5A5Au, 0x12345678u, 0x87654321u, 0x7fffffffu, 0x80000001u};
            for (int i = 0; i < 32; i++) { ws.push_back(1u << i); ws.push_back(~(1u << i)); }
            std::vector<u32> vs = ws; vs.push_back(msk(bits)); vs.push_back(msk(bits) >> 1);
            for (u32 w : ws) for (u32 x : vs) one<u32>(w, (int)x, size, start, bits);
        }
        uint64_t h = mc::hv(size, start, bits); mc::state(h); mc::outcome(h);
    });
}
