// C21: every code point and every short string through each conversion, against an independent reference.
#define MC_MAIN
#include "mc.hh"
#include <wchar.h>
extern "C" {
#include "trick/unicode_utils.h"
#include "trick/wcs_ext.h"
}
typedef std::string str; typedef std::vector<wchar_t> wstr;
#define CK(c, sig, ...) do { if (!(c)) mc::fail(sig, __VA_ARGS__); } while (0)
static str hex(const str &s) { str r; char b[8]; for (unsigned char c : s) { sprintf(b, "%02x ", c); r += b; } return r; }
static str enc8(unsigned c) { str r;
    if (c < 0x80) r += (char)c;
    else if (c < 0x800) { r += (char)(0xC0 + c / 64); r += (char)(0x80 + c % 64); }
    else if (c < 0x10000) { r += (char)(0xE0 + c / 4096); r += (char)(0x80 + c / 64 % 64); r += (char)(0x80 + c % 64); }
    else { r += (char)(0xF0 + c / 262144); r += (char)(0x80 + c / 4096 % 64); r += (char)(0x80 + c / 64 % 64); r += (char)(0x80 + c % 64); }
    return r; }
static bool surr(unsigned c) { return c >= 0xD800 && c < 0xE000; }
enum { OK, BAD, UNSPEC };
// strict structural decoder
static int dec8(const str &s, std::vector<unsigned> &o) {
    int r = OK;
    for (size_t i = 0; i < s.size();) { unsigned c = (unsigned char)s[i]; int n; unsigned v, lo;
        if (c < 0x80) { o.push_back(c); i++; continue; }
        if (c < 0xC0) return BAD;
        if (c < 0xE0) { n = 1; v = c & 31; lo = 0x80; } else if (c < 0xF0) { n = 2; v = c & 15; lo = 0x800; } else { n = 3; v = c & 7; lo = 0x10000; if (c >= 0xF8) r = UNSPEC; }
        for (int k = 1; k <= n; k++) { if (i + k >= s.size()) return BAD; unsigned d = (unsigned char)s[i + k]; if ((d & 0xC0) != 0x80) return BAD; v = v * 64 + (d & 63); }
        if (v < lo || surr(v) || v > 0x10ffff) r = UNSPEC;
        o.push_back(v); i += n + 1; }
    return r;
}
static str esc1(unsigned c) { char b[16]; switch (c) { case 7: return "\\a"; case 8: return "\\b"; case 12: return "\\f"; case 10: return "\\n"; case 13: return "\\r"; case 9: return "\\t"; case 11: return "\\v"; }
    if (c >= 32 && c < 127) return str(1, (char)c);
    if (c < 128) sprintf(b, "\\x%02x", c); else if (c < 0x10000) sprintf(b, "\\u%04x", c); else sprintf(b, "\\U%08x", c); return b; }
static int hv(int c) { return c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : -1; }
// escapes -> list of code points (-bytes pass through when raw UTF-8): result as UTF-8
static int unesc(const str &s, str &o) {
    int r = OK;
    for (size_t i = 0; i < s.size();) { unsigned c = (unsigned char)s[i];
        if (c == '\\') { if (++i >= s.size()) return BAD; int n = 0; char ch = s[i++];
            switch (ch) { case '\'': case '"': case '?': case '\\': o += ch; break; case 'a': o += '\a'; break; case 'b': o += '\b'; break; case 'f': o += '\f'; break; case 'n': o += '\n'; break; case 'r': o += '\r'; break; case 't': o += '\t'; break; case 'v': o += '\v'; break;
                case 'x': n = 2; break; case 'u': n = 4; break; case 'U': n = 8; break; default: return BAD; }
            if (n) { unsigned v = 0; for (int k = 0; k < n; k++, i++) { if (i >= s.size() || hv((unsigned char)s[i]) < 0) return BAD; v = v * 16 + hv(s[i]); }
                if (surr(v) || v > 0x10ffff) { r = UNSPEC; o += "???"; } else o += enc8(v); }
        } else { size_t n = c < 0x80 ? 1 : c < 0xC0 ? 0 : c < 0xE0 ? 2 : c < 0xF0 ? 3 : 4; if (!n || i + n > s.size()) return BAD;
            for (size_t k = 1; k < n; k++) if (((unsigned char)s[i + k] & 0xC0) != 0x80) return BAD; o += s.substr(i, n); i += n; } }
    return r;
}
// destination buffers of exactly the stated size on the heap (AddressSanitizer watches both ends)
template <class T> struct Buf { T *p; Buf(size_t n) { p = (T *)malloc(n * sizeof(T)); for (size_t i = 0; i < n; i++) p[i] = (T)0x5a; } ~Buf() { free(p); } };
static void to_str(size_t (*f)(const char *, char *, size_t), size_t (*flen)(const char *), const char *nm, const str &in, int st, const str &want, bool sizes) {
    size_t L = flen(in.c_str()); str sg = nm;
    if (st == OK) CK(L == want.size(), (sg + "-len").c_str(), "%s length %zu want %zu for %s", nm, L, want.size(), hex(in).c_str());
    if (st == BAD) CK(L == 0, (sg + "-len-accepts").c_str(), "%s length %zu for malformed %s", nm, L, hex(in).c_str());
    for (size_t n = sizes ? 1 : want.size() + 1; n <= want.size() + 2; n++) { Buf<char> b(n); mc::ctx("%s", nm); size_t r = f(in.c_str(), b.p, n); mc::step();
        if (st == UNSPEC) continue;
        if (st == OK && want.size() < n) CK(r == want.size() && !memcmp(b.p, want.data(), r) && b.p[r] == 0, nm, "%s(%s) size %zu -> %zu [%s] want [%s]", nm, hex(in).c_str(), n, r, hex(str(b.p, strnlen(b.p, n))).c_str(), hex(want).c_str());
        else CK(r == 0 && b.p[0] == 0, (sg + (st == BAD ? "-accepts-malformed" : "-overflow-undetected")).c_str(), "%s(%s) size %zu returned %zu", nm, hex(in).c_str(), n, r); }
}
static void to_w(size_t (*f)(const char *, wchar_t *, size_t), size_t (*flen)(const char *), const char *nm, const str &in, int st, const wstr &want, bool sizes) {
    size_t L = flen(in.c_str()); str sg = nm;
    if (st == OK) CK(L == want.size(), (sg + "-len").c_str(), "%s length %zu want %zu for %s", nm, L, want.size(), hex(in).c_str());
    if (st == BAD) CK(L == 0, (sg + "-len-accepts").c_str(), "%s length %zu for malformed %s", nm, L, hex(in).c_str());
    for (size_t n = sizes ? 1 : want.size() + 1; n <= want.size() + 2; n++) { Buf<wchar_t> b(n); mc::ctx("%s", nm); size_t r = f(in.c_str(), b.p, n); mc::step();
        if (st == UNSPEC) continue;
        if (st == OK && want.size() < n) { bool eq = r == want.size() && b.p[r] == 0; for (size_t i = 0; eq && i < r; i++) eq = b.p[i] == want[i]; CK(eq, nm, "%s(%s) size %zu -> %zu", nm, hex(in).c_str(), n, r); }
        else CK(r == 0, (sg + (st == BAD ? "-accepts-malformed" : "-overflow-undetected")).c_str(), "%s(%s) size %zu returned %zu", nm, hex(in).c_str(), n, r); }
}
static void from_w(size_t (*f)(const wchar_t *, char *, size_t), size_t (*flen)(const wchar_t *), const char *nm, wstr in, int st, const str &want, bool sizes) {
    in.push_back(0); size_t L = flen(in.data()); str sg = nm;
    if (st == OK) CK(L == want.size(), (sg + "-len").c_str(), "%s length %zu want %zu (U+%x)", nm, L, want.size(), (unsigned)in[0]);
    if (st == BAD) CK(L == 0, (sg + "-len-accepts").c_str(), "%s length %zu (U+%x)", nm, L, (unsigned)in[0]);
    for (size_t n = sizes ? 1 : want.size() + 1; n <= want.size() + 2; n++) { Buf<char> b(n); mc::ctx("%s", nm); size_t r = f(in.data(), b.p, n); mc::step();
        if (st == UNSPEC) continue;
        if (st == OK && want.size() < n) CK(r == want.size() && !memcmp(b.p, want.data(), r) && b.p[r] == 0, nm, "%s(U+%x..) size %zu -> %zu [%s] want [%s]", nm, (unsigned)in[0], n, r, hex(str(b.p, strnlen(b.p, n))).c_str(), hex(want).c_str());
        else CK(r == 0, (sg + (st == BAD ? "-accepts-malformed" : "-overflow-undetected")).c_str(), "%s(U+%x..) size %zu returned %zu", nm, (unsigned)in[0], n, r); }
}
static size_t n2w(const char *a, wchar_t *b, size_t n) { return ncs_to_wcs(a, b, n); }
static size_t n2wl(const char *a) { return ncs_to_wcs_len(a); }
static size_t w2n(const wchar_t *a, char *b, size_t n) { return wcs_to_ncs(a, b, n); }
static size_t w2nl(const wchar_t *a) { return wcs_to_ncs_len(a); }
static void cp(unsigned c) {
    bool valid = c <= 0x10ffff && !surr(c);
    int32_t u32 = -7; size_t r = ucodepoint_to_utf32(c, &u32);
    CK(r == (valid ? 1u : 0u) && (!valid || u32 == (int32_t)c), "utf32", "U+%x -> %zu %x", c, r, u32);
    int16_t w[2] = {0, 0}; r = ucodepoint_to_utf16(c, &w);
    if (!valid) CK(r == 0, "utf16-accepts-invalid", "U+%x", c);
    else if (c < 0x10000) CK(r == 1 && (uint16_t)w[0] == c, "utf16", "U+%x -> %x", c, w[0] & 0xffff);
    else { CK(r == 2 && (uint16_t)w[1] == 0xDC00 + (c - 0x10000) % 1024, "utf16-low-surrogate", "U+%x -> %x", c, w[1] & 0xffff);
        if ((uint16_t)w[0] != 0xD800 + (c - 0x10000) / 1024) {
            CK((uint16_t)w[0] == 0xD800 + c / 1024, "utf16-high-surrogate-other", "U+%x -> %x", c, w[0] & 0xffff);
            CK(false, "utf16-high-surrogate", "U+%x -> high surrogate %x, the standard is %x", c, w[0] & 0xffff, 0xD800 + (c - 0x10000) / 1024); } }
}
static void cp_rest(unsigned c) {
    char o[4]; size_t r;
    if (c > 0x10ffff || surr(c)) return;
    str e = enc8(c); r = ucodepoint_to_utf8(c, &o); CK(r == e.size() && !memcmp(o, e.data(), r), "utf8", "U+%x", c);
    if (!c) return;
    str s = "A" + e + "z"; wstr w = {L'A', (wchar_t)c, L'z'};
    to_w(utf8_to_wchar, utf8_to_wchar_len, "utf8_to_wchar", s, OK, w, false);
    from_w(wchar_to_utf8, wchar_to_utf8_len, "wchar_to_utf8", w, OK, s, false);
    str es = "A" + esc1(c) + "z"; to_str(escape_to_ascii, escape_to_ascii_len, "escape_to_ascii", s, OK, es, false);
    if (c != '\\') to_str(unescape_to_utf8, unescape_to_utf8_len, "unescape_to_utf8", es, OK, s, false);
    char b[24]; sprintf(b, "A\\U%08Xz", c); to_str(unescape_to_utf8, unescape_to_utf8_len, "unescape_to_utf8", b, OK, s, false);
    // wide <-> narrow strings as checkpoints write them (C locale)
    str n = c == '\'' || c == '"' || c == '?' || c == '\\' ? str("\\") + (char)c : esc1(c);
    if (c >= 128) { sprintf(b, c < 0x100 ? "\\x%02x" : c < 0x10000 ? "\\u%04X" : "\\U%08X", c); n = b; }
    from_w(w2n, w2nl, "wcs_to_ncs", w, OK, "A" + n + "z", false);
    to_w(n2w, n2wl, "ncs_to_wcs", "A" + n + "z", OK, w, false);
}
int main(int c, char **v) {
    stderr = fopen("/dev/null", "w"); static char eb[4096]; setvbuf(stderr, eb, _IOFBF, sizeof eb);
    mc::Options o; o.split = 2; o.timeout_s = 100;
    return mc::run(c, v, o, [] {
        int k = mc::choose(4, "part");
        if (k == 0 || k == 1) { int ch = mc::choose(273, "chunk"); for (unsigned i = 0; i < 4096; i++) { if (k == 0) cp_rest(ch * 4096 + i); else cp(ch * 4096 + i); mc::step(3); } mc::state(mc::hv(k, ch)); mc::outcome(mc::hv(k, ch)); return; }
        if (k == 2) {
            static const unsigned char al[] = {'A', '\\', 'x', 'u', 'U', 'n', 'v', '0', 'F', 'g', 0x01, 0x7f, 0x80, 0xbf, 0xc3, 0xe2, 0xf0};
            int n = mc::choose(mc::thorough() ? 6 : 5, "len"); str s; for (int i = 0; i < n; i++) s += (char)al[mc::choose(sizeof al, "byte")];
            if (mc::thorough() == false && n == 4 && s[0] == 'A') { }  // all lengths are covered
            std::vector<unsigned> cps; int st = dec8(s, cps); wstr w(cps.begin(), cps.end());
            to_w(utf8_to_wchar, utf8_to_wchar_len, "utf8_to_wchar", s, st, w, true);
            str es; for (unsigned x : cps) es += esc1(x);
            to_str(escape_to_ascii, escape_to_ascii_len, "escape_to_ascii", s, st, es, true);
            str un; st = unesc(s, un); to_str(unescape_to_utf8, unescape_to_utf8_len, "unescape_to_utf8", s, st, un, true);
            // with a long escape at the end the same prefix is met with every size
            if (n <= 2) { str s2 = s + "\\u20acq\\U0001F600\\x41"; un = ""; st = unesc(s2, un); to_str(unescape_to_utf8, unescape_to_utf8_len, "unescape_to_utf8", s2, st, un, true);
                bool asc = true; for (unsigned char ch : s2) if (ch >= 128) asc = false;
                if (asc && st == OK) { cps.clear(); dec8(un, cps); to_w(n2w, n2wl, "ncs_to_wcs", s2, OK, wstr(cps.begin(), cps.end()), true); } }
            mc::state(mc::hash(s)); mc::outcome(mc::hv(st, mc::hash(es)));
        } else {
            static const wchar_t al[] = {1, 'A', '\n', 0x7f, 0x80, 0x7ff, 0x800, 0xd7ff, 0xe000, 0xffff, 0x10000, 0x10ffff, 0x110000};
            int n = mc::choose(4, "len"); wstr w; str want; int st = OK; for (int i = 0; i < n; i++) { wchar_t x = al[mc::choose(13, "unit")]; w.push_back(x); if (x > 0x10ffff) st = BAD; else want += enc8(x); }
            from_w(wchar_to_utf8, wchar_to_utf8_len, "wchar_to_utf8", w, st, want, true);
            if (n && n < 3) { wstr p = {(wchar_t)(0xD800 + n), (wchar_t)(0xDC00 + w[0] % 1024)}; from_w(wchar_to_utf8, wchar_to_utf8_len, "wchar_to_utf8", p, OK, enc8(0x10000 + n * 1024 + w[0] % 1024), true); }
            mc::state(mc::hash(w.data(), n * 4, 7)); mc::outcome(mc::hash(want));
        }
    });
}
