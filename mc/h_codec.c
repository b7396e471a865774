/* C23-C25 Base64, C26-C27 hexadecimal. */
#define _GNU_SOURCE
#include "mc.h"
#include "base64.h"
#include "hex.h"
#include "edges.h"
#include <limits.h>
#include <sys/mman.h>
#include <unistd.h>

/* exact-size blocks, one per size: any access outside is a memory error */
#define NB 700
static unsigned char* blk_[4][NB];
static unsigned char* blk(int which, size_t n) { if(n >= NB) abort(); if(!blk_[which][n]) blk_[which][n] = mc_xmalloc(n + !n); if(n) memset(blk_[which][n], 0x5A, n); return blk_[which][n] + (n == 0); }     /* size 0: a pointer no access is allowed through */

/* ---- dialects */
static const BASE64_OPTIONS dia[] = { { '+', '/', '=' }, { '-', '_', '=' }, { '-', '_', 0 }, { '+', '/', 0 }, { (char)0x80, (char)0xff, (char)0xfe }, { (char)0xff, (char)0x80, 0 }, { '.', '-', '_' }, { '!', 1, (char)0xC3 }, { '=', '+', '/' } };
#define ND 9
static const BASE64_OPTIONS* opt(int d) { return d == ND ? NULL : &dia[d]; }
static const BASE64_OPTIONS* eff(int d) { return d == ND ? &dia[0] : &dia[d]; }
/* ---- reference, bit by bit */
static char alpha_ch(const BASE64_OPTIONS* o, int v) { if(v < 26) return (char)('A' + v); if(v < 52) return (char)('a' + v - 26); if(v < 62) return (char)('0' + v - 52); return v == 62 ? o->ch62 : o->ch63; }
static int alpha_val(const BASE64_OPTIONS* o, char c) { int v; for(v = 0; v < 64; v++) if(alpha_ch(o, v) == c) return v; return -1; }
static size_t ref_encode(const unsigned char* in, size_t n, char* out, const BASE64_OPTIONS* o)
{
    size_t bits = n * 8, b, m = 0; int k;
    for(b = 0; b < bits; b += 6) { int v = 0; for(k = 0; k < 6; k++) { size_t x = b + k; v = v << 1 | (x < bits ? in[x / 8] >> (7 - x % 8) & 1 : 0); } out[m++] = alpha_ch(o, v); }
    if(o->pad) while(m % 4) out[m++] = o->pad;
    return m;
}
static long ref_decode(const char* s, size_t n, unsigned char* out, const BASE64_OPTIONS* o)     /* -1: not a valid text */
{
    size_t m = n, i, bits, pads = 0; int k, v;
    if(o->pad && n % 4 == 0) while(m > 0 && s[m - 1] == o->pad && pads < 2) { m--; pads++; }
    if(m % 4 == 1) return -1;
    for(i = 0; i < m; i++) if(alpha_val(o, s[i]) < 0) return -1;
    bits = m * 6;
    memset(out, 0, bits / 8 + 1);
    for(i = 0; i < m; i++) { v = alpha_val(o, s[i]); for(k = 0; k < 6; k++) { size_t x = i * 6 + k; if(v >> (5 - k) & 1) { if(x >= bits / 8 * 8) return -1; out[x / 8] |= 0x80 >> x % 8; } } }
    return (long)(bits / 8);
}
static void roundtrip(const unsigned char* in, size_t n, int d)
{
    char text[NB * 2]; unsigned char* src = blk(0, n); size_t m, nopad; char* out; unsigned char* back; int r; const BASE64_OPTIONS* o = eff(d);
    if(n) memcpy(src, in, n);
    m = ref_encode(in, n, text, o);
    for(nopad = m; nopad > 0 && o->pad && text[nopad - 1] == o->pad; nopad--) ;
    out = (char*)blk(1, m);
    r = base64_encode(src, (unsigned)n, out, (unsigned)m, opt(d));
    MC_ASSERT(r == (int)m, "encoding %zu bytes returned %d, expected %zu (dialect %d)", n, r, m, d);
    MC_ASSERT(memcmp(out, text, m) == 0, "encoding %zu bytes gave \"%.*s\", expected \"%.*s\" (dialect %d)", n, (int)m, out, (int)m, text, d);
    back = blk(2, n);
    r = base64_decode(out, (unsigned)m, back, (unsigned)n, opt(d));
    MC_ASSERT(r == (int)n && memcmp(back, in, n) == 0, "decoding \"%.*s\" returned %d and not the original %zu bytes (dialect %d)", (int)m, text, r, n, d);
    mc_count_calls(2);
    if(nopad != m) {
        char* s2 = (char*)blk(3, nopad); memcpy(s2, text, nopad);
        back = blk(2, n);
        r = base64_decode(s2, (unsigned)nopad, back, (unsigned)n, opt(d));
        MC_ASSERT(r == (int)n && memcmp(back, in, n) == 0, "decoding \"%.*s\" (no padding) returned %d and not the original %zu bytes (dialect %d)", (int)nopad, text, r, n, d);
        mc_count_calls(1);
    }
    mc_count_trace(1);
}
/* C23: one or two bytes completely, all dialects; three bytes completely */
static uint64_t cnt_rt12(void) { return 256 + 65536; }
static void run_rt12(uint64_t i) { unsigned char b[2]; int d; size_t n = 1; if(i < 256) b[0] = i; else { i -= 256; b[0] = i >> 8; b[1] = i; n = 2; } for(d = 0; d <= ND; d++) roundtrip(b, n, d); }
static void desc_rt12(uint64_t i, char* s, size_t z) { if(i < 256) snprintf(s, z, "byte %02x, all dialects", (int)i); else snprintf(s, z, "bytes %04x, all dialects", (int)(i - 256)); }
static uint64_t cnt_rt3(void) { return 65536; }
static void run_rt3(uint64_t i) { unsigned char b[3]; int k, d; for(k = 0; k < 256; k++) { b[0] = i >> 8; b[1] = i; b[2] = k; for(d = 0; d <= ND; d += mc_arg) roundtrip(b, 3, d); } }
static void desc_rt3(uint64_t i, char* s, size_t z) { snprintf(s, z, "bytes %04x followed by any byte", (int)i); }
/* all lengths, several contents */
static void mkdata(unsigned char* b, size_t n, int pat) { size_t i; for(i = 0; i < n; i++) b[i] = pat == 0 ? 0 : pat == 1 ? 0xff : pat == 2 ? (unsigned char)i : pat == 3 ? (unsigned char)(i * 167 + 13) : pat == 4 ? (unsigned char)(1 << (i % 8)) : (i == n - 1 ? 0xff : 0); }
static uint64_t cnt_rtn(void) { return 400 * 6 * (ND + 1); }
static void run_rtn(uint64_t i) { unsigned char b[400]; int d = i % (ND + 1), p = i / (ND + 1) % 6; size_t n = i / (ND + 1) / 6; mkdata(b, n, p); roundtrip(b, n, d); }
static void desc_rtn(uint64_t i, char* s, size_t z) { snprintf(s, z, "%d bytes, pattern %d, dialect %d", (int)(i / (ND + 1) / 6), (int)(i / (ND + 1) % 6), (int)(i % (ND + 1))); }
/* every 6-bit value at every position of multi-group texts */
static uint64_t cnt_grp(void) { return 64 * 16 * 3; }
static void run_grp(uint64_t i) { unsigned char b[12] = { 0 }; int val = i % 64, pos = i / 64 % 16, bg = i / 64 / 16, k; if(bg) memset(b, bg == 1 ? 0xff : 0x5a, 12); for(k = 0; k < 6; k++) { int x = pos * 6 + k; b[x / 8] = (b[x / 8] & ~(0x80 >> x % 8)) | ((val >> (5 - k) & 1) ? 0x80 >> x % 8 : 0); } for(k = 0; k <= ND; k++) { roundtrip(b, 12, k); roundtrip(b, 11, k); roundtrip(b, 10, k); } }
static void desc_grp(uint64_t i, char* s, size_t z) { snprintf(s, z, "6-bit group %d at position %d over background %d", (int)(i % 64), (int)(i / 64 % 16), (int)(i / 64 / 16)); }
/* all pairs of special characters */
static int in_core(int c) { return (c >= 'A' && c <= 'Z') || (c >= 'a' && c <= 'z') || (c >= '0' && c <= '9'); }
static uint64_t cnt_sp(void) { return 65536; }
static void run_sp(uint64_t i)
{
    BASE64_OPTIONS o; unsigned char b[48], back[48]; char text[65], out[65]; int k, p, r; int c62 = i >> 8, c63 = i & 255; static const int pads[] = { 0, '=', 0x80, 0xff, ' ', 1 };
    if(c62 == c63 || in_core(c62) || in_core(c63)) return;
    for(k = 0; k < 48; k++) { int j, v = 0; for(j = 0; j < 8; j++) { int x = k * 8 + j; v = v << 1 | ((x / 6) >> (5 - x % 6) & 1); } b[k] = v; }
    for(p = 0; p < 6; p++) {
        if(pads[p] && (pads[p] == c62 || pads[p] == c63)) continue;
        o.ch62 = (char)c62; o.ch63 = (char)c63; o.pad = (char)pads[p];
        for(k = 46; k <= 48; k++) {
            size_t m = ref_encode(b, k, text, &o);
            r = base64_encode(b, k, out, 65, &o);
            MC_ASSERT(r == (int)m && memcmp(out, text, m) == 0 && out[m] == 0, "encoding with special characters %02x, %02x and padding %02x is wrong", c62, c63, pads[p]);
            r = base64_decode(out, (unsigned)m, back, 48, &o);
            MC_ASSERT(r == k && memcmp(back, b, k) == 0, "decoding with special characters %02x, %02x and padding %02x is wrong (returned %d)", c62, c63, pads[p], r);
        }
        mc_count_calls(6); mc_count_trace(3);
    }
}
static void desc_sp(uint64_t i, char* s, size_t z) { snprintf(s, z, "special characters %02x and %02x", (int)(i >> 8), (int)(i & 255)); }

/* ============ C24: exactly the valid texts ============ */
static void accept(const char* s, size_t n, int d)
{
    unsigned char want[NB], *out; char* src = (char*)blk(0, n); int r, q; size_t room = n / 4 * 3 + 3; long w;
    if(n) memcpy(src, s, n);
    w = ref_decode(s, n, want, eff(d));
    out = blk(1, w >= 0 ? (size_t)w : room);
    r = base64_decode(src, (unsigned)n, out, (unsigned)(w >= 0 ? (size_t)w : room), opt(d));
    if(w < 0) MC_ASSERT(r < 0, "invalid text accepted with %d (dialect %d)", r, d);
    else MC_ASSERT(r == w && memcmp(out, want, w) == 0, "valid text answered with %d, expected %ld (dialect %d)", r, w, d);
    q = base64_decode(src, (unsigned)n, NULL, 0, opt(d));
    MC_ASSERT(w < 0 || q >= w, "size query of a valid text answered with %d, the text decodes to %ld", q, w);
    mc_count_calls(2); mc_count_trace(1);
}
static const int adia[] = { ND, 2, 4, 6 };
static uint64_t cnt_a2(void) { return 65536; }
static void run_a2(uint64_t i) { char s[3]; int k, d; s[0] = (char)(i >> 8); s[1] = (char)i; for(d = 0; d <= ND; d++) accept(s, 2, d); if(i < 256) for(d = 0; d <= ND; d++) accept(s + 1, 1, d); if(i == 0) for(d = 0; d <= ND; d++) accept(s, 0, d);
    for(k = 0; k < 256; k++) { s[2] = (char)k; for(d = 0; d < 4; d += mc_arg) accept(s, 3, adia[d]); } }
static void desc_a2(uint64_t i, char* s, size_t z) { snprintf(s, z, "texts beginning with bytes %04x", (int)i); }
/* longer texts over character classes */
static const char cls_big[] = { 'A', 'Z', 'a', 'z', '0', '9', '@', '[', '`', '{', '/', '+', ':', '=', 0, (char)0x80, (char)0xff, '-', '_', ' ', 'B', 'Q', 'g', 'E', 'w', 'P', (char)0xfe, (char)0xc1, 'D', 'O' };
static const char cls_small[] = { 'A', 'Q', 'E', '=', '!', '/', 'D' };
static int calpha(void) { return mc_arg >= 100 ? 7 : mc_arg >= 50 ? 16 : 30; }
static const char* cset(void) { return mc_arg >= 100 ? cls_small : cls_big; }
static uint64_t cnt_cl(void) { uint64_t p = 1; int i; for(i = 0; i < mc_arg % 50; i++) p *= calpha(); return p; }
static void mk_cl(uint64_t i, char* s) { int k; for(k = 0; k < mc_arg % 50; k++) { s[k] = cset()[i % calpha()]; i /= calpha(); } }
static void run_cl(uint64_t i) { char s[16]; int d; mk_cl(i, s); for(d = 0; d < 4; d++) accept(s, mc_arg % 50, adia[d]); }
static void desc_cl(uint64_t i, char* b, size_t z) { char s[16]; int k, u = 0; mk_cl(i, s); u = snprintf(b, z, "text"); for(k = 0; k < mc_arg % 50; k++) u += snprintf(b + u, z - u, " %02x", (unsigned char)s[k]); }
/* any byte at any position of long valid texts, any truncation */
static uint64_t cnt_sub(void) { return 256 * 50; }
static void run_sub(uint64_t i)
{
    unsigned char b[40]; char t[64]; int c = i % 256, n = (int)(i / 256), d, pos; size_t m;
    if(n >= 40) n = 30 + n % 10;
    mkdata(b, n, 3);
    for(d = 0; d <= ND; d++) {
        m = ref_encode(b, n, t, eff(d));
        for(pos = 0; pos < (int)m; pos++) { char o = t[pos]; t[pos] = (char)c; accept(t, m, d); t[pos] = o; }
        if(c == 0) for(pos = 0; pos <= (int)m; pos++) { accept(t, pos, d); accept(t + pos, m - pos, d); }
        t[m] = (char)c; accept(t, m + 1, d); t[m + 1] = (char)c; accept(t, m + 2, d); t[m + 2] = (char)c; accept(t, m + 3, d); t[m + 3] = (char)c; accept(t, m + 4, d);
    }
}
static void desc_sub(uint64_t i, char* s, size_t z) { snprintf(s, z, "byte %02x substituted at or appended to the encoding of %d bytes", (int)(i % 256), (int)(i / 256)); }

/* ============ C25: sizes ============ */
static void sizes_enc(size_t n, unsigned out_size, int d)
{
    unsigned char b[NB]; char text[NB * 2]; unsigned char* src = blk(0, n); size_t m; int q, r; char* out; unsigned k;
    mkdata(b, n, 3); if(n) memcpy(src, b, n);
    m = ref_encode(b, n, text, eff(d));
    q = base64_encode(src, (unsigned)n, NULL, out_size, opt(d));
    MC_ASSERT(q >= (int)m, "size query for encoding %zu bytes answered with %d, %zu are needed (dialect %d)", n, q, m, d);
    out = (char*)blk(1, out_size);
    r = base64_encode(src, (unsigned)n, out, out_size, opt(d));
    if(out_size >= m) {
        MC_ASSERT(r == (int)m && memcmp(out, text, m) == 0, "encoding %zu bytes into a buffer of %u returned %d (dialect %d)", n, out_size, r, d);
        if(out_size > m) MC_ASSERT(out[m] == 0, "encoding %zu bytes into a buffer of %u: no terminator though there is room", n, out_size);
        for(k = (unsigned)(q > (int)m + 1 ? q : (int)m + 1); k < out_size; k++) MC_ASSERT(out[k] == 0x5A, "encoding %zu bytes writes beyond the size it told", n);
    } else MC_ASSERT(r < 0, "encoding %zu bytes into a buffer of %u returned %d (dialect %d)", n, out_size, r, d);
    mc_count_calls(2); mc_count_trace(1);
}
static void sizes_dec(size_t n, unsigned out_size, int d, int strip)
{
    unsigned char b[NB]; char text[NB * 2], *src; size_t m; int q, r; unsigned char* out; unsigned k; const BASE64_OPTIONS* o = eff(d);
    mkdata(b, n, 3); m = ref_encode(b, n, text, o);
    if(strip) while(m && o->pad && text[m - 1] == o->pad) m--;
    src = (char*)blk(0, m); if(m) memcpy(src, text, m);
    q = base64_decode(src, (unsigned)m, NULL, out_size, opt(d));
    MC_ASSERT(q >= (int)n, "size query for decoding %zu characters answered with %d, %zu are needed (dialect %d)", m, q, n, d);
    out = blk(1, out_size);
    r = base64_decode(src, (unsigned)m, out, out_size, opt(d));
    if(out_size >= n) {
        MC_ASSERT(r == (int)n && memcmp(out, b, n) == 0, "decoding to %zu bytes into a buffer of %u returned %d (dialect %d)", n, out_size, r, d);
        for(k = (unsigned)q; k < out_size; k++) MC_ASSERT(out[k] == 0x5A, "decoding %zu characters writes beyond the size it told", m);
    } else MC_ASSERT(r < 0, "decoding to %zu bytes into a buffer of %u returned %d (dialect %d)", n, out_size, r, d);
    mc_count_calls(2); mc_count_trace(1);
}
static uint64_t cnt_sz(void) { return 90 * (ND + 1); }
static void run_sz(uint64_t i) { int n = (int)(i / (ND + 1)), d = (int)(i % (ND + 1)); unsigned k; for(k = 0; k <= (unsigned)n * 2 + 12; k++) { sizes_enc(n, k, d); sizes_dec(n, k, d, 0); sizes_dec(n, k, d, 1); } }
static void desc_sz(uint64_t i, char* s, size_t z) { snprintf(s, z, "%d bytes into buffers of all sizes, dialect %d", (int)(i / (ND + 1)), (int)(i % (ND + 1))); }
/* invalid text of any kind into any buffer: only memory safety and the sign */
static uint64_t cnt_bad(void) { return 256 * 24; }
static void run_bad(uint64_t i)
{
    int c = i % 256, n = (int)(i / 256), pos; unsigned k; char t[32]; unsigned char w[32];
    for(pos = 0; pos <= n; pos++) { int j; for(j = 0; j < n; j++) t[j] = j == pos ? (char)c : j & 1 ? 'Q' : 'A';
        for(k = 0; k < 20; k += 1 + k / 3) { char* src = (char*)blk(0, n); unsigned char* out = blk(1, k); int r; long want; if(n) memcpy(src, t, n); want = ref_decode(t, n, w, &dia[0]); r = base64_decode(src, n, out, k, NULL);
            MC_ASSERT((r >= 0) == (want >= 0 && want <= (long)k), "decoding %d characters into a buffer of %u returned %d", n, k, r); mc_count_calls(1); } }
    mc_count_trace(n + 1);
}
static void desc_bad(uint64_t i, char* s, size_t z) { snprintf(s, z, "texts of %d characters with byte %02x into small buffers", (int)(i / 256), (int)(i % 256)); }
/* arithmetic limits; the input is a 4 GB mapping of one small file, so all of it can be read */
static unsigned char* huge(int c)
{
    static unsigned char* p[256]; size_t sz = (size_t)4 << 30, step = 16 << 20, o; int fd; unsigned char* q;
    if(p[c]) return p[c];
    fd = memfd_create("in", 0); if(fd < 0 || ftruncate(fd, step) != 0) return NULL;
    q = mmap(NULL, step, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0); memset(q, c, step); munmap(q, step);
    q = mmap(NULL, sz + step, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if(q == MAP_FAILED) return NULL;
    for(o = 0; o < sz; o += step) mmap(q + o, step, PROT_READ, MAP_SHARED | MAP_FIXED, fd, 0);
    close(fd);
    return p[c] = q;
}
static const unsigned marks[] = { (INT_MAX - 1) / 4 * 3, 0x60000000u, 0x5fffffffu, 0x80000000u, 0xffffffffu, 0xc0000000u, 0xbfffffffu, 0x40000000u, 0x3fffffffu, 0xaaaaaaaau, 0x55555555u, 0xfffffffcu, 0x7fffffffu, 0xeaaaaaaau, 0xd5555555u, 0xaaaaaaa8u, 0x30000000u };
static uint64_t cnt_lim(void) { return 17 * 17; }
static void run_lim(uint64_t i)
{
    unsigned n = marks[i / 17] + (unsigned)(i % 17) - 8; int d, r, k; unsigned char* in = huge(0); static const unsigned outs[] = { 0, 1, 2, 3, 4, 5, 8, 100 };
    if(in == NULL || n < 1000) return;
    for(d = 0; d <= ND; d++) {
        unsigned __int128 need = eff(d)->pad ? ((unsigned __int128)n + 2) / 3 * 4 : ((unsigned __int128)n * 8 + 5) / 6;
        r = base64_encode(in, n, NULL, 0, opt(d));
        if(need > INT_MAX) MC_ASSERT(r < 0, "size query for encoding %u bytes answered with %d though the size is not representable", n, r);
        else if(((unsigned __int128)n + 2) / 3 * 4 + 1 <= INT_MAX) MC_ASSERT(r >= (int)need, "size query for encoding %u bytes answered with %d, %llu are needed", n, r, (unsigned long long)need);
        else MC_ASSERT(r < 0 || r >= (int)need, "size query for encoding %u bytes answered with %d, %llu are needed", n, r, (unsigned long long)need);
        for(k = 0; k < 8; k++) { char* out = (char*)blk(1, outs[k]); r = base64_encode(in, n, out, outs[k], opt(d)); MC_ASSERT(r < 0, "encoding %u bytes into a buffer of %u returned %d", n, outs[k], r); }
        mc_count_calls(9);
    }
    mc_count_trace(ND + 1);
}
static void desc_lim(uint64_t i, char* s, size_t z) { snprintf(s, z, "encoding %u bytes", marks[i / 17] + (unsigned)(i % 17) - 8); }
/* decoding texts of gigabytes: valid ones, so that they have to be scanned */
static const unsigned dlen_q[] = { 2863311528u, 2863311532u, 0xfffffffcu };
static const unsigned dlen_t[] = { 2863311526u, 2863311527u, 2863311528u, 2863311530u, 2863311531u, 2863311532u, 2863311535u, 0x80000000u, 0xfffffffcu, 0xfffffffeu, 0xffffffffu };
static uint64_t cnt_dlim(void) { return mc_arg ? 11 : 3; }
static void run_dlim(uint64_t i)
{
    unsigned n = mc_arg ? dlen_t[i] : dlen_q[i]; unsigned char* in = huge('A'); int r; unsigned long long need = (unsigned long long)n / 4 * 3 + (n % 4 ? n % 4 - 1 : 0);
    if(in == NULL) return;
    r = base64_decode((char*)in, n, NULL, 0, NULL); mc_beat();
    MC_ASSERT(n % 4 == 1 || need > INT_MAX ? r < 0 : r >= (long long)need, "size query for decoding %u characters answered with %d, %llu are needed", n, r, need);
    if(mc_arg) { r = base64_decode((char*)in, n, blk(1, 5), 5, NULL); mc_beat(); MC_ASSERT(r < 0, "decoding %u characters into 5 bytes returned %d", n, r); }
    mc_count_calls(2); mc_count_trace(1);
}
static void desc_dlim(uint64_t i, char* s, size_t z) { snprintf(s, z, "decoding %u characters", mc_arg ? dlen_t[i] : dlen_q[i]); }
/* real gigabyte conversions, one after another (thorough) */
static uint64_t cnt_real(void) { return mc_arg; }
static unsigned char* big(size_t n) { unsigned char* p = mmap(NULL, n + 65536, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); return p == MAP_FAILED ? NULL : p; }
static void same_bytes(const unsigned char* p, size_t n, const char* pat, size_t pl, const char* what) { size_t i; MC_ASSERT(n < pl || memcmp(p, pat, pl) == 0, "%s: wrong beginning", what); for(i = pl; i + 1 <= n; i += 1 << 26) { size_t k = n - i < (1u << 26) ? n - i : 1u << 26; MC_ASSERT(memcmp(p + i, p + i - pl, k) == 0, "%s: wrong bytes", what); mc_beat(); } }
static void run_real64(uint64_t i)
{
    static const unsigned ns[] = { 1610612733u, 1431655766u, 1073741825u, 1610612732u }; int k, r; unsigned char* in = huge(0xA5); unsigned char* out = big((size_t)1 << 31); unsigned char* back = big((size_t)1 << 31);
    if(!in || !out || !back) return;
    for(k = (int)i; k <= (int)i; k++) {
        unsigned n = ns[k]; unsigned long long need = ((unsigned long long)n + 2) / 3 * 4;
        memset(out + need, 0x5A, 64);
        r = base64_encode(in, n, (char*)out, (unsigned)need, NULL); mc_beat();
        MC_ASSERT(r == (int)need, "encoding %u bytes returned %d", n, r);
        MC_ASSERT(out[need] == 0x5A, "encoding %u bytes wrote beyond the buffer", n);
        same_bytes(out, (size_t)n / 3 * 4, "paWl", 4, "encoding gigabytes");
        r = base64_decode((char*)out, (unsigned)need, back, n, NULL); mc_beat();
        MC_ASSERT(r == (int)n, "decoding back to %u bytes returned %d", n, r);
        same_bytes(back, n, "\xA5\xA5\xA5\xA5\xA5\xA5\xA5\xA5", 8, "decoding gigabytes");
        mc_count_calls(2); mc_count_trace(1);
    }
    munmap(out, ((size_t)1 << 31) + 65536); munmap(back, ((size_t)1 << 31) + 65536);
}
static void desc_real(uint64_t i, char* s, size_t z) { snprintf(s, z, "conversions of gigabytes"); }

/* ============ C26, C27: hexadecimal ============ */
static const char xl[] = "0123456789abcdef", xu[] = "0123456789ABCDEF";
static int xval(unsigned char c) { int k; for(k = 0; k < 16; k++) if(xl[k] == (char)c || xu[k] == (char)c) return k; return -1; }
static void hex_rt(const unsigned char* b, size_t n)
{
    int low, r; size_t i; unsigned char* src = blk(0, n); unsigned char* back; char* out; char mixed[NB * 2];
    if(n) memcpy(src, b, n);
    for(low = 0; low < 2; low++) {
        out = (char*)blk(1, 2 * n);
        r = hex_encode(src, (unsigned)n, out, (unsigned)(2 * n), low ? (int)n + 1 : 0);
        MC_ASSERT(r == (int)(2 * n), "encoding %zu bytes returned %d", n, r);
        for(i = 0; i < n; i++) MC_ASSERT(out[2*i] == (low ? xl : xu)[b[i] >> 4] && out[2*i+1] == (low ? xl : xu)[b[i] & 15], "byte %zu of %zu (%02x) is encoded as \"%c%c\" (%s case)", i, n, b[i], out[2*i], out[2*i+1], low ? "lower" : "upper");
        back = blk(2, n);
        r = hex_decode(out, (unsigned)(2 * n), back, (unsigned)n);
        MC_ASSERT(r == (int)n && (n == 0 || memcmp(back, b, n) == 0), "decoding %zu digits back returned %d or wrong bytes", 2 * n, r);
    }
    for(i = 0; i < 2 * n; i++) mixed[i] = ((i / 2 + i) & 1 ? xl : xu)[i & 1 ? b[i/2] & 15 : b[i/2] >> 4];
    out = (char*)blk(1, 2 * n); if(n) memcpy(out, mixed, 2 * n); back = blk(2, n);
    r = hex_decode(out, (unsigned)(2 * n), back, (unsigned)n);
    MC_ASSERT(r == (int)n && (n == 0 || memcmp(back, b, n) == 0), "decoding %zu digits of mixed case returned %d or wrong bytes", 2 * n, r);
    mc_count_calls(5); mc_count_trace(1);
}
static uint64_t cnt_h2(void) { return 256 + 65536 + 400 * 6; }
static void run_h2(uint64_t i) { unsigned char b[400]; if(i < 256) { b[0] = i; hex_rt(b, 1); } else if(i < 256 + 65536) { i -= 256; b[0] = i >> 8; b[1] = i; hex_rt(b, 2); } else { i -= 256 + 65536; if(i / 6 < 340) { mkdata(b, i / 6, i % 6); hex_rt(b, i / 6); } } }
static void desc_h2(uint64_t i, char* s, size_t z) { if(i < 256) snprintf(s, z, "byte %02x", (int)i); else if(i < 65792) snprintf(s, z, "bytes %04x", (int)(i - 256)); else snprintf(s, z, "%d bytes, pattern %d", (int)((i - 65792) / 6), (int)((i - 65792) % 6)); }
static uint64_t cnt_h3(void) { return 65536; }
static void run_h3(uint64_t i) { unsigned char b[3]; int k; for(k = 0; k < 256; k++) { b[0] = k; b[1] = i >> 8; b[2] = i; hex_rt(b, 3); } }
static void desc_h3(uint64_t i, char* s, size_t z) { snprintf(s, z, "any byte followed by bytes %04x", (int)i); }
/* any two characters anywhere in texts of 1..7 pairs */
static uint64_t cnt_hd(void) { return 65536; }
static void run_hd(uint64_t i)
{
    int pairs, at, j; char t[16];
    for(pairs = 1; pairs <= (mc_arg ? 7 : 3); pairs++) for(at = 0; at < pairs; at++) {
        char* src = (char*)blk(0, 2 * pairs); unsigned char* out = blk(1, pairs); int r, ok;
        for(j = 0; j < 2 * pairs; j++) t[j] = j & 1 ? 'f' : '9';
        t[2 * at] = (char)(i >> 8); t[2 * at + 1] = (char)i; memcpy(src, t, 2 * pairs);
        ok = xval((unsigned char)t[2 * at]) >= 0 && xval((unsigned char)t[2 * at + 1]) >= 0;
        r = hex_decode(src, 2 * pairs, out, pairs);
        MC_ASSERT(r == (ok ? pairs : -1), "decoding a text of %d pairs with characters %02x %02x as pair %d returned %d", pairs, (unsigned char)t[2*at], (unsigned char)t[2*at+1], at, r);
        if(ok) for(j = 0; j < pairs; j++) MC_ASSERT(out[j] == (j == at ? xval(t[2*at]) * 16 + xval(t[2*at+1]) : 0x9f), "pair %d is decoded wrongly", j);
        mc_count_calls(1); mc_count_trace(1);
    }
}
static void desc_hd(uint64_t i, char* s, size_t z) { snprintf(s, z, "characters %02x %02x as any pair of a text", (int)(i >> 8), (int)(i & 255)); }
static uint64_t cnt_ho(void) { return 200 * 256; }
static void run_ho(uint64_t i) { int n = 2 * (int)(i / 256) + 1, c = i % 256, r, k; for(k = 0; k < 3; k++) { char* s = (char*)blk(0, n); unsigned char* out; unsigned room = k == 0 ? n / 2 : k == 1 ? n / 2 + 1 : n; memset(s, 'a', n); s[k == 1 ? 0 : n - 1] = (char)c; out = blk(1, room); r = hex_decode(s, n, out, room); MC_ASSERT(r == -1, "a text of %d characters is decoded to %d bytes", n, r); mc_count_calls(1); } mc_count_trace(1); }
static void desc_ho(uint64_t i, char* s, size_t z) { snprintf(s, z, "text of odd length %d with character %02x", 2 * (int)(i / 256) + 1, (int)(i % 256)); }
/* sizes */
static uint64_t cnt_hs(void) { return 160; }
static void run_hs(uint64_t i)
{
    unsigned n = (unsigned)i, k; unsigned char b[200]; int r; char t[400]; unsigned j;
    mkdata(b, n, 3);
    for(j = 0; j < n; j++) { t[2*j] = xl[b[j] >> 4]; t[2*j+1] = xu[b[j] & 15]; }
    for(k = 0; k <= 2 * n + 5; k++) {
        unsigned char* src = blk(0, n); char* out = (char*)blk(1, k); unsigned char* dec;
        if(n) memcpy(src, b, n);
        r = hex_encode(src, n, NULL, k, k & 1); MC_ASSERT(r == (int)(2 * n + 1), "size query for encoding %u bytes answered with %d", n, r);
        r = hex_encode(src, n, out, k, 1);
        if(k < 2 * n) MC_ASSERT(r == -1, "encoding %u bytes into a buffer of %u returned %d", n, k, r);
        else {
            MC_ASSERT(r == (int)(2 * n), "encoding %u bytes into a buffer of %u returned %d", n, k, r);
            for(j = 0; j < n; j++) MC_ASSERT(out[2*j] == xl[b[j] >> 4] && out[2*j+1] == xl[b[j] & 15], "encoding %u bytes into a buffer of %u gives wrong digits", n, k);
            if(k > 2 * n) MC_ASSERT(out[2 * n] == 0, "encoding %u bytes into a buffer of %u: no terminator though there is room", n, k);
            for(j = 2 * n + 1; j < k; j++) MC_ASSERT(out[j] == 0x5A, "encoding %u bytes writes beyond the size it told", n);
        }
        { char* s = (char*)blk(2, 2 * n); if(n) memcpy(s, t, 2 * n);
          r = hex_decode(s, 2 * n, NULL, k); MC_ASSERT(r == (int)n, "size query for decoding %u digits answered with %d", 2 * n, r);
          dec = blk(3, k); r = hex_decode(s, 2 * n, dec, k);
          if(k < n) MC_ASSERT(r == -1, "decoding %u digits into a buffer of %u returned %d", 2 * n, k, r);
          else { MC_ASSERT(r == (int)n && (n == 0 || memcmp(dec, b, n) == 0), "decoding %u digits into a buffer of %u returned %d", 2 * n, k, r); for(j = n; j < k; j++) MC_ASSERT(dec[j] == 0x5A, "decoding %u digits writes beyond the bytes it returned", 2 * n); } }
        mc_count_calls(4); mc_count_trace(2);
    }
}
static void desc_hs(uint64_t i, char* s, size_t z) { snprintf(s, z, "%d bytes with buffers of all sizes", (int)i); }
static uint64_t cnt_hl(void) { return 17 * 17; }
static void run_hl(uint64_t i)
{
    unsigned n = marks[i / 17] + (unsigned)(i % 17) - 8; int r, k; unsigned char* in = huge('7'); static const unsigned outs[] = { 0, 1, 2, 3, 4, 5, 8, 100 };
    if(in == NULL || n < 1000) return;
    r = hex_encode(in, n, NULL, 0, 1);
    if((unsigned long long)n * 2 + 1 <= INT_MAX) MC_ASSERT(r == (int)(2 * n + 1), "size query for encoding %u bytes answered with %d", n, r);
    else MC_ASSERT(r < 0, "size query for encoding %u bytes answered with %d though the size is not representable", n, r);
    r = hex_decode((char*)in, n, NULL, 0); MC_ASSERT(r == (int)(n / 2), "size query for decoding %u digits answered with %d", n, r);
    for(k = 0; k < 8; k++) {
        r = hex_encode(in, n, (char*)blk(1, outs[k]), outs[k], 0); MC_ASSERT(r == -1, "encoding %u bytes into a buffer of %u returned %d", n, outs[k], r);
        r = hex_decode((char*)in, n, blk(1, outs[k]), outs[k]); MC_ASSERT(r == -1, "decoding %u digits into a buffer of %u returned %d", n, outs[k], r);
    }
    if((unsigned long long)n * 2 > INT_MAX) {      /* not representable, however large the buffer */
        char* o = mmap(NULL, (size_t)1 << 33, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        if(o != MAP_FAILED) { r = hex_encode(in, n, o, 0xffffffffu, 0); munmap(o, (size_t)1 << 33); MC_ASSERT(r == -1, "encoding %u bytes into a buffer of 4294967295 returned %d", n, r); }
    }
    mc_count_calls(19); mc_count_trace(2);
}
static void run_realhex(uint64_t i)
{
    unsigned char* in = huge('7'); unsigned char* out = big((size_t)1 << 31); static const unsigned ns[] = { 0xfffffffeu, 0x80000000u, 0xfffffffcu }; static const unsigned ne[] = { 1073741823u, 1073741822u }; int k, r;
    if(!in || !out) return;
    for(k = i % 2 == 0 ? (int)i / 2 : 3; k < 3; k += 3) {
        memset(out + ns[k] / 2, 0x5A, 16);
        r = hex_decode((char*)in, ns[k], out, ns[k] / 2); mc_beat();
        MC_ASSERT(r == (int)(ns[k] / 2) && out[ns[k] / 2] == 0x5A, "decoding %u digits returned %d or wrote too much", ns[k], r);
        same_bytes(out, ns[k] / 2, "\x77\x77\x77\x77", 4, "decoding gigabytes");
        mc_count_calls(1); mc_count_trace(1);
    }
    for(k = i % 2 ? (int)i / 2 : 2; k < 2; k += 2) {
        memset(out + 2 * (size_t)ne[k], 0x5A, 16);
        r = hex_encode(in, ne[k], (char*)out, 2 * ne[k], 1); mc_beat();
        MC_ASSERT(r == (int)(2 * ne[k]) && out[2 * (size_t)ne[k]] == 0x5A, "encoding %u bytes returned %d or wrote too much", ne[k], r);
        same_bytes(out, 2 * (size_t)ne[k], "3737", 4, "encoding gigabytes");
        mc_count_calls(1); mc_count_trace(1);
    }
    munmap(out, ((size_t)1 << 31) + 65536);
}
/* one bad character among gigabytes of good ones */
#define G_LEN(c) ((c) % 2 == 0 ? 0x80000004u : mc_is("C26") ? 0xfffffffcu : 0xaaaaaaa8u)      /* what is decoded has to be representable */
 static const unsigned g_at[] = { 0x80000001u, 100, 0x7fffffffu, 0x80000002u, 0xaaaaaaa1u, 0xffffffffu /* the last one */ };
static uint64_t cnt_gbad(void) { return mc_thorough ? 12 : 5; }
static void run_gbad(uint64_t c)
{
    unsigned len = G_LEN(c), at = g_at[c / 2]; int hex = mc_is("C26"), r; unsigned char *in = huge(hex ? '7' : 'A'), *page, *out = NULL; static const char bad[] = { '!', 0, (char)0xff, '\n', ' ', '-' };
    if(at == 0xffffffffu) at = len - 1;
    if(in == NULL || at >= len) return;
    if(hex) { size_t step = 16 << 20, o; int fd = memfd_create("out", 0); if(fd < 0 || ftruncate(fd, step) != 0) return; out = mmap(NULL, (size_t)1 << 31, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if(out == MAP_FAILED) return; for(o = 0; o < (size_t)1 << 31; o += step) if(mmap(out + o, step, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_FIXED, fd, 0) == MAP_FAILED) abort(); close(fd); }
    page = in + (at & ~4095u); if(mmap(page, 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED, -1, 0) == MAP_FAILED) abort();
    memset(page, hex ? '7' : 'A', 4096); in[at] = bad[c % 6]; mc_beat();
    if(hex) { r = hex_decode((char*)in, len, out, len / 2); munmap(out, (size_t)1 << 31); } else r = base64_decode((char*)in, len, NULL, 0, NULL);
    in[at] = hex ? '7' : 'A'; mc_beat();
    MC_ASSERT(r < 0, "a text of %u characters with 0x%02x at %u is accepted (%d)", len, (unsigned char)bad[c % 6], at, r);
    if(!hex) { r = base64_decode((char*)in, len, NULL, 0, NULL); MC_ASSERT((unsigned)r >= len / 4 * 3 && r > 0, "a valid text of %u characters is refused (%d)", len, r); }
    mc_count_calls(2); mc_count_trace(1);
}
static void desc_gbad(uint64_t c, char* s, size_t z) { snprintf(s, z, "%u characters, a bad one at %u", G_LEN(c), g_at[c / 2]); }
/* ---- every length around each power of two and ten */
static const EDGES eg_q = { 8, 20, 13, 1 }, eg_t = { 8, 22, 20, 1 };
#define EG (mc_thorough ? &eg_t : &eg_q)
static const int edia[] = { ND, 2, 4 };
static unsigned char* noise(size_t n) { unsigned char* b = mc_xmalloc(n + 1); size_t i; unsigned x = 12345; for(i = 0; i < n; i++) { x = x * 1103515245u + 12345u; b[i] = x >> 16; } return b; }
static uint64_t cnt_e64(void) { return edge_count(EG) * 3; }
static void run_e64(uint64_t c)
{
    size_t n = edge_at(EG, c / 3), m, k, strip; int d = edia[c % 3], r, e; unsigned char *b, *back; char *text, *out; const BASE64_OPTIONS* o = eff(d);
    if(n == 0) return;
    b = noise(n); text = mc_xmalloc(n * 2 + 8); m = ref_encode(b, n, text, o);
    r = base64_encode(b, n, NULL, 0, opt(d)); MC_ASSERT(r >= (int)m, "size query for encoding %zu bytes answered with %d, %zu are needed", n, r, m); mc_beat();
    for(e = -1; e <= 2; e++) {
        out = mc_xmalloc(m + e); r = base64_encode(b, n, out, m + e, opt(d));
        if(e < 0) MC_ASSERT(r < 0, "encoding %zu bytes into %zu returned %d", n, m + e, r);
        else { MC_ASSERT(r == (int)m, "encoding %zu bytes into %zu returned %d, expected %zu", n, m + e, r, m); for(k = 0; k < m; k++) MC_ASSERT(out[k] == text[k], "encoding %zu bytes: character %zu is %02x, expected %02x", n, k, (unsigned char)out[k], (unsigned char)text[k]); if(e > 0) MC_ASSERT(out[m] == 0, "no terminator after %zu characters", m); }
        mc_xfree(out); mc_beat();
    }
    for(strip = 0; strip < 2; strip++) {
        if(strip) { if(!o->pad || text[m - 1] != o->pad) break; while(text[m - 1] == o->pad) m--; }
        r = base64_decode(text, m, NULL, 0, opt(d)); MC_ASSERT(r >= (int)n, "size query for decoding %zu characters answered with %d, %zu are needed", m, r, n);
        out = mc_xmalloc(m); memcpy(out, text, m);
        for(e = -1; e <= 1; e++) {
            back = mc_xmalloc(n + e); r = base64_decode(out, m, back, n + e, opt(d));
            if(e < 0) MC_ASSERT(r < 0, "decoding %zu bytes into %zu returned %d", n, n + e, r);
            else { MC_ASSERT(r == (int)n, "decoding %zu characters into %zu returned %d, expected %zu", m, n + e, r, n); for(k = 0; k < n; k++) MC_ASSERT(back[k] == b[k], "decoding %zu characters: byte %zu is %02x, expected %02x", m, k, back[k], b[k]); }
            mc_xfree(back); mc_beat();
        }
        mc_xfree(out);
    }
    mc_xfree(b); mc_xfree(text); mc_count_calls(15); mc_count_trace(1);
}
static void desc_e64(uint64_t c, char* s, size_t z) { snprintf(s, z, "%zu bytes, dialect %d", edge_at(EG, c / 3), edia[c % 3]); }
/* one bad character in a long text: at every place around a power of two or ten, before it and at the end */
#define E_POS (edge_count(EG))
static const char e_bad[] = { 0, '=', '-', (char)0x80, ' ' };
static uint64_t cnt_ebad(void) { return E_POS * 5; }
static void run_ebad(uint64_t c)
{
    static char *text, *htext; static unsigned char *out, *b; static size_t m, nb; size_t at = edge_at(EG, c / 5), len; int r; char ch = e_bad[c % 5], was; int hex = mc_is("C26"), pass;
    if(!text) { nb = (size_t)3 << (EG->hi - 1); b = noise(nb); text = mc_xmalloc(nb * 2 + 8); m = ref_encode(b, nb, text, eff(ND)); out = mc_xmalloc(nb); if(hex) { size_t i; htext = mc_xmalloc(nb * 2); for(i = 0; i < nb; i++) { htext[2*i] = "0123456789abcdef"[b[i] >> 4]; htext[2*i+1] = "0123456789ABCDEF"[b[i] & 15]; } } }
    if(at == 0) return;
    for(pass = 0; pass < 3; pass++) {
        char* t; size_t rest = hex ? 2 : 4;
        len = ((at + rest) / rest) * rest; if(pass == 1) len += 64 * rest; if(pass == 2) len = hex ? nb * 2 : m;
        if(hex) { t = htext; was = t[at]; t[at] = ch; r = hex_decode(t, len, out, nb); t[at] = was; }
        else { t = text; was = t[at]; t[at] = ch; if(ch == '=' && at == len - 1) ch = '\n', t[at] = ch; r = base64_decode(t, len, out, nb, NULL); t[at] = was; }
        MC_ASSERT(r < 0, "a text of %zu characters with 0x%02x at %zu is accepted (%d)", len, (unsigned char)ch, at, r); mc_beat();
    }
    mc_count_calls(3); mc_count_trace(1);
}
static void desc_ebad(uint64_t c, char* s, size_t z) { snprintf(s, z, "character 0x%02x at %zu", (unsigned char)e_bad[c % 5], edge_at(EG, c / 5)); }
static uint64_t cnt_ehex(void) { return edge_count(EG); }
static void run_ehex(uint64_t c)
{
    size_t n = edge_at(EG, c), k; int r, low, e; unsigned char *b, *back; char* out;
    if(n == 0) return;
    b = noise(n);
    r = hex_encode(b, n, NULL, 0, 0); MC_ASSERT(r == (int)(2 * n + 1), "size query for encoding %zu bytes answered with %d", n, r);
    r = hex_decode((char*)b, 2 * (n / 2), NULL, 0); MC_ASSERT(r == (int)(n / 2), "size query for decoding %zu digits answered with %d", 2 * (n / 2), r);
    for(low = 0; low < 2; low++) for(e = -1; e <= 2; e++) {
        out = mc_xmalloc(2 * n + e); r = hex_encode(b, n, out, 2 * n + e, low);
        if(e < 0) { MC_ASSERT(r == -1, "encoding %zu bytes into %zu returned %d", n, 2 * n + e, r); mc_xfree(out); continue; }
        MC_ASSERT(r == (int)(2 * n), "encoding %zu bytes returned %d", n, r);
        for(k = 0; k < n; k++) MC_ASSERT(out[2*k] == (low ? "0123456789abcdef" : "0123456789ABCDEF")[b[k] >> 4] && out[2*k+1] == (low ? "0123456789abcdef" : "0123456789ABCDEF")[b[k] & 15], "encoding %zu bytes: byte %zu (%02x) is \"%.2s\"", n, k, b[k], out + 2*k);
        if(e > 0) MC_ASSERT(out[2 * n] == 0, "no terminator after %zu digits", 2 * n);
        if(e == 0) {
            int f; for(f = -1; f <= 1; f++) {
                back = mc_xmalloc(n + f); r = hex_decode(out, 2 * n, back, n + f);
                if(f < 0) MC_ASSERT(r == -1, "decoding %zu digits into %zu bytes returned %d", 2 * n, n + f, r); else MC_ASSERT(r == (int)n && memcmp(back, b, n) == 0, "decoding %zu digits returned %d or wrong bytes", 2 * n, r);
                mc_xfree(back);
            }
        }
        mc_xfree(out); mc_beat();
    }
    mc_xfree(b); mc_count_calls(16); mc_count_trace(1);
}
static void desc_ehex(uint64_t c, char* s, size_t z) { snprintf(s, z, "%zu bytes", edge_at(EG, c)); }


/* ============ C25, C27: buffers of any declared size up to the maximum of the type ============ */
static const unsigned vast_sz[] = { 1u << 16, 0x15555556u, 0x20000000u, 0x20000001u, 0x2aaaaaabu, 0x3fffffffu, 0x40000000u, 0x40000001u, 0x55555555u, 0x55555556u, 0x55555557u, 0x5fffffffu, 0x60000000u, 0x60000001u, 0x7ffffffeu, 0x7fffffffu, 0x80000000u, 0x80000001u, 0x80000002u, 0xaaaaaaaau, 0xaaaaaaabu, 0xaaaaaaacu, 0xbfffffffu, 0xc0000000u, 0xc0000001u, 0xc0000002u, 0xfffffffcu, 0xfffffffdu, 0xfffffffeu, 0xffffffffu };
#define NVAST (sizeof vast_sz / sizeof *vast_sz)
static unsigned char* vast(void)        /* 4 GB, of which only the first 64 kB may be touched */
{
    static unsigned char* p;
    if(!p) { p = mmap(NULL, ((size_t)4 << 30) + 65536, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if(p == MAP_FAILED || mprotect(p, 65536, PROT_READ | PROT_WRITE) != 0) { perror("mmap"); abort(); } }
    return p;
}
static void vast_tail(const unsigned char* p, unsigned used, unsigned n) { unsigned k; for(k = used; k < NB * 2; k++) MC_ASSERT(p[k] == 0x5A, "%u bytes: written beyond the size told", n); }
static uint64_t cnt_vast(void) { return 130; }
static void run_vast(uint64_t i)
{
    unsigned n = (unsigned)i, k, m; int d, r, q, strip; unsigned char b[NB]; char text[NB * 2]; unsigned char* src = blk(0, n); unsigned char* out = vast(); char* t;
    mkdata(b, n, 3); if(n) memcpy(src, b, n);
    for(k = 0; k < NVAST; k++) {
        unsigned sz = vast_sz[k];
        if(mc_is("C25")) for(d = 0; d <= ND; d++) {
            m = (unsigned)ref_encode(b, n, text, eff(d));
            memset(out, 0x5A, NB * 2); r = base64_encode(src, n, (char*)out, sz, opt(d));
            MC_ASSERT(r == (int)m && memcmp(out, text, m) == 0 && out[m] == 0, "encoding %u bytes into a buffer of %u returned %d (dialect %d)", n, sz, r, d);
            vast_tail(out, m + 5, n);
            for(strip = 0; strip < 2; strip++) {
                if(strip) while(m && eff(d)->pad && text[m - 1] == eff(d)->pad) m--;
                t = (char*)blk(1, m); if(m) memcpy(t, text, m);
                q = base64_decode(t, m, NULL, sz, opt(d)); MC_ASSERT(q >= (int)n, "size query for decoding %u characters with a size of %u answered with %d", m, sz, q);
                memset(out, 0x5A, NB * 2); r = base64_decode(t, m, out, sz, opt(d));
                MC_ASSERT(r == (int)n && (n == 0 || memcmp(out, b, n) == 0), "decoding to %u bytes into a buffer of %u returned %d (dialect %d)", n, sz, r, d);
                vast_tail(out, q, n);
            }
        } else for(d = 0; d < 2; d++) {
            for(m = 0; m < 2 * n; m++) text[m] = (d ? xl : xu)[m & 1 ? b[m / 2] & 15 : b[m / 2] >> 4];
            r = hex_encode(src, n, NULL, sz, d); MC_ASSERT(r == (int)(2 * n + 1), "size query for encoding %u bytes with a size of %u answered with %d", n, sz, r);
            memset(out, 0x5A, NB * 2); r = hex_encode(src, n, (char*)out, sz, d);
            MC_ASSERT(r == (int)(2 * n) && memcmp(out, text, 2 * n) == 0 && out[2 * n] == 0, "encoding %u bytes into a buffer of %u returned %d", n, sz, r);
            vast_tail(out, 2 * n + 1, n);
            t = (char*)blk(1, 2 * n); if(n) memcpy(t, text, 2 * n);
            r = hex_decode(t, 2 * n, NULL, sz); MC_ASSERT(r == (int)n, "size query for decoding %u digits with a size of %u answered with %d", 2 * n, sz, r);
            memset(out, 0x5A, NB * 2); r = hex_decode(t, 2 * n, out, sz);
            MC_ASSERT(r == (int)n && (n == 0 || memcmp(out, b, n) == 0), "decoding %u digits into a buffer of %u returned %d", 2 * n, sz, r);
            vast_tail(out, n, n);
        }
        mc_count_calls(4); mc_count_trace(1);
    }
}
static void desc_vast(uint64_t i, char* s, size_t z) { snprintf(s, z, "%d bytes and outputs of up to 4 GB", (int)i); }

MC_SYS mc_systems[] = { { 0 } };
MC_ENUM mc_enums[] = {
    { "C23", "base64-two-bytes", 3, 0, cnt_rt12, run_rt12, desc_rt12, 256 },
    { "C23", "base64-three-bytes-std", 1, ND + 1, cnt_rt3, run_rt3, desc_rt3, 64 }, { "C23", "base64-three-bytes", 2, 2, cnt_rt3, run_rt3, desc_rt3, 64 },
    { "C23", "base64-lengths", 3, 0, cnt_rtn, run_rtn, desc_rtn, 64 }, { "C23", "base64-groups", 3, 0, cnt_grp, run_grp, desc_grp, 64 }, { "C23", "base64-special-chars", 3, 0, cnt_sp, run_sp, desc_sp, 256 },
    { "C24", "base64-texts-3", 1, 2, cnt_a2, run_a2, desc_a2, 256 }, { "C24", "base64-all-texts-3", 2, 1, cnt_a2, run_a2, desc_a2, 64 },
    { "C24", "base64-classes-4", 3, 4, cnt_cl, run_cl, desc_cl, 256 }, { "C24", "base64-classes-6", 1, 106, cnt_cl, run_cl, desc_cl, 256 }, { "C24", "base64-classes-7", 1, 107, cnt_cl, run_cl, desc_cl, 256 },
    { "C24", "base64-classes-5", 2, 55, cnt_cl, run_cl, desc_cl, 256 }, { "C24", "base64-classes-8", 2, 108, cnt_cl, run_cl, desc_cl, 256 },
    { "C24", "base64-substitutions", 3, 0, cnt_sub, run_sub, desc_sub, 64 },
    { "C25", "base64-sizes", 3, 0, cnt_sz, run_sz, desc_sz, 8 }, { "C25", "base64-bad-sizes", 3, 0, cnt_bad, run_bad, desc_bad, 64 }, { "C25", "base64-encode-limits", 3, 0, cnt_lim, run_lim, desc_lim, 8 },
    { "C25", "base64-decode-limits", 1, 0, cnt_dlim, run_dlim, desc_dlim, 1 }, { "C25", "base64-decode-limits-deep", 2, 1, cnt_dlim, run_dlim, desc_dlim, 1 }, { "C24", "base64-gigabytes-bad", 3, 0, cnt_gbad, run_gbad, desc_gbad, 1 }, { "C23 C25", "base64-gigabytes", 1, 1, cnt_real, run_real64, desc_real, 1 }, { "C23 C25", "base64-gigabytes-more", 2, 4, cnt_real, run_real64, desc_real, 1 },
    { "C26", "hex-round-trip", 3, 0, cnt_h2, run_h2, desc_h2, 256 }, { "C26", "hex-three-bytes", 2, 0, cnt_h3, run_h3, desc_h3, 64 }, { "C26", "hex-pairs", 1, 0, cnt_hd, run_hd, desc_hd, 256 }, { "C26", "hex-pairs-deep", 2, 1, cnt_hd, run_hd, desc_hd, 256 }, { "C26", "hex-odd", 3, 0, cnt_ho, run_ho, desc_ho, 256 },
    { "C27", "hex-sizes", 3, 0, cnt_hs, run_hs, desc_hs, 4 }, { "C27", "hex-limits", 3, 0, cnt_hl, run_hl, desc_lim, 8 }, { "C26", "hex-gigabytes-bad", 3, 0, cnt_gbad, run_gbad, desc_gbad, 1 }, { "C26 C27", "hex-gigabytes", 1, 2, cnt_real, run_realhex, desc_real, 1 }, { "C26 C27", "hex-gigabytes-more", 2, 5, cnt_real, run_realhex, desc_real, 1 },
    { "C25 C27", "vast-outputs", 3, 0, cnt_vast, run_vast, desc_vast, 2 },
    { "C23 C25", "edges-base64", 3, 0, cnt_e64, run_e64, desc_e64, 4 }, { "C24", "edges-base64-bad", 3, 0, cnt_ebad, run_ebad, desc_ebad, 16 }, { "C26 C27", "edges-hex", 3, 0, cnt_ehex, run_ehex, desc_ehex, 4 }, { "C26", "edges-hex-bad", 3, 0, cnt_ebad, run_ebad, desc_ebad, 16 },
    { 0 }
};
