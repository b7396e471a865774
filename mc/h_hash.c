/* C28 CRC-32, C29 FNV-1a. */
#define _GNU_SOURCE
#include "mc.h"
#include "crc32.h"
#include "fnv1a.h"
#include "edges.h"
#include <sys/mman.h>
#include <unistd.h>

/* ---- references */
static uint32_t crc_step(uint32_t r, int byte) { int k; r ^= (uint32_t)byte; for(k = 0; k < 8; k++) r = (r >> 1) ^ ((r & 1) ? 0xEDB88320u : 0); return r; }
static uint32_t ref_crc(const unsigned char* p, size_t n) { uint32_t r = 0xffffffffu; while(n--) r = crc_step(r, *p++); return ~r; }
/* n equal bytes at once: one step is an affine map over GF(2), raised to the n-th power by squaring */
typedef struct { uint32_t m[32], c; } AFF;
static uint32_t aff_lin(const AFF* a, uint32_t x) { uint32_t r = 0; int i; for(i = 0; i < 32; i++) if(x >> i & 1) r ^= a->m[i]; return r; }
static AFF aff_mul(const AFF* f, const AFF* g) { AFF r; int i; for(i = 0; i < 32; i++) r.m[i] = aff_lin(f, g->m[i]); r.c = aff_lin(f, g->c) ^ f->c; return r; }   /* f after g */
static uint32_t ref_crc_run(uint32_t reg, int byte, uint64_t n)      /* from one register value to the next */
{
    AFF a, r; int i;
    a.c = crc_step(0, byte); for(i = 0; i < 32; i++) { a.m[i] = crc_step(1u << i, byte) ^ a.c; r.m[i] = 1u << i; }
    r.c = 0;
    for(; n; n >>= 1) { if(n & 1) r = aff_mul(&a, &r); a = aff_mul(&a, &a); }
    return aff_lin(&r, reg) ^ r.c;
}
/* 16777619 = 2^24 + 2^8 + 0x93, 1099511628211 = 2^40 + 2^8 + 0xb3 */
static uint32_t fnv32_step(uint32_t h, int byte) { h ^= (uint32_t)byte; return (h << 24) + (h << 8) + (h << 7) + (h << 4) + (h << 1) + h; }
static uint64_t fnv64_step(uint64_t h, int byte) { h ^= (uint64_t)byte; return (h << 40) + (h << 8) + (h << 7) + (h << 5) + (h << 4) + (h << 1) + h; }
static uint32_t ref32(uint32_t h, const unsigned char* p, size_t n) { while(n--) h = fnv32_step(h, *p++); return h; }
static uint64_t ref64(uint64_t h, const unsigned char* p, size_t n) { while(n--) h = fnv64_step(h, *p++); return h; }

/* ---- a place whose end is the end of an allocation: reading past it is a memory error */
#define CAP 70000
static unsigned char* arena_[32];
static unsigned char* place(size_t n, int align)     /* n bytes at the given offset from a 32-byte boundary, ending at the end of the block */
{
    /* exact-size block: align + n bytes from an aligned address */
    static unsigned char* last; if(last) mc_xfree(last);
    last = mc_xmalloc(align + n + !(align + n));
    memset(last, 0xC3, align + n);
    return last + align;
}
static void check32(uint32_t s, const unsigned char* p, size_t n) { uint32_t e = ref32(s, p, n), r = fnv1a_32(s, p, n); mc_count_calls(1); MC_ASSERT(r == e, "fnv1a_32(%08x, %zu bytes) is %08x, expected %08x", s, n, r, e); }
static void check64(uint64_t s, const unsigned char* p, size_t n) { uint64_t e = ref64(s, p, n), r = fnv1a_64(s, p, n); mc_count_calls(1); MC_ASSERT(r == e, "fnv1a_64(%016llx, %zu bytes) is %016llx, expected %016llx", (unsigned long long)s, n, (unsigned long long)r, (unsigned long long)e); }
static void checkcrc(const unsigned char* p, size_t n) { uint32_t e = ref_crc(p, n), r = crc32(p, n); mc_count_calls(1); MC_ASSERT(r == e, "crc32(%zu bytes) is %08x, expected %08x", n, r, e); }
static const uint64_t starts[] = { 0, 1, ~0ull, 0x8000000000000000ull, 14695981039346656037ull, 2166136261ull, 0x80000000ull, 0xffffffffull, 0x0123456789abcdefull, 0xff00ff00ff00ff00ull };
#define NS ((int)(sizeof(starts) / sizeof(*starts)))
static void checkall(const unsigned char* p, size_t n)
{
    int k;
    if(mc_is("C28")) checkcrc(p, n);
    if(mc_is("C29")) for(k = 0; k < NS; k++) { check32((uint32_t)starts[k], p, n); check64(starts[k], p, n); }
    mc_count_trace(1);
}

/* all blocks of 0, 1 and 2 bytes (3: thorough) */
static uint64_t cnt2(void) { return 65536; }
static void run2(uint64_t i)
{
    unsigned char b[3]; int k; b[0] = i >> 8; b[1] = i;
    { unsigned char* p = place(2, 0); memcpy(p, b, 2); checkall(p, 2); checkall(p + 1, 1); checkall(p + 2, 0); }
    for(k = 0; k < 256; k++) { b[2] = k; if(mc_is("C28")) checkcrc(b, 3); if(mc_arg && mc_is("C29")) { check32(2166136261u, b, 3); check64(14695981039346656037ull, b, 3); } mc_count_trace(1); }
}
static void desc2(uint64_t i, char* b, size_t z) { snprintf(b, z, "blocks beginning with bytes %04x", (int)i); }
/* every length at every alignment, several contents */
static void fill(unsigned char* p, size_t n, int pat) { size_t i; for(i = 0; i < n; i++) p[i] = pat == 0 ? 0 : pat == 1 ? 0xff : pat == 2 ? (unsigned char)(i + 1) : (unsigned char)(i * 167 + (i >> 8) * 29 + 13); }
static uint64_t cntlen(void) { return mc_arg; }
static void runlen(uint64_t n)
{
    int al, pat;
    for(al = 0; al < 17; al++) for(pat = 0; pat < 4; pat++) { unsigned char* p = place(n, al); fill(p, n, pat); checkall(p, n); checkall(p, n); }
    /* bytes around the block do not matter */
    { unsigned char* p = mc_xmalloc(n + 64); uint32_t c; int k; fill(p, n + 64, 3); c = crc32(p + 32, n);
      for(k = 0; k < 3; k++) { memset(p, k == 0 ? 0 : k == 1 ? 0xff : 0x5A, 32); memset(p + 32 + n, k == 0 ? 0xff : k == 1 ? 0 : 0xA5, 32); if(mc_is("C28")) MC_ASSERT(crc32(p + 32, n) == c, "the checksum of %zu bytes depends on bytes around them", n); if(mc_is("C29")) { check32(7, p + 32, n); check64(7, p + 32, n); } }
      mc_xfree(p); }
}
static void desclen(uint64_t i, char* b, size_t z) { snprintf(b, z, "%d bytes at every alignment", (int)i); }
/* every byte value at every position, over three backgrounds */
#define PL 72
static uint64_t cntpos(void) { return PL * 256; }
static void runpos(uint64_t i)
{
    int pos = i / 256, v = i % 256, bg; size_t n;
    for(bg = 0; bg < 3; bg++) for(n = pos + 1; n <= PL; n += (n == PL || n == (size_t)pos + 1) ? (PL - pos - 1 ? PL - pos - 1 : 1) : 1) { unsigned char* p = place(n, bg); memset(p, bg == 0 ? 0 : bg == 1 ? 0xff : 0x5A, n); p[pos] = v; checkall(p, n); }
}
static void descpos(uint64_t i, char* b, size_t z) { snprintf(b, z, "byte %02x at position %d of up to %d", (int)(i % 256), (int)(i / 256), PL); }
/* lengths around powers of two */
static const int bigl[] = { 1535, 2047, 2048, 2049, 4095, 4096, 4097, 5551, 5552, 5553, 8191, 8192, 8193, 16383, 16384, 16385, 32767, 32768, 32769, 65535, 65536, 65537, 69999 };
static uint64_t cntbig(void) { return sizeof(bigl) / sizeof(*bigl) * 4; }
static void runbig(uint64_t i) { int al; for(al = 0; al < 8; al++) { unsigned char* p = place(bigl[i / 4], al); fill(p, bigl[i / 4], i % 4); checkall(p, bigl[i / 4]); } }
static void descbig(uint64_t i, char* b, size_t z) { snprintf(b, z, "%d bytes, pattern %d", bigl[i / 4], (int)(i % 4)); }
/* composition: every split into two and three pieces, including empty ones */
static uint64_t cntsplit(void) { return mc_arg * 4; }
static void runsplit(uint64_t i)
{
    size_t n = i / 4, a, b; int k; unsigned char* p = place(n, (int)(i % 3)); fill(p, n, (int)(i % 4));
    for(k = 0; k < NS; k++) {
        uint32_t e32 = ref32((uint32_t)starts[k], p, n); uint64_t e64 = ref64(starts[k], p, n);
        for(a = 0; a <= n; a++) {
            uint32_t h = fnv1a_32((uint32_t)starts[k], p, a); uint64_t g = fnv1a_64(starts[k], p, a); uint32_t h1 = fnv1a_32(h, p + a, n - a); uint64_t g1 = fnv1a_64(g, p + a, n - a);
            MC_ASSERT(h1 == e32 && g1 == e64, "hashing %zu bytes as %zu+%zu gives %08x/%016llx, expected %08x/%016llx", n, a, n - a, h1, (unsigned long long)g1, e32, (unsigned long long)e64);
            mc_count_calls(4); mc_count_trace(2);
            if(n <= 40) for(b = a; b <= n; b++) {
                h1 = fnv1a_32(fnv1a_32(h, p + a, b - a), p + b, n - b); g1 = fnv1a_64(fnv1a_64(g, p + a, b - a), p + b, n - b);
                MC_ASSERT(h1 == e32 && g1 == e64, "hashing %zu bytes as %zu+%zu+%zu gives %08x/%016llx, expected %08x/%016llx", n, a, b - a, n - b, h1, (unsigned long long)g1, e32, (unsigned long long)e64);
                mc_count_calls(4); mc_count_trace(2);
            }
        }
    }
}
static void descsplit(uint64_t i, char* b, size_t z) { snprintf(b, z, "all splits of %d bytes, pattern %d", (int)(i / 4), (int)(i % 4)); }
/* starting values: every bit set / cleared, with every byte value; every pair of bits */
static uint64_t cntst(void) { return 64 * 64; }
static void runst(uint64_t i)
{
    uint64_t s = 1ull << (i / 64) | 1ull << (i % 64); unsigned char b[2]; int v;
    for(v = 0; v < 256; v++) { b[0] = v; b[1] = (unsigned char)~v; check32((uint32_t)s, b, 1); check32((uint32_t)~s, b, 1); check32((uint32_t)(s >> 32), b, 2); check64(s, b, 1); check64(~s, b, 1); check64(s, b, 2); mc_count_trace(6); }
    MC_ASSERT(fnv1a_32((uint32_t)s, b, 0) == (uint32_t)s && fnv1a_64(s, b, 0) == s && fnv1a_64(~s, b, 0) == ~s, "hashing zero bytes changed the starting value %016llx", (unsigned long long)s);
}
static void descst(uint64_t i, char* b, size_t z) { snprintf(b, z, "starting value with bits %d and %d", (int)(i / 64), (int)(i % 64)); }
/* every 32-bit starting value */
static uint64_t cntall(void) { return 65536; }
static void runall(uint64_t i)
{
    static const unsigned char bb[] = { 0, 1, 0x80, 0xff }; uint32_t k; int j;
    for(k = 0; k < 65536; k++) for(j = 0; j < 4; j += mc_arg) { uint32_t s = (uint32_t)(i << 16 | k), r = fnv1a_32(s, bb + j, 1), e = fnv32_step(s, bb[j]); MC_ASSERT(r == e, "fnv1a_32(%08x, byte %02x) is %08x, expected %08x", s, bb[j], r, e); }
    mc_count_calls(65536 * 4 / mc_arg); mc_count_trace(65536 * 4 / mc_arg);
}
static void descall(uint64_t i, char* b, size_t z) { snprintf(b, z, "starting values %04x0000 to %04xffff", (int)i, (int)i); }
/* real blocks of gigabytes: a file of 64 KB mapped again and again */
__attribute__((constructor)) static void patience(void) { mc_hang_limit = 240; }     /* one call may work through gigabytes */
static const uint64_t hugel[] = { (1ull << 32) + 3, (1ull << 31) + 1, (1ull << 32), (1ull << 32) - 1, (1ull << 31), (1ull << 31) - 1 };
#define SPOT ((1ull << 31) - 5001)
#define SPOT_BYTE 0x66
static unsigned char* hugemap(int byte)
{
    static unsigned char* m; static int cur = -1; const size_t W = 1 << 20, total = ((size_t)1 << 32) + (1 << 20); int fd; size_t o; char nm[] = "/tmp/mc-hash-XXXXXX"; unsigned char* w;
    if(cur == byte) return m;
    if(m) munmap(m, total);
    fd = memfd_create("mc", 0); if(fd < 0) { fd = mkstemp(nm); if(fd >= 0) unlink(nm); } if(fd < 0 || ftruncate(fd, W)) abort();
    m = mmap(NULL, total, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if(m == MAP_FAILED) abort();
    for(o = 0; o < total; o += W) if(mmap(m + o, W, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_FIXED, fd, 0) == MAP_FAILED) abort();
    close(fd); w = m; memset(w, byte, W); cur = byte;
    /* one byte in the middle is different: any number of equal ones that is a multiple of a large power of two would not count for FNV-1a */
    w = m + (SPOT & ~4095ull); if(mmap(w, 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED, -1, 0) == MAP_FAILED) abort(); memset(w, byte, 4096); m[SPOT] = SPOT_BYTE;
    return m;
}
static uint64_t cnthuge(void) { return mc_arg * 3; }
static void runhuge(uint64_t i)
{
    int which = i % 3; uint64_t n = hugel[i / 3], k; int byte = i / 3 % 2 ? 0xA7 : 0x31; unsigned char* p = hugemap(byte);
    mc_beat();
    if(which == 0) { uint32_t r, e; if(!mc_is("C28")) return; r = crc32(p, n); e = ~ref_crc_run(crc_step(ref_crc_run(0xffffffffu, byte, SPOT), SPOT_BYTE), byte, n - SPOT - 1); MC_ASSERT(r == e, "crc32 of %llu bytes %02x is %08x, expected %08x", (unsigned long long)n, byte, r, e); }
    else if(which == 1) { uint32_t r, e = 5; if(!mc_is("C29")) return; r = fnv1a_32(5, p, n); mc_beat(); for(k = 0; k < n; k++) e = (e ^ (k == SPOT ? SPOT_BYTE : byte)) * 16777619u; MC_ASSERT(r == e, "fnv1a_32 of %llu bytes %02x is %08x, expected %08x", (unsigned long long)n, byte, r, e); }
    else { uint64_t r, e = 5; if(!mc_is("C29")) return; r = fnv1a_64(5, p, n); mc_beat(); for(k = 0; k < n; k++) e = (e ^ (k == SPOT ? SPOT_BYTE : byte)) * 1099511628211ull; MC_ASSERT(r == e, "fnv1a_64 of %llu bytes %02x is %016llx, expected %016llx", (unsigned long long)n, byte, (unsigned long long)r, (unsigned long long)e); }
    mc_count_calls(1); mc_count_trace(1); mc_beat();
}
static void deschuge(uint64_t i, char* b, size_t z) { snprintf(b, z, "%llu bytes, function %d", (unsigned long long)hugel[i / 3], (int)(i % 3)); }
/* every length around each power of two and ten; the rest of the block in a second call */
static const EDGES eg_q = { 9, 23, 40, 1 }, eg_t = { 9, 24, 20, 1 };
#define EG (mc_thorough ? &eg_t : &eg_q)
static uint64_t cntedge(void) { return edge_count(EG); }
static void runedge(uint64_t i)
{
    static unsigned char *b, *al[4]; static size_t len; static uint32_t *c, *f; static uint64_t* g; static const int aln[] = { 0, 1, 3, 6 };
    size_t n = edge_at(EG, i), k; int a;
    if(!b) {
        uint32_t rc = ~0u, rf = 2166136261u, x = 99; uint64_t rg = 14695981039346656037ull;
        len = ((size_t)1 << EG->hi) + 64; b = mc_xmalloc(len); for(k = 0; k < len; k++) { x = x * 1103515245u + 12345u; b[k] = x >> 16; }
        for(a = 0; a < 4; a++) { al[a] = mc_xmalloc(len + 8) + aln[a]; memcpy(al[a], b, len); }
        c = mc_xcalloc(edge_count(EG) + 1, 4); f = mc_xcalloc(edge_count(EG) + 1, 4); g = mc_xcalloc(edge_count(EG) + 1, 8);
        { unsigned char* want; size_t j, e = edge_count(EG); want = mc_xcalloc(len + 1, 1); for(j = 0; j < e; j++) want[edge_at(EG, j)] = 1;
          for(k = 0; k <= len; k++) { if(want[k]) for(j = 0; j < e; j++) if(edge_at(EG, j) == k) { c[j] = ~rc; f[j] = rf; g[j] = rg; } if(k < len) { rc = crc_step(rc, b[k]); rf = fnv32_step(rf, b[k]); rg = fnv64_step(rg, b[k]); } }
          f[e] = rf; g[e] = rg; mc_xfree(want); }
        mc_beat();
    }
    for(a = 0; a < 4; a++) {
        if(mc_is("C28")) { uint32_t r = crc32(al[a], n); MC_ASSERT(r == c[i], "crc32 of %zu bytes is %08x, expected %08x", n, r, c[i]); mc_count_calls(1); }
        if(mc_is("C29")) {
            uint32_t r = fnv1a_32(2166136261u, al[a], n); uint64_t q = fnv1a_64(14695981039346656037ull, al[a], n);
            MC_ASSERT(r == f[i] && q == g[i], "hashes of %zu bytes are %08x and %016llx, expected %08x and %016llx", n, r, (unsigned long long)q, f[i], (unsigned long long)g[i]);
            if(a == 1) { size_t e = edge_count(EG); r = fnv1a_32(r, al[a] + n, len - n); q = fnv1a_64(q, al[a] + n, len - n); MC_ASSERT(r == f[e] && q == g[e], "hashing %zu bytes as %zu+%zu gives another result", len, n, len - n); mc_count_calls(2); }
            mc_count_calls(2);
        }
        mc_count_trace(1);
    }
}
static void descedge(uint64_t i, char* s, size_t z) { snprintf(s, z, "%zu bytes", edge_at(EG, i)); }
MC_SYS mc_systems[] = { { 0 } };
#define HB "C28 C29"
MC_ENUM mc_enums[] = {
    { HB, "hash-gigabytes", 1, 1, cnthuge, runhuge, deschuge, 1 }, { HB, "hash-gigabytes-deep", 2, 6, cnthuge, runhuge, deschuge, 1 },
    { HB, "hash-short", 3, 0, cnt2, run2, desc2, 64 }, { "C29", "hash-three-bytes", 2, 1, cnt2, run2, desc2, 64 },
    { HB, "hash-lengths", 1, 1100, cntlen, runlen, desclen, 4 }, { HB, "hash-lengths-deep", 2, 5000, cntlen, runlen, desclen, 4 },
    { HB, "hash-positions", 3, 0, cntpos, runpos, descpos, 64 }, { HB, "hash-long", 3, 0, cntbig, runbig, descbig, 1 },
    { "C29", "hash-splits", 1, 130, cntsplit, runsplit, descsplit, 2 }, { "C29", "hash-splits-deep", 2, 600, cntsplit, runsplit, descsplit, 2 },
    { "C29", "hash-starts", 3, 0, cntst, runst, descst, 16 }, { "C29", "hash-all-starts-32", 1, 4, cntall, runall, descall, 64 }, { "C29", "hash-all-starts-32-deep", 2, 1, cntall, runall, descall, 64 },
    { HB, "hash-edges", 3, 0, cntedge, runedge, descedge, 8 },
    { 0 }
};
