/* C31, C32: the chunk allocator. */
#include "mc.h"
#include "memchunk.h"

typedef struct { unsigned char* p; size_t n; int tag; } UB;
static MEMCHUNK ch[2]; static UB ub[2][64]; static int nub[2], tags, all8;
static unsigned long n_big[2], n_small[2]; static size_t total[2], small[2];      /* granted requests above and up to a quarter of the block size */
static int nch, form; static size_t B; static const size_t* sizes; static int nsz;
static const size_t* cfg_sizes(int cfg, int* n, size_t* blk);
/* arg: configuration + 100 * number of allocators - 1, + 1000 * way of initialisation */
static const size_t z16[] = { 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 11, 12, 13, 15, 16, 17, 33 };
static const size_t z40[] = { 0, 1, 3, 5, 9, 10, 11, 20, 21, 30, 39, 40, 41, 100 };
static const size_t zk[] = { 0, 1, 8, 12, 100, 255, 256, 257, 500, 511, 512, 513, 768, 1023, 1024, 1025, 5000 };
static const size_t z1[] = { 0, 1, 2, 3, 7, 8, 9, 16 };
static const size_t z4[] = { 0, 1, 2, 3, 4, 5, 8, 9 };
static const size_t zs[] = { 0, 1, 4, 5, 12, 16, 17 };
static const size_t z64[] = { 0, 1, 8, 15, 16, 17, 24, 31, 32, 33, 48, 63, 64, 65, 4096 };
static const size_t z8[] = { 8, 16, 24, 64, 128, 256, 264, 512, 2000 };
static const struct { size_t b; const size_t* z; int n; } cfgs[] = {
    { 16, z16, 17 }, { 40, z40, 14 }, { 1024, zk, 17 }, { 0, zk, 17 }, { 1, z1, 8 }, { 4, z4, 8 }, { 16, zs, 7 }, { 64, z64, 15 }, { 3, z4, 8 }, { 2, z1, 8 }, { 0, z8, 9 }, { 60, z8, 9 } };
static void reset(void)
{
    int i; int cfg = mc_arg % 100; nch = 1 + mc_arg / 100 % 10; form = mc_arg / 1000;
    B = cfgs[cfg].b; sizes = cfgs[cfg].z; nsz = cfgs[cfg].n; tags = 0; all8 = 1;
    for(i = 0; i < 2; i++) { nub[i] = 0; n_big[i] = n_small[i] = total[i] = small[i] = 0; if(form) { MEMCHUNK t = MEMCHUNK_INITIALIZER(B); ch[i] = t; } else { memset(&ch[i], 0xA5, sizeof(MEMCHUNK)); memchunk_init(&ch[i], B); } }
}
static unsigned char pat(const UB* u, size_t i) { return (unsigned char)(u->tag * 37 + i * 11 + (i >> 8) + 1); }
static void fillub(UB* u) { size_t i; for(i = 0; i < u->n; i++) u->p[i] = pat(u, i); }
static void check_all(const char* after)
{
    int c, k; size_t i;
    for(c = 0; c < nch; c++) for(k = 0; k < nub[c]; k++) { void* b; size_t bs; UB* u = &ub[c][k];
        if(u->n) MC_ASSERT(mc_block_of(u->p, &b, &bs) && u->p + u->n <= (unsigned char*)b + bs, "after %s: block %d is not in live memory any more", after, k);
        for(i = 0; i < u->n; i++) MC_ASSERT(u->p[i] == pat(u, i), "after %s: byte %zu of block %d (%zu bytes) changed", after, i, k, u->n); }
}
static const size_t imposs[] = { SIZE_MAX, SIZE_MAX - 1, SIZE_MAX - 7, SIZE_MAX - 8, SIZE_MAX - 15, SIZE_MAX - 16, SIZE_MAX - 17, SIZE_MAX - 63, SIZE_MAX / 2, SIZE_MAX / 2 + 1, SIZE_MAX / 4, SIZE_MAX - 1023, SIZE_MAX - 1040 };
#define NI 13
/* what: sizes x plan {none, first fails, all fail}; impossible sizes; fini; */
static int n_ops(void) { return nch * (nsz * 2 + NI + 1); }
static void economy(void)
{
    size_t bs = B ? B : MEMCHUNK_DEFAULT_BLOCK_SIZE, blocks = 0, bytes = 0; int c;
    if(!mc_is("C42")) return;
    for(c = 0; c < nch; c++) { size_t std = (n_small[c] > 0) + total[c] / (bs - bs / 4); blocks += n_big[c] + (n_small[c] > 0) + small[c] / (bs - bs / 4); bytes += total[c] + std * bs + 64 * (n_big[c] + std); }
    MC_ASSERT(mc_live_blocks() <= blocks, "%zu blocks of memory were taken for %lu + %lu requests above a quarter of the block size %zu, %lu + %lu other ones and %zu + %zu bytes in total: at most %zu are needed", mc_live_blocks(), n_big[0], n_big[1], bs, n_small[0], n_small[1], total[0], total[1], blocks);
    MC_ASSERT(mc_live_bytes() <= bytes, "%zu bytes of memory were taken for requests of %zu + %zu bytes (block size %zu)", mc_live_bytes(), total[0], total[1], bs);
}
static void allocate(int c, size_t size, int plan, int impossible)
{
    unsigned char* p; void* b; size_t bs; int k, e; UB* u;
    if(size % sizeof(void*)) all8 = 0;
    mc_fail_plan(plan);
    p = memchunk_alloc(&ch[c], size); mc_count_calls(1);
    if(impossible) { MC_ASSERT(p == NULL, "a block of %zu bytes was handed out", size); }
    else if(p == NULL) MC_ASSERT(mc_fail_fired(), "allocation of %zu bytes failed although memory is available", size);
    mc_fail_plan(0);
    check_all("an allocation");
    if(p == NULL) return;
    if(size > (B ? B : MEMCHUNK_DEFAULT_BLOCK_SIZE) / 4) n_big[c]++; else { n_small[c]++; small[c] += size; }
    total[c] += size; economy();
    if(size == 0) return;       /* nothing may be accessed through it */
    e = mc_block_of(p, &b, &bs);
    MC_ASSERT(e, "the block of %zu bytes handed out is not in memory obtained from malloc", size);
    MC_ASSERT((size_t)((unsigned char*)b + bs - p) >= size, "a block of %zu bytes was requested, only %zu are there", size, (size_t)((unsigned char*)b + bs - p));
    if(all8) MC_ASSERT((uintptr_t)p % sizeof(void*) == 0, "a block of %zu bytes is not aligned although all requests were multiples of the pointer size", size);
    for(e = 0; e < nch; e++) for(k = 0; k < nub[e]; k++) { UB* o = &ub[e][k]; if(size && o->n) MC_ASSERT(p + size <= o->p || o->p + o->n <= p, "the new block of %zu bytes overlaps block %d (%zu bytes)", size, k, o->n); }
    if(nub[c] == 64) abort();
    u = &ub[c][nub[c]++]; u->p = p; u->n = size; u->tag = ++tags;
    fillub(u); check_all("writing to a new block");
}
static void fini(int c)
{
    size_t l; int other = 0, e;
    memchunk_fini(&ch[c]); mc_count_calls(1); nub[c] = 0; n_big[c] = n_small[c] = total[c] = small[c] = 0;
    for(e = 0; e < nch; e++) if(e != c) other += nub[e];
    l = mc_live_blocks();
    if(!other) MC_ASSERT(l == 0 || nch > 1, "finalization left %zu memory blocks", l);
    check_all("finalization of another allocator");
}
static int apply(int op)
{
    int c = op / (nsz * 2 + NI + 1), o = op % (nsz * 2 + NI + 1);
    if(o < nsz * 2) { if(!mc_is("C32") && o >= nsz) return 0; allocate(c, sizes[o % nsz], o < nsz ? 0 : -1, 0); return 1; }
    if(o < nsz * 2 + NI) { if(mc_is("C42")) return 0; allocate(c, imposs[o - nsz * 2], 0, 1); return 1; }
    fini(c);
    return 1;
}
static void describe(int op, char* b, size_t z)
{
    int c = op / (nsz * 2 + NI + 1), o = op % (nsz * 2 + NI + 1);
    if(o < nsz * 2) snprintf(b, z, "alloc%d(%zu)%s", c, sizes[o % nsz], o < nsz ? "" : " without memory"); else if(o < nsz * 2 + NI) snprintf(b, z, "alloc%d(%zu)", c, imposs[o - nsz * 2]); else snprintf(b, z, "fini%d", c);
}
static void canon(MC_HASH* h)
{
    int c, k; MC_CANON x; memset(&x, 0, sizeof x); x.h = h; x.depth_payload = 1;
    for(c = 0; c < nch; c++) for(k = 0; k < nub[c]; k++) if(ub[c][k].n) memset(ub[c][k].p, 0, ub[c][k].n);     /* contents do not matter, their places do */
    mc_canon(&x, ch, sizeof(MEMCHUNK) * nch);
    for(c = 0; c < nch; c++) for(k = 0; k < nub[c]; k++) fillub(&ub[c][k]);
}
static void teardown(void)
{
    int c, k; unsigned char* p;
    check_all("the last operation");
    for(c = 0; c < nch; c++) { memchunk_fini(&ch[c]); nub[c] = 0; if(c + 1 < nch) check_all("finalization of another allocator"); }
    MC_ASSERT(mc_live_blocks() == 0, "finalization left %zu memory blocks (%zu bytes)", mc_live_blocks(), mc_live_bytes());
    /* the finalized allocator can be used again */
    for(k = 0; k < 2; k++) { size_t n = k ? 100 : 5; p = memchunk_alloc(&ch[0], n); void* b; size_t bs; MC_ASSERT(p != NULL && mc_block_of(p, &b, &bs) && p + n <= (unsigned char*)b + bs, "a finalized allocator does not hand out a block of %zu bytes", n); memset(p, k, n); }
    memchunk_fini(&ch[0]); memchunk_fini(&ch[0]);
    MC_ASSERT(mc_live_blocks() == 0, "second finalization left %zu memory blocks", mc_live_blocks());
}
/* block sizes at the limits; a chain of small requests for every block size */
static const size_t hb[] = { SIZE_MAX, SIZE_MAX - 1, SIZE_MAX - 7, SIZE_MAX - 8, SIZE_MAX - 9, SIZE_MAX - 15, SIZE_MAX - 16, SIZE_MAX - 17, SIZE_MAX - 31, SIZE_MAX / 2, SIZE_MAX / 2 + 1, SIZE_MAX / 4 * 4, SIZE_MAX - 63 };
static const size_t hr[] = { 1, 0, 2, 7, 8, 100, 4096, SIZE_MAX / 4, SIZE_MAX / 4 - 1, SIZE_MAX / 4 + 1, SIZE_MAX / 2, SIZE_MAX, SIZE_MAX - 8 };
static uint64_t cntb(void) { return 13 * 13 * 13 * 2; }
static void runb(uint64_t i)
{
    MEMCHUNK c; size_t bsz = hb[i / 2 % 13]; int k;
    mc_alloc_begin();
    if(i % 2) { MEMCHUNK t = MEMCHUNK_INITIALIZER(bsz); c = t; } else memchunk_init(&c, bsz);
    for(k = 0; k < 2; k++) {
        size_t n = hr[k == 0 ? i / 26 % 13 : i / 338]; void* b; size_t bs; unsigned char* p = memchunk_alloc(&c, n); mc_count_calls(1);
        if(p && n) { MC_ASSERT(mc_block_of(p, &b, &bs), "block size %zu: a block of %zu bytes outside of memory", bsz, n); MC_ASSERT((size_t)((unsigned char*)b + bs - p) >= n, "block size %zu: a block of %zu bytes has only %zu", bsz, n, (size_t)((unsigned char*)b + bs - p)); p[0] = 1; p[n - 1] = 2; }
    }
    memchunk_fini(&c); MC_ASSERT(mc_live_blocks() == 0, "finalization left %zu blocks", mc_live_blocks()); mc_count_trace(1);
}
static void descb(uint64_t i, char* b, size_t z) { snprintf(b, z, "block size %zu, requests of %zu and %zu bytes", hb[i / 2 % 13], hr[i / 26 % 13], hr[i / 338]); }
/* every block size up to the bound: many requests of one size, mixed with another one */
static uint64_t cntr(void) { return mc_arg; }
static void runr(uint64_t bsz)
{
    static unsigned char* ps[4096]; static size_t ns[4096]; size_t a, b2, bsx = bsz ? bsz : MEMCHUNK_DEFAULT_BLOCK_SIZE; int k, m, form2;
    for(form2 = 0; form2 < 2; form2++) for(a = 0; a <= bsz + 2; a += 1 + bsz / 24) for(b2 = a; b2 <= bsz * 2 + 3; b2 += 1 + bsz / 8) {
        MEMCHUNK c; mc_alloc_begin(); if(form2) { MEMCHUNK t = MEMCHUNK_INITIALIZER(bsz); c = t; } else memchunk_init(&c, bsz);
        m = 40;
        for(k = 0; k < m; k++) { void* b; size_t bs; ns[k] = k % 3 == 2 ? b2 : a; ps[k] = memchunk_alloc(&c, ns[k]); MC_ASSERT(ps[k] != NULL, "no block of %zu bytes", ns[k]); MC_ASSERT(ns[k] == 0 || (mc_block_of(ps[k], &b, &bs) && ps[k] + ns[k] <= (unsigned char*)b + bs), "block of %zu bytes exceeds its memory (block size %zu)", ns[k], (size_t)bsz); memset(ps[k], k + 1, ns[k]);
            if(mc_is("C42")) { size_t nb = 0, sm = 0, tot = 0, smt = 0, j, std; for(j = 0; j <= (size_t)k; j++) { tot += ns[j]; if(ns[j] > bsx / 4) nb++; else { sm++; smt += ns[j]; } } std = (sm > 0) + tot / (bsx - bsx / 4); MC_ASSERT(mc_live_blocks() <= nb + (sm > 0) + smt / (bsx - bsx / 4) && mc_live_bytes() <= tot + std * bsx + 64 * (nb + std), "%zu blocks with %zu bytes were taken for %zu requests above a quarter of the block size %zu, %zu other ones, and %zu bytes in total", mc_live_blocks(), mc_live_bytes(), nb, bsx, sm, tot); } }
        for(k = 0; k < m; k++) { size_t i; for(i = 0; i < ns[k]; i++) MC_ASSERT(ps[k][i] == k + 1, "byte %zu of block %d of %zu bytes was overwritten (block size %zu, sizes %zu and %zu)", i, k, ns[k], (size_t)bsz, a, b2); }
        memchunk_fini(&c); MC_ASSERT(mc_live_blocks() == 0, "finalization left %zu blocks", mc_live_blocks()); mc_count_calls(m); mc_count_trace(1);
    }
}
static void descr(uint64_t i, char* b, size_t z) { snprintf(b, z, "block size %d", (int)i); }
/* a large request which gets a block of its own leaves the room in the current block as it was: small requests around
 * any number of them take no more blocks than without them */
static uint64_t cntroom(void) { return 3 * (uint64_t)mc_arg; }
static void runroom(uint64_t i)
{
    size_t bsz = 1 + i / 3, bs = bsz, a, first, big, k, m, base[300]; int form_ = i % 3 == 1, every = i % 3 == 2, j, r;
    if(i / 3 + 1 == (uint64_t)mc_arg) { bsz = 0; bs = MEMCHUNK_DEFAULT_BLOCK_SIZE; }
    for(a = 1; a <= bs / 4; a = a < 8 ? a + 1 : a + 1 + a / 6) for(first = 0; first <= (a < bs / 4); first++) for(big = bs + 1; big <= 3 * bs + 1; big += 2 * bs) {
        m = 2 * bs / a + 2; if(m > 120) m = 120;
        if(first && bs / 2 > m * a / 2) { if(m * a < bs) { m = 120; } }
        for(j = -1; j < (int)m; j++) {
            MEMCHUNK c; size_t bigs = 0; mc_alloc_begin(); if(form_) { MEMCHUNK t = MEMCHUNK_INITIALIZER(bsz); c = t; } else memchunk_init(&c, bsz);
            if(first && a < bs / 4) { /* begin with requests that fill most of the block */ size_t fill; for(fill = 0; fill + bs / 4 <= bs - bs / 8 - (a < bs / 8 ? a : 0); fill += bs / 4) MC_ASSERT(memchunk_alloc(&c, bs / 4) != NULL, "no block of %zu bytes", bs / 4); }
            for(k = 0; k < m; k++) {
                if(j >= 0 && (every ? (int)k >= j : (int)k == j)) for(r = 0; r < 1 + (j & 1); r++) { size_t had = mc_live_blocks(); void* p = memchunk_alloc(&c, big); MC_ASSERT(p != NULL, "no block of %zu bytes", big); MC_ASSERT(mc_live_blocks() == had + 1, "a request of %zu bytes took %zu blocks", big, mc_live_blocks() - had); bigs++; mc_count_calls(1); }
                MC_ASSERT(memchunk_alloc(&c, a) != NULL, "no block of %zu bytes", a); mc_count_calls(1);
                if(j < 0) base[k] = mc_live_blocks();
                else MC_ASSERT(mc_live_blocks() <= base[k] + bigs, "block size %zu: %zu requests of %zu bytes%s and %zu of %zu bytes take %zu blocks, without the latter they take %zu", bsz, k + 1, a, first ? " (and some of a quarter of the block size before)" : "", bigs, big, mc_live_blocks(), base[k]);
            }
            memchunk_fini(&c); MC_ASSERT(mc_live_blocks() == 0, "finalization left %zu blocks", mc_live_blocks()); mc_count_trace(1);
        }
    }
}
static void descroom(uint64_t i, char* b, size_t z) { snprintf(b, z, "block size %d%s%s", i / 3 + 1 == (uint64_t)mc_arg ? 0 : (int)(i / 3 + 1), i % 3 == 1 ? ", static initializer" : "", i % 3 == 2 ? ", large requests before each small one" : ""); }
#define S(name, tier, arg, depth, nm) { "C31 C32 C42", name, tier, arg, depth, reset, n_ops, apply, canon, teardown, describe, 0, nm }
MC_SYS mc_systems[] = {
    S("memchunk-16", 1, 0, 5, 0), S("memchunk-40", 1, 1, 4, 0), S("memchunk-1024", 1, 2, 4, 0), S("memchunk-default", 1, 1003, 4, 0), S("memchunk-1", 1, 1004, 6, 0), S("memchunk-4", 1, 5, 5, 0), S("memchunk-64", 1, 1007, 4, 0), S("memchunk-words", 1, 10, 4, 0), S("memchunk-words-60", 1, 1011, 4, 0), S("memchunk-two", 1, 106, 4, 0), S("memchunk-16-nomerge", 1, 1006, 4, 1),
    S("memchunk-16-deep", 2, 0, 6, 0), S("memchunk-40-deep", 2, 1, 6, 0), S("memchunk-1024-deep", 2, 2, 6, 0), S("memchunk-default-deep", 2, 1003, 6, 0), S("memchunk-1-deep", 2, 1004, 8, 0), S("memchunk-2-deep", 2, 9, 8, 0), S("memchunk-3-deep", 2, 8, 7, 0), S("memchunk-4-deep", 2, 5, 8, 0), S("memchunk-64-deep", 2, 1007, 6, 0), S("memchunk-words-deep", 2, 1010, 5, 0), S("memchunk-words-60-deep", 2, 11, 6, 0), S("memchunk-two-deep", 2, 106, 6, 0), S("memchunk-16-nomerge-deep", 2, 1006, 5, 1),
    { 0 } };
/* the static initialiser with every form of expression makes the same allocator as memchunk_init() of its value */
static uint64_t cntform(void) { return 13 * 64; }
static void runform(uint64_t v)
{
    int f = (int)(v / 64), k, i; size_t x = (v & 7) * 16, y = (v >> 3 & 7) * 40, val = 0, live[2], n; MEMCHUNK c; char* p[120];
    for(k = 0; k < 2; k++) {
        mc_alloc_begin();
#define F(no, e) case no: val = (e); if(k) { MEMCHUNK t = MEMCHUNK_INITIALIZER(e); c = t; } else memchunk_init(&c, val); break;
        switch(f) { F(0, x) F(1, x & y) F(2, x | y) F(3, x ^ y) F(4, x ? y : 640) F(5, x == y ? 512 : x) F(6, x + y) F(7, x - y < 1000 ? x - y : 77) F(8, x << 2) F(9, y >> 1) F(10, x < y ? 0 : 256) F(11, x && y ? 300 : y) F(12, (int)x * 2) }
        for(i = 0; i < 120; i++) { n = 1 + i % 5 * 2; p[i] = memchunk_alloc(&c, n); MC_ASSERT(p[i] != NULL, "request of %zu bytes refused", n); memset(p[i], i, n); }
        for(i = 0; i < 120; i++) { n = 1 + i % 5 * 2; while(n-- > 0) MC_ASSERT(p[i][n] == i, "contents lost"); }
        live[k] = mc_live_blocks(); memchunk_fini(&c);
        MC_ASSERT(mc_live_blocks() == 0, "%zu blocks leaked", mc_live_blocks());
    }
    MC_CHECK("C42", live[1] <= 2 * live[0] + 2, "a block size of %zu given by an expression to the static initialiser: %zu blocks, but %zu by memchunk_init()", val, live[1], live[0]);
    mc_count_calls(242); mc_count_trace(2);
}
static void descform(uint64_t v, char* s, size_t z) { snprintf(s, z, "MEMCHUNK_INITIALIZER() of expression %d with operands %d and %d", (int)(v / 64), (int)((v & 7) * 16), (int)((v >> 3 & 7) * 40)); }
MC_ENUM mc_enums[] = {
    { "C31 C32 C42", "memchunk-initializer", 3, 0, cntform, runform, descform, 64 },
    { "C32", "memchunk-huge-blocks", 3, 0, cntb, runb, descb, 64 }, { "C31 C32 C42", "memchunk-runs", 1, 140, cntr, runr, descr, 1 }, { "C31 C32 C42", "memchunk-runs-deep", 2, 1100, cntr, runr, descr, 1 },
    { "C42", "memchunk-room", 1, 130, cntroom, runroom, descroom, 3 }, { "C42", "memchunk-room-deep", 2, 1100, cntroom, runroom, descroom, 3 },
    { 0 }
};
