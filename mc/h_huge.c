/* Objects of gigabytes: C01 buffers, C03 stacks, C04 arrays, C30 stack-or-heap blocks, C31/C42 chunks. Memory is sparse, only some bytes are
 * written (the markers) and followed by the model. */
#define _GNU_SOURCE
#include "mc.h"
#include "buffer.h"
#include "memchunk.h"
#include "malloca.h"
#include "value.h"
#include "edges.h"

#define G1 ((size_t)1 << 30)
#define G2 ((size_t)1 << 31)
#define G4 ((size_t)1 << 32)
#include <errno.h>
#include <fcntl.h>
#include <sys/stat.h>
#include <unistd.h>
#define ARRN(a) ((int)(sizeof(a) / sizeof *(a)))

/* ---- copying and filling gigabytes which are mostly holes */
void* __real_memcpy(void*, const void*, size_t); void* __real_memmove(void*, const void*, size_t); void* __real_memset(void*, int, size_t);
static size_t bulk = (size_t)1 << 24;
#define BULK bulk
static void zero(int fd, size_t off, char* at, size_t len)
{
    size_t lead = -off & 4095, body;
    if(lead > len) lead = len;
    __real_memset(at, 0, lead); body = (len - lead) & ~(size_t)4095;
    if(body && fallocate(fd, FALLOC_FL_PUNCH_HOLE | FALLOC_FL_KEEP_SIZE, off + lead, body) != 0) { perror("engine: fallocate"); _exit(3); }
    __real_memset(at + lead + body, 0, len - lead - body);
}
static int copy(char* d, const char* s, size_t len)
{
    size_t doff, soff, pos, tot = 0, k, cap = 1 << 20; int df = mc_huge_at(d, len, &doff), sf = mc_huge_at(s, len, &soff), n = 0, i; char* buf;
    static struct { size_t at, len, in; } ext[4096];
    if(df < 0 || sf < 0) return 0;
    buf = mc_xmalloc(cap);
    for(pos = soff; pos < soff + len; ) {
        off_t b = lseek(sf, pos, SEEK_DATA), e;
        if(b < 0 || (size_t)b >= soff + len) break;
        e = lseek(sf, b, SEEK_HOLE); if(e < 0 || (size_t)e > soff + len) e = soff + len;
        k = e - b;
        if(n == 4096 || tot + k > (size_t)1 << 28) { mc_xfree(buf); return 0; }
        if(tot + k > cap) { char* w; while(tot + k > cap) cap *= 2; w = mc_xmalloc(cap); __real_memcpy(w, buf, tot); mc_xfree(buf); buf = w; }
        __real_memcpy(buf + tot, s + (b - soff), k); ext[n].at = b - soff; ext[n].len = k; ext[n++].in = tot; tot += k; pos = e;
    }
    zero(df, doff, d, len);
    for(i = 0; i < n; i++) __real_memcpy(d + ext[i].at, buf + ext[i].in, ext[i].len);
    mc_xfree(buf);
    return 1;
}
void* __wrap_memcpy(void* d, const void* s, size_t len) { return len >= BULK && copy(d, s, len) ? d : __real_memcpy(d, s, len); }
void* __wrap_memmove(void* d, const void* s, size_t len) { return len >= BULK && copy(d, s, len) ? d : __real_memmove(d, s, len); }
void* __wrap_memset(void* d, int c, size_t len) { size_t off; int fd = len >= BULK && c == 0 ? mc_huge_at(d, len, &off) : -1; if(fd < 0) return __real_memset(d, c, len); zero(fd, off, d, len); return d; }

/* ---- markers: bytes at known places of a sequence of n bytes */
#define MAXM 256
typedef struct { size_t off; unsigned char b; } MARK;
static MARK mk[MAXM]; static int nm; static size_t n; static unsigned ctr;
static unsigned char* data;
static void mark1(size_t off) { int i; for(i = 0; i < nm; i++) if(mk[i].off == off) break; if(i == MAXM) return; if(i == nm) nm++; mk[i].off = off; mk[i].b = 1 + ctr++ % 255; data[off] = mk[i].b; }
static void mark_range(size_t off, size_t len)
{
    static const size_t in[] = { 0, 1, 4095, G2 - 1, G2, G4 - 1, G4, G4 + 1 }; int i;
    if(len == 0) return;
    for(i = 0; i < ARRN(in); i++) if(in[i] < len) mark1(off + in[i]);
    mark1(off + len / 2); mark1(off + len - 1); if(len > 1) mark1(off + len - 2);
}
static void m_insert(size_t off, size_t len) { int i; for(i = 0; i < nm; i++) if(mk[i].off >= off) mk[i].off += len; n += len; }
static void m_remove(size_t off, size_t len) { int i, k = 0; if(len > n - off) len = n - off; for(i = 0; i < nm; i++) { if(mk[i].off >= off && mk[i].off < off + len) continue; if(mk[i].off >= off) mk[i].off -= len; mk[k++] = mk[i]; } if(k < nm) memmove(mk, mk, 0); nm = k; n -= len; }
static void m_check(const char* when) { int i; for(i = 0; i < nm; i++) MC_ASSERT(data[mk[i].off] == mk[i].b, "%s: byte %zu of %zu is 0x%02x, expected 0x%02x", when, mk[i].off, n, data[mk[i].off], mk[i].b); }

/* ---- C01 */
static BUFFER b;
enum { APP, APPD, INS, INSD, REM, REMEND, INSF, INSM, REMF, REALLOC, SHRINK, RESERVE, CLEAR, REMOV };
static const struct { int k; size_t x; } ops[] = {
    { APP, 3 }, { APP, G2 - 1 }, { APP, G2 }, { APP, G4 - 1 }, { APP, G4 }, { APP, G4 + 5 }, { APPD, 5 },
    { INS, 1 }, { INS, G2 + 1 }, { INS, G4 }, { INS, G4 + 7 }, { INSD, 6 }, { INSF, 2 }, { INSF, G4 + 1 }, { INSM, G2 + 5 },
    { REM, 1 }, { REM, G2 }, { REM, G4 - 1 }, { REM, G4 + 1 }, { REMEND, 2 }, { REMEND, G4 }, { REMF, 1 }, { REMF, G4 - 3 }, { REMOV, G4 + 2 }, { REMOV, 5 },
    { REALLOC, 0 }, { REALLOC, 1 }, { REALLOC, (size_t)-1 }, { REALLOC, G4 }, { RESERVE, 1 }, { RESERVE, G4 + 9 }, { SHRINK, 0 }, { CLEAR, 0 },
};
static int n_ops(void) { return ARRN(ops); }
static void reset(void) { mc_huge = 1; mc_alloc_cap = (size_t)1 << 44; buffer_init(&b); nm = 0; n = 0; ctr = 0; data = NULL; }
#define LIMIT (5 * G4)
static int apply(int o)
{
    size_t x = ops[o].x, off = n < 3 ? n : n - 3, r; void* p; int rc; unsigned char d[8]; size_t i; char when[80];
    snprintf(when, sizeof when, "operation %d (%zu) on %zu bytes", ops[o].k, x, n);
    switch(ops[o].k) {
    case APP: case INS: case INSF: case INSM:
        if(n + x > LIMIT) return 0;
        off = ops[o].k == APP ? n : ops[o].k == INSF ? 0 : ops[o].k == INSM ? n / 2 : off;
        p = ops[o].k == APP ? buffer_append_raw(&b, x) : buffer_insert_raw(&b, off, x);
        MC_ASSERT(p != NULL, "%s failed", when); m_insert(off, x); data = buffer_data(&b);
        MC_ASSERT((unsigned char*)p == data + off, "%s: address off by %td", when, (unsigned char*)p - data - off);
        m_check(when); mark_range(off, x); break;
    case APPD: case INSD:
        if(n + x > LIMIT) return 0;
        if(ops[o].k == APPD) off = n;
        for(i = 0; i < x; i++) d[i] = ctr++ % 251;
        rc = ops[o].k == APPD ? buffer_append(&b, d, x) : buffer_insert(&b, off, d, x);
        MC_ASSERT(rc == 0, "%s failed", when); m_insert(off, x); data = buffer_data(&b);
        MC_ASSERT(memcmp(data + off, d, x) == 0, "%s: wrong bytes", when); m_check(when); mark_range(off, x); break;
    case REM: if(n < x + 3) return 0; off = n - x - 3; buffer_remove(&b, off, x); m_remove(off, x); break;
    case REMF: if(n < x) return 0; buffer_remove(&b, 0, x); m_remove(0, x); break;
    case REMEND: if(n < x) return 0; buffer_remove(&b, n - x, x); m_remove(n - x, x); break;
    case REMOV: if(n < x) return 0; buffer_remove(&b, x, SIZE_MAX - 1); m_remove(x, SIZE_MAX); break;
    case REALLOC: r = x == G4 ? x : n + x; if(n == 0 || r == 0) return 0; MC_ASSERT(buffer_realloc(&b, r) == 0, "%s failed", when); if(r < n) m_remove(r, n); break;
    case RESERVE: if(n + x > LIMIT) return 0; MC_ASSERT(buffer_reserve(&b, x) == 0, "%s failed", when);
        mc_fail_plan(-1); p = buffer_append_raw(&b, x); mc_fail_plan(0); MC_ASSERT(p != NULL, "%s: the reserved bytes cannot be appended", when); off = n; m_insert(off, x); data = buffer_data(&b); m_check(when); mark_range(off, x); break;
    case SHRINK: buffer_shrink(&b); break;
    case CLEAR: if(n == 0) return 0; buffer_clear(&b); m_remove(0, n); break;
    }
    data = buffer_data(&b);
    MC_ASSERT(buffer_size(&b) == n, "%s: size is %zu, expected %zu", when, buffer_size(&b), n);
    if(n) { void* base; size_t bs; MC_ASSERT(mc_block_of(data, &base, &bs) && base == data && bs >= n, "%s: the block has %zu bytes for %zu", when, bs, n); }
    m_check(when);
    return 1;
}
static void canon(MC_HASH* h) { mc_hash_u64(h, n); }
static void teardown(void) { buffer_fini(&b); MC_ASSERT(mc_live_blocks() == 0, "leak"); }
static void describe(int o, char* s, size_t z) { static const char* t[] = { "append_raw", "append", "insert_raw near the end", "insert near the end", "remove before the last 3 bytes", "remove at the end", "insert_raw at the beginning", "insert_raw in the middle", "remove at the beginning", "realloc to size plus", "shrink", "reserve and append", "clear", "remove SIZE_MAX-1 from offset" }; snprintf(s, z, "%s %zd", t[ops[o].k], (ssize_t)ops[o].x); }

/* ---- C03 */
static const size_t sn[] = { G2 - 1, G2, G4 - 9, G4 - 1, G4, G4 + 3 };
static uint64_t cnt_s(void) { return 6 * 6 * 5; }
static void run_s(uint64_t c)
{
    STACK s; size_t a = sn[c % 6], d = sn[c / 6 % 6]; int k = c / 36, i; unsigned char* p; size_t at;
    mc_huge = 1; mc_alloc_cap = (size_t)1 << 44; mc_alloc_begin(); stack_init(&s); n = 0; nm = 0;
    p = stack_push_raw(&s, a); MC_ASSERT(p != NULL, "push failed"); data = stack_data(&s); m_insert(0, a); MC_ASSERT(p == data, "address"); mark_range(0, a);
    for(i = 0; i < k; i++) { MC_ASSERT(stack_push_int64(&s, 0x1122334455667788ll + i) == 0 && stack_push_int8(&s, 5) == 0, "push failed"); data = stack_data(&s); n += 9; }
    p = stack_push_raw(&s, d); data = stack_data(&s); at = n; n += d; MC_ASSERT(p == data + at && stack_size(&s) == n, "push of %zu bytes: size %zu, expected %zu", d, stack_size(&s), n); m_check("after pushes"); mark_range(at, d);
    MC_ASSERT(stack_const_data(&s) == data && (unsigned char*)stack_peek_raw(&s, d) == data + at, "raw peek of %zu bytes", d);
    p = stack_pop_raw(&s, d); MC_ASSERT(p == data + at, "raw pop of %zu bytes", d); m_remove(at, d); MC_ASSERT(stack_size(&s) == n, "size %zu after raw pop of %zu, expected %zu", stack_size(&s), d, n);
    for(i = k; i-- > 0; ) { int8_t e = stack_pop_int8(&s); int64_t v = stack_pop_int64(&s); MC_ASSERT(e == 5 && v == 0x1122334455667788ll + i, "wrong value popped"); }
    n -= 9 * k; data = stack_data(&s); MC_ASSERT(stack_size(&s) == n && n == a, "size %zu, expected %zu", stack_size(&s), n); m_check("after pops");
    stack_clear(&s); MC_ASSERT(stack_is_empty(&s), "not empty after clear"); stack_fini(&s); MC_ASSERT(mc_live_blocks() == 0, "leak");
    mc_count_calls(4 + 4 * k); mc_count_trace(1);
}
static void desc_s(uint64_t c, char* s, size_t z) { snprintf(s, z, "push %zu bytes, %d small values, push %zu bytes, pop all", sn[c % 6], (int)c / 36, sn[c / 6 % 6]); }

/* ---- C04: some items of an array followed by the model */
#define HARRAY(NAME, T, U) \
static void ha_##NAME(size_t cnt) \
{ \
    ARRAY_##NAME a; T* p; T v; T w; size_t at[12], i; int k; \
    mc_alloc_begin(); array_##NAME##_init(&a); \
    i = array_##NAME##_append_n(&a, cnt); MC_ASSERT(i == 0 && array_##NAME##_size(&a) == cnt, #NAME " array: append_n(%zu) gives size %zu", cnt, array_##NAME##_size(&a)); \
    at[0] = 0; at[1] = 1; at[2] = cnt / 2; at[3] = cnt - 1; at[4] = cnt - 2; at[5] = G4 / sizeof(T) - 1; at[6] = G4 / sizeof(T); at[7] = G2 / sizeof(T); at[8] = G2; at[9] = G4 - 1; at[10] = cnt - 4; at[11] = cnt - 5; \
    for(k = 0; k < 12; k++) if(at[k] < cnt) array_##NAME##_set(&a, at[k], (T)(U)(k + 65)); \
    for(k = 0; k < 12; k++) if(at[k] < cnt) { for(i = 0; i < 12; i++) if(at[i] == at[k] && (int)i > k) break; if(i < 12) continue; MC_ASSERT(array_##NAME##_get(&a, at[k]) == (T)(U)(k + 65) && array_##NAME##_data(&a)[at[k]] == (T)(U)(k + 65) && array_##NAME##_const_data(&a)[at[k]] == (T)(U)(k + 65), #NAME " array: item %zu of %zu lost", at[k], cnt); } \
    v = array_##NAME##_get(&a, cnt - 1); w = array_##NAME##_get(&a, 1); \
    MC_ASSERT(array_##NAME##_append(&a, (T)(U)3) == 0 && array_##NAME##_insert((void*)&a, cnt, (T)(U)4) == 0 && array_##NAME##_size(&a) == cnt + 2, #NAME " array: size %zu after adding two to %zu", array_##NAME##_size(&a), cnt); \
    MC_ASSERT(array_##NAME##_get(&a, cnt - 1) == v && array_##NAME##_get(&a, cnt) == (T)(U)4 && array_##NAME##_get(&a, cnt + 1) == (T)(U)3, #NAME " array: items at the end of %zu wrong", cnt); \
    i = array_##NAME##_insert_n_raw((void*)&a, cnt + 1, cnt); p = (T*)array_##NAME##_data(&a) + cnt + 1; MC_ASSERT(i == 0 && array_##NAME##_size(&a) == 2 * cnt + 2, #NAME " array: size %zu after inserting %zu", array_##NAME##_size(&a), cnt); \
    p[0] = (T)(U)9; p[cnt - 1] = (T)(U)8; \
    MC_ASSERT(array_##NAME##_get(&a, 2 * cnt + 1) == (T)(U)3 && array_##NAME##_get(&a, cnt) == (T)(U)4 && array_##NAME##_get(&a, cnt + 1) == (T)(U)9 && array_##NAME##_get(&a, 2 * cnt) == (T)(U)8, #NAME " array: items around the inserted ones wrong"); \
    array_##NAME##_remove(&a, 2 * cnt); MC_ASSERT(array_##NAME##_size(&a) == 2 * cnt + 1 && array_##NAME##_get(&a, 2 * cnt) == (T)(U)3, #NAME " array: remove(%zu)", 2 * cnt); \
    array_##NAME##_remove_n(&a, cnt - 1, cnt); MC_ASSERT(array_##NAME##_size(&a) == cnt + 1 && array_##NAME##_get(&a, cnt) == (T)(U)3 && array_##NAME##_get(&a, 1) == w, #NAME " array: remove_n(%zu, %zu) leaves %zu", cnt - 1, cnt, array_##NAME##_size(&a)); \
    array_##NAME##_remove_n(&a, 2, SIZE_MAX / sizeof(T)); MC_ASSERT(array_##NAME##_size(&a) == 2 && array_##NAME##_get(&a, 1) == w, #NAME " array: removal of all from 2 leaves %zu", array_##NAME##_size(&a)); \
    p = array_##NAME##_acquire(&a, &i); MC_ASSERT(i == 2 && p[1] == w, #NAME " array: acquire"); free(p); \
    MC_ASSERT(mc_live_blocks() == 0, "leak"); \
}
HARRAY(int8, int8_t, uint8_t) HARRAY(uint8, uint8_t, uint8_t) HARRAY(int16, int16_t, uint16_t) HARRAY(uint16, uint16_t, uint16_t) HARRAY(int32, int32_t, uint32_t) HARRAY(uint32, uint32_t, uint32_t)
HARRAY(int64, int64_t, uint64_t) HARRAY(uint64, uint64_t, uint64_t) HARRAY(ptr, void*, uintptr_t)
static const size_t acnt[] = { 100000000, G2 - 1, G2, G2 + 3, G4 - 1, G4, G4 + 7 };
static uint64_t cnt_a(void) { return 9 * 7 * 2; }
static size_t ha_count(uint64_t c, int sz) { return c / 63 ? acnt[c / 9 % 7] / sz + 1 : acnt[c / 9 % 7]; }     /* by items and by bytes */
static void run_a(uint64_t c)
{
    mc_huge = 1; mc_alloc_cap = (size_t)1 << 44;
    switch(c % 9) {
    case 0: ha_int8(ha_count(c, 1)); break; case 1: ha_uint8(ha_count(c, 1)); break; case 2: ha_int16(ha_count(c, 2)); break; case 3: ha_uint16(ha_count(c, 2)); break; case 4: ha_int32(ha_count(c, 4)); break;
    case 5: ha_uint32(ha_count(c, 4)); break; case 6: ha_int64(ha_count(c, 8)); break; case 7: ha_uint64(ha_count(c, 8)); break; case 8: ha_ptr(ha_count(c, 8)); break;
    }
    mc_count_calls(12); mc_count_trace(1);
}
static void desc_a(uint64_t c, char* s, size_t z) { static const char* t[] = { "int8", "uint8", "int16", "uint16", "int32", "uint32", "int64", "uint64", "ptr" }; static const int sz[] = { 1, 1, 2, 2, 4, 4, 8, 8, 8 }; snprintf(s, z, "ARRAY_%s of %zu items", t[c % 9], ha_count(c, sz[c % 9])); }

/* ---- C30 */
static const size_t ml[] = { G1, G2 - 9, G2 - 8, G2 - 1, G2, G2 + 1, G4 - 17, G4 - 16, G4 - 9, G4 - 8, G4 - 7, G4 - 1, G4, G4 + 1, G4 + 100, G4 + 2000, 2 * G4 + 16 };
static uint64_t cnt_m(void) { return ARRN(ml) * 2; }
static void __attribute__((noinline)) run_m(uint64_t c)
{
    size_t z = ml[c / 2]; unsigned char* p; void* base; size_t bs;
    mc_huge = 1; mc_alloc_cap = (size_t)1 << 44; mc_alloc_begin();
    if(c % 2) p = MALLOCA(z); else p = MALLOCA_(z, 100);
    MC_ASSERT(p != NULL, "no memory for %zu bytes", z);
    MC_ASSERT(mc_block_of(p, &base, &bs) && (unsigned char*)base + bs >= p + z, "%zu bytes requested: the block is not that large", z);
    p[0] = 0xcc; p[z - 1] = 0xdd; p[z / 2] = 1; FREEA(p); MC_ASSERT(mc_live_blocks() == 0, "block of %zu bytes not released", z);
    mc_count_calls(2); mc_count_trace(1);
}
static void desc_m(uint64_t c, char* s, size_t z) { snprintf(s, z, "block of %zu bytes", ml[c / 2]); }

/* ---- C31, C32, C42 */
static const size_t cb[] = { G1, G2, G4 - 8, G4, G4 + 8, G4 + 4096, 5 * G1, 6 * G1 + 16, 17 * G1 };
static const size_t cr[] = { 8, 4096, G1 / 4, G1 - 8, G1, G1 + G1 / 4, G2, G4, 5 * G1 };
#define CL 6
static uint64_t cnt_c(void) { return 9 * 9 * 9 * 9 * (mc_thorough ? 9 : 1); }
static void run_c(uint64_t c)
{
    /* two (thorough: three) sizes by turns, then one of another size, CL times in all */
    MEMCHUNK m; size_t bs = cb[c % 9], x[CL], tot = 0, nb = 0, sm = 0, std; unsigned char* p[CL]; int i, j; uint64_t q = c / 9;
    mc_huge = 1; mc_alloc_cap = (size_t)1 << 44; mc_alloc_begin(); memchunk_init(&m, bs);
    x[0] = x[2] = cr[q % 9]; x[1] = x[3] = cr[q / 9 % 9]; x[4] = cr[q / 81 % 9]; x[5] = mc_thorough ? cr[q / 729] : x[0];
    for(i = 0; i < CL; i++) {
        void* base; size_t bl;
        p[i] = memchunk_alloc(&m, x[i]); MC_ASSERT(p[i] != NULL, "no block of %zu bytes (block size %zu)", x[i], bs);
        MC_ASSERT(mc_block_of(p[i], &base, &bl) && p[i] + x[i] <= (unsigned char*)base + bl, "a block of %zu bytes is not that large (block size %zu)", x[i], bs);
        MC_ASSERT((uintptr_t)p[i] % sizeof(void*) == 0, "a block of %zu bytes is not aligned", x[i]);
        for(j = 0; j < i; j++) MC_ASSERT(p[i] + x[i] <= p[j] || p[j] + x[j] <= p[i], "a block of %zu bytes overlaps an earlier one of %zu (block size %zu)", x[i], x[j], bs);
        p[i][0] = i + 1; p[i][x[i] - 1] = i + 11; tot += x[i]; if(x[i] > bs / 4) nb++; else sm++;
        std = (sm > 0) + tot / (bs - bs / 4);
        if(mc_is("C42")) MC_ASSERT(mc_live_blocks() <= nb + std, "%zu blocks were taken for %zu requests above a quarter of the block size %zu, %zu other ones, and %zu bytes in total", mc_live_blocks(), nb, bs, sm, tot);
    }
    for(i = 0; i < CL; i++) MC_ASSERT(p[i][0] == i + 1 && p[i][x[i] - 1] == i + 11, "contents of a block of %zu bytes changed", x[i]);
    memchunk_fini(&m); MC_ASSERT(mc_live_blocks() == 0, "finalization left %zu blocks", mc_live_blocks());
    mc_count_calls(CL + 2); mc_count_trace(1);
}
static void desc_c(uint64_t c, char* s, size_t z) { uint64_t q = c / 9; snprintf(s, z, "block size %zu, requests of %zu and %zu by turns, then %zu, then %zu", cb[c % 9], cr[q % 9], cr[q / 9 % 9], cr[q / 81 % 9], mc_thorough ? cr[q / 729] : cr[q % 9]); }

/* ---- every size around each power of two and ten, as the total of a few operations */
static const EDGES eg_q = { 3, 35, 140, 1 }, eg_t = { 3, 36, 700, 1 };
#define EG (mc_thorough ? &eg_t : &eg_q)
static void e_begin(void) { mc_huge = 1; mc_huge_min = 1 << 17; bulk = 1 << 15; mc_alloc_cap = (size_t)1 << 44; mc_alloc_begin(); nm = 0; n = 0; ctr = 0; data = NULL; }
static void e_chk(const char* when)
{
    void* base; size_t bs;
    data = buffer_data(&b);
    MC_ASSERT(buffer_size(&b) == n, "%s: size is %zu, expected %zu", when, buffer_size(&b), n);
    if(n) MC_ASSERT(mc_block_of(data, &base, &bs) && base == data && bs >= n, "%s: the block has %zu bytes for %zu", when, bs, n);
    m_check(when); mc_count_calls(1);
}
static void e_ins(size_t off, size_t x, const char* when)
{
    void* p = off == n ? buffer_append_raw(&b, x) : buffer_insert_raw(&b, off, x);
    MC_ASSERT(p != NULL, "%s: refused", when); m_insert(off, x); data = buffer_data(&b); MC_ASSERT((unsigned char*)p == data + off, "%s: address off by %td", when, (unsigned char*)p - data - off);
    e_chk(when); mark_range(off, x);
}
static void e_add1(const char* when) { unsigned char d = ctr++ % 251; MC_ASSERT(buffer_append(&b, &d, 1) == 0, "%s: refused", when); n++; data = buffer_data(&b); MC_ASSERT(data[n - 1] == d, "%s: wrong byte appended", when); e_chk(when); }
static void e_rem(size_t off, size_t x, const char* when) { buffer_remove(&b, off, x); m_remove(off, x); e_chk(when); }
#define E_PAT 12
static uint64_t cnt_eb(void) { return edge_count(EG) * E_PAT; }
static void run_eb(uint64_t c)
{
    size_t t = edge_at(EG, c / E_PAT), i;
    if(t < 6) return;
    e_begin(); buffer_init(&b);
    switch(c % E_PAT) {
    case 0: e_ins(0, t, "append all"); e_add1("append one more"); e_rem(1, n - 2, "remove all but the ends"); break;
    case 1: e_add1("append 1"); e_ins(1, t - 1, "append the rest"); e_add1("append one more"); break;
    case 2: e_ins(0, t / 2, "append one half"); e_ins(n, t - n, "append the other"); e_ins(n, t, "append as much again"); break;
    case 3: e_ins(0, t - 5, "append"); e_ins(0, 3, "insert at the beginning"); e_ins(n / 2, 2, "insert in the middle"); e_ins(n - 1, 1, "insert before the last byte"); break;
    case 4: e_ins(0, t - 1, "append"); e_add1("append one byte"); e_add1("append one more"); e_rem(0, 1, "remove the first"); e_rem(n - 1, 1, "remove the last"); break;
    case 5: MC_ASSERT(buffer_reserve(&b, t) == 0, "reservation refused"); e_ins(0, 1, "append reserved"); e_ins(1, t - 1, "append reserved"); e_add1("append one more"); break;
    case 6: e_ins(0, 5, "append 5"); MC_ASSERT(buffer_reserve(&b, t - 5) == 0, "reservation refused"); e_ins(2, t - 5, "insert reserved"); e_add1("append one more"); break;
    case 7: MC_ASSERT(buffer_realloc(&b, t) == 0, "realloc refused"); e_ins(0, t, "append into the capacity"); e_add1("append one more"); break;
    case 8: e_ins(0, 4 * t + 3, "append four times"); e_rem(0, n - t, "remove the first part"); buffer_shrink(&b); e_chk("shrink"); e_add1("append one"); break;
    case 9: e_ins(0, 8 * t + 1, "append eight times"); e_rem(t, SIZE_MAX, "cut"); e_add1("append one"); e_rem(n / 4, SIZE_MAX - n, "cut to a quarter"); buffer_shrink(&b); e_chk("shrink"); e_ins(n, t - n, "append again"); break;
    case 10: e_ins(0, t, "append"); MC_ASSERT(buffer_realloc(&b, t / 2 + 1) == 0, "realloc refused"); m_remove(t / 2 + 1, SIZE_MAX); e_chk("truncate"); e_ins(n, t - n, "append again"); break;
    default: e_ins(0, 2 * t, "append twice"); MC_ASSERT(buffer_realloc(&b, t) == 0, "realloc refused"); m_remove(t, SIZE_MAX); e_chk("truncate"); buffer_shrink(&b); e_chk("shrink"); e_add1("append one"); e_ins(1, 1, "insert one"); break;
    }
    buffer_fini(&b); MC_ASSERT(mc_live_blocks() == 0, "leak"); mc_count_trace(1);
}
static void desc_eb(uint64_t c, char* s, size_t z) { snprintf(s, z, "sequence %d reaching %zu bytes", (int)(c % E_PAT), edge_at(EG, c / E_PAT)); }

/* the same for items of arrays */
static const EDGES ea_q = { 1, 33, 40, 1 }, ea_t = { 1, 34, 70, 1 };
#define EA (mc_thorough ? &ea_t : &ea_q)
static uint64_t cnt_ea(void) { return edge_count(EA) * 9; }
static void run_ea(uint64_t c)
{
    size_t t = edge_at(EA, c / 9);
    if(t < 3) return;
    e_begin();
    switch(c % 9) {
    case 0: ha_int8(t); break; case 1: ha_uint8(t); break; case 2: ha_int16(t); break; case 3: ha_uint16(t); break; case 4: ha_int32(t); break;
    case 5: ha_uint32(t); break; case 6: ha_int64(t); break; case 7: ha_uint64(t); break; default: ha_ptr(t); break;
    }
    mc_count_calls(12); mc_count_trace(1);
}
static void desc_ea(uint64_t c, char* s, size_t z) { static const char* t[] = { "int8", "uint8", "int16", "uint16", "int32", "uint32", "int64", "uint64", "ptr" }; snprintf(s, z, "ARRAY_%s of %zu items", t[c % 9], edge_at(EA, c / 9)); }

/* counts of items whose size in bytes is not representable: nothing can be added, a removal stops at the end */
static size_t cl_n(size_t i, size_t sz)
{
    const size_t m = (size_t)1 << 63;
    switch(i) {
    case 0: return SIZE_MAX; case 1: return SIZE_MAX - 1; case 2: return m; case 3: return m + 1; case 4: return m - 1; case 5: return SIZE_MAX / sz; case 6: return SIZE_MAX / sz - 1; case 7: return SIZE_MAX / sz + 1;
    case 8: return SIZE_MAX / sz + 2; case 9: return SIZE_MAX / sz + 5; case 10: return SIZE_MAX - 7; case 11: return m / sz; case 12: return m / sz + 3; case 13: return m + m / sz + 2; case 14: return SIZE_MAX / sz * 2 + 4; default: return SIZE_MAX / 2 / sz + 2;
    }
}
#define CL_N 16
#define CL_S 7
static const size_t cl_s[CL_S] = { 0, 1, 2, 3, 5, 16, 60 };
#define CLARRAY(NAME, T, U) \
static void cl_##NAME(size_t cnt, size_t n, int op) \
{ \
    ARRAY_##NAME a; size_t i, k, left; int r; \
    for(k = 0; k <= cnt; k++) { \
        mc_alloc_begin(); array_##NAME##_init(&a); \
        for(i = 0; i < cnt; i++) if(array_##NAME##_append(&a, (T)(U)(i + 65)) != 0) abort(); \
        left = cnt; r = -1; \
        if(op == 0) r = array_##NAME##_append_n(&a, n); else if(op == 1) r = array_##NAME##_insert_n_raw((void*)&a, k, n); else { array_##NAME##_remove_n(&a, k, n); left = k; } \
        MC_ASSERT(r != 0, #NAME " array of %zu: %s of %zu items at %zu succeeds, size is %zu", cnt, op ? "insertion" : "addition", n, op ? k : cnt, array_##NAME##_size(&a)); \
        MC_ASSERT(array_##NAME##_size(&a) == left, #NAME " array of %zu: size is %zu after %s of %zu items at %zu", cnt, array_##NAME##_size(&a), op == 2 ? "removal" : "refused addition", n, k); \
        for(i = 0; i < left; i++) MC_ASSERT(array_##NAME##_get(&a, i) == (T)(U)(i + 65), #NAME " array of %zu: item %zu changed by %s of %zu items at %zu", cnt, i, op == 2 ? "removal" : "refused addition", n, k); \
        array_##NAME##_fini(&a); MC_ASSERT(mc_live_blocks() == 0, "leak"); mc_count_calls(1); \
    } \
}
CLARRAY(int8, int8_t, uint8_t) CLARRAY(uint8, uint8_t, uint8_t) CLARRAY(int16, int16_t, uint16_t) CLARRAY(uint16, uint16_t, uint16_t) CLARRAY(int32, int32_t, uint32_t) CLARRAY(uint32, uint32_t, uint32_t)
CLARRAY(int64, int64_t, uint64_t) CLARRAY(uint64, uint64_t, uint64_t) CLARRAY(ptr, void*, uintptr_t)
static uint64_t cnt_cl(void) { return 9 * CL_N * CL_S * 3; }
static void run_cl(uint64_t c)
{
    static void (*const f[])(size_t, size_t, int) = { cl_int8, cl_uint8, cl_int16, cl_uint16, cl_int32, cl_uint32, cl_int64, cl_uint64, cl_ptr };
    static const size_t sz[] = { 1, 1, 2, 2, 4, 4, 8, 8, sizeof(void*) };
    int t = c % 9; size_t n = cl_n(c / 9 % CL_N, sz[t]);
    if(n < SIZE_MAX / 4 / sz[t]) return;     /* the expression itself wrapped */
    f[t](cl_s[c / 9 / CL_N % CL_S], n, (int)(c / 9 / CL_N / CL_S)); mc_count_trace(1);
}
static void desc_cl(uint64_t c, char* s, size_t z) { static const char* t[] = { "int8", "uint8", "int16", "uint16", "int32", "uint32", "int64", "uint64", "ptr" }; static const char* o[] = { "append_n", "insert_n_raw", "remove_n" }; snprintf(s, z, "ARRAY_%s of %zu items, %s, count class %d", t[c % 9], cl_s[c / 9 / CL_N % CL_S], o[c / 9 / CL_N / CL_S], (int)(c / 9 % CL_N)); }

/* stacks */
static uint64_t cnt_es(void) { return edge_count(EA) * 5; }
static void run_es(uint64_t c)
{
    STACK s; size_t t = edge_at(EA, c / 5), i, k; unsigned char* p; int w = c % 5; static const int wd[] = { 1, 2, 4, 8, 8 }; uint64_t v = 0x8877665544332211ull;
    if(t < 2) return;
    e_begin(); stack_init(&s);
    p = stack_push_raw(&s, t); MC_ASSERT(p && stack_size(&s) == t, "push of %zu bytes", t); data = stack_data(&s); m_insert(0, t); mark_range(0, t);
    for(i = 0; i < 20; i++) {
        switch(w) { case 0: k = stack_push_int8(&s, (int8_t)(v + i)); break; case 1: k = stack_push_int16(&s, (int16_t)(v + i)); break; case 2: k = stack_push_int32(&s, (int32_t)(v + i)); break; case 3: k = stack_push_int64(&s, (int64_t)(v + i)); break; default: k = stack_push_ptr(&s, (void*)(uintptr_t)(v + i)); break; }
        n += wd[w]; data = stack_data(&s); MC_ASSERT(k == 0 && stack_size(&s) == n, "size %zu after pushing %d items of %d bytes on %zu", stack_size(&s), (int)i + 1, wd[w], t); m_check("after a push");
    }
    for(i = 20; i-- > 0; ) {
        uint64_t g, e = v + i, mask = wd[w] == 8 ? ~0ull : (1ull << 8 * wd[w]) - 1; int turn;
        for(turn = 0; turn < 2; turn++) {
            switch(w) {
            case 0: g = turn ? stack_pop_int8(&s) : stack_peek_int8(&s); break; case 1: g = turn ? stack_pop_int16(&s) : stack_peek_int16(&s); break;
            case 2: g = turn ? stack_pop_int32(&s) : stack_peek_int32(&s); break; case 3: g = turn ? stack_pop_int64(&s) : stack_peek_int64(&s); break;
            default: g = (uintptr_t)(turn ? stack_pop_ptr(&s) : stack_peek_ptr(&s)); break;
            }
            MC_ASSERT(((g ^ e) & mask) == 0, "%s item %d of %d bytes above %zu: 0x%llx, expected 0x%llx", turn ? "pop" : "peek", (int)i, wd[w], t, (unsigned long long)(g & mask), (unsigned long long)(e & mask));
        }
        n -= wd[w]; data = stack_data(&s); MC_ASSERT(stack_size(&s) == n, "size %zu, expected %zu", stack_size(&s), n); m_check("after a pop");
    }
    stack_pop_raw(&s, t - 1); MC_ASSERT(stack_size(&s) == 1 && *(unsigned char*)stack_data(&s) == mk[0].b, "size %zu after popping %zu of %zu bytes", stack_size(&s), t - 1, t);
    stack_fini(&s); MC_ASSERT(mc_live_blocks() == 0, "leak"); mc_count_calls(60); mc_count_trace(1);
}
static void desc_es(uint64_t c, char* s, size_t z) { snprintf(s, z, "20 items of kind %d above %zu bytes", (int)(c % 5), edge_at(EA, c / 5)); }

/* strings */
static const EDGES ev_q = { 3, 33, 140, 1 }, ev_t = { 3, 34, 300, 1 };
#define EV (mc_thorough ? &ev_t : &ev_q)
static uint64_t cnt_ev(void) { return edge_count(EV); }
static void run_ev(uint64_t c)
{
    unsigned char* src; size_t t = edge_at(EV, c); VALUE v; int i;
    if(t == 0) return;
    e_begin(); src = malloc(t); data = src; n = t; mark_range(0, t);
    memset(&v, 0x95, sizeof v);
    MC_ASSERT(value_init_string_(&v, (char*)src, t) == 0, "a string of %zu bytes was refused", t);
    free(src);
    MC_ASSERT(value_type(&v) == VALUE_STRING && value_string_length(&v) == t, "length is %zu, expected %zu", value_string_length(&v), t);
    data = (unsigned char*)value_string(&v); m_check("string"); MC_ASSERT(data[t] == 0, "no terminator after %zu bytes", t);
    { void* base; size_t bs; if(t > 16) MC_ASSERT(mc_block_of(data, &base, &bs) && data + t + 1 <= (unsigned char*)base + bs, "the block has %zu bytes for %zu", bs, t); }
    value_fini(&v); MC_ASSERT(mc_live_blocks() == 0, "leak"); mc_count_calls(5); mc_count_trace(1);
}
static void desc_ev(uint64_t c, char* s, size_t z) { snprintf(s, z, "string of %zu bytes", edge_at(EV, c)); }

/* blocks from stack or heap */
static const EDGES em_q = { 6, 35, 140, 1 }, em_t = { 6, 36, 700, 1 };
#define EM (mc_thorough ? &em_t : &em_q)
static uint64_t cnt_em(void) { return edge_count(EM) * 2; }
static void __attribute__((noinline)) run_em(uint64_t c)
{
    size_t z = edge_at(EM, c / 2), bs; unsigned char *p, *q; void* base; int heap = c % 2 ? z > 1024 : 1;
    if(z == 0) return;
    e_begin();
    if(c % 2) p = MALLOCA(z); else p = MALLOCA_(z, 1);
    q = MALLOCA_(z, 0);
    MC_ASSERT(p != NULL && q != NULL, "no memory for %zu bytes", z);
    if(mc_live_blocks() == 2) MC_ASSERT(mc_block_of(p, &base, &bs) && p + z <= (unsigned char*)base + bs, "%zu bytes requested: the block is not that large", z);
    MC_ASSERT(mc_block_of(q, &base, &bs) && q + z <= (unsigned char*)base + bs, "%zu bytes requested: the block is not that large", z);
    MC_ASSERT((uintptr_t)p % sizeof(void*) == 0 && (uintptr_t)q % sizeof(void*) == 0, "block of %zu bytes not aligned", z);
    if(z > 1024 || z < 1000) MC_ASSERT(mc_live_blocks() == 1 + heap, "%zu blocks on the heap for %zu bytes", mc_live_blocks(), z);
    p[0] = 0xcc; p[z - 1] = 0xdd; q[0] = 1; q[z - 1] = 2; FREEA(p); MC_ASSERT(mc_live_blocks() == 1, "block of %zu bytes not released", z); FREEA(q); MC_ASSERT(mc_live_blocks() == 0, "block of %zu bytes not released", z);
    mc_count_calls(4); mc_count_trace(1);
}
static void desc_em(uint64_t c, char* s, size_t z) { snprintf(s, z, "block of %zu bytes", edge_at(EM, c / 2)); }

/* chunks: block sizes of every magnitude, requests in proportion */
static const EDGES ec_q = { 5, 33, 1, 1 }, ec_t = { 6, 34, 2, 1 };
#define EC (mc_thorough ? &ec_t : &ec_q)
#define NR 10
static uint64_t cnt_ec(void) { return edge_count(EC) * NR * NR * NR; }
static size_t ec_req(size_t bs, int k)
{
    switch(k) { case 0: return 8; case 1: return (bs / 4) & ~(size_t)7; case 2: return ((bs / 4) & ~(size_t)7) + 8; case 3: return (bs / 2) & ~(size_t)7; case 4: return (bs - bs / 4) & ~(size_t)7; case 5: return (bs - 24) & ~(size_t)7; case 6: return (bs - 16) & ~(size_t)7; case 7: return (bs - 1) & ~(size_t)7; case 8: return (bs + 15) & ~(size_t)7; default: return (bs * 3 + 8) & ~(size_t)7; }
}
static size_t ec_bs(uint64_t c) { size_t i = c / (NR * NR * NR); return edge_base(EC, i / (2 * EC->d + 1)) + (i % (2 * EC->d + 1) - EC->d) * 8; }
static void run_ec(uint64_t c)
{
    MEMCHUNK m; size_t bs = ec_bs(c), x[CL], tot = 0, nb = 0, sm = 0, std; unsigned char* p[CL]; int i, j;
    e_begin(); memchunk_init(&m, bs);
    x[0] = x[2] = ec_req(bs, c % NR); x[1] = x[3] = ec_req(bs, c / NR % NR); x[4] = ec_req(bs, c / NR / NR % NR); x[5] = x[0];
    for(i = 0; i < CL; i++) {
        void* base; size_t bl;
        if(x[i] == 0) x[i] = 8;
        p[i] = memchunk_alloc(&m, x[i]); MC_ASSERT(p[i] != NULL, "no block of %zu bytes (block size %zu)", x[i], bs);
        MC_ASSERT(mc_block_of(p[i], &base, &bl) && p[i] + x[i] <= (unsigned char*)base + bl, "a block of %zu bytes is not that large (block size %zu)", x[i], bs);
        MC_ASSERT((uintptr_t)p[i] % sizeof(void*) == 0, "a block of %zu bytes is not aligned", x[i]);
        for(j = 0; j < i; j++) MC_ASSERT(p[i] + x[i] <= p[j] || p[j] + x[j] <= p[i], "a block of %zu bytes overlaps an earlier one of %zu (block size %zu)", x[i], x[j], bs);
        p[i][0] = i + 1; p[i][x[i] - 1] = i + 11; tot += x[i]; if(x[i] > bs / 4) nb++; else sm++;
        std = (sm > 0) + tot / (bs - bs / 4);
        if(mc_is("C42") && bs >= 256) MC_ASSERT(mc_live_blocks() <= nb + std, "%zu blocks were taken for %zu requests above a quarter of the block size %zu, %zu other ones, and %zu bytes in total", mc_live_blocks(), nb, bs, sm, tot);
    }
    for(i = 0; i < CL; i++) MC_ASSERT(p[i][0] == i + 1 && p[i][x[i] - 1] == i + 11, "contents of a block of %zu bytes changed", x[i]);
    memchunk_fini(&m); MC_ASSERT(mc_live_blocks() == 0, "finalization left %zu blocks", mc_live_blocks());
    mc_count_calls(CL + 2); mc_count_trace(1);
}
static void desc_ec(uint64_t c, char* s, size_t z) { size_t bs = ec_bs(c); snprintf(s, z, "block size %zu, requests of %zu and %zu by turns, then %zu, then %zu", bs, ec_req(bs, c % NR), ec_req(bs, c / NR % NR), ec_req(bs, c / NR / NR % NR), ec_req(bs, c % NR)); }

MC_SYS mc_systems[] = {
    { "C01", "huge-buffer", 1, 0, 3, reset, n_ops, apply, canon, teardown, describe, 0, 1 },
    { "C01", "huge-buffer-deep", 2, 0, 4, reset, n_ops, apply, canon, teardown, describe, 0, 1 },
    { 0 } };
MC_ENUM mc_enums[] = {
    { "C03", "huge-stack", 3, 0, cnt_s, run_s, desc_s, 1 },
    { "C04", "huge-arrays", 3, 0, cnt_a, run_a, desc_a, 1 },
    { "C30", "huge-malloca", 3, 0, cnt_m, run_m, desc_m, 1 },
    { "C01 C02", "edges-buffer", 3, 0, cnt_eb, run_eb, desc_eb, 64 },
    { "C03", "edges-stack", 3, 0, cnt_es, run_es, desc_es, 64 },
    { "C04", "edges-arrays", 3, 0, cnt_ea, run_ea, desc_ea, 32 },
    { "C04", "count-limits", 3, 0, cnt_cl, run_cl, desc_cl, 64 },
    { "C15", "edges-strings", 3, 0, cnt_ev, run_ev, desc_ev, 32 },
    { "C30", "edges-malloca", 3, 0, cnt_em, run_em, desc_em, 64 },
    { "C31 C32 C42", "edges-chunks", 3, 0, cnt_ec, run_ec, desc_ec, 64 },
    { "C31 C32 C42", "huge-chunks", 3, 0, cnt_c, run_c, desc_c, 16 },
    { 0 } };
