/* C41: memory held is proportional to the content, memory work to the number of items added and removed.
 * C43: lookups in a hash table with evenly spread hash values compare few nodes. */
#include "mc.h"
#include "buffer.h"
#include "value.h"
#include "htable.h"

/* A container under test: a sequence of n items. */
enum { K_BUFFER, K_BUFFER8, K_STACK, K_I32, K_PTR, K_VARRAY, K_DICT, K_DICTORD, K_HTABLE, K_N };
static const char* const kname[] = { "buffer", "buffer in pieces of 24 bytes", "stack", "ARRAY_int32", "ARRAY_ptr", "VALUE array", "VALUE dictionary", "order-keeping VALUE dictionary", "hash table" };
static const int esize[] = { 1, 24, 8, 4, 8, 16, 96, 112, 8 };
/* an empty hash table frees everything and the first item takes a whole plane again */
static const int wsize[] = { 1, 24, 8, 4, 8, 16, 96, 112, 60 };
static int kind, cap; static size_t n; static uint64_t work;   /* bytes of items added or removed */
static BUFFER b; static STACK st; static ARRAY_int32 a32; static ARRAY_ptr ap; static VALUE v; static HTABLE ht;
typedef struct { HTABLE_NODE hn; uint32_t key; } HN;
#define POOL 70000
static HN* pool; static uint32_t first, last;      /* keys first .. last-1 are in the table/dictionary */
static unsigned long hcmps;
static int hcmp(const HTABLE_NODE* x, const HTABLE_NODE* y) { hcmps++; return HTABLE_DATA(x, HN, hn)->key != HTABLE_DATA(y, HN, hn)->key; }
static int spread;
static uint32_t hval(uint32_t k) { switch(spread) { case 1: return k * 2654435761u; case 2: { k ^= k >> 16; k *= 0x85ebca6bu; k ^= k >> 13; k *= 0xc2b2ae35u; return k ^ k >> 16; } } return k; }
static uint32_t hhash(const HTABLE_NODE* x) { return hval(HTABLE_DATA(x, HN, hn)->key); }
static const unsigned char junk[24] = { 1, 2, 3 };

static void push(int front)
{
    int rc = 0; size_t at = front ? 0 : n; char key[16]; VALUE* it;
    switch(kind) {
    case K_BUFFER: rc = buffer_insert(&b, at, junk, 1); break;
    case K_BUFFER8: rc = buffer_insert(&b, at * 24, junk, 24); break;
    case K_STACK: rc = stack_push_int64(&st, 5); break;
    case K_I32: rc = array_int32_insert(&a32, at, 7); break;
    case K_PTR: rc = array_ptr_insert(&ap, at, &n); break;
    case K_VARRAY: it = value_array_insert(&v, at); rc = it ? value_init_int32(it, 3) : -1; break;
    case K_DICT: case K_DICTORD: snprintf(key, sizeof key, "%08x", last); it = value_dict_add(&v, key); rc = it ? value_init_int32(it, 3) : -1; break;
    case K_HTABLE: if(last == POOL) return; pool[last].key = last; rc = htable_insert(&ht, &pool[last].hn, hcmp, hhash); break;
    }
    MC_ASSERT(rc == 0, "adding item %zu failed", n);
    last++; n++; work += wsize[kind];
}
/* remove `k` items at once if the container can, else one by one; from the end or from the front */
static void drop(size_t k, int front)
{
    size_t i, at = front ? 0 : n - k; char key[16]; HN probe;
    if(k == 0) return;
    switch(kind) {
    case K_BUFFER: buffer_remove(&b, at, k); break;
    case K_BUFFER8: buffer_remove(&b, at * 24, k * 24); break;
    case K_STACK: for(i = 0; i < k; i++) stack_pop_int64(&st); break;
    case K_I32: array_int32_remove_n(&a32, at, k); break;
    case K_PTR: array_ptr_remove_n(&ap, at, k); break;
    case K_VARRAY: MC_ASSERT(value_array_remove_range(&v, at, k) == 0, "removing %zu items failed", k); break;
    case K_DICT: case K_DICTORD: for(i = 0; i < k; i++) { snprintf(key, sizeof key, "%08x", (unsigned)(front ? first + i : last - 1 - i)); MC_ASSERT(value_dict_remove(&v, key) == 0, "removal failed"); } break;
    case K_HTABLE: for(i = 0; i < k; i++) { probe.key = front ? first + i : last - 1 - i; MC_ASSERT(htable_remove(&ht, &probe.hn, hcmp, hhash) != NULL, "removal failed"); } break;
    }
    if(front) first += k; else last -= k;
    n -= k; work += k * wsize[kind];
}
static size_t size_now(void)
{
    switch(kind) {
    case K_BUFFER: return buffer_size(&b); case K_BUFFER8: return buffer_size(&b) / 24; case K_STACK: return stack_size(&st) / 8; case K_I32: return array_int32_size(&a32); case K_PTR: return array_ptr_size(&ap);
    case K_VARRAY: return value_array_size(&v); case K_DICT: case K_DICTORD: return value_dict_size(&v);
    }
    return n;
}
static void check(const char* what)
{
    MC_ASSERT(size_now() == n, "%s: %zu items instead of %zu", what, size_now(), n);
    MC_ASSERT(mc_live_bytes() <= 10 * n * esize[kind] + 1024, "%s: %zu bytes of memory are held for %zu items of the %s", what, mc_live_bytes(), n, kname[kind]);
    MC_ASSERT(mc_requested_bytes() <= 10 * work + 2048, "%s: %llu bytes were requested for %llu bytes of items added and removed", what, (unsigned long long)mc_requested_bytes(), (unsigned long long)work);
}
enum { PUSH1, DROP1, DOUBLE, HALVE, SINGLY_HALVE, SHIFT, FRONT1, FILL, EMPTY, THRASH, N_OPS };
static int n_ops(void) { return N_OPS; }
static void fini_all(void)
{
    switch(kind) { case K_BUFFER: case K_BUFFER8: buffer_fini(&b); break; case K_STACK: stack_fini(&st); break; case K_I32: array_int32_fini(&a32); break; case K_PTR: array_ptr_fini(&ap); break; case K_VARRAY: case K_DICT: case K_DICTORD: value_fini(&v); break; case K_HTABLE: htable_fini(&ht, NULL); break; }
}
static void reset(void)
{
    kind = mc_arg / 100000; cap = mc_arg % 100000; n = 0; work = 0; first = last = 0; spread = 0;
    if(pool == NULL) pool = mc_xcalloc(POOL, sizeof(HN));
    switch(kind) { case K_BUFFER: case K_BUFFER8: buffer_init(&b); break; case K_STACK: stack_init(&st); break; case K_I32: array_int32_init(&a32); break; case K_PTR: array_ptr_init(&ap); break; case K_VARRAY: value_init_array(&v); break; case K_DICT: value_init_dict(&v); break; case K_DICTORD: value_init_dict_ex(&v, NULL, VALUE_DICT_MAINTAINORDER); break; case K_HTABLE: htable_init(&ht); break; }
}
/* 40 times add k, remove k (or the other way round): may move the container by a few steps but not make it reallocate all the time */
static void thrash(size_t k, int drop_first)
{
    unsigned long long r0 = mc_requested_bytes(), lim; int i; size_t j;
    if(drop_first && n < k) return;
    if(kind == K_HTABLE && last + 40 * k >= POOL) return;
    for(i = 0; i < 40; i++) {
        if(drop_first) drop(k, 0);
        for(j = 0; j < k; j++) push(0);
        if(!drop_first) drop(k, 0);
    }
    lim = 3 * (mc_live_bytes() + 1024) + 10 * 80 * k * (n <= k ? wsize[kind] : esize[kind]);
    MC_ASSERT(mc_requested_bytes() - r0 <= lim, "adding and removing %zu items 40 times in a %s of %zu items requested %llu bytes, it holds %zu", k, kname[kind], n, (unsigned long long)mc_requested_bytes() - r0, mc_live_bytes());
}
static int apply(int op)
{
    size_t m = n, i;
    switch(op) {
    case PUSH1: push(0); break;
    case DROP1: if(n == 0) return 0; drop(1, 0); break;
    case DOUBLE: if(n == 0 || 2 * n + 1 > (size_t)cap) return 0; while(n < 2 * m + 1) push(0); break;
    case HALVE: if(n < 4 || kind == K_STACK) return 0; drop(n / 2, 0); break;
    case SINGLY_HALVE: if(n < 4) return 0; while(n > m / 2) { drop(1, 0); if((n & 15) == 0) check("while dropping"); } break;
    case SHIFT: if(n < 2 || kind == K_STACK) return 0; for(i = 0; i < m / 2; i++) { drop(1, 1); push(0); } break;
    case FRONT1: if(kind >= K_DICT || kind == K_STACK) return 0; push(1); break;
    case FILL: if(n * 8 > (size_t)cap) return 0; while(n < (size_t)cap) { push(0); if((n & 63) == 0) check("while filling"); } break;
    case EMPTY: if(n == 0) return 0; drop(n, 1); break;
    case THRASH: thrash(1, 0); break;     /* at whatever boundary the container now is */
    }
    check("afterwards");
    return 1;
}
static void canon(MC_HASH* h) { mc_hash_u64(h, n); }
static void teardown(void) { fini_all(); MC_ASSERT(mc_live_blocks() == 0, "leak"); }
static void describe(int op, char* o, size_t z) { static const char* s[] = { "add one", "remove the last", "double one by one", "remove the last half at once", "remove the last half one by one", "shift by half (remove first, add last)", "add one in front", "fill up one by one", "remove all", "add and remove one 40 times" }; snprintf(o, z, "%s", s[op]); }

/* ---- C43: comparisons of hash table operations with evenly spread hash values, along histories of adding and removing */
static const int hsz[] = { 1, 58, 59, 60, 118, 176, 177, 178, 354, 412, 413, 414, 885, 886, 1829, 4000, 7493, 30000, 60000 };
enum { H_FIFO, H_LIFO, H_CHURN, H_SHRINKGROW, H_N };
/* every size up to 700 (thorough: 2500), then those of the list */
static int hlow(void) { return mc_thorough ? 2500 : 700; }
static int hm(uint64_t i) { return i < (uint64_t)hlow() ? (int)i + 1 : hsz[i - hlow()]; }
static uint64_t cnt_h(void) { return (hlow() + 19) * 3 * H_N; }
static unsigned long hlimit(size_t m) { return 40; }
static void probe_all(const char* when)
{
    uint32_t k; HN p; unsigned long total = 0, worst = 0;
    for(k = first > 50 ? first - 50 : 0; k < last + 50; k++) {
        HTABLE_NODE* r; p.key = k; hcmps = 0; r = htable_lookup(&ht, &p.hn, hcmp, hhash);
        MC_ASSERT((r != NULL) == (k >= first && k < last) && (r == NULL || r == &pool[k].hn), "%s: lookup of key %u is wrong", when, k);
        if(hcmps > worst) worst = hcmps; total += hcmps;
    }
    MC_ASSERT(worst <= hlimit(n), "%s: a lookup in a table of %zu nodes with evenly spread hash values compares %lu nodes", when, n, worst);
    MC_ASSERT(total <= (last - first <= 1000 ? 10 : 15) * (uint64_t)(last - first + 100), "%s: lookups in a table of %zu nodes with evenly spread hash values compare %.1f nodes on average", when, n, (double)total / (last - first + 100));
    mc_beat();
}
static void hop(void (*f)(size_t, int), size_t k, int front) { size_t i; for(i = 0; i < k; i++) { hcmps = 0; f(1, front); MC_ASSERT(hcmps <= hlimit(n), "an update of a table of %zu nodes with evenly spread hash values compares %lu nodes", n, hcmps); } }
static void push_(size_t k, int front) { push(0); }
static void run_h(uint64_t c)
{
    int m = hm(c / 3 / H_N), how = c / 3 % H_N, r;
    mc_arg = K_HTABLE * 100000; reset(); spread = c % 3;
    hop(push_, m, 0); probe_all("after growing");
    switch(how) {
    case H_FIFO: while(n > 0) { hop(drop, 1 + n / 5, 1); probe_all("while shrinking from the oldest"); } break;
    case H_LIFO: while(n > 0) { hop(drop, 1 + n / 5, 0); probe_all("while shrinking from the newest"); } break;
    case H_CHURN: for(r = 0; r < 3 && last + m <= POOL; r++) { size_t i; for(i = 0; i < (size_t)m; i++) { hop(drop, 1, 1); hop(push_, 1, 0); } probe_all("after replacing all nodes"); } break;
    case H_SHRINKGROW: for(r = 0; r < 4 && last + m <= POOL; r++) { hop(drop, n - n / 5, 1); probe_all("after shrinking"); hop(push_, m - n, 0); probe_all("after growing again"); } break;
    }
    fini_all(); MC_ASSERT(mc_live_blocks() == 0, "leak");
    mc_count_calls(4 * m); mc_count_trace(1);
}
static void describe_h(uint64_t c, char* o, size_t z) { static const char* s[] = { "removed oldest first", "removed newest first", "replaced one by one", "shrunk and grown again" }; static const char* f[] = { "consecutive", "multiplicative", "mixed" }; snprintf(o, z, "%d nodes, %s hash values, %s", hm(c / 3 / H_N), f[c % 3], s[c / 3 % H_N]); }

/* ---- C41 at large sizes: fill, drain in one of several ways, fill again */
static const int bsz[][2] = { [K_BUFFER] = { 1500000, 6000000 }, [K_BUFFER8] = { 40000, 250000 }, [K_STACK] = { 150000, 1000000 }, [K_I32] = { 300000, 2000000 }, [K_PTR] = { 150000, 1000000 }, [K_VARRAY] = { 60000, 300000 }, [K_DICT] = { 6000, 40000 }, [K_DICTORD] = { 6000, 40000 }, [K_HTABLE] = { 30000, 69000 } };
enum { B_BACK, B_HALVES, B_FRONT, B_PIECES, B_FRONTFILL, B_N };
static uint64_t cnt_b(void) { return K_N * B_N; }
static void fill_to(size_t to, int front) { size_t i = 0; while(n < to && last < POOL * 100) { push(front); if((++i & 8191) == 0) { check("while filling"); mc_beat(); } } }
static void run_b(uint64_t c)
{
    int how = c % B_N, r; size_t to;
    mc_arg = c / B_N * 100000; reset(); spread = 2; to = bsz[kind][mc_thorough];
    if(how == B_FRONTFILL || how == B_FRONT) { if(kind < K_DICT) to /= mc_thorough ? 40 : 20; }
    if(kind == K_HTABLE) to /= 2;
    for(r = 0; r < 2; r++) {
        size_t i = 0;
        if(how == B_FRONTFILL && (kind == K_STACK || kind >= K_DICT)) break;
        fill_to(to, how == B_FRONTFILL);
        if(kind == K_STACK && how != B_BACK) break;
        switch(how) {
        case B_BACK: while(n > 0) { drop(1, 0); if((++i & 8191) == 0 || n < 50) { check("while draining"); mc_beat(); } } break;
        case B_HALVES: while(n > 0) { drop((n + 1) / 2, r); check("after halving"); } break;
        case B_FRONT: case B_FRONTFILL: while(n > 0) { drop(1, 1); if((++i & 1023) == 0 || n < 50) { check("while draining"); mc_beat(); } } break;
        case B_PIECES: while(n > 0) { drop(n < 100 ? n : 100, 0); check("after removing 100"); if((++i & 63) == 0) mc_beat(); } break;
        }
    }
    fini_all(); MC_ASSERT(mc_live_blocks() == 0, "leak");
    mc_count_trace(1);
}
static void describe_b(uint64_t c, char* o, size_t z) { static const char* s[] = { "drained from the end", "halved again and again", "drained from the front", "drained in pieces of 100", "filled and drained at the front" }; snprintf(o, z, "%s of %d items, %s", kname[c / B_N], bsz[c / B_N][mc_thorough], s[c % B_N]); }

/* ---- C41 at every size: walk up to a size and down again, with additions and removals alternating at every size in between */
static const int asz[] = { [K_BUFFER] = 2600, [K_BUFFER8] = 700, [K_STACK] = 700, [K_I32] = 1400, [K_PTR] = 700, [K_VARRAY] = 700, [K_DICT] = 150, [K_DICTORD] = 150, [K_HTABLE] = 2000 };
static const int alt[] = { 1, 2, 3, 7, 20 };
static uint64_t cnt_a(void) { return K_N * 2 * 5; }
static void run_a(uint64_t c)
{
    size_t top, k = alt[c % 5]; int df = c / 5 % 2;
    mc_arg = c / 10 * 100000; reset(); top = asz[kind] * (mc_thorough ? 4 : 1);
    while(n < top) { push(0); thrash(k, df); if((n & 63) == 0) mc_beat(); }
    while(n > 0) { drop(1, 0); thrash(k, df); if((n & 63) == 0) mc_beat(); }
    fini_all(); MC_ASSERT(mc_live_blocks() == 0, "leak");
    mc_count_trace(2 * top);
}
static void describe_a(uint64_t c, char* o, size_t z) { snprintf(o, z, "%s of 0 to %d items and back to 0, at each size 40 times %s %d", kname[c / 10], asz[c / 10] * (mc_thorough ? 4 : 1), c / 5 % 2 ? "remove and add" : "add and remove", alt[c % 5]); }

#define S(nm, q, k, cap_, d) { "C41", nm, q, (k) * 100000 + (cap_), d, reset, n_ops, apply, canon, teardown, describe, 0, 1 }
#define Q(nm, k, cap_, cap2) S("growth-" nm, 1, k, cap_, 6), S("growth-" nm "-deep", 2, k, cap2, 7)
MC_SYS mc_systems[] = {
    Q("buffer", K_BUFFER, 700, 3000), Q("buffer-pieces", K_BUFFER8, 100, 600), Q("stack", K_STACK, 150, 700), Q("int32", K_I32, 300, 1200), Q("ptr", K_PTR, 150, 700), Q("value-array", K_VARRAY, 130, 600), Q("dict", K_DICT, 60, 200), Q("dict-ordered", K_DICTORD, 60, 150), Q("htable", K_HTABLE, 450, 1000),
    { 0 }
};
MC_ENUM mc_enums[] = {
    { "C41", "growth-every-size", 3, 0, cnt_a, run_a, describe_a, 1 },
    { "C41", "growth-bulk", 3, 0, cnt_b, run_b, describe_b, 1 },
    { "C43", "htable-lookup-cost", 3, 0, cnt_h, run_h, describe_h, 1 }, { 0 } };
