/* C16 array values: sequences whose new items are marked. */
#include "mc.h"
#include "value.h"
#include "edges.h"

#define MAXN 600
static VALUE v; static uint32_t id[MAXN + 8]; static int n, LIM; static uint32_t next_id;
static VALUE other;                 /* some value that is not an array */
/* Contents by identity: left new / number / heap string / array holding a heap string / null / dict */
enum { K_NEW, K_INT, K_STR, K_ARR, K_NULL, K_SHORT, K_N };
#define MARK "MkItEm42"
static int kind(uint32_t x) { return x & 7; }
static void mkstr(uint32_t x, char* s) { memcpy(s, MARK, 8); memset(s + 8, 'a' + x % 26, 40); memcpy(s + 20, &x, 4); }
static void fill(VALUE* it, uint32_t x)
{
    char s[48];
    switch(kind(x)) {
    case K_NEW: return;
    case K_INT: MC_ASSERT(value_init_int32(it, (int32_t)x) == 0, "init"); break;
    case K_STR: mkstr(x, s); MC_ASSERT(value_init_string_(it, s, 48) == 0, "init"); break;
    case K_ARR: { VALUE* e; mkstr(x, s); MC_ASSERT(value_init_array(it) == 0, "init"); e = value_array_append(it); MC_ASSERT(e && value_init_string_(e, s, 48) == 0, "nested"); break; }
    case K_NULL: value_init_null(it); break;
    case K_SHORT: MC_ASSERT(value_init_string_(it, (char*)&x, 4) == 0, "init"); break;
    }
    MC_ASSERT(!value_is_new(it), "an initialised item is still marked as new");
}
static void check_item(const VALUE* it, uint32_t x, int i, const char* when)
{
    char s[48]; const VALUE* e = it;
    switch(kind(x)) {
    case K_NEW: MC_ASSERT(value_type(it) == VALUE_NULL && value_is_new(it), "%s: item %d is not the new value put there", when, i); break;
    case K_NULL: MC_ASSERT(value_type(it) == VALUE_NULL && !value_is_new(it), "%s: item %d is not the null put there", when, i); break;
    case K_INT: MC_ASSERT(value_type(it) == VALUE_INT32 && value_int32(it) == (int32_t)x, "%s: item %d is not the number put there", when, i); break;
    case K_SHORT: MC_ASSERT(value_type(it) == VALUE_STRING && value_string_length(it) == 4 && memcmp(value_string(it), &x, 4) == 0, "%s: item %d is not the short string put there", when, i); break;
    case K_ARR: MC_ASSERT(value_type(it) == VALUE_ARRAY && value_array_size(it) == 1, "%s: item %d is not the array put there", when, i); e = value_array_get(it, 0);
    case K_STR: mkstr(x, s); MC_ASSERT(value_type(e) == VALUE_STRING && value_string_length(e) == 48 && memcmp(value_string(e), s, 48) == 0, "%s: item %d is not the string put there", when, i); break;
    }
}
static int marked_blocks(void)
{
    size_t i, nb = mc_live_blocks(), sz; void* p; int c = 0;
    for(i = 0; i < nb; i++) { mc_block_at(i, &p, &sz); if(sz >= 48 && memmem(p, 24, MARK, 8)) c++; }
    return c;
}
static void check_all(const char* when)
{
    int i, m = 0; VALUE* all;
    MC_ASSERT(value_type(&v) == VALUE_ARRAY, "%s: type changed", when);
    MC_ASSERT(value_array_size(&v) == (size_t)n, "%s: size is %zu, expected %d", when, value_array_size(&v), n);
    all = value_array_get_all(&v);
    MC_ASSERT(n == 0 || all != NULL, "%s: value_array_get_all() is NULL", when);
    for(i = 0; i < n; i++) {
        VALUE* it = value_array_get(&v, i);
        MC_ASSERT(it != NULL, "%s: item %d of %d is missing", when, i, n);
        MC_ASSERT(it == all + i, "%s: value_array_get_all() and value_array_get(%d) differ", when, i);
        check_item(it, id[i], i, when);
        m += kind(id[i]) == K_STR || kind(id[i]) == K_ARR;
    }
    MC_ASSERT(value_array_get(&v, n) == NULL && value_array_get(&v, n + 1) == NULL && value_array_get(&v, SIZE_MAX) == NULL && value_array_get(&v, SIZE_MAX / 16 + 1) == NULL && value_array_get(&v, (size_t)1 << 32) == NULL, "%s: an index out of range found an item", when);
    MC_ASSERT(marked_blocks() == m, "%s: %d item contents are allocated, expected %d", when, marked_blocks(), m);
}
static void* outer_only(int plan) { mc_fail_plan(plan); return NULL; }
static void ins(size_t i, int k, int plan, int append)
{
    VALUE* it; int fired;
    outer_only(plan);
    it = append ? value_array_append(&v) : value_array_insert(&v, i);
    fired = mc_fail_fired(); mc_fail_plan(0);
    if(it == NULL) { MC_ASSERT(fired, "insertion at %zu of %d failed though memory was available", i, n); return; }
    MC_ASSERT(it == value_array_get(&v, i), "the item returned is not the one at %zu", i);
    MC_ASSERT(value_type(it) == VALUE_NULL && value_is_new(it), "the added item is not new and null");
    memmove(id + i + 1, id + i, (n - i) * sizeof *id); n++;
    id[i] = (next_id++ << 3) | k;
    fill(it, id[i]);
}
static void rem(size_t i, size_t c, int plan, int single)
{
    int rc;
    mc_fail_plan(plan);
    rc = single ? value_array_remove(&v, i) : value_array_remove_range(&v, i, c);
    mc_fail_plan(0);
    if(i > (size_t)n || c > n - i) { MC_ASSERT(rc == -1, "removal of %zu items at %zu of %d returned %d", c, i, n, rc); return; }
    MC_ASSERT(rc == 0, "removal of %zu items at %zu of %d returned %d", c, i, n, rc);
    memmove(id + i, id + i + c, (n - i - c) * sizeof *id); n -= c;
}
static void clean(int plan) { mc_fail_plan(plan); value_array_clean(&v); mc_fail_plan(0); n = 0; }
static void reset(void)
{
    LIM = mc_arg; n = 0; next_id = 0x1234;
    memset(&v, 0xA7, sizeof v);
    MC_ASSERT(value_init_array(&v) == 0, "init failed");
    MC_ASSERT(!value_is_new(&v), "an initialised array is new");
}
/* ops: [0, A) where A = (LIM+1) positions x 2 plans inserts; then removals; then ranges; then bad ones */
enum { OK_CLEAN, OK_CLEANF, OK_BAD, OK_BULK, OK_APP, OK_APPF, OK_N };
static int n_ops(void) { return OK_N + (LIM + 1) * 3 + LIM * 2 + (n + 1) * (n + 2) / 2 * 2; }
static int decode(int op, int* a, int* b, int* plan)     /* 0..: 0 special, 1 insert, 2 remove, 3 range */
{
    int i;
    if(op < OK_N) { *a = op; return 0; }
    op -= OK_N;
    if(op < (LIM + 1) * 3) { *a = op / 3; *plan = op % 3 == 0 ? 0 : op % 3 == 1 ? 1 : -1; return 1; }
    op -= (LIM + 1) * 3;
    if(op < LIM * 2) { *a = op / 2; *plan = op % 2 ? -1 : 0; return 2; }
    op -= LIM * 2;
    *plan = op % 2 ? 1 : 0; op /= 2;
    for(i = 0; ; i++) { if(op <= n - i) { *a = i; *b = op; return 3; } op -= n - i + 1; }
}
static void bad(void)
{
    static const size_t far[] = { (size_t)1 << 31, (size_t)1 << 32, (size_t)1 << 60, SIZE_MAX / 16, SIZE_MAX - 1, SIZE_MAX };
    size_t i, k; VALUE nul;
    MC_ASSERT(value_array_insert(&v, n + 1) == NULL, "insertion beyond the end succeeded");
    for(k = 0; k < 6; k++) {
        MC_ASSERT(value_array_insert(&v, far[k]) == NULL, "insertion at %zu succeeded", far[k]);
        MC_ASSERT(value_array_remove(&v, far[k]) == -1, "removal at %zu succeeded", far[k]);
        rem(far[k], 0, 0, 0); rem(far[k], 1, 0, 0); rem(far[k], (size_t)0 - far[k], 0, 0); rem(far[k], (size_t)0 - far[k] + n, 0, 0); rem(far[k], far[k], 0, 0);
        for(i = 0; i <= (size_t)n; i += (n > 6 ? n / 6 : 1)) { rem(i, far[k], 0, 0); rem(i, SIZE_MAX - i, 0, 0); rem(i, (size_t)0 - i + (i == 0), 0, 0); rem(i, n - i + 1, 0, 0); rem(i, far[k] - i, 0, 0); }
    }
    rem(n, 1, 0, 1); rem(n + 1, 0, 0, 0); rem(n + 1, 1, 0, 0);
    rem(n, 0, 0, 0); rem(0, 0, 0, 0);
    value_init_int32(&nul, 5);
    MC_ASSERT(value_array_append(&nul) == NULL && value_array_insert(&nul, 0) == NULL && value_array_remove(&nul, 0) == -1 && value_array_remove_range(&nul, 0, 0) == -1 && value_array_get_all(&nul) == NULL && value_array_size(&nul) == 0, "array operations on a number are not refused");
    value_array_clean(&nul);
    MC_ASSERT(value_type(&nul) == VALUE_INT32 && value_int32(&nul) == 5, "array operations changed a number");
}
static int kd(int i) { return (i + n) % K_N; }
static int apply(int op)
{
    int a = 0, b = 0, p = 0;
    switch(decode(op, &a, &b, &p)) {
    case 0:
        switch(a) {
        case OK_CLEAN: clean(0); break;
        case OK_CLEANF: clean(-1); break;
        case OK_BAD: bad(); break;
        case OK_BULK: { int t = n < 16 ? 16 : n < 30 ? 30 : n < 62 ? 62 : n < 126 ? 126 : n < 254 ? 254 : 520; if(t > LIM) return 0; while(n < t) ins(n, kd(n), 0, 1); break; }
        case OK_APP: if(n >= LIM) return 0; ins(n, kd(n), 0, 1); break;
        case OK_APPF: if(n >= LIM) return 0; ins(n, kd(n), -1, 1); break;
        }
        break;
    case 1: if(a > n || n >= LIM) return 0; ins(a, kd(a), p, 0); break;
    case 2: if(a >= n) return 0; rem(a, 1, p, 1); break;
    case 3: if(a + b > n) return 0; rem(a, b, p, 0); break;
    }
    return 1;
}
static void describe(int op, char* s, size_t z)
{
    static const char* nm[] = { "clean", "clean (no memory)", "invalid requests", "append up to the next threshold", "append", "append, allocations fail" };
    int a = 0, b = 0, p = 0;
    switch(decode(op, &a, &b, &p)) {
    case 0: snprintf(s, z, "%s", nm[a]); break;
    case 1: snprintf(s, z, "insert at %d%s", a, p ? p > 0 ? ", 1st allocation fails" : ", allocations fail" : ""); break;
    case 2: snprintf(s, z, "remove %d%s", a, p ? ", allocations fail" : ""); break;
    case 3: snprintf(s, z, "remove_range %d, %d%s", a, b, p ? ", 1st allocation fails" : ""); break;
    }
}
/* state: size and everything about the storage except the items themselves */
static void canon(MC_HASH* h)
{
    size_t nb = mc_live_blocks(), i, j, sz, ssz = 0; void* p, *store = NULL, *items = value_array_get_all(&v);
    check_all("afterwards");
    mc_hash_u64(h, n);
    if(items) mc_block_of(items, &store, &ssz);
    mc_hash_u64(h, ssz); mc_hash_u64(h, (char*)items - (char*)store);
    /* the block(s) the value itself refers to */
    for(i = 0; i + 8 <= sizeof v; i++) {
        uint64_t w; memcpy(&w, (char*)&v + i, 8);
        if(mc_block_of((void*)(uintptr_t)w, &p, &sz) && p != store) {
            for(j = 0; j + 8 <= sz; j += 8) {
                void* q; size_t qs; memcpy(&w, (char*)p + j, 8);
                mc_hash_u64(h, mc_block_of((void*)(uintptr_t)w, &q, &qs) ? 0x70000000u + qs : w);
            }
        }
    }
    (void)nb;
}
static void teardown(void)
{
    value_fini(&v);
    MC_ASSERT(mc_live_blocks() == 0, "%zu blocks leaked by value_fini()", mc_live_blocks());
    MC_ASSERT(value_type(&v) == VALUE_NULL && value_array_size(&v) == 0, "a finalized array is still an array");
}
/* all short sequences with all kinds of contents, states not merged */
enum { N_APP, N_APPF = K_N, N_INS0, N_INS1 = N_INS0 + K_N, N_INS0F, N_REM0, N_REML, N_REM02, N_REM12, N_CLEAN, N_REMALL, N_REINIT, N_N };
static int nn_ops(void) { return N_N; }
static int napply(int op)
{
    if(op < N_APPF) ins(n, op, 0, 1);
    else if(op == N_APPF) ins(n, K_STR, 1, 1);
    else if(op < N_INS1) ins(0, op - N_INS0, 0, 0);
    else switch(op) {
    case N_INS1: if(n < 2) return 0; ins(1, K_STR, 0, 0); break;
    case N_INS0F: ins(0, K_ARR, -1, 0); break;
    case N_REM0: if(n < 1) return 0; rem(0, 1, 0, 1); break;
    case N_REML: if(n < 2) return 0; rem(n - 1, 1, -1, 1); break;
    case N_REM02: if(n < 2) return 0; rem(0, 2, 0, 0); break;
    case N_REM12: if(n < 3) return 0; rem(1, 2, 0, 0); break;
    case N_CLEAN: if(n < 1) return 0; clean(0); break;
    case N_REMALL: if(n < 3) return 0; rem(0, n, 0, 0); break;
    case N_REINIT: value_fini(&v); MC_ASSERT(mc_live_blocks() == 0, "leak"); n = 0; mc_fail_plan(1); if(value_init_array(&v) != 0) { MC_ASSERT(value_type(&v) == VALUE_NULL, "a failed initialisation left type %d", value_type(&v)); mc_fail_plan(0); MC_ASSERT(value_init_array(&v) == 0, "init"); } mc_fail_plan(0); break;
    }
    return 1;
}
static void ndescribe(int op, char* s, size_t z)
{
    static const char* kn[] = { "left new", "number", "heap string", "array", "null", "short string" };
    static const char* rn[] = { "insert heap string at 1", "insert at 0, allocations fail", "remove 0", "remove last, allocations fail", "remove_range 0, 2", "remove_range 1, 2", "clean", "remove_range 0, all", "fini, failing init, init" };
    if(op < N_APPF) snprintf(s, z, "append %s", kn[op]); else if(op == N_APPF) snprintf(s, z, "append, allocation fails");
    else if(op < N_INS1) snprintf(s, z, "insert at 0 %s", kn[op - N_INS0]); else snprintf(s, z, "%s", rn[op - N_INS1]);
}
static void ncanon(MC_HASH* h) { check_all("afterwards"); mc_hash_u64(h, n); }
/* ---- large arrays: all operations at every size around a power of two or ten, then drained in one of several ways */
static const EDGES ea_q = { 4, 19, 4, 1 }, ea_t = { 4, 21, 4, 1 };
#define EA (mc_thorough ? &ea_t : &ea_q)
static uint32_t* lid; static size_t ln, lcap;
static void l_put(VALUE* x) { MC_ASSERT(x != NULL && value_type(x) == VALUE_NULL && value_is_new(x), "an added item is missing or not new (size %zu)", ln); lid[ln] = next_id; MC_ASSERT(value_init_int32(x, (int32_t)next_id) == 0, "init"); next_id++; }
static void l_app(void) { VALUE* x = value_array_append(&v); l_put(x); MC_ASSERT(x == value_array_get(&v, ln), "the appended item is not the last one (size %zu)", ln); ln++; }
static void l_ins(size_t at) { VALUE* x = value_array_insert(&v, at); uint32_t w; l_put(x); w = lid[ln]; memmove(lid + at + 1, lid + at, (ln - at) * 4); lid[at] = w; MC_ASSERT(x == value_array_get(&v, at), "the item inserted at %zu is elsewhere (size %zu)", at, ln); ln++; }
static void l_rem(size_t at) { MC_ASSERT(value_array_remove(&v, at) == 0, "removal of item %zu of %zu failed", at, ln); memmove(lid + at, lid + at + 1, (ln - at - 1) * 4); ln--; }
static void l_remr(size_t at, size_t k) { MC_ASSERT(value_array_remove_range(&v, at, k) == 0, "removal of %zu items from %zu of %zu failed", k, at, ln); memmove(lid + at, lid + at + k, (ln - at - k) * 4); ln -= k; }
static void l_one(size_t i) { VALUE* x = value_array_get(&v, i); MC_ASSERT(x != NULL && value_type(x) == VALUE_INT32 && (uint32_t)value_int32(x) == lid[i], "item %zu of %zu is not what was put there", i, ln); }
static void l_some(void) { size_t s; MC_ASSERT(value_array_size(&v) == ln, "size is %zu, expected %zu", value_array_size(&v), ln); MC_ASSERT(value_array_get(&v, ln) == NULL, "an item beyond the size is there"); if(ln == 0) return; l_one(0); l_one(ln - 1); l_one(ln / 2); for(s = 1; s < ln; s *= 2) { l_one(s); l_one(s - 1); l_one(ln - 1 - s); } }
static void l_check(void) { size_t i; l_some(); for(i = 0; i < ln; i++) l_one(i); MC_ASSERT(ln == 0 || value_array_get_all(&v) == value_array_get(&v, 0), "value_array_get_all()"); mc_beat(); }
static uint64_t cnt_l(void) { return edge_count(EA) * 5; }
static void run_l(uint64_t c)
{
    size_t m = edge_at(EA, c / 5), half, k;
    if(m < 8) return;
    if(lcap < 2 * m + 64) { if(lid) mc_xfree(lid); lcap = 2 * m + 64; lid = mc_xmalloc(lcap * 4); }
    mc_alloc_begin(); memset(&v, 0x5A, sizeof v); MC_ASSERT(value_init_array(&v) == 0, "init"); ln = 0; next_id = 7;
    while(ln < m) l_app();
    l_check(); mc_count_calls(ln);
    switch(c % 5) {
    case 0: l_ins(0); l_some(); l_ins(ln / 2); l_ins(ln); l_ins(ln - 1); l_check(); l_rem(0); l_rem(ln - 1); l_rem(ln / 2); l_check(); l_remr(1, 3); l_remr(ln - 2, 2); l_check(); MC_ASSERT(value_array_insert(&v, ln + 1) == NULL && value_array_remove(&v, ln) != 0 && value_array_remove_range(&v, 1, ln) != 0 && value_array_remove_range(&v, ln, 1) != 0, "an operation out of range is accepted (size %zu)", ln); l_check(); value_array_clean(&v); ln = 0; l_some(); l_app(); l_app(); l_check(); break;
    case 1: half = m / 2; while(ln > 0) { l_rem(ln - 1); if(ln <= half) { l_check(); half = ln / 2; } else l_some(); } l_app(); l_check(); break;
    case 2: while(ln > 3) { l_remr(ln / 4, ln / 2); l_check(); } while(ln < m / 3 + 8) l_app(); l_check(); break;
    case 3: k = m / 16 + 1; while(ln >= k) { l_remr(0, k); l_check(); } l_ins(0); l_check(); break;
    case 4: l_remr(0, m - 1); l_check(); while(ln < m) l_app(); l_check(); l_remr(1, m - 1); l_check(); l_remr(0, 1); l_check(); while(ln < 40) l_ins(0); l_check(); break;
    }
    value_fini(&v); MC_ASSERT(mc_live_blocks() == 0, "leak"); mc_count_trace(1);
}
static void desc_l(uint64_t c, char* b, size_t z) { snprintf(b, z, "array of %zu items, history %d", edge_at(EA, c / 5), (int)(c % 5)); }
MC_SYS mc_systems[] = {
    { "C16", "array-items", 1, 70, 0, reset, n_ops, apply, canon, teardown, describe, 0, 0 },
    { "C16", "array-items-deep", 2, 260, 0, reset, n_ops, apply, canon, teardown, describe, 0, 0 },
    { "C16", "array-sequences", 1, 100, 5, reset, nn_ops, napply, ncanon, teardown, ndescribe, 0, 1 },
    { "C16", "array-sequences-deep", 2, 100, 6, reset, nn_ops, napply, ncanon, teardown, ndescribe, 45000000, 1 },
    { 0 }
};
MC_ENUM mc_enums[] = { { "C16", "array-large", 3, 0, cnt_l, run_l, desc_l, 1 }, { 0 } };
