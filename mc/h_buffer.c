/* C01, C02: BUFFER; C03: STACK; C04: ARRAY_* . */
#include "mc.h"
#include "buffer.h"

/* ---------------------------------------------------------------- operation table
 * Built once per unit; an entry is turned into concrete arguments (offset, length) in the current state by resolve(). */
typedef struct { int kind; size_t off, n, x; int plan; } OP;
typedef struct { short kind, osel, nk, plan; size_t nval, x; } ENT;
#define MAXOPS 8192
static ENT tabl[MAXOPS]; static int nops, tab_arg = -1;
#define ARRN(a) ((int)(sizeof(a)/sizeof((a)[0])))
enum { N_CONST, N_ADD, N_REM, N_REALLOC, N_HUGE, N_ALL, N_POP, N_AREM };    /* how nval gives the length */
static void ent(int kind, int osel, int nk, size_t nval, size_t x, int plan)
{
    ENT* e = &tabl[nops++];
    if(nops > MAXOPS) mc_fail("harness: too many ops");
    e->kind = kind; e->osel = osel; e->nk = nk; e->nval = nval; e->x = x; e->plan = plan;
}
static size_t smax;
static int osel(int k, size_t s, size_t* out)   /* offset selectors; 0 if disabled or same as an earlier one */
{
    size_t c[5]; int j; c[0] = 0; c[1] = 1; c[2] = s / 2; c[3] = s ? s - 1 : 0; c[4] = s;
    if(c[k] > s) return 0;
    for(j = 0; j < k; j++) if(c[j] == c[k]) return 0;
    *out = c[k]; return 1;
}
#define N_REM_SEL 14
#define N_REALLOC_SEL 14
#define N_HUGE_SEL 23
#define N_AREM_SEL 10
static int pick(const size_t* c, int k, size_t* out) { int j; for(j = 0; j < k; j++) if(c[j] == c[k]) return 0; *out = c[k]; return 1; }
static int resolve(int o, size_t s, OP* op)
{
    const ENT* e = &tabl[o]; size_t off = s, n = e->nval;
    if(e->osel >= 0 && !osel(e->osel, s, &off)) return 0;
    switch(e->nk) {
    case N_CONST: break;
    case N_ADD: if(s + n > smax) return 0; break;
    case N_POP: if(n > s) return 0; break;
    case N_ALL: n = s; if(s == 0) return 0; break;
    case N_REM: { size_t r = s - off; size_t c[N_REM_SEL] = { 0, 1, 2, r / 4, r / 2, r - r / 4, r ? r - 1 : 0, r, r + 1, r + 100, SIZE_MAX - off, SIZE_MAX - off + (off ? 1 : 0), SIZE_MAX / 2 + 1, SIZE_MAX }; if(!pick(c, n, &n)) return 0; break; }
    case N_AREM: { size_t r = s - off; size_t c[N_AREM_SEL] = { 0, 1, 2, r / 4, r / 2, r - r / 4, r ? r - 1 : 0, r, r + 1, r + 40 }; if(!pick(c, n, &n)) return 0; break; }
    case N_REALLOC: { size_t c[N_REALLOC_SEL] = { 0, 1, s ? s - 1 : 0, s, s + 1, s + 2, 7, 8, s / 2, 16, 20, 2 * s, 4 * s, 5 * s }; if(!pick(c, n, &n) || n > smax) return 0; break; }
    case N_HUGE: { size_t c[N_HUGE_SEL] = { SIZE_MAX, SIZE_MAX - 1, SIZE_MAX - 15, SIZE_MAX - 16, SIZE_MAX - 31, SIZE_MAX - 32, SIZE_MAX - 33, SIZE_MAX - s, SIZE_MAX - s + (s ? 1 : 0), SIZE_MAX - s - 1, SIZE_MAX - s - 31, SIZE_MAX - s - 32, SIZE_MAX - s - 33,
                       SIZE_MAX / 2, SIZE_MAX / 2 + 1, SIZE_MAX / 2 + 2, SIZE_MAX / 2 - s, SIZE_MAX / 2 - 31, SIZE_MAX / 2 - 32, SIZE_MAX / 2 - 33, SIZE_MAX / 4 * 3, (size_t)1 << 62, (size_t)1 << 40 }; if(!pick(c, n, &n)) return 0; break; }
    }
    op->kind = e->kind; op->off = off; op->n = n; op->x = e->x; op->plan = e->plan;
    return 1;
}

/* ---------------------------------------------------------------- the model: ideal byte sequences */
#define CAP 10000
typedef struct { unsigned char d[CAP]; size_t n; } SEQ;
static SEQ m[2]; static BUFFER b[2];
static unsigned ctr;
static unsigned char nextb(void) { ctr++; return (unsigned char)(ctr * 151u + (ctr >> 8) * 29u + (ctr % 7 == 0 ? -(ctr * 151u + (ctr >> 8) * 29u) : 0)); }
static unsigned char tmp[CAP];
static void gen(size_t n) { size_t i; for(i = 0; i < n; i++) tmp[i] = nextb(); }
static void seq_insert(SEQ* s, size_t off, const unsigned char* p, size_t n) { memmove(s->d + off + n, s->d + off, s->n - off); memcpy(s->d + off, p, n); s->n += n; }
static void seq_remove(SEQ* s, size_t off, size_t n) { if(n > s->n - off) n = s->n - off; memmove(s->d + off, s->d + off + n, s->n - off - n); s->n -= n; }

enum { APPEND, APPEND_RAW, INSERT, INSERT_RAW, REMOVE, CLEAR, RESERVE, REALLOC, SHRINK, ACQUIRE, SWAP, RES_APP, HUGE_APPEND, HUGE_APPEND_RAW, HUGE_INSERT, HUGE_RESERVE, FINI_INIT, RES_KEEP, FREE_ACQ };
static const char* knames[] = { "append", "append_raw", "insert", "insert_raw", "remove", "clear", "reserve", "realloc", "shrink", "acquire", "swap", "reserve+appends", "append(huge)", "append_raw(huge)", "insert(huge)", "reserve(huge)", "fini+init", "reserve+others" };

static int fine, faults, two, policy;
static const size_t NS[] = { 0, 1, 2, 3, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 200, 255, 256, 257, 300, 480, 481, 512, 700, 992, 993 };
static void gen_ops(void)
{
    int i, k, p, P = faults ? 3 : 1; static const int plans[3] = { 0, 1, -1 };
    nops = 0;
    for(p = 0; p < P; p++) {
        int pl = plans[p];
        for(i = 0; i < ARRN(NS); i++) {
            size_t n = NS[i];
            if(!fine && n > 3 && (n & 1) && n < 255) continue;
            ent(APPEND, -1, N_ADD, n, 0, pl);
            if(!faults || n < 20) ent(APPEND_RAW, -1, N_ADD, n, 0, pl);
            for(k = 0; k < 5; k++) { ent(INSERT, k, N_ADD, n, 0, pl); if(n < 9 || n == 64) ent(INSERT_RAW, k, N_ADD, n, 0, pl); }
        }
        for(k = 0; k < 5; k++) for(i = 0; i < N_REM_SEL; i++) ent(REMOVE, k, N_REM, i, 0, pl);
        ent(CLEAR, -1, N_CONST, 0, 0, pl);
        if(!policy) ent(SHRINK, -1, N_CONST, 0, 0, pl);
        for(i = 0; i < ARRN(NS); i++) if(NS[i] <= smax && (fine || i % 3 == 0 || faults)) ent(RESERVE, -1, N_CONST, NS[i], 0, pl);
        for(i = 0; i < (fine ? N_REALLOC_SEL : policy ? 0 : 4); i++) ent(REALLOC, -1, N_REALLOC, i, 0, pl);
    }
    ent(ACQUIRE, -1, N_CONST, 0, 0, 0); ent(ACQUIRE, -1, N_CONST, 0, 1, 0);
    ent(FINI_INIT, -1, N_CONST, 0, 0, 0);
    if(two) ent(SWAP, -1, N_CONST, 0, 0, 0);
    if(faults) {
        for(i = 0; i < N_HUGE_SEL; i++) {
            ent(HUGE_RESERVE, -1, N_HUGE, i, 0, 0); ent(HUGE_APPEND_RAW, -1, N_HUGE, i, 0, 0); ent(HUGE_APPEND, -1, N_HUGE, i, 0, 0);
            for(k = 0; k < 5; k++) ent(HUGE_INSERT, k, N_HUGE, i, 0, 0);
        }
        for(i = 0; i < ARRN(NS); i++) {
            size_t n = NS[i];
            ent(RES_APP, -1, N_ADD, n, 0, 0); if(n > 1) ent(RES_APP, -1, N_ADD, n, 1, 0); if(n > 3) ent(RES_APP, -1, N_ADD, n, n / 2, 0);
            ent(RES_APP, -1, N_ADD, n, SIZE_MAX, 0);
            for(k = 0; k < 8; k++) ent(RES_KEEP, -1, N_ADD, n, k, 0);
        }
    }
}

static void check_one(int i, const char* when)
{
    const unsigned char* p;
    MC_ASSERT(buffer_size(&b[i]) == m[i].n, "%s: size is %zu, expected %zu", when, buffer_size(&b[i]), m[i].n);
    MC_ASSERT(!buffer_is_empty(&b[i]) == (m[i].n != 0), "%s: is_empty wrong at size %zu", when, m[i].n);
    if(m[i].n == 0) return;
    p = buffer_const_data(&b[i]);
    MC_ASSERT(p != NULL, "%s: data is NULL", when);
    MC_ASSERT(buffer_data(&b[i]) == (void*)p, "%s: data accessors disagree", when);
    MC_ASSERT(buffer_const_data_at(&b[i], m[i].n / 2) == p + m[i].n / 2 && buffer_data_at(&b[i], m[i].n) == p + m[i].n, "%s: data_at accessors wrong", when);
    { void* base; size_t sz; MC_ASSERT(mc_block_of(p, &base, &sz) && (size_t)(p - (unsigned char*)base) + m[i].n <= sz, "%s: contents are not inside a live allocation", when); }
    if(memcmp(p, m[i].d, m[i].n) != 0) {
        size_t k; for(k = 0; p[k] == m[i].d[k]; k++) ;
        mc_fail("%s: byte %zu of %zu is 0x%02x, expected 0x%02x", when, k, m[i].n, p[k], m[i].d[k]);
    }
}
static void check_all(const char* when) { check_one(0, when); if(two) check_one(1, when); }

static void reset(void)
{
    int a = mc_arg;
    ctr = 0; m[0].n = m[1].n = 0;
    two = 0; faults = 0; fine = 0; policy = 0;
    switch(a) {
        case 0: smax = 64; fine = 1; break;
        case 1: smax = 300; break;
        case 2: smax = 20; fine = 1; two = 1; break;
        case 3: smax = 160; fine = 1; faults = 1; break;
        case 4: smax = 200; fine = 1; break;
        case 5: smax = 1100; break;
        case 9: smax = 1060; policy = 1; break;
        case 10: smax = 8000; policy = 1; break;
        case 6: smax = 40; fine = 1; two = 1; break;
        case 7: smax = 600; fine = 0; faults = 1; policy = 1; break;
        case 8: smax = 40; fine = 1; faults = 1; break;
    }
    buffer_init(&b[0]);
    { BUFFER z = BUFFER_INITIALIZER; b[1] = z; }
    if(tab_arg != a) { gen_ops(); tab_arg = a; }
}
static int n_ops(void) { return nops; }
static int apply(int o)
{
    OP op; BUFFER* B = &b[0]; SEQ* M = &m[0]; int rc; void* p; const char* nm;
    int fired;
    if(!resolve(o, m[0].n, &op)) return 0;
    nm = knames[op.kind];
    mc_fail_plan(op.plan);
    switch(op.kind) {
    case APPEND: case INSERT:
        gen(op.n);
        rc = op.kind == APPEND ? buffer_append(B, tmp, op.n) : buffer_insert(B, op.off, tmp, op.n);
        fired = mc_fail_fired(); mc_fail_plan(0);
        MC_ASSERT(rc == 0 || rc == -1, "%s returned %d", nm, rc);
        MC_ASSERT(rc == 0 || fired, "%s of %zu bytes failed although memory is available", nm, op.n);
        if(rc == 0) seq_insert(M, op.off, tmp, op.n);
        break;
    case APPEND_RAW: case INSERT_RAW:
        gen(op.n);
        p = op.kind == APPEND_RAW ? buffer_append_raw(B, op.n) : buffer_insert_raw(B, op.off, op.n);
        fired = mc_fail_fired(); mc_fail_plan(0);
        MC_ASSERT(p != NULL || fired, "%s of %zu bytes failed although memory is available", nm, op.n);
        if(p) {
            if(op.n) MC_ASSERT(p == buffer_data_at(B, op.off), "%s returned a wrong address", nm);
            memcpy(p, tmp, op.n); seq_insert(M, op.off, tmp, op.n);
        }
        break;
    case REMOVE: buffer_remove(B, op.off, op.n); seq_remove(M, op.off, op.n); break;
    case CLEAR: buffer_clear(B); M->n = 0; mc_fail_plan(0); MC_CHECK("C02", mc_live_blocks() == 0 || two, "clearing the buffer did not release its memory"); break;
    case RESERVE: rc = buffer_reserve(B, op.n); fired = mc_fail_fired(); mc_fail_plan(0); MC_ASSERT(rc == 0 || (rc == -1 && fired), "reserve(%zu) returned %d", op.n, rc); break;
    case REALLOC:
        rc = buffer_realloc(B, op.n); fired = mc_fail_fired(); mc_fail_plan(0);
        MC_ASSERT(rc == 0 || (rc == -1 && fired), "realloc(%zu) returned %d", op.n, rc);
        if(rc == 0 && op.n < M->n) M->n = op.n;
        break;
    case SHRINK: buffer_shrink(B); break;
    case ACQUIRE: {
        size_t sz = 12345; unsigned char* d = buffer_acquire(B, op.x ? NULL : &sz);
        if(!op.x) MC_ASSERT(sz == M->n, "acquire reported size %zu, expected %zu", sz, M->n);
        MC_ASSERT(M->n == 0 || (d && memcmp(d, M->d, M->n) == 0), "acquire handed over wrong bytes");
        MC_ASSERT(buffer_is_empty(B) && buffer_size(B) == 0, "buffer not empty after acquire");
        { void* q = buffer_append_raw(B, 3); MC_ASSERT(q && q != d, "append after acquire failed"); memcpy(q, "abc", 3); MC_ASSERT(M->n == 0 || memcmp(d, M->d, M->n) == 0, "acquired block changed by later use of the buffer"); buffer_remove(B, 0, 3); }
        free(d);
        M->n = 0;
        MC_CHECK("C02", two || mc_live_blocks() == 0, "memory still held after acquire and free");
        break;
    }
    case SWAP: buffer_swap(&b[0], &b[0]); buffer_swap(&b[0], &b[1]); buffer_swap(&b[1], &b[1]); { static SEQ t; t = m[0]; m[0] = m[1]; m[1] = t; } break;
    case FINI_INIT: buffer_fini(B); MC_CHECK("C02", two || mc_live_blocks() == 0, "memory still held after fini"); buffer_init(B); M->n = 0; break;
    case RES_APP: {
        size_t k = op.x; /* first part */
        rc = buffer_reserve(B, op.n);
        MC_ASSERT(rc == 0, "reserve(%zu) failed although memory is available", op.n);
        mc_fail_plan(-1);
        gen(op.n);
        if(k == SIZE_MAX) {   /* byte by byte */
            size_t i; for(i = 0; i < op.n; i++) { MC_CHECK("C02", buffer_append(B, tmp + i, 1) == 0, "after reserve(%zu), append of byte %zu needed memory", op.n, i + 1); }
        } else {
            if(k) MC_CHECK("C02", buffer_append(B, tmp, k) == 0, "after reserve(%zu), append(%zu) needed memory", op.n, k);
            if(op.n - k) MC_CHECK("C02", buffer_append(B, tmp + k, op.n - k) == 0, "after reserve(%zu), appends of %zu and %zu needed memory", op.n, k, op.n - k);
        }
        mc_fail_plan(0);
        seq_insert(M, M->n, tmp, op.n);
        break;
    }
    case RES_KEEP: if(!mc_is("C02")) return 0; {    /* what comes between the reservation and its use does not take it back */
        static const char* what[] = { "reserve(0)", "reserve(half)", "reserve(one less)", "reserve(half) without memory", "insert(0, half)", "insert(1, half)", "a refused append", "a refused insert" };
        size_t h = 0, at = 0;
        rc = buffer_reserve(B, op.n); MC_ASSERT(rc == 0, "reserve(%zu) failed although memory is available", op.n);
        gen(op.n);
        switch(op.x) {
        case 0: rc = buffer_reserve(B, 0); break;
        case 1: rc = buffer_reserve(B, op.n / 2); break;
        case 2: rc = buffer_reserve(B, op.n ? op.n - 1 : 0); break;
        case 3: mc_fail_plan(-1); buffer_reserve(B, op.n / 2); rc = 0; break;
        case 4: case 5: mc_fail_plan(-1); h = op.n / 2; at = (op.x == 5 && M->n > 0); if(h) { rc = buffer_insert(B, at, tmp, h); if(rc == 0) seq_insert(M, at, tmp, h); } break;
        case 6: mc_fail_plan(-1); MC_ASSERT(buffer_append(B, tmp, SIZE_MAX - 3) == -1, "append(SIZE_MAX - 3) succeeded"); rc = 0; break;
        case 7: mc_fail_plan(-1); MC_ASSERT(buffer_insert_raw(B, M->n / 2, SIZE_MAX / 2) == NULL, "insert_raw(SIZE_MAX / 2) succeeded"); rc = 0; break;
        }
        MC_CHECK("C02", rc == 0, "after reserve(%zu), %s needed memory", op.n, what[op.x]);
        mc_fail_plan(-1);
        if(op.n - h) MC_CHECK("C02", buffer_append(B, tmp + h, op.n - h) == 0, "after reserve(%zu) and %s, append(%zu) needed memory", op.n, what[op.x], op.n - h);
        mc_fail_plan(0);
        seq_insert(M, M->n, tmp + h, op.n - h);
        break;
    }
    case HUGE_RESERVE: rc = buffer_reserve(B, op.n); MC_ASSERT(rc == -1, "reserve(%zu) at size %zu returned %d", op.n, M->n, rc); break;
    case HUGE_APPEND_RAW: p = buffer_append_raw(B, op.n); MC_ASSERT(p == NULL, "append_raw(%zu) at size %zu succeeded", op.n, M->n); break;
    case HUGE_APPEND: rc = buffer_append(B, tmp, op.n); MC_ASSERT(rc == -1, "append(%zu) at size %zu returned %d", op.n, M->n, rc); break;
    case HUGE_INSERT: p = buffer_insert_raw(B, op.off, op.n); MC_ASSERT(p == NULL, "insert_raw(%zu, %zu) at size %zu succeeded", op.off, op.n, M->n); break;
    }
    mc_fail_plan(0);
    check_all(nm);
    return 1;
}
static void canon(MC_HASH* h)
{
    MC_CANON c; memset(&c, 0, sizeof c); c.h = h;
    mc_hash_u64(h, m[0].n); mc_hash_u64(h, m[1].n);
    mc_canon(&c, &b[0], sizeof(BUFFER));
    if(two) mc_canon(&c, &b[1], sizeof(BUFFER));
}
static void teardown(void)
{
    buffer_fini(&b[0]);
    if(two) buffer_fini(&b[1]);
    MC_CHECK("C02", mc_live_blocks() == 0, "%zu blocks (%zu bytes) still held after fini", mc_live_blocks(), mc_live_bytes());
}
static void describe(int o, char* buf, size_t n) { OP op; if(resolve(o, m[0].n, &op)) snprintf(buf, n, "[size %zu] %s off=%zu n=%zu x=%zu plan=%d", m[0].n, knames[op.kind], op.off, op.n, op.x, op.plan); }

/* ---------------------------------------------------------------- STACK */

static STACK s[2];
enum { PUSH_I8, PUSH_U8, PUSH_I16, PUSH_U16, PUSH_I32, PUSH_U32, PUSH_I64, PUSH_U64, PUSH_PTR, PUSH_BLK, PUSH_RAW,
       POP_I8, POP_U8, POP_I16, POP_U16, POP_I32, POP_U32, POP_I64, POP_U64, POP_PTR, POP_BLK, POP_RAW,
       PEEK_ALL, S_CLEAR, S_RESERVE, S_ACQUIRE, S_SWAP };
static void s_gen_ops(void)
{
    int k; static const size_t blk[] = { 0, 1, 2, 3, 4, 5, 8, 11, 16, 24, 33, 64, 100 };
    static const size_t w[] = { 1, 1, 2, 2, 4, 4, 8, 8, 8 };
    nops = 0;
    for(k = 0; k < 9; k++) { ent(PUSH_I8 + k, -1, N_ADD, w[k], 0, 0); ent(POP_I8 + k, -1, N_POP, w[k], 0, 0); }
    for(k = 0; k < ARRN(blk); k++) {
        ent(PUSH_BLK, -1, N_ADD, blk[k], 0, 0); ent(PUSH_RAW, -1, N_ADD, blk[k], 0, 0);
        ent(POP_BLK, -1, N_POP, blk[k], 0, 0); ent(POP_RAW, -1, N_POP, blk[k], 0, 0);
    }
    ent(POP_BLK, -1, N_ALL, 0, 0, 0); ent(POP_RAW, -1, N_ALL, 0, 0, 0);
    ent(S_CLEAR, -1, N_CONST, 0, 0, 0); ent(S_RESERVE, -1, N_CONST, 5, 0, 0); ent(S_RESERVE, -1, N_CONST, smax, 0, 0); ent(S_ACQUIRE, -1, N_CONST, 0, 0, 0); ent(S_ACQUIRE, -1, N_CONST, 0, 1, 0);
    if(two) ent(S_SWAP, -1, N_CONST, 0, 0, 0);
}
static void s_reset(void)
{
    ctr = 0; m[0].n = m[1].n = 0; faults = 0; fine = 1;
    two = (mc_arg == 1 || mc_arg == 3);
    smax = mc_arg == 0 ? 140 : mc_arg == 1 ? 24 : mc_arg == 2 ? 560 : 48;
    stack_init(&s[0]); { STACK z = STACK_INITIALIZER; s[1] = z; }
    if(tab_arg != 100 + mc_arg) { s_gen_ops(); tab_arg = 100 + mc_arg; }
}
#define TOP(M, T) ({ T t_; memcpy(&t_, (M)->d + (M)->n - sizeof(T), sizeof(T)); t_; })
static void s_check(const char* when)
{
    int i; SEQ* M;
    for(i = 0; i <= two; i++) {
        STACK* st = &s[i]; M = &m[i];
        MC_ASSERT(stack_size(st) == M->n, "%s: stack size is %zu, expected %zu", when, stack_size(st), M->n);
        MC_ASSERT(!stack_is_empty(st) == (M->n != 0), "%s: is_empty wrong", when);
        if(M->n == 0) continue;
        MC_ASSERT(memcmp(stack_const_data(st), M->d, M->n) == 0, "%s: stack contents wrong (size %zu)", when, M->n);
        MC_ASSERT(stack_data(st) == stack_const_data(st), "%s: data accessors disagree", when);
        /* all typed peeks */
        if(M->n >= 1) MC_ASSERT(stack_peek_int8(st) == TOP(M, int8_t) && stack_peek_uint8(st) == TOP(M, uint8_t), "%s: 8-bit peek wrong", when);
        if(M->n >= 2) MC_ASSERT(stack_peek_int16(st) == TOP(M, int16_t) && stack_peek_uint16(st) == TOP(M, uint16_t), "%s: 16-bit peek wrong", when);
        if(M->n >= 4) MC_ASSERT(stack_peek_int32(st) == TOP(M, int32_t) && stack_peek_uint32(st) == TOP(M, uint32_t), "%s: 32-bit peek wrong", when);
        if(M->n >= 8) MC_ASSERT(stack_peek_int64(st) == TOP(M, int64_t) && stack_peek_uint64(st) == TOP(M, uint64_t) && stack_peek_ptr(st) == TOP(M, void*), "%s: 64-bit or pointer peek wrong", when);
        { size_t k[] = { 1, 3, M->n / 2, M->n }; int j; for(j = 0; j < 4; j++) if(k[j] && k[j] <= M->n) {
            unsigned char out[CAP];
            stack_peek(st, out, k[j]);
            MC_ASSERT(memcmp(out, M->d + M->n - k[j], k[j]) == 0, "%s: peek of %zu bytes wrong", when, k[j]);
            MC_ASSERT(memcmp(stack_peek_raw(st, k[j]), M->d + M->n - k[j], k[j]) == 0, "%s: raw peek of %zu bytes wrong", when, k[j]);
        } }
        MC_ASSERT(stack_size(st) == M->n, "%s: peek changed the size", when);
    }
}
static int s_apply(int o)
{
    OP op; STACK* S0 = &s[0]; SEQ* M = &m[0]; int rc = 0; static unsigned char out[CAP];
    if(!resolve(o, m[0].n, &op)) return 0;
    #define PUSH(fn, T) do { T v_; gen(sizeof(T)); memcpy(&v_, tmp, sizeof(T)); rc = fn(S0, v_); seq_insert(M, M->n, tmp, sizeof(T)); } while(0)
    #define POP(fn, T) do { T v_ = fn(S0); T e_ = TOP(M, T); M->n -= sizeof(T); MC_ASSERT(v_ == e_, #fn " returned %llx, expected %llx", (unsigned long long)(uintptr_t)v_, (unsigned long long)(uintptr_t)e_); } while(0)
    switch(op.kind) {
    case PUSH_I8: PUSH(stack_push_int8, int8_t); break;
    case PUSH_U8: PUSH(stack_push_uint8, uint8_t); break;
    case PUSH_I16: PUSH(stack_push_int16, int16_t); break;
    case PUSH_U16: PUSH(stack_push_uint16, uint16_t); break;
    case PUSH_I32: PUSH(stack_push_int32, int32_t); break;
    case PUSH_U32: PUSH(stack_push_uint32, uint32_t); break;
    case PUSH_I64: PUSH(stack_push_int64, int64_t); break;
    case PUSH_U64: PUSH(stack_push_uint64, uint64_t); break;
    case PUSH_PTR: PUSH(stack_push_ptr, void*); break;
    case PUSH_BLK: gen(op.n); rc = stack_push(S0, tmp, op.n); seq_insert(M, M->n, tmp, op.n); break;
    case PUSH_RAW: { void* p; gen(op.n); p = stack_push_raw(S0, op.n); if(p) memcpy(p, tmp, op.n); else rc = -1; seq_insert(M, M->n, tmp, op.n); break; }
    case POP_I8: POP(stack_pop_int8, int8_t); break;
    case POP_U8: POP(stack_pop_uint8, uint8_t); break;
    case POP_I16: POP(stack_pop_int16, int16_t); break;
    case POP_U16: POP(stack_pop_uint16, uint16_t); break;
    case POP_I32: POP(stack_pop_int32, int32_t); break;
    case POP_U32: POP(stack_pop_uint32, uint32_t); break;
    case POP_I64: POP(stack_pop_int64, int64_t); break;
    case POP_U64: POP(stack_pop_uint64, uint64_t); break;
    case POP_PTR: POP(stack_pop_ptr, void*); break;
    case POP_BLK: if(op.n == 0 && M->n == 0) return 0;
                  stack_pop(S0, out, op.n); M->n -= op.n; MC_ASSERT(memcmp(out, M->d + M->n, op.n) == 0, "pop of %zu bytes returned wrong bytes", op.n); break;
    case POP_RAW: { void* p; if(op.n == 0) return 0; p = stack_pop_raw(S0, op.n); M->n -= op.n; MC_ASSERT(memcmp(p, M->d + M->n, op.n) == 0, "pop_raw of %zu bytes gave wrong bytes", op.n); break; }
    case S_CLEAR: stack_clear(S0); M->n = 0; break;
    case S_RESERVE: rc = stack_reserve(S0, op.n); break;
    case S_ACQUIRE: {
        size_t sz = 777; unsigned char* d = stack_acquire(S0, op.x ? NULL : &sz);
        if(!op.x) MC_ASSERT(sz == M->n, "acquire reported size %zu, expected %zu", sz, M->n);
        MC_ASSERT(M->n == 0 || memcmp(d, M->d, M->n) == 0, "acquire handed over wrong bytes");
        free(d); M->n = 0; break;
    }
    case S_SWAP: stack_swap(&s[1], &s[1]); stack_swap(&s[0], &s[1]); stack_swap(&s[0], &s[0]); { static SEQ t; t = m[0]; m[0] = m[1]; m[1] = t; } break;
    }
    MC_ASSERT(rc == 0, "stack operation %d of %zu bytes failed", op.kind, op.n);
    s_check("after stack operation");
    return 1;
}
static void s_canon(MC_HASH* h)
{
    MC_CANON c; memset(&c, 0, sizeof c); c.h = h;
    mc_hash_u64(h, m[0].n); mc_hash_u64(h, m[1].n);
    mc_canon(&c, &s[0], sizeof(STACK)); if(two) mc_canon(&c, &s[1], sizeof(STACK));
}
static void s_teardown(void) { stack_fini(&s[0]); if(two) stack_fini(&s[1]); }
static const char* snames[] = { "push_int8", "push_uint8", "push_int16", "push_uint16", "push_int32", "push_uint32", "push_int64", "push_uint64", "push_ptr", "push", "push_raw",
    "pop_int8", "pop_uint8", "pop_int16", "pop_uint16", "pop_int32", "pop_uint32", "pop_int64", "pop_uint64", "pop_ptr", "pop", "pop_raw", "peek", "clear", "reserve", "acquire", "swap" };
static void s_describe(int o, char* buf, size_t n) { OP op; if(resolve(o, m[0].n, &op)) snprintf(buf, n, "[size %zu] %s n=%zu", m[0].n, snames[op.kind], op.n); }

/* ---------------------------------------------------------------- ARRAY_T */

enum { A_APPEND, A_APPEND_RAW, A_APPEND_N, A_INSERT, A_INSERT_RAW, A_INSERT_N, A_SET, A_REMOVE, A_REMOVE_N, A_ACQUIRE, A_FINI };
static void a_gen_ops(void)
{
    int k, i; static const size_t ns[] = { 0, 1, 2, 3, 5, 8, 16, 31, 32, 33, 60, 64, 65 };
    nops = 0;
    ent(A_APPEND, -1, N_ADD, 1, 0, 0); ent(A_APPEND_RAW, -1, N_ADD, 1, 0, 0);
    for(i = 0; i < ARRN(ns); i++) ent(A_APPEND_N, -1, N_ADD, ns[i], 0, 0);
    for(k = 0; k < 5; k++) {
        ent(A_INSERT, k, N_ADD, 1, 0, 0); ent(A_INSERT_RAW, k, N_ADD, 1, 0, 0);
        for(i = 0; i < ARRN(ns); i++) if(ns[i] < 4 || ns[i] == 16) ent(A_INSERT_N, k, N_ADD, ns[i], 0, 0);
        ent(A_SET, k, N_CONST, 1, 0, 0); ent(A_REMOVE, k, N_CONST, 1, 0, 0);
        for(i = 0; i < N_AREM_SEL; i++) ent(A_REMOVE_N, k, N_AREM, i, 0, 0);
    }
    ent(A_ACQUIRE, -1, N_CONST, 0, 0, 0); ent(A_ACQUIRE, -1, N_CONST, 0, 1, 0); ent(A_FINI, -1, N_CONST, 0, 0, 0);
}
static const char* anames[] = { "append", "append_raw", "append_n", "insert", "insert_raw", "insert_n_raw", "set", "remove", "remove_n", "acquire", "fini+init" };
static unsigned actr;
/* values walk through the extremes of the type first, then through distinct patterns */
static uint64_t a_val(void)
{
    static const uint64_t ex[] = { 0, UINT64_MAX, 1, 0x80, 0x7f, 0x8000, 0x7fff, 0x80000000u, 0x7fffffffu, 0x8000000000000000ull, 0x7fffffffffffffffull };
    unsigned k = actr++;
    return (k % 3 == 0) ? ex[(k / 3) % ARRN(ex)] : (k * 0x9E3779B97F4A7C15ull) ^ (k << 3);
}
#define ARRAY_HARNESS(NAME, T, CAST)                                                                                    \
static ARRAY_##NAME ar_##NAME; static T mo_##NAME[600]; static size_t mn_##NAME;                                        \
static void ar_check_##NAME(const char* when)                                                                           \
{                                                                                                                       \
    size_t i;                                                                                                           \
    MC_ASSERT(array_##NAME##_size(&ar_##NAME) == mn_##NAME, "%s: array_" #NAME "_size is %zu, expected %zu", when, array_##NAME##_size(&ar_##NAME), mn_##NAME);  \
    MC_ASSERT(!array_##NAME##_is_empty(&ar_##NAME) == (mn_##NAME != 0), "%s: array_" #NAME "_is_empty wrong", when);      \
    if(mn_##NAME) MC_ASSERT(array_##NAME##_data(&ar_##NAME) == array_##NAME##_const_data(&ar_##NAME), "%s: data accessors disagree", when);  \
    for(i = 0; i < mn_##NAME; i++) {                                                                                    \
        MC_ASSERT(array_##NAME##_get(&ar_##NAME, i) == mo_##NAME[i], "%s: array_" #NAME " item %zu of %zu is 0x%llx, expected 0x%llx", when, i, mn_##NAME, (unsigned long long)(uintptr_t)array_##NAME##_get(&ar_##NAME, i), (unsigned long long)(uintptr_t)mo_##NAME[i]);  \
        MC_ASSERT(array_##NAME##_data(&ar_##NAME)[i] == mo_##NAME[i], "%s: array_" #NAME "_data item %zu wrong", when, i);  \
    }                                                                                                                   \
}                                                                                                                       \
static void ar_reset_##NAME(void)                                                                                       \
{                                                                                                                       \
    actr = 0; mn_##NAME = 0; smax = mc_arg;                                                                             \
    if(smax & 1) { ARRAY_##NAME z = ARRAY_##NAME##_INITIALIZER; ar_##NAME = z; } else array_##NAME##_init(&ar_##NAME);    \
    if(tab_arg != 300) { a_gen_ops(); tab_arg = 300; }                                                                  \
}                                                                                                                       \
static int ar_apply_##NAME(int o)                                                                                       \
{                                                                                                                       \
    OP op; size_t i; int rc = 0; T v; ARRAY_##NAME* A = &ar_##NAME; T* M = mo_##NAME; int raw = 0;              \
    if(!resolve(o, mn_##NAME, &op)) return 0;                                                                            \
    if((op.kind == A_SET || op.kind == A_REMOVE) && op.off >= mn_##NAME) return 0;                                        \
    if(op.kind <= A_INSERT_N) {                                                                                         \
        memmove(M + op.off + op.n, M + op.off, (mn_##NAME - op.off) * sizeof(T)); mn_##NAME += op.n;                    \
        for(i = 0; i < op.n; i++) M[op.off + i] = (T)(CAST) a_val();                                                    \
    }                                                                                                                   \
    switch(op.kind) {                                                                                                   \
    case A_APPEND: rc = array_##NAME##_append(A, M[op.off]); break;                                                     \
    case A_APPEND_RAW: rc = array_##NAME##_append_raw(A); raw = 1; break;                                               \
    case A_APPEND_N: rc = array_##NAME##_append_n(A, op.n); raw = 1; break;                                             \
    case A_INSERT: rc = array_##NAME##_insert((void*)A, op.off, M[op.off]); break;                                      \
    case A_INSERT_RAW: rc = array_##NAME##_insert_raw((void*)A, op.off); raw = 1; break;                                \
    case A_INSERT_N: rc = array_##NAME##_insert_n_raw((void*)A, op.off, op.n); raw = 1; break;                          \
    case A_SET: v = (T)(CAST) a_val(); array_##NAME##_set(A, op.off, v); M[op.off] = v; break;                          \
    case A_REMOVE: array_##NAME##_remove(A, op.off); op.n = 1; /* fall through */                                       \
    case A_REMOVE_N:                                                                                                    \
        if(op.kind == A_REMOVE_N) array_##NAME##_remove_n(A, op.off, op.n);                                             \
        if(op.n > mn_##NAME - op.off) op.n = mn_##NAME - op.off;                                                        \
        memmove(M + op.off, M + op.off + op.n, (mn_##NAME - op.off - op.n) * sizeof(T)); mn_##NAME -= op.n; break;      \
    case A_ACQUIRE: {                                                                                                   \
        size_t sz = 4242; T* d = array_##NAME##_acquire(A, op.x ? NULL : &sz);                                          \
        if(!op.x) MC_ASSERT(sz == mn_##NAME, "array_" #NAME "_acquire reported %zu items, expected %zu", sz, mn_##NAME); \
        MC_ASSERT(mn_##NAME == 0 || memcmp(d, M, mn_##NAME * sizeof(T)) == 0, "array_" #NAME "_acquire handed over wrong items"); \
        free(d); mn_##NAME = 0; break; }                                                                                \
    case A_FINI: array_##NAME##_fini(A); array_##NAME##_init(A); mn_##NAME = 0;                                         \
        MC_ASSERT(mc_live_blocks() == 0, "array_" #NAME "_fini leaks"); break;                                          \
    }                                                                                                                   \
    MC_ASSERT(rc == 0, "array_" #NAME " operation %d (index %zu, count %zu) failed", op.kind, op.off, op.n);            \
    if(raw) {                                                                                                           \
        MC_ASSERT(array_##NAME##_size(A) == mn_##NAME, "array_" #NAME "_size is %zu after adding %zu at %zu, expected %zu", array_##NAME##_size(A), op.n, op.off, mn_##NAME);  \
        for(i = 0; i < mn_##NAME; i++) if(i < op.off || i >= op.off + op.n) MC_ASSERT(array_##NAME##_get(A, i) == M[i], "array_" #NAME ": item %zu disturbed by uninitialised insert of %zu at %zu", i, op.n, op.off);  \
        for(i = 0; i < op.n; i++) array_##NAME##_set(A, op.off + i, M[op.off + i]);                                     \
    }                                                                                                                   \
    ar_check_##NAME("after array operation");                                                                           \
    return 1;                                                                                                           \
}                                                                                                                       \
static void ar_canon_##NAME(MC_HASH* h)                                                                                 \
{                                                                                                                       \
    MC_CANON c; memset(&c, 0, sizeof c); c.h = h; mc_hash_u64(h, mn_##NAME);                                            \
    mc_canon(&c, &ar_##NAME, sizeof(ar_##NAME));                                                                        \
}                                                                                                                       \
static void ar_teardown_##NAME(void) { array_##NAME##_fini(&ar_##NAME); MC_ASSERT(mc_live_blocks() == 0, "array_" #NAME "_fini leaks"); }  \
static void ar_describe_##NAME(int o, char* buf, size_t n) { OP op; if(resolve(o, mn_##NAME, &op)) snprintf(buf, n, "[count %zu] " #NAME " %s index=%zu n=%zu", mn_##NAME, anames[op.kind], op.off, op.n); }

ARRAY_HARNESS(int8, int8_t, uint8_t)
ARRAY_HARNESS(uint8, uint8_t, uint8_t)
ARRAY_HARNESS(int16, int16_t, uint16_t)
ARRAY_HARNESS(uint16, uint16_t, uint16_t)
ARRAY_HARNESS(int32, int32_t, uint32_t)
ARRAY_HARNESS(uint32, uint32_t, uint32_t)
ARRAY_HARNESS(int64, int64_t, uint64_t)
ARRAY_HARNESS(uint64, uint64_t, uint64_t)
ARRAY_HARNESS(ptr, void*, uintptr_t)

#define ARR(NAME, Q, TH) \
    { "C04", "array-" #NAME, 1, Q, 0, ar_reset_##NAME, n_ops, ar_apply_##NAME, ar_canon_##NAME, ar_teardown_##NAME, ar_describe_##NAME }, \
    { "C04", "array-" #NAME "-deep", 2, TH, 0, ar_reset_##NAME, n_ops, ar_apply_##NAME, ar_canon_##NAME, ar_teardown_##NAME, ar_describe_##NAME }, \
    { "C04", "array-" #NAME "-nomerge", 3, 3, 3, ar_reset_##NAME, n_ops, ar_apply_##NAME, ar_canon_##NAME, ar_teardown_##NAME, ar_describe_##NAME, 0, 1 }

MC_SYS mc_systems[] = {
    { "C01 C02", "buffer-fine", 1, 0, 0, reset, n_ops, apply, canon, teardown, describe },
    { "C01", "buffer-wide", 1, 1, 0, reset, n_ops, apply, canon, teardown, describe },
    { "C01", "buffer-policy", 1, 9, 0, reset, n_ops, apply, canon, teardown, describe },
    { "C01", "buffer-policy-deep", 2, 10, 0, reset, n_ops, apply, canon, teardown, describe },
    { "C01", "buffer-two", 1, 2, 0, reset, n_ops, apply, canon, teardown, describe },
    { "C02", "buffer-faults", 1, 3, 0, reset, n_ops, apply, canon, teardown, describe },
    { "C01 C02", "buffer-fine-deep", 2, 4, 0, reset, n_ops, apply, canon, teardown, describe },
    { "C01", "buffer-wide-deep", 2, 5, 0, reset, n_ops, apply, canon, teardown, describe },
    { "C01", "buffer-two-deep", 2, 6, 0, reset, n_ops, apply, canon, teardown, describe },
    { "C02", "buffer-faults-wide", 3, 7, 0, reset, n_ops, apply, canon, teardown, describe },
    { "C01 C02", "buffer-nomerge", 3, 8, 2, reset, n_ops, apply, canon, teardown, describe, 0, 1 },
    { "C03", "stack", 1, 0, 0, s_reset, n_ops, s_apply, s_canon, s_teardown, s_describe },
    { "C03", "stack-two", 1, 1, 0, s_reset, n_ops, s_apply, s_canon, s_teardown, s_describe },
    { "C03", "stack-deep", 2, 2, 0, s_reset, n_ops, s_apply, s_canon, s_teardown, s_describe },
    { "C03", "stack-two-deep", 2, 3, 0, s_reset, n_ops, s_apply, s_canon, s_teardown, s_describe },
    ARR(int8, 70, 300), ARR(uint8, 70, 300), ARR(int16, 71, 300), ARR(uint16, 70, 300), ARR(int32, 70, 300), ARR(uint32, 71, 300),
    ARR(int64, 70, 260), ARR(uint64, 71, 260), ARR(ptr, 70, 260),
    { 0 }
};
MC_ENUM mc_enums[] = { { 0 } };
