/* C05 exact map, C06 cleanup and memory failure: HTABLE. */
#include "mc.h"
#include "dataarg.h"
#include "htable.h"
#include <sanitizer/asan_interface.h>

#define MAXK 1100
typedef struct { uint32_t key; char pad[12]; HTABLE_NODE hn; uint32_t guard; char tail[24]; } NODE;   /* not the first member */
static NODE* pool;                       /* one object per key; poisoned while the caller does not "own" it any more */
static NODE probe_obj, dup_obj;
static HTABLE t; static int K, hashfn, bulk, classes;
static int order[MAXK], n;               /* keys present, in insertion order */
static char present[MAXK]; static int dtor_seen[MAXK]; static int dtor_total;
static unsigned long n_cmp;

static uint32_t H(uint32_t k)
{
    switch(hashfn) {
    case 0: return k;
    case 1: return 0x9E3779B9u;                         /* constant */
    case 2: return k & 1;
    case 3: return k * 59u;                             /* all in one slot of any prime-sized first level */
    case 4: return 0xFFFFFFFFu - k;                     /* extreme values */
    case 5: return k * 2654435761u;
    case 6: return 0x80000000u + k / 3;
    case 7: return (k % 3 == 0) ? 0 : (k % 3 == 1) ? 0x7FFFFFFFu : 0xFFFFFFFFu;
    case 8: return k % 118u;
    }
    return 0;
}
static uint32_t hash_func(const HTABLE_NODE* p) { return H(HTABLE_DATA(p, NODE, hn)->key); }
static int cmp_func(const HTABLE_NODE* a, const HTABLE_NODE* b)
{
    const NODE* x = HTABLE_DATA(a, NODE, hn); const NODE* y = HTABLE_DATA(b, NODE, hn);
    n_cmp++;
    /* "non-zero" is all the contract says about different nodes */
    return x->key == y->key ? 0 : ((x->key + y->key) & 1) ? (int)0x80000000 : 1 << 20;
}
static NODE* own(int k) { NODE* x = &pool[k]; ASAN_UNPOISON_MEMORY_REGION(x, sizeof *x); memset(x, 0x5A, sizeof *x); x->key = k; x->guard = ~k; return x; }
static void disown(int k) { ASAN_UNPOISON_MEMORY_REGION(&pool[k], sizeof(NODE)); memset(&pool[k], 0xDD, sizeof(NODE)); ASAN_POISON_MEMORY_REGION(&pool[k], sizeof(NODE)); }
static const HTABLE_NODE* key_of(int k) { memset(&probe_obj, 0x5A, sizeof probe_obj); probe_obj.key = k; return &probe_obj.hn; }
static void dtor(HTABLE_NODE* p)
{
    NODE* x = HTABLE_DATA(p, NODE, hn); long k = x - pool;
    MC_ASSERT(k >= 0 && k < K && x == &pool[k], "destructor called with a foreign pointer");
    MC_ASSERT(present[k] && !dtor_seen[k], "destructor called %s (key %ld)", dtor_seen[k] ? "twice for a node" : "for a node not in the table", k);
    dtor_seen[k] = 1; dtor_total++;
    disown(k);      /* destroyed: must not be touched any more */
}
static void add_model(int k) { present[k] = 1; order[n++] = k; }
static void del_model(int k) { int i; for(i = 0; order[i] != k; i++) ; memmove(order + i, order + i + 1, (n - i - 1) * sizeof(int)); n--; present[k] = 0; }

static void check_all(const char* when)
{
    int k;
    MC_ASSERT(!htable_is_empty(&t) == (n > 0), "%s: htable_is_empty() is wrong with %d nodes", when, n);
    for(k = 0; k < K; k++) {
        HTABLE_NODE* p = htable_lookup(&t, key_of(k), cmp_func, hash_func);
        MC_ASSERT(p == (present[k] ? &pool[k].hn : NULL), "%s: lookup of %s key %d among %d found %s", when, present[k] ? "present" : "absent", k, n, p ? "another node" : "nothing");
        if(p) MC_ASSERT(htable_lookup(&t, p, cmp_func, hash_func) == p, "%s: lookup of key %d by the node itself does not find it", when, k);
        if(p) MC_ASSERT(pool[k].key == (uint32_t)k && pool[k].guard == ~(uint32_t)k, "%s: data of node %d were modified", when, k);
    }
}

static int ins(int k, int unsafe, int plan)      /* 1 inserted, 0 refused */
{
    NODE* y = own(k); int rc, fired;
    mc_fail_plan(plan);
    rc = unsafe ? htable_insert_unsafe(&t, &y->hn, cmp_func, hash_func) : htable_insert(&t, &y->hn, cmp_func, hash_func);
    fired = mc_fail_fired();
    mc_fail_plan(0);
    MC_ASSERT(rc == 0 || rc == -1, "insertion returned %d", rc);
    if(rc == 0) { add_model(k); return 1; }
    disown(k);
    MC_ASSERT(fired, "insertion of absent key %d failed though no allocation was refused", k);
    return 0;
}
static void rem_by(int k, int plan, const HTABLE_NODE* key)
{
    HTABLE_NODE* p;
    mc_fail_plan(plan);
    p = htable_remove(&t, key, cmp_func, hash_func);
    mc_fail_plan(0);
    if(present[k]) {
        MC_ASSERT(p == &pool[k].hn, "removal of present key %d among %d returned %s", k, n, p ? "another node" : "nothing");
        del_model(k); disown(k);
    } else MC_ASSERT(p == NULL, "removal of absent key %d among %d returned a node", k, n);
}
static void rem(int k, int plan) { rem_by(k, plan, key_of(k)); }
static void dup(int k, int plan)
{
    int rc;
    memset(&dup_obj, 0x5A, sizeof dup_obj); dup_obj.key = k;
    mc_fail_plan(plan);
    rc = htable_insert(&t, &dup_obj.hn, cmp_func, hash_func);
    mc_fail_plan(0);
    MC_ASSERT(rc == -1, "insertion of the already present key %d returned %d", k, rc);
    mc_fail_plan(plan);
    rc = htable_insert(&t, &pool[k].hn, cmp_func, hash_func);   /* the very node is equal to itself */
    mc_fail_plan(0);
    MC_ASSERT(rc == -1, "insertion of a node which already is in the table (key %d) returned %d", k, rc);
}
static void fini(int with_dtor)
{
    int i;
    memset(dtor_seen, 0, sizeof dtor_seen); dtor_total = 0;
    htable_fini(&t, with_dtor ? dtor : NULL);
    MC_ASSERT(dtor_total == (with_dtor ? n : 0), "finalizing a table of %d nodes called the destructor %d times", n, dtor_total);
    MC_ASSERT(mc_live_blocks() == 0, "%zu blocks leaked by htable_fini()", mc_live_blocks());
    for(i = 0; i < n; i++) { present[order[i]] = 0; if(!with_dtor) disown(order[i]); }
    n = 0;
}

/* ---- small universe: every sequence of single operations */
static const int plans[] = { 0, 1, -1, 2 };
#define NP 4
static void reset(void)
{
    int i;
    classes = 0; K = mc_arg % 10000; hashfn = mc_arg / 10000 % 10; bulk = mc_arg / 100000;
    if(!pool) pool = mc_xcalloc(MAXK, sizeof *pool);
    n = 0; memset(present, 0, sizeof present);
    for(i = 0; i < K; i++) disown(i);
    if(K & 1) { HTABLE z = HTABLE_INITIALIZER; t = z; } else { memset(&t, 0x5A, sizeof t); htable_init(&t); }
}
enum { S_INS, S_UNSAFE, S_DUP, S_REM, S_REM_SELF, S_N };
static int n_ops_small(void) { return K * S_N * NP + 2; }
static int apply_small(int op)
{
    int k, what, p;
    if(op >= K * S_N * NP) { fini(op - K * S_N * NP); htable_init(&t); return 1; }
    p = plans[op % NP]; what = op / NP % S_N; k = op / NP / S_N;
    switch(what) {
    case S_INS: if(present[k]) return 0; ins(k, 0, p); break;
    case S_UNSAFE: if(present[k]) return 0; ins(k, 1, p); break;
    case S_DUP: if(!present[k] || p > 1) return 0; dup(k, p); break;
    case S_REM: if(p > 1) return 0; rem(k, p); break;
    case S_REM_SELF: if(!present[k] || p > 1) return 0; rem_by(k, p, &pool[k].hn); break;
    }
    return 1;
}
static void describe_small(int op, char* b, size_t sz)
{
    int k, what, p;
    if(op >= K * S_N * NP) { snprintf(b, sz, "fini(%s), init", op > K * S_N * NP ? "dtor" : "NULL"); return; }
    p = plans[op % NP]; what = op / NP % S_N; k = op / NP / S_N;
    snprintf(b, sz, "%s key %d (hash %u)%s", what == S_INS ? "insert" : what == S_UNSAFE ? "insert_unsafe" : what == S_DUP ? "insert a duplicate of" : what == S_REM ? "remove" : "remove, by the very node,", k, H(k),
             p == 0 ? "" : p > 0 ? p == 1 ? ", 1st allocation fails" : ", 2nd allocation fails" : ", all allocations fail");
}

/* ---- equal nodes, added by insert_unsafe: any of them may be found or removed, but none is lost, returned twice or left over */
static uint32_t hash_class(const HTABLE_NODE* p) { return H(HTABLE_DATA(p, NODE, hn)->key % classes); }
static int cmp_class(const HTABLE_NODE* a, const HTABLE_NODE* b) { return HTABLE_DATA(a, NODE, hn)->key % classes != HTABLE_DATA(b, NODE, hn)->key % classes; }
static int any_of(int c) { int k; for(k = c; k < K; k += classes) if(present[k]) return 1; return 0; }
static long member(HTABLE_NODE* p, int c)
{
    NODE* x = HTABLE_DATA(p, NODE, hn); long k = x - pool;
    MC_ASSERT(k >= 0 && k < K && x == &pool[k] && k % classes == c && present[k], "a node which is not in the table, or of another key, is returned for key %d", c);
    return k;
}
static void check_eq(const char* when)
{
    int c; HTABLE_NODE* p;
    MC_ASSERT(!htable_is_empty(&t) == (n > 0), "%s: htable_is_empty() is wrong with %d nodes", when, n);
    for(c = 0; c < classes; c++) {
        p = htable_lookup(&t, key_of(c), cmp_class, hash_class);
        MC_ASSERT((p != NULL) == any_of(c), "%s: lookup of key %d, of which there are%s nodes, found %s", when, c, any_of(c) ? "" : " no", p ? "a node" : "nothing");
        if(p) member(p, c);
    }
}
static void reset_eq(void) { reset(); classes = bulk; }
static int n_ops_eq(void) { return K * 4 + classes * 2 + 2; }
static int apply_eq(int op)
{
    HTABLE_NODE* p; NODE* y; int rc, k, c, plan, what;
    if(op >= K * 4 + classes * 2) { fini(op - K * 4 - classes * 2); htable_init(&t); return 1; }
    if(op >= K * 4) {
        c = (op - K * 4) % classes; plan = op - K * 4 >= classes ? -1 : 0;
        mc_fail_plan(plan); p = htable_remove(&t, key_of(c), cmp_class, hash_class); mc_fail_plan(0);
        MC_ASSERT((p != NULL) == any_of(c), "removal of key %d, of which there are%s nodes, returned %s", c, any_of(c) ? "" : " no", p ? "a node" : "nothing");
        if(p) { k = member(p, c); del_model(k); disown(k); }
        return 1;
    }
    k = op / 4; what = op % 4; plan = what >= 2 ? -1 : 0;
    if(present[k]) return 0;
    y = own(k); mc_fail_plan(plan);
    rc = what & 1 ? htable_insert(&t, &y->hn, cmp_class, hash_class) : htable_insert_unsafe(&t, &y->hn, cmp_class, hash_class);
    { int fired = mc_fail_fired(); mc_fail_plan(0);
      if((what & 1) && any_of(k % classes)) MC_ASSERT(rc == -1, "insertion of an already present key returned %d", rc);
      else MC_ASSERT(rc == 0 || (rc == -1 && fired), "insertion returned %d", rc); }
    if(rc == 0) add_model(k); else disown(k);
    return 1;
}
static void describe_eq(int op, char* b, size_t z)
{
    if(op >= K * 4 + classes * 2) snprintf(b, z, "fini(%s), init", op > K * 4 + classes * 2 ? "dtor" : "NULL");
    else if(op >= K * 4) snprintf(b, z, "remove a node of key %d%s", (op - K * 4) % classes, op - K * 4 >= classes ? ", all allocations fail" : "");
    else snprintf(b, z, "%s node %d of key %d%s", op & 1 ? "insert" : "insert_unsafe", op / 4, op / 4 % classes, (op & 2) ? ", all allocations fail" : "");
}

static const int eqn[] = { 16, 46, 61, 105, 120, 180, 420 }; static const int eqc[] = { 1, 2, 3, 7, 59, 100 };
static uint64_t cnt_eqb(void) { return 7 * 6 * 9 * 3; }
static void run_eqb(uint64_t i)
{
    int N = eqn[i % 7], c = eqc[i / 7 % 6], ord = i / 378, k, d; HTABLE_NODE* p;
    mc_alloc_begin(); mc_arg = N + (i / 42 % 9) * 10000; reset(); classes = c;
    for(k = 0; k < N; k++) { NODE* y = own(k); MC_ASSERT(htable_insert_unsafe(&t, &y->hn, cmp_class, hash_class) == 0, "insertion failed"); add_model(k); if(k < 3 || k % 16 == 0) check_eq("while filling"); }
    check_eq("when full");
    if(ord == 2) { fini(1); return; }
    for(k = 0; k < N; k++) {
        d = ord ? k % c : k * c / N; while(!any_of(d)) d = (d + 1) % c;
        p = htable_remove(&t, key_of(d), cmp_class, hash_class);
        MC_ASSERT(p, "removal of key %d, of which there are nodes, returned nothing", d);
        { int m = member(p, d); del_model(m); disown(m); }
        if(n < 3 || n % 16 == 0) check_eq("while draining");
    }
    fini(1);
    mc_count_calls(2 * N); mc_count_trace(1);
}
static void describe_eqb(uint64_t i, char* b, size_t z) { snprintf(b, z, "%d nodes of %d keys, hash function %d, %s", eqn[i % 7], eqc[i / 7 % 6], (int)(i / 42 % 9), i / 378 == 0 ? "removed key by key" : i / 378 == 1 ? "removed in turn" : "finalized"); }
/* ---- bulk moves between populations around every resize threshold */
static const int targets_q[] = { 0, 1, 2, 13, 14, 15, 16, 43, 44, 45, 46, 58, 59, 60, 61, 102, 103, 104, 105, 118, 119, 176, 177, 178, 179, 300, 412, 413, 414, 415 };
static const int targets_t[] = { 0, 1, 2, 13, 14, 15, 16, 43, 44, 45, 46, 58, 59, 60, 61, 102, 103, 104, 105, 118, 119, 176, 177, 178, 179, 219, 220, 221, 222, 300, 412, 413, 414, 415, 700, 884, 885, 886, 887, 1000 };
static const int* targets; static int n_targets;
enum { B_GROW, B_GROW_UNSAFE, B_GROW_OOM, B_SHRINK_NEWEST, B_SHRINK_OLDEST, B_SHRINK_ALTERNATE, B_N };
enum { X_FINI0, X_FINI1, X_INS_P1, X_INS_P2, X_INS_PALL, X_REM_PALL, X_DUP, X_REM_ABSENT, X_N };
static void reset_bulk(void)
{
    reset();
    targets = bulk ? targets_t : targets_q;
    n_targets = bulk ? sizeof targets_t / sizeof *targets_t : sizeof targets_q / sizeof *targets_q;
}
static int n_ops_bulk(void) { return n_targets * B_N + X_N; }
static int lowest_absent(void) { int k; for(k = 0; k < K; k++) if(!present[k]) return k; return -1; }
static int apply_bulk(int op)
{
    int target, k, i;
    if(op >= n_targets * B_N) {
        op -= n_targets * B_N; k = lowest_absent();
        switch(op) {
        case X_FINI0: case X_FINI1: fini(op - X_FINI0); htable_init(&t); break;
        case X_INS_P1: if(k < 0) return 0; ins(k, 0, 1); break;
        case X_INS_P2: if(k < 0) return 0; ins(k, 0, 2); break;
        case X_INS_PALL: if(k < 0) return 0; ins(k, 1, -1); break;
        case X_REM_PALL: if(n == 0) return 0; rem(order[n / 2], -1); break;
        case X_DUP: if(n == 0) return 0; dup(order[0], 0); dup(order[n / 2], -1); dup(order[n - 1], 0); break;
        case X_REM_ABSENT: if(k < 0) return 0; rem(k, 0); rem(K - 1, 0); break;
        }
        return 1;
    }
    target = targets[op / B_N];
    switch(op % B_N) {
    case B_GROW: case B_GROW_UNSAFE: case B_GROW_OOM:
        if(target <= n || target > K) return 0;
        while(n < target) if(!ins(lowest_absent(), op % B_N == B_GROW_UNSAFE, op % B_N == B_GROW_OOM ? -1 : 0)) break;
        break;
    case B_SHRINK_NEWEST: if(target >= n) return 0; while(n > target) rem(order[n - 1], 0); break;
    case B_SHRINK_OLDEST: if(target >= n) return 0; while(n > target) rem(order[0], 0); break;
    case B_SHRINK_ALTERNATE: if(target >= n) return 0; i = 0; while(n > target) { if(i >= n) i = 0; rem(order[i], 0); i++; } break;
    }
    return 1;
}
static void describe_bulk(int op, char* b, size_t sz)
{
    static const char* bn[] = { "insert up to", "insert_unsafe up to", "insert, all allocations failing, up to", "remove newest down to", "remove oldest down to", "remove alternating down to" };
    static const char* xn[] = { "fini(NULL), init", "fini(dtor), init", "insert one, 1st allocation fails", "insert one, 2nd allocation fails", "insert_unsafe one, all allocations fail", "remove one, all allocations fail", "insert duplicates", "remove absent keys" };
    if(op >= n_targets * B_N) snprintf(b, sz, "%s", xn[op - n_targets * B_N]);
    else snprintf(b, sz, "%s %d nodes", bn[op % B_N], targets[op / B_N]);
}
/* Representation-agnostic state: model, links between nodes, and every live block with node pointers replaced by key
 * numbers and all other pointers left out (blocks taken by size). */
static int in_pool(const char* w) { return w >= (char*)pool && w < (char*)(pool + K); }
static void canon(MC_HASH* h)
{
    size_t nb = mc_live_blocks(), i, j, sz; void* b; struct { size_t n; char** p; } bl[64], x;
    if(classes) check_eq("afterwards"); else check_all("afterwards");
    mc_hash_u64(h, n);
    for(i = 0; i < (size_t)n; i++) {
        char* w = (char*)pool[order[i]].hn.next;
        mc_hash_u64(h, order[i]);
        mc_hash_u64(h, in_pool(w) ? 1000 + (w - (char*)pool) / sizeof(NODE) : 0);
    }
    if(nb > 64) nb = 64;
    for(i = 0; i < nb; i++) { mc_block_at(i, &b, &sz); bl[i].n = sz; bl[i].p = b; }
    for(i = 1; i < nb; i++) for(j = i; j > 0 && bl[j-1].n > bl[j].n; j--) { x = bl[j]; bl[j] = bl[j-1]; bl[j-1] = x; }
    for(i = 0; i < nb; i++) {
        mc_hash_u64(h, 0xB10C0000u + bl[i].n);
        for(j = 0; j < bl[i].n / sizeof(char*); j++) {
            char* w = bl[i].p[j];
            if(w == NULL) continue;
            if(in_pool(w)) { mc_hash_u64(h, j); mc_hash_u64(h, 1000 + (w - (char*)pool) / sizeof(NODE)); }
        }
    }
    for(j = 0; j < sizeof t / sizeof(char*); j++) {
        uint64_t w; memcpy(&w, (char*)&t + 8 * j, 8);
        mc_hash_u64(h, mc_block_of((void*)(uintptr_t)w, &b, &sz) ? 1 : (w & 0xffffffffu) < 65536 ? (w & 0xffffffffu) : 2);
    }
}
static void teardown(void)
{
    fini((n ^ hashfn) & 1);
}
#define S(p, nm, q, k, f) { p, nm, q, (f) * 10000 + (k), 0, reset, n_ops_small, apply_small, canon, teardown, describe_small, 0, 0 }
#define B(p, nm, q, k, f, d) { p, nm, q, ((q) == 2 ? 100000 : 0) + (f) * 10000 + (k), d, reset_bulk, n_ops_bulk, apply_bulk, canon, teardown, describe_bulk, 0, 0 }
#define BOTH "C05 C06"
#define EQ(nm, q, k, f, c, d) { BOTH, nm, q, (c) * 100000 + (f) * 10000 + (k), d, reset_eq, n_ops_eq, apply_eq, canon, teardown, describe_eq, 0, 0 }
MC_SYS mc_systems[] = {
    S(BOTH, "htable-identity-5", 1, 5, 0), S(BOTH, "htable-constant-5", 1, 5, 1), S(BOTH, "htable-parity-6", 1, 6, 2), S(BOTH, "htable-x59-5", 1, 5, 3), S(BOTH, "htable-high-5", 1, 5, 4), S(BOTH, "htable-thirds-6", 1, 6, 7),
    S(BOTH, "htable-identity-7", 2, 7, 0), S(BOTH, "htable-constant-7", 2, 7, 1), S(BOTH, "htable-parity-8", 2, 8, 2), S(BOTH, "htable-x59-7", 2, 7, 3), S(BOTH, "htable-high-7", 2, 7, 4), S(BOTH, "htable-thirds-8", 2, 8, 7),
    EQ("htable-equal-nodes-1", 1, 5, 0, 1, 0), EQ("htable-equal-nodes-2", 1, 5, 0, 2, 0), EQ("htable-equal-nodes-3", 1, 5, 3, 3, 0),
    EQ("htable-equal-nodes-1-deep", 2, 7, 0, 1, 0), EQ("htable-equal-nodes-2-deep", 2, 7, 0, 2, 0), EQ("htable-equal-nodes-3-deep", 2, 7, 3, 3, 0),
    { BOTH, "htable-nomerge", 3, 7 * 10000 + 3, 4, reset, n_ops_small, apply_small, canon, teardown, describe_small, 0, 1 },
    B(BOTH, "htable-bulk-identity", 1, 420, 0, 3), B(BOTH, "htable-bulk-constant", 1, 200, 1, 3), B(BOTH, "htable-bulk-high", 1, 420, 4, 3), B(BOTH, "htable-bulk-mul", 1, 420, 5, 3), B(BOTH, "htable-bulk-x59", 1, 420, 3, 2), B(BOTH, "htable-bulk-clustered", 1, 420, 6, 3), B(BOTH, "htable-bulk-mod118", 1, 420, 8, 3),
    B(BOTH, "htable-bulk-identity-deep", 2, 1003, 0, 4), B(BOTH, "htable-bulk-constant-deep", 2, 420, 1, 4), B(BOTH, "htable-bulk-high-deep", 2, 1003, 4, 4), B(BOTH, "htable-bulk-mul-deep", 2, 1003, 5, 4), B(BOTH, "htable-bulk-x59-deep", 2, 420, 3, 4), B(BOTH, "htable-bulk-clustered-deep", 2, 1003, 6, 4), B(BOTH, "htable-bulk-mod118-deep", 2, 1003, 8, 4),
    { 0 }
};
/* ---- large tables: many levels of growth, each history with exact answers for every key */
static const int lg_n[] = { 500, 1000, 2000, 4000, 8000, 17000, 33000, 66000, 132000, 270000, 2200000 };
static NODE* lp; static int lg_cnt; static long lg_dt; static int lg_fam;
static uint32_t LH(uint32_t k) { switch(lg_fam) { case 0: return k; case 1: return 0xFFFFFFFFu - k; case 2: return k * 2654435761u; case 3: return k << 12; case 4: return k / 5; default: return k % 7 ? k : 0x80000000u; } }
static uint32_t lhash(const HTABLE_NODE* p) { static unsigned b; if((++b & 0xffff) == 0) mc_beat(); return LH(HTABLE_DATA(p, NODE, hn)->key); }
static int lcmp(const HTABLE_NODE* a, const HTABLE_NODE* b) { uint32_t x = HTABLE_DATA(a, NODE, hn)->key, y = HTABLE_DATA(b, NODE, hn)->key; return x < y ? -1 : x > y; }
static void l_own(int k) { NODE* x = &lp[k]; memset(x, 0x5A, sizeof *x); x->key = k; x->guard = 1; }
static void l_ins(int k, int plan)
{
    int rc, f; l_own(k); mc_fail_plan(plan);
    rc = htable_insert(&t, &lp[k].hn, lcmp, lhash); f = mc_fail_fired(); mc_fail_plan(0);
    if(rc != 0 && f) { lp[k].guard = 0; return; }
    MC_ASSERT(rc == 0, "insertion of absent key %d among %d failed", k, n); n++;
}
static void l_rem(int k, int plan)
{
    HTABLE_NODE* p; int in = lp[k].guard == 1; mc_fail_plan(plan); p = htable_remove(&t, key_of(k), lcmp, lhash); mc_fail_plan(0);
    MC_ASSERT(p == (in ? &lp[k].hn : NULL), "removal of %s key %d among %d returned %s", in ? "present" : "absent", k, n, p ? "another node" : "nothing");
    if(in) { n--; memset(&lp[k], 0xDD, sizeof lp[k]); lp[k].guard = 0; lp[k].key = k; }
}
static void l_all(int m, const char* when) { int k; for(k = 0; k < m; k++) { HTABLE_NODE* p = htable_lookup(&t, key_of(k), lcmp, lhash); MC_ASSERT(p == (lp[k].guard == 1 ? &lp[k].hn : NULL), "%s: lookup of %s key %d among %d found %s", when, lp[k].guard == 1 ? "present" : "absent", k, n, p ? "another node" : "nothing"); } MC_ASSERT(!htable_is_empty(&t) == (n > 0), "%s: htable_is_empty() is wrong with %d nodes", when, n); mc_beat(); }
static void l_dtor(HTABLE_NODE* p) { NODE* x = HTABLE_DATA(p, NODE, hn); long k = x - lp; MC_ASSERT(k >= 0 && k < lg_cnt && x == &lp[k] && x->guard == 1, "destructor called for a node not in the table or twice"); memset(x, 0xDD, sizeof *x); x->guard = 0; lg_dt++; }
#define LG_HIST 6
static uint64_t cnt_lg(void) { return (mc_thorough ? 11 : 9) * 6 * LG_HIST; }
static void run_lg(uint64_t c)
{
    int m = lg_n[c / 6 / LG_HIST], how = c % LG_HIST, k, mark = 256; lg_fam = c / LG_HIST % 6;
    if((lg_fam == 5 && m > 17000) || (lg_fam == 3 && m > 66000)) return;                 /* long chains */
    if(lg_cnt < m) { if(lp) mc_xfree(lp); lp = mc_xcalloc(m, sizeof *lp); lg_cnt = m; }
    mc_alloc_begin(); htable_init(&t); n = 0; for(k = 0; k < m; k++) { lp[k].guard = 0; lp[k].key = k; }
    if(how == 5) { /* growing fails now and then */ for(k = 0; k < m; k++) { l_ins(k, k % 3 ? 0 : -1 - k / 3 % 2); if(n == mark) { mark *= 2; l_all(m, "while growing, sometimes without memory"); } } }
    else for(k = 0; k < m; k++) { l_ins(k, 0); if(n == mark) { mark *= 2; l_all(m, "while growing"); } }
    l_all(m, "after growing");
    for(k = 0; k < m; k += 1 + m / 300) if(lp[k].guard == 1) { memset(&dup_obj, 0x5A, sizeof dup_obj); dup_obj.key = k; MC_ASSERT(htable_insert(&t, &dup_obj.hn, lcmp, lhash) == -1, "a second node for key %d is accepted", k); }
    mark = n / 2;
    switch(how) {
    case 0: for(k = 0; k < m; k++) { l_rem(k, 0); if(n <= mark) { mark = n / 2; l_all(m, "while removing the oldest"); } } break;
    case 1: for(k = m; k-- > 0; ) { l_rem(k, 0); if(n <= mark) { mark = n / 2; l_all(m, "while removing the newest"); } } break;
    case 2: { int s = 1; while(s < m) s *= 2; for(; s >= 1; s /= 2) for(k = s - 1; k < m; k += 2 * s) { l_rem(k, 0); if(n <= mark) { mark = n / 2; l_all(m, "while removing scattered ones"); } } break; }
    case 3: { int r; for(r = 0; r < 3; r++) { for(k = r; k < m - m / 8; k++) l_rem(k, 0); l_all(m, "after shrinking"); for(k = 0; k < m; k++) if(!lp[k].guard) l_ins(k, 0); l_all(m, "after growing again"); } break; }
    case 4: for(k = 0; k < m; k += 2) l_rem(k, 0); l_all(m, "after removing every other"); break;
    case 5: for(k = 0; k < m; k++) { l_rem(k, k % 2 ? -1 : 0); if(n <= mark) { mark = n / 2; l_all(m, "while shrinking without memory"); } } break;
    }
    lg_dt = 0; k = n; htable_fini(&t, c % 2 ? l_dtor : NULL);
    if(c % 2) { MC_ASSERT(lg_dt == k, "finalizing a table of %d nodes called the destructor %ld times", k, lg_dt); }
    MC_ASSERT(mc_live_blocks() == 0, "%zu blocks leaked by htable_fini()", mc_live_blocks());
    n = 0; mc_count_calls(4 * m); mc_count_trace(1);
}
static void describe_lg(uint64_t c, char* b, size_t z) { snprintf(b, z, "%d nodes, hash family %d, history %d", lg_n[c / 6 / LG_HIST], (int)(c / LG_HIST % 6), (int)(c % LG_HIST)); }
/* ---- comparer, hash function and destructor use another table */
#define NI 70
typedef struct { HTABLE_NODE hn; int key; } INODE;
static HTABLE in_t; static INODE in_n[NI]; static char in_here[NI]; static int in_mode, in_step, in_who, in_cnt;
static uint32_t in_hash(const HTABLE_NODE* a) { uint32_t k = HTABLE_DATA(a, INODE, hn)->key; return k % 5 ? k * 2654435761u : k; }
static int in_cmp(const HTABLE_NODE* a, const HTABLE_NODE* b) { return HTABLE_DATA(a, INODE, hn)->key != HTABLE_DATA(b, INODE, hn)->key; }
static HTABLE_NODE* in_find(int k) { INODE key; key.key = k; return htable_lookup(&in_t, &key.hn, in_cmp, in_hash); }
static void in_check(void) { int k; for(k = 0; k < NI; k++) MC_ASSERT(in_find(k) == (in_here[k] ? &in_n[k].hn : NULL), "the table used by the callback is damaged at key %d", k); }
static void in_toggle(int k) { INODE key; key.key = k; if(in_here[k]) { MC_ASSERT(htable_remove(&in_t, &key.hn, in_cmp, in_hash) == &in_n[k].hn, "removal within a callback"); in_here[k] = 0; } else { memset(&in_n[k], 0x5A, sizeof in_n[k]); in_n[k].key = k; MC_ASSERT(htable_insert(&in_t, &in_n[k].hn, in_cmp, in_hash) == 0, "insertion within a callback"); in_here[k] = 1; } }
static void in_dtor(HTABLE_NODE* p) { INODE* x = HTABLE_DATA(p, INODE, hn); MC_ASSERT(x >= in_n && x < in_n + NI && in_here[x - in_n], "a wrong node is destroyed within a callback"); in_here[x - in_n] = 0; in_cnt++; memset(x, 0xDD, sizeof *x); }
static void in_act(int who)
{
    int s, k, c;
    if(!(in_who >> who & 1)) return;
    s = in_step++;
    switch(in_mode) {
    case 0: k = s % NI; MC_ASSERT(in_find(k) == (in_here[k] ? &in_n[k].hn : NULL), "lookup within a callback"); break;
    case 1: in_toggle(s * 3 % NI); break;
    case 2: for(k = 0; k < NI; k++) if(in_here[k] == (s & 1)) in_toggle(k); break;      /* grows and shrinks */
    default: if(s & 1) for(k = 0; k < NI; k++) { if(!in_here[k]) in_toggle(k); } else { for(k = c = 0; k < NI; k++) c += in_here[k]; in_cnt = 0; htable_fini(&in_t, in_dtor); MC_ASSERT(in_cnt == c, "%d of %d nodes destroyed within a callback", in_cnt, c); htable_init(&in_t); } break;
    }
}
static uint32_t out_hash(const HTABLE_NODE* p) { in_act(0); return hash_func(p); }
static int out_cmp(const HTABLE_NODE* a, const HTABLE_NODE* b) { in_act(1); return cmp_func(a, b); }
static void out_dtor(HTABLE_NODE* p) { in_act(2); dtor(p); }
static const int nest_fn[] = { 0, 1, 2, 5 };
static uint64_t cnt_nest(void) { return 4 * 4 * 7 * (mc_thorough ? 4 : 2); }
static void run_nest(uint64_t c)
{
    int i, k, j; static const int szs[] = { 130, 9, 60, 420 };
    hashfn = nest_fn[c % 4]; in_mode = c / 4 % 4; in_who = 1 + c / 16 % 7; K = szs[c / 112]; if(hashfn && hashfn != 5 && K > 130) K = 130; in_step = 0;
    mc_alloc_begin(); if(!pool) pool = mc_xmalloc(sizeof(NODE) * MAXK); n = 0; memset(present, 0, sizeof present); memset(dtor_seen, 0, sizeof dtor_seen); dtor_total = 0; htable_init(&in_t); memset(in_here, 0, sizeof in_here); for(k = 0; k < 30; k++) in_toggle(k * 2);
    for(k = 0; k < K; k++) disown(k);
    htable_init(&t);
    for(i = 0; i < 2 * K + K / 2; i++) {
        if(i < K) { NODE* y; k = i * 7 % K; if(K % 7 == 0) k = i; y = own(k); MC_ASSERT((i % 3 ? htable_insert : htable_insert_unsafe)(&t, &y->hn, out_cmp, out_hash) == 0, "insertion of key %d failed", k); add_model(k); MC_ASSERT(htable_insert(&t, (void*) key_of(k), out_cmp, out_hash) != 0, "an equal key is taken"); }
        else if(i < 2 * K) { k = K - 1 - (i - K); MC_ASSERT(htable_lookup(&t, key_of(k), out_cmp, out_hash) == &pool[k].hn, "lookup of key %d", k); if(k % 4) { MC_ASSERT(htable_remove(&t, key_of(k), out_cmp, out_hash) == &pool[k].hn, "removal of key %d", k); del_model(k); disown(k); } }
        else if(i == 2 * K) break;
        if(i < 12 || i % 16 == 0 || i >= 2 * K - 12) { for(j = 0; j < K; j++) MC_ASSERT(htable_lookup(&t, key_of(j), cmp_func, hash_func) == (present[j] ? &pool[j].hn : NULL), "key %d is %s after step %d", j, present[j] ? "lost" : "still there", i); in_check(); }
    }
    j = n; htable_fini(&t, out_dtor); MC_ASSERT(dtor_total == j, "%d of %d nodes destroyed", dtor_total, j); in_check();
    htable_fini(&in_t, NULL); MC_ASSERT(mc_live_blocks() == 0, "leak"); for(k = 0; k < K; k++) ASAN_UNPOISON_MEMORY_REGION(&pool[k], sizeof(NODE)); n = 0;
    mc_count_calls(6 * K); mc_count_trace(1);
}
static void desc_nest(uint64_t c, char* b, size_t z) { static const char* w[] = { "look up in", "update", "fill and empty", "finalize" }; snprintf(b, z, "callbacks (%s%s%s) %s another table; hash function %d", (1 + c / 16 % 7) & 1 ? "hash " : "", (1 + c / 16 % 7) & 2 ? "comparer " : "", (1 + c / 16 % 7) & 4 ? "destructor" : "", w[c / 4 % 4], nest_fn[c % 4]); }
OFFS_USE(htable)
DATA_UNIT(dh, HTABLE_DATA, HTABLE_NODE)
MC_ENUM mc_enums[] = { { "C05", "htable-data", 3, 0, dhcnt, dhrun, dhdesc, 64 }, { "C05", "htable-data-units", 3, 0, htable_ocnt, htable_orun, htable_odesc, 64 }, { BOTH, "htable-nested", 3, 0, cnt_nest, run_nest, desc_nest, 4 }, { BOTH, "htable-large", 3, 0, cnt_lg, run_lg, describe_lg, 1 }, { BOTH, "htable-equal-nodes-many", 3, 0, cnt_eqb, run_eqb, describe_eqb, 4 }, { 0 } };
