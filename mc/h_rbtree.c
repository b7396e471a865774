/* C09 ordered set, C10 balance, C11 cursors, C12 cleanup: RBTREE. */
#include "mc.h"
#include "dataarg.h"
#include "perm.h"
#include "rbtree.h"
#include <math.h>
#include <limits.h>

int rbtree_verify(RBTREE* tree) __attribute__((weak));

#define MAXN 64
typedef struct { int id; RBTREE_NODE rb; double rank; int seen; } NODE;
static RBTREE tree; static NODE* ord[MAXN]; static int n, N;
static unsigned long cmps;
static int cmp(const RBTREE_NODE* a, const RBTREE_NODE* b)
{
    double x = RBTREE_DATA(a, NODE, rb)->rank, y = RBTREE_DATA(b, NODE, rb)->rank;
    cmps++;
    /* the magnitude of the result is meaningless by contract: vary it */
    return x < y ? (cmps % 4 == 0 ? INT_MIN : -(int)(1 + cmps % 3)) : x > y ? (cmps % 3 == 0 ? INT_MAX : (int)(1 + cmps % 5 * 1000)) : 0;
}
static void rerank(void) { int i; for(i = 0; i < n; i++) ord[i]->rank = i; }
static NODE* new_node(double rank) { NODE* x = malloc(sizeof *x); memset(x, 0x5A, sizeof *x); x->rank = rank; return x; }
static int rank_of(const RBTREE_NODE* p) { int i; for(i = 0; i < n; i++) if(&ord[i]->rb == p) return i; return -1; }
static unsigned max_path(int k) { return (unsigned) floor(2.0 * log2(k + 1.0) + 1e-9); }

static void check_set(const char* when)
{
    RBTREE_CURSOR cur = RBTREE_CURSOR_INITIALIZER; RBTREE_NODE* p; int i; NODE key;
    MC_CHECK("C09", !rbtree_is_empty(&tree) == (n > 0), "%s: rbtree_is_empty() wrong with %d nodes", when, n);
    MC_CHECK("C12", !rbtree_is_empty(&tree) == (n > 0), "%s: rbtree_is_empty() wrong with %d nodes", when, n);
    if(mc_is("C09") || mc_is("C12")) {
        for(p = rbtree_head(&tree, &cur), i = 0; p != NULL; p = rbtree_next(&cur), i++) {
            MC_ASSERT(i < n, "%s: traversal longer than %d nodes", when, n);
            MC_ASSERT(p == &ord[i]->rb, "%s: traversal position %d of %d holds rank %d", when, i, n, rank_of(p));
        }
        MC_ASSERT(i == n, "%s: traversal ended after %d of %d nodes", when, i, n);
    }
    if(mc_is("C10") && rbtree_verify != NULL) MC_ASSERT(rbtree_verify(&tree) == 0, "%s: the tree with %d nodes breaks the red-black rules", when, n);
    for(i = 0; i < 2 * n + 1; i++) {
        key.rank = (i - 1) * 0.5;   /* even i: gaps, odd i: present */
        cmps = 0;
        p = rbtree_lookup(&tree, &key.rb, cmp);
        MC_CHECK("C10", cmps <= max_path(n), "%s: lookup in a tree of %d nodes made %lu comparisons", when, n, cmps);
        if(i & 1) MC_CHECK("C09", rbtree_lookup(&tree, &ord[i / 2]->rb, cmp) == &ord[i / 2]->rb, "%s: lookup of rank %d by the node itself does not find it", when, i / 2);
        MC_CHECK("C09", p == ((i & 1) ? &ord[i / 2]->rb : NULL), "%s: lookup of %s rank %.1f found rank %d", when, (i & 1) ? "present" : "absent", key.rank, p ? rank_of(p) : -1);
    }
}

/* ---- cursors */
static void cur_is(RBTREE_CURSOR* c, int pos, const char* what)
{
    RBTREE_NODE* p = rbtree_current(c);
    MC_ASSERT(p == (pos < 0 ? NULL : &ord[pos]->rb), "%s: the cursor is at rank %d, expected %d", what, p ? rank_of(p) : -1, pos);
}
static int cur_move(RBTREE_CURSOR* c, int pos, int dir)   /* returns the new position */
{
    RBTREE_NODE* p = dir > 0 ? rbtree_next(c) : rbtree_prev(c); int np = pos + dir;
    if(np < 0 || np >= n) {
        MC_ASSERT(p == NULL, "%s from rank %d of %d returned a node (rank %d)", dir > 0 ? "next" : "prev", pos, n, rank_of(p));
        cur_is(c, pos, dir > 0 ? "after next at the end" : "after prev at the beginning");
        return pos;
    }
    MC_ASSERT(p == &ord[np]->rb, "%s from rank %d of %d returned rank %d", dir > 0 ? "next" : "prev", pos, n, p ? rank_of(p) : -1);
    cur_is(c, np, "after a move");
    return np;
}
static int walk_depth; static uint64_t walks;
static void cur_explore(const RBTREE_CURSOR* c0, int pos, int depth)
{
    RBTREE_CURSOR c; int p;
    walks++;
    if(depth == 0) return;
    c = *c0; p = cur_move(&c, pos, +1); cur_explore(&c, p, depth - 1);
    c = *c0; p = cur_move(&c, pos, -1); cur_explore(&c, p, depth - 1);
}
static void sweep(const RBTREE_CURSOR* c0, int pos)
{
    RBTREE_CURSOR c = *c0; int i;
    for(i = 0; i < n + 2; i++) pos = cur_move(&c, pos, +1);
    for(i = 0; i < n + 2; i++) pos = cur_move(&c, pos, -1);
    for(i = 0; i < n / 2 + 1; i++) pos = cur_move(&c, pos, +1);
    for(i = 0; i < n + 2; i++) pos = cur_move(&c, pos, -1);
}
static void check_cursors(void)
{
    RBTREE_CURSOR c; RBTREE_NODE* p; int i; NODE key;
    memset(&c, 0xEE, sizeof c);
    p = rbtree_head(&tree, &c);
    if(n == 0) MC_ASSERT(p == NULL, "head of an empty tree is not NULL");
    else { MC_ASSERT(p == &ord[0]->rb, "head is rank %d", p ? rank_of(p) : -1); cur_is(&c, 0, "after head"); cur_explore(&c, 0, walk_depth); sweep(&c, 0); }
    memset(&c, 0xEE, sizeof c);
    p = rbtree_tail(&tree, &c);
    if(n == 0) MC_ASSERT(p == NULL, "tail of an empty tree is not NULL");
    else { MC_ASSERT(p == &ord[n-1]->rb, "tail is rank %d of %d", p ? rank_of(p) : -1, n); cur_is(&c, n - 1, "after tail"); cur_explore(&c, n - 1, walk_depth); sweep(&c, n - 1); }
    for(i = 0; i < 2 * n + 1; i++) {
        key.rank = (i - 1) * 0.5;
        memset(&c, 0xEE, sizeof c);
        p = rbtree_lookup_ex(&tree, &key.rb, cmp, &c);
        if(i & 1) {
            MC_ASSERT(p == &ord[i/2]->rb, "lookup_ex of rank %d found rank %d", i / 2, p ? rank_of(p) : -1);
            cur_is(&c, i / 2, "after lookup_ex"); memset(&c, 0xEE, sizeof c); MC_ASSERT(rbtree_lookup_ex(&tree, &ord[i/2]->rb, cmp, &c) == p, "lookup_ex of rank %d by the node itself does not find it", i / 2); cur_is(&c, i / 2, "after lookup_ex"); cur_explore(&c, i / 2, walk_depth); sweep(&c, i / 2);
        } else MC_ASSERT(p == NULL, "lookup_ex of an absent key found rank %d", rank_of(p));
    }
    { RBTREE_CURSOR e = RBTREE_CURSOR_INITIALIZER; MC_ASSERT(rbtree_current(&e) == NULL && rbtree_next(&e) == NULL && rbtree_prev(&e) == NULL, "cursor to nowhere does not return NULL"); }
}

/* ---- the transition system */
enum { INS, REM, DUP, REM_ABSENT, DUP_SELF, REM_SELF, N_KINDS };
static void reset(void)
{
    N = mc_arg % 100; walk_depth = mc_arg / 100; n = 0;
    if(N & 1) { RBTREE z = RBTREE_INITIALIZER; tree = z; } else { memset(&tree, 0x5A, sizeof tree); rbtree_init(&tree); }
}
static int n_ops(void) { return N_KINDS * (n + 1); }
static int final_op;
static int apply(int op)
{
    int k = op % N_KINDS, i = op / N_KINDS, rc; NODE* x; RBTREE_NODE* p; unsigned bound = max_path(n); NODE key;
    cmps = 0;
    switch(k) {
    case INS:
        if(n >= N || i > n) return 0;
        x = new_node(i - 0.5);
        rc = rbtree_insert(&tree, &x->rb, cmp);
        MC_CHECK("C10", cmps <= bound, "insertion into a tree of %d nodes made %lu comparisons", n, cmps);
        MC_CHECK("C09", rc == 0, "insertion of a new key returned %d", rc);
        if(rc != 0) { free(x); return 0; }
        memmove(ord + i + 1, ord + i, (n - i) * sizeof(*ord)); ord[i] = x; n++;
        rerank();
        break;
    case REM: case REM_SELF:    /* the key is a separate object or the very node */
        if(i >= n) return 0;
        key.rank = i;
        p = rbtree_remove(&tree, k == REM ? &key.rb : &ord[i]->rb, cmp);
        MC_CHECK("C10", cmps <= bound, "removal from a tree of %d nodes made %lu comparisons", n, cmps);
        MC_CHECK("C09", p == &ord[i]->rb, "removal of rank %d of %d returned rank %d", i, n, p ? rank_of(p) : -1);
        free(ord[i]);   /* the caller owns it again and destroys it */
        memmove(ord + i, ord + i + 1, (n - i - 1) * sizeof(*ord)); n--;
        rerank();
        break;
    case DUP:
        if(i >= n) return 0;
        x = new_node(i);
        rc = rbtree_insert(&tree, &x->rb, cmp);
        MC_CHECK("C09", rc == -1, "insertion of a duplicate key returned %d", rc);
        free(x);
        break;
    case DUP_SELF:      /* a node already in the tree is equal to itself */
        if(i >= n) return 0;
        rc = rbtree_insert(&tree, &ord[i]->rb, cmp);
        MC_CHECK("C09", rc == -1, "insertion of a node which already is in the tree returned %d", rc);
        break;
    case REM_ABSENT:
        if(i > n) return 0;
        key.rank = i - 0.5;
        p = rbtree_remove(&tree, &key.rb, cmp);
        MC_CHECK("C09", p == NULL, "removal of an absent key returned rank %d", rank_of(p));
        break;
    }
    final_op = op;
    return 1;
}
static void canon(MC_HASH* h)
{
    static MC_REGION r[MAXN]; int i; MC_CANON c;
    /* the engine computes the hash after the last operation of every history: run the (expensive) checks here */
    check_set(final_op % N_KINDS == INS ? "after insert" : final_op % N_KINDS == REM || final_op % N_KINDS == REM_SELF ? "after remove" : "after a refused operation");
    if(mc_is("C11")) check_cursors();
    for(i = 0; i < n; i++) { r[i].base = &ord[i]->rb; r[i].size = sizeof(RBTREE_NODE); r[i].label = 0; }
    memset(&c, 0, sizeof c); c.h = h; c.regions = r; c.n_regions = n;
    mc_hash_u64(h, n);
    mc_canon(&c, &tree, sizeof tree);
}
static void teardown(void)
{
    int i, k = 0;
    if(mc_is("C12")) {
        int total = n;
        for(i = 0; i < n; i++) ord[i]->seen = 0;
        for(;;) {
            RBTREE_NODE* p = rbtree_fini_step(&tree);
            if(p == NULL) break;
            k++;
            MC_ASSERT(k <= total, "cleanup of %d nodes delivered more of them", total);
            for(i = 0; i < n; i++) if(&ord[i]->rb == p) break;
            MC_ASSERT(i < n, "cleanup delivered a node twice or a foreign pointer");
            memset(ord[i], 0xDD, sizeof(NODE));
            free(ord[i]);
            ord[i] = ord[--n];
        }
        MC_ASSERT(n == 0, "cleanup of %d nodes delivered only %d of them", total, k);
        MC_ASSERT(rbtree_fini_step(&tree) == NULL, "cleanup step on the already cleaned tree delivered a node");
        MC_ASSERT(rbtree_is_empty(&tree), "tree is not empty after cleanup");
        check_set("after cleanup");
        for(i = 0; i < 3; i++) { NODE* x = new_node(i - 0.5); ord[n++] = x; rerank(); MC_ASSERT(rbtree_insert(&tree, &x->rb, cmp) == 0, "insertion after cleanup failed"); check_set("reuse after cleanup"); }
        while(n > 0) { NODE key; key.rank = 0; MC_ASSERT(rbtree_remove(&tree, &key.rb, cmp) == &ord[0]->rb, "removal after cleanup failed"); free(ord[0]); memmove(ord, ord + 1, (n - 1) * sizeof(*ord)); n--; rerank(); check_set("reuse after cleanup"); }
        MC_ASSERT(mc_live_blocks() == 0, "harness leak");
    } else {
        for(i = 0; i < n; i++) free(ord[i]);
    }
    if(mc_is("C11") && walks) { mc_count_extra(0, "cursor_states_visited", walks); walks = 0; }
}
static void describe(int op, char* b, size_t sz)
{
    int k = op % N_KINDS, i = op / N_KINDS;
    snprintf(b, sz, "%s %d of %d", k == REM_SELF ? "remove, by itself, the node of rank" : k == DUP_SELF ? "insert again the very node of rank" : k == INS ? "insert a new key as rank" : k == REM ? "remove rank" : k == DUP ? "insert a duplicate of rank" : "remove an absent key before rank", i, n);
}
#define U(p, nm, q, a) { p, nm, q, a, 0, reset, n_ops, apply, canon, teardown, describe, 0, 0 }
MC_SYS mc_systems[] = {
    U("C09 C10", "rbtree-16", 1, 16), U("C09 C10", "rbtree-22", 2, 22),
    U("C11", "rbtree-cursor-10", 1, 610), U("C11", "rbtree-cursor-sweeps-14", 1, 214), U("C11", "rbtree-cursor-13", 2, 813), U("C11", "rbtree-cursor-sweeps-18", 2, 318),
    U("C12", "rbtree-cleanup-14", 1, 14), U("C12", "rbtree-cleanup-13", 1, 13), U("C12", "rbtree-cleanup-19", 2, 19),
    { "C09 C10 C12", "rbtree-nomerge", 3, 6, 5, reset, n_ops, apply, canon, teardown, describe, 0, 1 },
    { 0 }
};

/* ---- large trees: all pairs of (insertion order, removal order) */
#define BIGN 300000
static const int bsz[] = { 40, 63, 64, 100, 127, 128, 255, 256, 511, 1000, 2047, 4096, 20000, 70000, BIGN };
static NODE* big; static char* here; static int present;
static NODE* bnode(RBTREE_NODE* p) { return p ? RBTREE_DATA(p, NODE, rb) : NULL; }
static void big_check(int m, int full)
{
    RBTREE_CURSOR c; RBTREE_NODE* p; int j, prev = -1, k, cnt = 0; NODE key; unsigned bound = max_path(present);
    MC_ASSERT(!rbtree_is_empty(&tree) == (present > 0), "rbtree_is_empty() is wrong with %d nodes", present);
    if(mc_is("C10") && rbtree_verify != NULL) MC_ASSERT(rbtree_verify(&tree) == 0, "the tree with %d nodes breaks the red-black rules", present);
    if(mc_is("C09") || mc_is("C11")) {
        memset(&c, 0xEE, sizeof c);
        for(p = rbtree_head(&tree, &c); p != NULL; p = rbtree_next(&c)) {
            MC_ASSERT(cnt++ < present, "the traversal of %d nodes is longer", present);
            for(k = prev + 1; k < m && !here[k]; k++) ;
            MC_ASSERT(bnode(p)->id == k, "the traversal goes from key %d to %d instead of %d", prev, bnode(p)->id, k);
            prev = k;
        }
        MC_ASSERT(cnt == present, "the traversal ends after %d of %d nodes", cnt, present);
        if(mc_is("C11")) {
            MC_ASSERT((present == 0 ? NULL : &big[prev].rb) == rbtree_current(&c), "a cursor moved over the end has moved");
            memset(&c, 0xEE, sizeof c);
            for(cnt = 0, p = rbtree_tail(&tree, &c), prev = m; p != NULL; p = rbtree_prev(&c)) {
                MC_ASSERT(cnt++ < present, "the backward traversal of %d nodes is longer", present);
                for(k = prev - 1; k >= 0 && !here[k]; k--) ;
                MC_ASSERT(bnode(p)->id == k, "the backward traversal goes from key %d to %d instead of %d", prev, bnode(p)->id, k);
                prev = k;
            }
            MC_ASSERT(cnt == present, "the backward traversal ends after %d of %d nodes", cnt, present);
        }
    }
    if(full) for(j = 0; j < m; j++) {
        key.rank = j; cmps = 0; p = rbtree_lookup(&tree, &key.rb, cmp);
        MC_CHECK("C10", cmps <= bound, "a lookup among %d nodes makes %lu comparisons", present, cmps);
        MC_CHECK("C09", p == (here[j] ? &big[j].rb : NULL), "a lookup of %s key %d among %d is wrong", here[j] ? "present" : "absent", j, present);
        if(mc_is("C11")) {
            p = rbtree_lookup_ex(&tree, &key.rb, cmp, &c);
            MC_ASSERT(p == (here[j] ? &big[j].rb : NULL), "lookup_ex of %s key %d among %d is wrong", here[j] ? "present" : "absent", j, present);
            if(p) {
                for(k = j + 1; k < m && !here[k]; k++) ;
                p = rbtree_next(&c); MC_ASSERT(p == (k < m ? &big[k].rb : NULL), "next after lookup_ex of %d is wrong", j);
                if(p) { p = rbtree_prev(&c); MC_ASSERT(p == &big[j].rb, "prev after next after lookup_ex of %d is wrong", j); }
                for(k = j - 1; k >= 0 && !here[k]; k--) ;
                p = rbtree_prev(&c); MC_ASSERT(p == (k >= 0 ? &big[k].rb : NULL), "prev after lookup_ex of %d is wrong", j);
            } else MC_ASSERT(rbtree_current(&c) == NULL, "lookup_ex of an absent key leaves the cursor somewhere");
        }
    }
    mc_beat();
}
static uint64_t cnt_big(void) { return (mc_thorough ? 15 : 14) * P_N * P_N; }
static void run_big(uint64_t c)
{
    int m, p, r, i, x, pass, stop; uint64_t k = c; int *pi, *pr; NODE key; RBTREE_NODE* q;
    p = k % P_N; k /= P_N; r = k % P_N; k /= P_N; m = bsz[k];
    big = mc_xcalloc(m, sizeof(NODE)); here = mc_xcalloc(m, 1); pi = mc_xcalloc(m, sizeof(int)); pr = mc_xcalloc(m, sizeof(int));
    perm_fill(p, m, pi); perm_fill(r, m, pr);
    n = 0; present = 0; rbtree_init(&tree);
    /* the cleanup starts with the full tree or with what is left after removing a part of it */
    stop = mc_is("C12") ? (int)((long)m * r / P_N) : m;
    for(pass = 0; pass < 2; pass++) for(i = 0; i < (pass ? stop : m); i++) {
        unsigned bound = max_path(present);
        x = pass ? pr[i] : pi[i]; cmps = 0;
        if(pass == 0) {
            big[x].id = x; big[x].rank = x; memset(&big[x].rb, 0x5A, sizeof(RBTREE_NODE));
            MC_ASSERT(rbtree_insert(&tree, &big[x].rb, cmp) == 0, "the insertion of key %d (number %d) is refused", x, i); here[x] = 1; present++;
        } else {
            key.rank = x; q = rbtree_remove(&tree, &key.rb, cmp);
            MC_ASSERT(q == &big[x].rb, "the removal of key %d (number %d) returns %d", x, i, q ? bnode(q)->id : -1); here[x] = 0; present--;
            memset(&big[x], 0xDD, sizeof(NODE)); big[x].id = -1;
        }
        MC_CHECK("C10", cmps <= bound, "an update of %d nodes makes %lu comparisons", present, cmps);
        if((present & (present - 1)) == 0 || i == m / 3 || i == m / 2 || i == m - 1) big_check(m, 1);
    }
    if(mc_is("C12")) {
        int cnt = 0;
        while((q = rbtree_fini_step(&tree)) != NULL) {
            x = bnode(q)->id;
            MC_ASSERT(cnt++ < present, "the cleanup of %d nodes delivers more", present);
            MC_ASSERT(x >= 0 && x < m && here[x], "the cleanup delivers a node twice");
            here[x] = 0; memset(&big[x], 0xDD, sizeof(NODE)); big[x].id = -1;
        }
        MC_ASSERT(cnt == present, "the cleanup of %d nodes delivers %d", present, cnt);
        MC_ASSERT(rbtree_is_empty(&tree), "the tree is not empty after the cleanup");
    }
    mc_xfree(big); mc_xfree(here); mc_xfree(pi); mc_xfree(pr);
    mc_count_calls(3 * (uint64_t)m); mc_count_trace(1);
}
static void describe_big(uint64_t c, char* b, size_t sz) { uint64_t k = c; int p = k % P_N, r; k /= P_N; r = k % P_N; k /= P_N; snprintf(b, sz, "%d nodes inserted in %s order, removed in %s order", bsz[k], perm_name[p], perm_name[r]); }
/* ---- the deepest trees: keys inserted in (mostly) one direction, so that paths are as long as possible */
static uint64_t cnt_deep(void) { return 2 * 2 * 3; }
static size_t deep_m(uint64_t c) { return (c & 1) ? 140000 : mc_thorough ? 9000000 : 2500000; }
static void run_deep(uint64_t c)
{
    size_t m = deep_m(c), i, x, step = m / 1000; int down = c >> 1 & 1, how = c >> 2; NODE* nd = mc_xcalloc(m, sizeof(NODE)); NODE key; RBTREE_CURSOR cur; RBTREE_NODE* p; unsigned bound = max_path(m);
    rbtree_init(&tree); n = 0;
    for(i = 0; i < m; i++) { x = down ? m - 1 - i : i; nd[x].id = x; nd[x].rank = x; memset(&nd[x].rb, 0x5A, sizeof(RBTREE_NODE)); cmps = 0; MC_ASSERT(rbtree_insert(&tree, &nd[x].rb, cmp) == 0, "the insertion of key %zu is refused", x); MC_CHECK("C10", cmps <= bound, "an insertion among %zu nodes makes %lu comparisons", i, cmps); if((i & 0xffff) == 0) mc_beat(); }
    if(mc_is("C10") && rbtree_verify != NULL) MC_ASSERT(rbtree_verify(&tree) == 0, "the tree with %zu nodes breaks the red-black rules", m);
    if(mc_is("C09") || mc_is("C11")) {
        memset(&cur, 0xEE, sizeof cur); i = 0; for(p = rbtree_head(&tree, &cur); p; p = rbtree_next(&cur), i++) MC_ASSERT(i < m && p == &nd[i].rb, "the traversal of %zu nodes is wrong at %zu", m, i); MC_ASSERT(i == m, "the traversal of %zu nodes ends after %zu", m, i); mc_beat();
        memset(&cur, 0xEE, sizeof cur); i = m; for(p = rbtree_tail(&tree, &cur); p; p = rbtree_prev(&cur), i--) MC_ASSERT(i > 0 && p == &nd[i - 1].rb, "the backward traversal of %zu nodes is wrong at %zu", m, i); MC_ASSERT(i == 0, "the backward traversal of %zu nodes ends with %zu left", m, i); mc_beat();
        for(i = 0; i < m; i += i < 1000 || i + 1000 >= m ? 1 : step) {
            key.rank = i; memset(&cur, 0xEE, sizeof cur); cmps = 0; p = rbtree_lookup_ex(&tree, &key.rb, cmp, &cur); MC_ASSERT(p == &nd[i].rb && rbtree_current(&cur) == p, "lookup_ex of key %zu among %zu", i, m);
            MC_ASSERT(rbtree_lookup(&tree, &key.rb, cmp) == p, "lookup of key %zu among %zu", i, m);
            MC_ASSERT(rbtree_next(&cur) == (i + 1 < m ? &nd[i + 1].rb : NULL), "next of key %zu among %zu", i, m); key.rank = i + 0.5; MC_ASSERT(rbtree_lookup(&tree, &key.rb, cmp) == NULL, "an absent key is found");
        }
    }
    if(how < 2) for(i = 0; i < m; i++) { x = how ? m - 1 - i : i; key.rank = x; cmps = 0; p = rbtree_remove(&tree, &key.rb, cmp); MC_ASSERT(p == &nd[x].rb, "the removal of key %zu from %zu", x, m - i); MC_CHECK("C10", cmps <= bound, "a removal among %zu nodes makes %lu comparisons", m - i, cmps); memset(&nd[x].rb, 0xDD, sizeof nd[x].rb); if((i & 0xffff) == 0) mc_beat(); }
    else { i = 0; while((p = rbtree_fini_step(&tree)) != NULL) { NODE* d = RBTREE_DATA(p, NODE, rb); MC_ASSERT(i++ < m && d >= nd && d < nd + m && d->rank >= 0, "the cleanup of %zu nodes delivers a node twice or a foreign one", m); d->rank = -1; memset(&d->rb, 0xDD, sizeof d->rb); if((i & 0xffff) == 0) mc_beat(); } MC_ASSERT(i == m, "the cleanup of %zu nodes delivers %zu", m, i); }
    MC_ASSERT(rbtree_is_empty(&tree), "the tree is not empty at the end"); mc_xfree(nd); mc_count_calls(m * 2); mc_count_trace(1);
}
static void desc_deep(uint64_t c, char* b, size_t z) { snprintf(b, z, "%zu nodes inserted in %s order, %s", deep_m(c), c >> 1 & 1 ? "descending" : "ascending", c >> 2 == 0 ? "removed ascending" : c >> 2 == 1 ? "removed descending" : "cleaned up"); }

/* ---- the comparer uses another tree: all orders of insertion and removal of up to 5 (6) keys, with an operation on the other tree at each comparison */
#define NI 7
static RBTREE in_t; static NODE in_n[NI]; static char in_here[NI]; static int in_mode, in_step;
static int in_cmp(const RBTREE_NODE* a, const RBTREE_NODE* b) { double x = RBTREE_DATA(a, NODE, rb)->rank, y = RBTREE_DATA(b, NODE, rb)->rank; return x < y ? -1 : x > y; }
static void in_check(void)
{
    RBTREE_CURSOR c; RBTREE_NODE* p; int k = 0;
    for(p = rbtree_head(&in_t, &c); p; p = rbtree_next(&c)) { while(k < NI && !in_here[k]) k++; MC_ASSERT(k < NI && p == &in_n[k].rb, "the tree used by the comparer is damaged"); k++; }
    while(k < NI && !in_here[k]) k++; MC_ASSERT(k == NI, "the tree used by the comparer has lost a node");
}
static void in_toggle(int k) { if(in_here[k]) { MC_ASSERT(rbtree_remove(&in_t, &in_n[k].rb, in_cmp) == &in_n[k].rb, "removal within a comparison"); in_here[k] = 0; } else { memset(&in_n[k].rb, 0x5A, sizeof in_n[k].rb); MC_ASSERT(rbtree_insert(&in_t, &in_n[k].rb, in_cmp) == 0, "insertion within a comparison"); in_here[k] = 1; } }
static void in_act(void)
{
    int s = in_step++, k; RBTREE_CURSOR c; NODE key; RBTREE_NODE* p;
    switch(in_mode) {
    case 0: key.rank = s % NI; p = rbtree_lookup(&in_t, &key.rb, in_cmp); MC_ASSERT(p == (in_here[s % NI] ? &in_n[s % NI].rb : NULL), "lookup within a comparison"); break;
    case 1: in_toggle(s * 3 % NI); break;
    case 2: in_check(); key.rank = s % NI; p = rbtree_lookup_ex(&in_t, &key.rb, in_cmp, &c); MC_ASSERT(p == (in_here[s % NI] ? &in_n[s % NI].rb : NULL), "lookup_ex within a comparison"); if(p && s % NI) rbtree_prev(&c); break;
    default: if(s & 1) for(k = 0; k < NI; k++) { if(!in_here[k]) in_toggle(k); } else { while((p = rbtree_fini_step(&in_t)) != NULL) { k = RBTREE_DATA(p, NODE, rb)->id; MC_ASSERT(in_here[k], "cleanup within a comparison"); in_here[k] = 0; } for(k = 0; k < NI; k++) MC_ASSERT(!in_here[k], "cleanup within a comparison ends early"); } break;
    }
}
static int out_cmp(const RBTREE_NODE* a, const RBTREE_NODE* b) { in_act(); return in_cmp(a, b); }
static int nest_n(void) { return mc_thorough ? 6 : 5; }
static uint64_t nest_f(void) { uint64_t f = 1; int i; for(i = 2; i <= nest_n(); i++) f *= i; return f; }
static uint64_t cnt_nest(void) { return nest_f() * nest_f() * 4; }
static void nest_perm(uint64_t k, int m, int* p) { int i, j, used[8] = { 0 }; for(i = 0; i < m; i++) { int d = k % (m - i); k /= m - i; for(j = 0; ; j++) if(!used[j] && d-- == 0) break; used[j] = 1; p[i] = j; } }
static void run_nest(uint64_t c)
{
    int m = nest_n(), i, j, k, pi[8], pr[8]; static NODE nd[8]; char here[8] = { 0 }; RBTREE t; RBTREE_CURSOR cur; RBTREE_NODE* p; NODE key;
    in_mode = c % 4; c /= 4; nest_perm(c % nest_f(), m, pi); nest_perm(c / nest_f(), m, pr); in_step = (int)c;
    rbtree_init(&in_t); for(k = 0; k < NI; k++) { in_n[k].rank = in_n[k].id = k; in_here[k] = 0; if(k & 1) in_toggle(k); }
    rbtree_init(&t); for(i = 0; i < 2 * m; i++) {
        if(i < m) { k = pi[i]; memset(&nd[k], 0x5A, sizeof nd[k]); nd[k].rank = k; MC_ASSERT(rbtree_insert(&t, &nd[k].rb, out_cmp) == 0, "insertion %d of key %d", i, k); here[k] = 1; key.rank = k; MC_ASSERT(rbtree_insert(&t, &key.rb, out_cmp) != 0, "an equal key is taken"); }
        else { k = pr[i - m]; key.rank = k; memset(&cur, 0xEE, sizeof cur); MC_ASSERT(rbtree_lookup_ex(&t, &key.rb, out_cmp, &cur) == &nd[k].rb && rbtree_lookup(&t, &key.rb, out_cmp) == &nd[k].rb, "lookup of key %d", k); for(j = k + 1; j < m && !here[j]; j++) ; MC_ASSERT(rbtree_next(&cur) == (j < m ? &nd[j].rb : NULL), "next of key %d", k);
               MC_ASSERT(rbtree_remove(&t, &key.rb, out_cmp) == &nd[k].rb, "removal %d of key %d", i - m, k); here[k] = 0; memset(&nd[k].rb, 0xDD, sizeof nd[k].rb); }
        for(j = 0, p = rbtree_head(&t, &cur); p; p = rbtree_next(&cur), j++) { while(j < m && !here[j]) j++; MC_ASSERT(j < m && p == &nd[j].rb, "wrong order after step %d", i); }
        while(j < m && !here[j]) j++; MC_ASSERT(j == m, "a node is lost after step %d", i); in_check();
        if(mc_is("C10") && rbtree_verify != NULL) MC_ASSERT(rbtree_verify(&t) == 0 && rbtree_verify(&in_t) == 0, "a tree breaks the red-black rules after step %d", i);
    }
    mc_count_calls(6 * m); mc_count_trace(1);
}
static void desc_nest(uint64_t c, char* b, size_t z) { static const char* w[] = { "looks up in", "updates", "traverses", "cleans up" }; int pi[8], pr[8], i, u; nest_perm(c / 4 % nest_f(), nest_n(), pi); nest_perm(c / 4 / nest_f(), nest_n(), pr); u = snprintf(b, z, "the comparer %s another tree; keys inserted", w[c % 4]); for(i = 0; i < nest_n(); i++) u += snprintf(b + u, z - u, " %d", pi[i]); u += snprintf(b + u, z - u, ", removed"); for(i = 0; i < nest_n(); i++) u += snprintf(b + u, z - u, " %d", pr[i]); }

/* ---- cleanup of two trees at the same time, with all interleavings; the delivered nodes go to a third tree */
static const int two_fam[] = { 0, 1, 2 };
#define TWO_F 3
static uint64_t cnt_two(void) { return 7 * 7 * TWO_F * TWO_F; }
static void run_two(uint64_t c)
{
    int sz[2], f[2], j, i, mask, bits, k; uint64_t v = c; static NODE nd[2][8]; RBTREE t[2], third; RBTREE_CURSOR cur; RBTREE_NODE* p; NODE* x; int pi[8];
    sz[0] = v % 7; v /= 7; sz[1] = v % 7; v /= 7; f[0] = two_fam[v % TWO_F]; f[1] = two_fam[v / TWO_F];
    bits = sz[0] + sz[1] + 1;
    for(mask = 0; mask < 1 << bits; mask++) {
        int left[2], done = 0;
        rbtree_init(&third);
        for(j = 0; j < 2; j++) { rbtree_init(&t[j]); if(sz[j]) perm_fill(f[j], sz[j], pi); for(i = 0; i < sz[j]; i++) { x = &nd[j][i]; memset(x, 0x5A, sizeof *x); x->id = j; x->seen = 0; x->rank = pi[i] + 0.25 * j; MC_ASSERT(rbtree_insert(&t[j], &x->rb, cmp) == 0, "insertion failed"); } left[j] = sz[j]; }
        for(k = 0; left[0] >= 0 || left[1] >= 0; k++) {
            j = k < bits ? mask >> k & 1 : left[0] < 0;
            p = rbtree_fini_step(&t[j]);
            if(left[j] <= 0) { MC_ASSERT(p == NULL && rbtree_is_empty(&t[j]), "a cleanup step of an empty tree delivers a node"); left[j] = -1; continue; }
            MC_ASSERT(p != NULL, "the cleanup of %d nodes ends with %d left", sz[j], left[j]);
            x = RBTREE_DATA(p, NODE, rb);
            MC_ASSERT(x >= nd[j] && x < nd[j] + sz[j] && !x->seen, "the cleanup of one of two trees delivers a node twice or of the other tree");
            x->seen = 1; left[j]--; done++; memset(&x->rb, 0xDD, sizeof x->rb);
            MC_ASSERT(rbtree_insert(&third, &x->rb, cmp) == 0, "a delivered node cannot be put to another tree");
        }
        MC_ASSERT(rbtree_is_empty(&t[0]) && rbtree_is_empty(&t[1]), "a tree is not empty after the cleanup");
        memset(&cur, 0xEE, sizeof cur); i = 0; { double last = -1; if(done) for(p = rbtree_head(&third, &cur); p; p = rbtree_next(&cur)) { MC_ASSERT(RBTREE_DATA(p, NODE, rb)->rank > last, "nodes put to another tree are out of order there"); last = RBTREE_DATA(p, NODE, rb)->rank; i++; } }
        MC_ASSERT(i == done, "of %d delivered nodes put to another tree there are %d", done, i);
        mc_count_calls(3 * (sz[0] + sz[1])); mc_count_trace(1);
    }
}
static void describe_two(uint64_t c, char* b, size_t z) { snprintf(b, z, "two trees of %d and %d nodes cleaned alternately", (int)(c % 7), (int)(c / 7 % 7)); }
OFFS_USE(rbtree)
DATA_UNIT(dr, RBTREE_DATA, RBTREE_NODE)
MC_ENUM mc_enums[] = {
    { "C09 C10 C11 C12", "rbtree-nested", 3, 0, cnt_nest, run_nest, desc_nest, 256 },
    { "C09 C10 C11 C12", "rbtree-deep", 3, 0, cnt_deep, run_deep, desc_deep, 1 },
    { "C09", "rbtree-data", 3, 0, drcnt, drrun, drdesc, 64 }, { "C09", "rbtree-data-units", 3, 0, rbtree_ocnt, rbtree_orun, rbtree_odesc, 64 },
    { "C12", "rbtree-cleanup-two", 3, 0, cnt_two, run_two, describe_two, 1 },
    { "C09 C10 C11 C12", "rbtree-bulk", 3, 0, cnt_big, run_big, describe_big, 1 },
    { 0 }
};
