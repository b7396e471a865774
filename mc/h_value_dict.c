#define _GNU_SOURCE
/* C17 exact ordered maps, C18 balance, C19 insertion order: dictionary values. */
#include "vast.h"
#include "mc.h"
#include "perm.h"
#include "value.h"
#include "edges.h"
#include <limits.h>
#include <math.h>

int value_dict_verify(VALUE* v) __attribute__((weak));      /* test-only verifier of the project, used if it is there */

#define MAXN 20100
typedef struct { uint64_t rank; uint32_t id; int fresh; } ENT;    /* fresh: left uninitialised, still new */
static VALUE v; static ENT ord[MAXN]; static int n; static uint64_t seq[MAXN];     /* in key order; ranks in order of addition */
static int N, form, cmpmode, keep; static uint32_t next_id; static unsigned long n_cmp;

/* ---- keys */
static size_t key_of(uint64_t rank, char* k, int alias)
{
    int i; uint64_t r = cmpmode == 2 ? ~rank : rank; size_t len = 8;
    for(i = 0; i < 8; i++) k[i] = (char)(r >> (56 - 8 * i));
    if(form == 1 || (form == 2 && (rank >> 41 & 1))) { memset(k + 8, (int)(0x80 + (rank & 7)), 24); len = 32; }
    if(form == 3) { memset(k + 8, 0xFF, 130); len = 138; }
    if(alias && cmpmode == 3) { if(len == 8) { memset(k + 8, 'z', 9); len = 17; } else len = 9; }
    return len;
}
static uint64_t rank_of_key(const char* k, size_t len) { int i; uint64_t r = 0; MC_ASSERT(len >= 8, "the comparison function was given a key of length %zu", len); for(i = 0; i < 8; i++) r = r << 8 | (unsigned char)k[i]; return r; }
static int cmp_mag(const char* a, size_t al, const char* b, size_t bl) { uint64_t x = rank_of_key(a, al), y = rank_of_key(b, bl); int m = (int)((x ^ y) * 0x9E3779B97F4A7C15u >> 62); n_cmp++; return x < y ? (m ? m == 1 ? -65536 : INT_MIN : -1) : x > y ? (m ? m == 1 ? 65536 : INT_MAX : 3) : 0; }
static int cmp_rev(const char* a, size_t al, const char* b, size_t bl) { uint64_t x = rank_of_key(a, al), y = rank_of_key(b, bl); n_cmp++; return x < y ? 77 : x > y ? -77 : 0; }
static int (*cmpf(void))(const char*, size_t, const char*, size_t) { return cmpmode == 0 ? NULL : cmpmode == 2 ? cmp_rev : cmp_mag; }
static uint64_t gap_rank(int g)      /* a key that sorts between ord[g-1] and ord[g] */
{
    uint64_t d;
    if(n == 0) return (uint64_t)1 << 63;
    if(g == 0) return ord[0].rank - ((uint64_t)1 << 41) + ((ord[0].rank >> 42 & 1) << 40);
    if(g == n) return ord[n - 1].rank + ((uint64_t)1 << 41) + ((ord[n - 1].rank >> 42 & 1) << 40);
    d = ord[g].rank - ord[g - 1].rank;
    if(d < 2) { fprintf(stderr, "harness: key space exhausted\n"); abort(); }
    return ord[g - 1].rank + d / 2;
}
static double bound(int m) { return 2 * log2(m + 1) + 1e-9; }

/* ---- oracle */
static int same(const VALUE* it, const ENT* e)
{
    if(e->fresh) return value_type(it) == VALUE_NULL && value_is_new(it);
    return value_type(it) == VALUE_UINT32 && value_uint32(it) == e->id && !value_is_new(it);
}
static const VALUE* wk[MAXN + 4]; static VALUE* wv[MAXN + 4]; static int wn, wstop, wret, wnest, wcount;
static VALUE* lookup(uint64_t rank, int alias);
static int visit_count(const VALUE* k, VALUE* val, void* ctx) { (void)k; (void)val; MC_ASSERT(ctx == &wcount, "the visitor was given a wrong context"); return ++wcount > n; }
static int visit(const VALUE* k, VALUE* val, void* ctx)
{
    MC_ASSERT(ctx == &wn, "the visitor was given a wrong context");
    MC_ASSERT(wn <= n, "a walk visits more than %d items", n);
    wk[wn] = k; wv[wn] = val; wn++;
    if(wn == wnest) {       /* a visitor may well use the dictionary */
        static const VALUE* b[MAXN + 4]; int rc;
        wcount = 0; rc = value_dict_walk_sorted(&v, visit_count, &wcount); MC_ASSERT(rc == 0 && wcount == n, "a walk from within a walk visits %d of %d items", wcount, n);
        if(keep) { wcount = 0; rc = value_dict_walk_ordered(&v, visit_count, &wcount); MC_ASSERT(rc == 0 && wcount == n, "an ordered walk from within a walk visits %d of %d items", wcount, n); }
        MC_ASSERT(value_dict_keys_sorted(&v, b, n) == (size_t)n, "listing from within a walk");
    }
    return wn == wstop ? wret : 0;
}
static void check_key(const VALUE* k, uint64_t rank, const char* what, int i)
{
    char b[160]; size_t l = key_of(rank, b, 0);
    MC_ASSERT(k != NULL && value_type(k) == VALUE_STRING && value_string_length(k) == l && memcmp(value_string(k), b, l) == 0, "%s: key number %d of %d is not the expected one", what, i, n);
}
static int find(uint64_t rank) { int i; for(i = 0; i < n; i++) if(ord[i].rank == rank) return i; return -1; }
static void check_listing(int sorted, int stops)
{
    static const VALUE* buf[MAXN + 4]; static const size_t vast[] = { INT_MAX, (size_t)INT_MAX + 1, UINT_MAX, (size_t)UINT_MAX + 1, SIZE_MAX / 8, SIZE_MAX / 8 + 1, SIZE_MAX / 2 + 1, SIZE_MAX }; int sizes[6] = { 0, 1, n / 2, n > 0 ? n - 1 : 0, n, n + 3 }, s, i; size_t r; const char* what = sorted ? "sorted" : "ordered"; int rc;
    for(s = 0; s < 6; s++) {
        int want = sizes[s] < n ? sizes[s] : n;
        memset(buf, 0, (n + 4) * sizeof *buf);
        r = sorted ? value_dict_keys_sorted(&v, buf, sizes[s]) : value_dict_keys_ordered(&v, buf, sizes[s]);
        MC_ASSERT(r == (size_t)want, "%s listing of %d keys into a buffer of %d gives %zu", what, n, sizes[s], r);
        for(i = 0; i < want; i++) check_key(buf[i], sorted ? ord[i].rank : seq[i], what, i);
        for(i = want; i < n + 4; i++) MC_ASSERT(buf[i] == NULL, "%s listing writes beyond the buffer of %d", what, sizes[s]);
    }
    if(stops) for(s = 0; s < 8; s++) {
        r = sorted ? value_dict_keys_sorted(&v, buf, vast[s]) : value_dict_keys_ordered(&v, buf, vast[s]);
        MC_ASSERT(r == (size_t)n, "%s listing of %d keys into a buffer of %zu gives %zu", what, n, vast[s], r);
        for(i = 0; i < n; i++) check_key(buf[i], sorted ? ord[i].rank : seq[i], what, i);
    }
    for(s = 0; s <= n; s = s == 0 ? 1 : stops ? s + 1 : s == 1 && n > 1 ? n : n + 1) {
        wn = 0; wstop = s; wret = s & 1 ? -5 - s : 1 + s; wnest = n > 1 ? 1 + s % (n - 1) : 1;
        rc = sorted ? value_dict_walk_sorted(&v, visit, &wn) : value_dict_walk_ordered(&v, visit, &wn);
        MC_ASSERT(rc == (s ? wret : 0), "%s walk with a stop at item %d of %d returned %d", what, s, n, rc);
        MC_ASSERT(wn == (s ? s : n), "%s walk with a stop at item %d of %d visited %d items", what, s, n, wn);
        for(i = 0; i < wn; i++) {
            int j = sorted ? i : find(seq[i]);
            check_key(wk[i], ord[j].rank, what, i);
            MC_ASSERT(same(wv[i], &ord[j]), "%s walk: value of item %d of %d is wrong", what, i, n);
            if(s == 0) MC_ASSERT(wv[i] == lookup(ord[j].rank, 0), "%s walk: the visitor gets a copy of item %d of %d", what, i, n);
        }
    }
}
static VALUE* lookup(uint64_t rank, int alias) { char b[160]; size_t l = key_of(rank, b, alias); return value_dict_get_(&v, b, l); }
static void check_all(const char* when, int stops)
{
    int i; unsigned long worst = 0;
    MC_ASSERT(value_type(&v) == VALUE_DICT && !value_is_new(&v), "%s: not a dictionary", when);
    MC_ASSERT(value_dict_size(&v) == (size_t)n, "%s: size is %zu, expected %d", when, value_dict_size(&v), n);
    MC_ASSERT(value_dict_flags(&v) == (keep ? VALUE_DICT_MAINTAINORDER : 0), "%s: flags are %x", when, value_dict_flags(&v));
    for(i = 0; i < n; i++) {
        VALUE* it;
        n_cmp = 0;
        it = lookup(ord[i].rank, i & 1);
        if(n_cmp > worst) worst = n_cmp;
        MC_ASSERT(it != NULL, "%s: present key %d of %d is not found", when, i, n);
        MC_ASSERT(same(it, &ord[i]), "%s: key %d of %d has a wrong value", when, i, n);
    }
    for(i = 0; i <= n; i++) {
        n_cmp = 0;
        MC_ASSERT(lookup(gap_rank(i), 0) == NULL, "%s: an absent key (between %d and %d of %d) is found", when, i - 1, i, n);
        if(n_cmp > worst) worst = n_cmp;
    }
    MC_CHECK("C18", worst <= bound(n), "%s: a lookup among %d keys compares %lu of them", when, n, worst);
    if(value_dict_verify) MC_CHECK("C18", value_dict_verify(&v) == 0, "%s: the tree of %d keys is not a valid red-black tree", when, n);
    if(mc_is("C17") || mc_is("C19")) {
        check_listing(1, stops);
        if(keep) check_listing(0, stops);
        else {
            const VALUE* b[4];
            MC_ASSERT(value_dict_keys_ordered(&v, b, 4) == 0, "%s: keys are listed in insertion order without the flag", when);
            wn = 0; wstop = 0; value_dict_walk_ordered(&v, visit, &wn);
            MC_ASSERT(wn == 0, "%s: items are walked in insertion order without the flag", when);
        }
    }
}
/* ---- operations */
static void put(VALUE* it, int g, uint64_t r)
{
    ENT e;
    MC_ASSERT(value_type(it) == VALUE_NULL && value_is_new(it), "the added value is not new and null");
    e.rank = r; e.id = next_id++; e.fresh = e.id % 4 == 3;
    memmove(ord + g + 1, ord + g, (n - g) * sizeof *ord); ord[g] = e; seq[n] = r; n++;
    if(!e.fresh) value_init_uint32(it, e.id);
}
static void add(int g, int goa)
{
    uint64_t r = gap_rank(g); char b[160]; size_t l = key_of(r, b, 0); char* k = mc_xmalloc(l); VALUE* it; unsigned long c;
    memcpy(k, b, l); n_cmp = 0;                 /* exact-size key, destroyed afterwards */
    it = goa ? value_dict_get_or_add_(&v, k, l) : value_dict_add_(&v, k, l);
    c = n_cmp;
    memset(k, 0xEE, l); mc_xfree(k);
    MC_ASSERT(it != NULL, "adding an absent key (between %d and %d of %d) is refused", g - 1, g, n);
    MC_CHECK("C18", c <= 2 * bound(n), "adding to %d keys compares %lu of them", n, c);
    put(it, g, r);
}
static void del(int i, int alias)
{
    char b[160]; uint64_t r = ord[i].rank; size_t l = key_of(r, b, alias); int j; unsigned long c;
    const VALUE* ks[MAXN]; const char* key = b;
    if((i + n) % 3 == 2 && value_dict_keys_sorted(&v, ks, i + 1) == (size_t)i + 1) { key = value_string(ks[i]); l = value_string_length(ks[i]); }   /* by the dictionary's own copy of the key */
    n_cmp = 0;
    MC_ASSERT(value_dict_remove_(&v, key, l) == 0, "removing present key %d of %d is refused%s", i, n, key != b ? " if given by the dictionary's own copy" : "");
    c = n_cmp;
    MC_CHECK("C18", c <= 2 * bound(n), "removing from %d keys compares %lu of them", n, c);
    memmove(ord + i, ord + i + 1, (n - i - 1) * sizeof *ord);
    for(j = 0; seq[j] != r; j++) ;
    memmove(seq + j, seq + j + 1, (n - j - 1) * sizeof *seq); n--;
}
static void refused(void)
{
    int i; char b[160]; size_t l; const VALUE* ks[MAXN];
    MC_ASSERT(value_dict_keys_sorted(&v, ks, n) == (size_t)n, "keys");
    for(i = 0; i < n; i++) {
        VALUE* own = value_dict_get_(&v, value_string(ks[i]), value_string_length(ks[i]));
        MC_ASSERT(own == lookup(ord[i].rank, 0) && value_dict_add_(&v, value_string(ks[i]), value_string_length(ks[i])) == NULL && value_dict_get_or_add_(&v, value_string(ks[i]), value_string_length(ks[i])) == own, "key %d of %d, given by the dictionary's own copy, is not the same key", i, n);
    }
    for(i = 0; i < n; i++) {
        VALUE* it = lookup(ord[i].rank, 0);
        l = key_of(ord[i].rank, b, i & 1);
        MC_ASSERT(value_dict_add_(&v, b, l) == NULL, "adding present key %d of %d is not refused", i, n);
        MC_ASSERT(value_dict_get_or_add_(&v, b, l) == it, "get-or-add of present key %d of %d does not give its value", i, n);
    }
    for(i = 0; i <= n; i++) { l = key_of(gap_rank(i), b, 0); MC_ASSERT(value_dict_remove_(&v, b, l) != 0, "removing an absent key (between %d and %d of %d) is not refused", i - 1, i, n); }
}
static void reset(void)
{
    int f;
    N = mc_arg % 100; form = mc_arg / 100 % 10; cmpmode = mc_arg / 1000 % 10; keep = mc_arg / 10000 % 10;
    n = 0; next_id = 100;
    memset(&v, 0xA7, sizeof v);
    f = (cmpmode || keep) ? value_init_dict_ex(&v, cmpf(), keep ? VALUE_DICT_MAINTAINORDER : 0) : value_init_dict(&v);
    MC_ASSERT(f == 0, "init failed");
}
enum { O_ADD, O_GOA, O_REM, O_N };
static int n_ops(void) { return 2 + (N + 1) * O_N; }
static int apply(int op)
{
    int i;
    if(op == 0) { if(n == 0) return 0; value_dict_clean(&v); n = 0; return 1; }
    if(op == 1) { refused(); return 1; }
    i = (op - 2) / O_N;
    switch((op - 2) % O_N) {
    case O_ADD: if(i > n || n >= N) return 0; add(i, 0); break;
    case O_GOA: if(i > n || n >= N) return 0; add(i, 1); break;
    case O_REM: if(i >= n) return 0; del(i, (i ^ n) & 1); break;
    }
    return 1;
}
static void describe(int op, char* b, size_t sz)
{
    if(op < 2) snprintf(b, sz, op ? "add present keys, remove absent keys" : "clean");
    else snprintf(b, sz, "%s %d", (op - 2) % O_N == O_ADD ? "add a key before number" : (op - 2) % O_N == O_GOA ? "get-or-add a key before number" : "remove key number", (op - 2) / O_N);
}
/* state: everything in the dictionary's own blocks except key bytes and values */
static struct { char* p; size_t n; } nb[100];
static int node_of(uint64_t w, uint64_t* off) { int i; for(i = 0; i < n; i++) if(w >= (uint64_t)(uintptr_t)nb[i].p && w < (uint64_t)(uintptr_t)nb[i].p + nb[i].n) { *off = w - (uint64_t)(uintptr_t)nb[i].p; return i; } return -1; }
static void hash_words(MC_HASH* h, const unsigned char* p, size_t sz, const unsigned char* k, const unsigned char* val)
{
    size_t i, j;
    for(i = 0; i + 8 <= sz; i += 8) {
        uint64_t w, off; int x; void* b; size_t bs;
        if(k && p + i >= k && p + i < k + sizeof(VALUE)) { if(p + i == k) mc_hash_u64(h, *k); continue; }
        if(val && p + i >= val && p + i < val + sizeof(VALUE)) continue;
        memcpy(&w, p + i, 8);
        x = node_of(w, &off);
        if(x >= 0) { mc_hash_u64(h, 0xABCD00000000ull + x); mc_hash_u64(h, off); }
        else if(mc_block_of((void*)(uintptr_t)w, &b, &bs)) mc_hash_u64(h, 0xBBCD00000000ull);
        else mc_hash_u64(h, w);
    }
    for(j = i; j < sz; j++) mc_hash_u64(h, p[j]);
}
static void canon(MC_HASH* h)
{
    static const VALUE* k[MAXN]; int i, m; void* b; size_t bs; size_t o;
    check_all("afterwards", 1);
    mc_hash_u64(h, n);
    m = (int)value_dict_keys_sorted(&v, k, n + 1);
    if(m != n) return;
    for(i = 0; i < n; i++) { mc_block_of(k[i], &b, &bs); nb[i].p = b; nb[i].n = bs; }
    for(i = 0; i < n; i++) hash_words(h, (unsigned char*)nb[i].p, nb[i].n, (unsigned char*)k[i], (unsigned char*)lookup(ord[i].rank, 0));
    for(o = 0; o + 8 <= sizeof v; o++) { uint64_t w; memcpy(&w, (char*)&v + o, 8); if(mc_block_of((void*)(uintptr_t)w, &b, &bs)) hash_words(h, b, bs, NULL, NULL); }
}
static void teardown(void)
{
    value_fini(&v);
    MC_ASSERT(mc_live_blocks() == 0, "%zu blocks leaked by value_fini()", mc_live_blocks());
    MC_ASSERT(value_type(&v) == VALUE_NULL && value_dict_size(&v) == 0, "a finalized dictionary is still one");
}
static void canon_nm(MC_HASH* h) { check_all("afterwards", 1); mc_hash_u64(h, n); }

/* ---- large dictionaries: all pairs of (insertion pattern, removal pattern) */
static const int bsz[] = { 1, 2, 7, 8, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 511, 1023, 2047, 4000, 20000 };
static uint64_t cnt_bulk(void) { return (mc_thorough ? 23 : 21) * P_N * P_N * 4; }
static void run_bulk(uint64_t c)
{
    static char here[MAXN]; static int pi[MAXN], pr[MAXN], where[MAXN]; int m, p, r, mode, i, present = 0; uint64_t k = c; unsigned long worst;
    mode = k % 4; k /= 4; p = k % P_N; k /= P_N; r = k % P_N; k /= P_N; m = bsz[k];
    form = mode == 0 ? 0 : mode == 1 ? 2 : 1; cmpmode = mode == 0 ? 0 : mode; if(mode == 1) cmpmode = 0; if(mode == 2) cmpmode = 2; if(mode == 3) cmpmode = 1; keep = mode & 1;
    memset(&v, 0, sizeof v);
    MC_ASSERT(value_init_dict_ex(&v, cmpf(), keep ? VALUE_DICT_MAINTAINORDER : 0) == 0, "init failed");
    memset(here, 0, sizeof here);
    for(i = 0; i < m; i++) { pi[i] = -1; where[i] = -1; }
    perm_fill(p, m, pi); perm_fill(r, m, pr);
    for(i = 0; i < m; i++) { if(where[pi[i]] >= 0) { fprintf(stderr, "harness: not a permutation\n"); abort(); } where[pi[i]] = i; }
    { int pass, x;
      for(pass = 0; pass < 2; pass++) for(i = 0; i < m; i++) {
        char b[160]; size_t l; uint64_t rank; VALUE* it;
        x = pass ? pr[i] : pi[i]; rank = ((uint64_t)x + 1) << 40; l = key_of(rank, b, 0);
        n_cmp = 0;
        if(pass == 0) {
            it = i & 1 ? value_dict_add_(&v, b, l) : value_dict_get_or_add_(&v, b, l);
            MC_ASSERT(it && value_is_new(it), "adding key %d (number %d) failed", x, i);
            value_init_int32(it, x); here[x] = 1; present++;
        } else { MC_ASSERT(value_dict_remove_(&v, b, l) == 0, "removing key %d (number %d) failed", x, i); here[x] = 0; present--; }
        MC_CHECK("C18", n_cmp <= 2 * bound(m), "an update of %d keys compares %lu of them", m, n_cmp);
        MC_ASSERT(value_dict_size(&v) == (size_t)present, "size is %zu instead of %d", value_dict_size(&v), present);
        if((present & (present - 1)) == 0 || i == m / 3 || i == m / 2 || i == m - 1) {
            static const VALUE* ks[MAXN]; size_t got; int j, q = 0;
            worst = 0;
            for(j = 0; j < m; j++) {
                rank = ((uint64_t)j + 1) << 40; l = key_of(rank, b, 0); n_cmp = 0;
                it = value_dict_get_(&v, b, l);
                if(n_cmp > worst) worst = n_cmp;
                MC_ASSERT((it != NULL) == here[j] && (it == NULL || value_int32(it) == j), "lookup of %s key %d among %d is wrong", here[j] ? "present" : "absent", j, present);
            }
            MC_CHECK("C18", worst <= bound(present), "a lookup among %d keys compares %lu of them", present, worst);
            if(value_dict_verify) MC_CHECK("C18", value_dict_verify(&v) == 0, "the tree of %d keys is not a valid red-black tree", present);
            got = value_dict_keys_sorted(&v, ks, MAXN);
            MC_ASSERT(got == (size_t)present, "sorted listing of %d keys gives %zu", present, got);
            for(j = 0; j < m; j++) if(here[j]) { l = key_of(((uint64_t)j + 1) << 40, b, 0); MC_ASSERT(value_string_length(ks[q]) == l && memcmp(value_string(ks[q]), b, l) == 0, "sorted listing is wrong at %d of %d", q, present); q++; }
            if(keep) {
                got = value_dict_keys_ordered(&v, ks, MAXN); q = 0;
                MC_ASSERT(got == (size_t)present, "ordered listing of %d keys gives %zu", present, got);
                for(j = 0; j < m; j++) if(here[pi[j]] ) { l = key_of(((uint64_t)pi[j] + 1) << 40, b, 0); MC_ASSERT(value_string_length(ks[q]) == l && memcmp(value_string(ks[q]), b, l) == 0, "ordered listing is wrong at %d of %d", q, present); q++; }
            }
        }
        mc_count_calls(3); if(i % 64 == 0) mc_beat();
      } }
    n = 0; teardown();
    mc_count_trace(1);
}
static void describe_bulk(uint64_t c, char* b, size_t sz)
{
    uint64_t k = c; int p, r, mode;
    mode = k % 4; k /= 4; p = k % P_N; k /= P_N; r = k % P_N; k /= P_N;
    snprintf(b, sz, "%d keys (mode %d) added in %s order, removed in %s order", bsz[k], mode, perm_name[p], perm_name[r]);
}

/* ---- default comparison function: all pairs of keys */
static unsigned char letters[] = { 0, 1, 'a', 0x7f, 0x80, 0xff };
static const int prefix_len[] = { 0, 4, 9, 10, 11, 12, 13, 14, 30, 124, 125, 126, 127, 128, 300 };
#define NL 6
#define NK (1 + NL + NL * NL + NL * NL * NL)
#define NPFX 15
static size_t mkkey(int x, int p, unsigned char* k)
{
    size_t l = 0; int c, i;
    for(i = 0; i < prefix_len[p]; i++) k[l++] = (unsigned char)(i % 3 ? 'k' : 0);
    if(x < 1) c = 0; else if(x < 1 + NL) { c = 1; x -= 1; } else if(x < 1 + NL + NL * NL) { c = 2; x -= 1 + NL; } else { c = 3; x -= 1 + NL + NL * NL; }
    for(; c > 0; c--) { k[l++] = letters[x % NL]; x /= NL; }
    return l;
}
static uint64_t cnt_pairs(void) { return (uint64_t)NK * NPFX; }
static void run_pairs(uint64_t c)
{
    int x = c % NK, p = c / NK, y, i; unsigned char a[400], b[400], *ka, *kb; size_t la = mkkey(x, p, a), lb; uint64_t calls = 0;
    ka = mc_xmalloc(la + !la); memcpy(ka, a, la);
    for(y = 0; y < NK; y++) {
        size_t m; int o, fl; const VALUE* ks[3]; VALUE* it;
        lb = mkkey(y, p, b); kb = mc_xmalloc(lb + !lb); memcpy(kb, b, lb);
        /* independent lexicographic order by unsigned bytes */
        for(m = 0; m < la && m < lb && a[m] == b[m]; m++) ;
        o = m < la && m < lb ? (a[m] < b[m] ? -1 : 1) : la < lb ? -1 : la > lb;
        fl = (x + y) & 1;
        MC_ASSERT((fl ? value_init_dict_ex(&v, NULL, VALUE_DICT_MAINTAINORDER) : value_init_dict(&v)) == 0, "init");
        it = value_dict_add_(&v, (char*)ka, la); MC_ASSERT(it, "add"); value_init_int32(it, 1);
        it = value_dict_get_(&v, (char*)kb, lb);
        MC_ASSERT((it != NULL) == (o == 0), "a dictionary with one key %s another", o ? "finds it under" : "does not find it under an equal");
        it = value_dict_add_(&v, (char*)kb, lb);
        MC_ASSERT((it == NULL) == (o == 0), "adding the second key is wrongly %s", o ? "refused" : "accepted");
        if(it) value_init_int32(it, 2);
        MC_ASSERT(value_dict_size(&v) == (o ? 2 : 1), "size");
        MC_ASSERT(value_int32(value_dict_get_(&v, (char*)ka, la)) == 1 && value_int32(value_dict_get_(&v, (char*)kb, lb)) == (o ? 2 : 1), "values are mixed up");
        MC_ASSERT(value_dict_keys_sorted(&v, ks, 3) == (o ? 2 : 1), "listing");
        if(o) for(i = 0; i < 2; i++) {
            int first = (o < 0) == (i == 0);
            MC_ASSERT(value_string_length(ks[i]) == (first ? la : lb) && memcmp(value_string(ks[i]), first ? a : b, first ? la : lb) == 0, "two keys are not listed in lexicographic order");
        }
        MC_ASSERT(value_dict_remove_(&v, (char*)ka, la) == 0, "removal is refused");
        MC_ASSERT(value_dict_get_(&v, (char*)ka, la) == NULL, "a removed key is found");
        MC_ASSERT((value_dict_get_(&v, (char*)kb, lb) != NULL) == (o != 0), "removal of one key changed the other");
        value_fini(&v);
        mc_xfree(kb); calls += 11;
    }
    mc_xfree(ka);
    MC_ASSERT(mc_live_blocks() == 0, "leak");
    mc_count_calls(calls); mc_count_trace(NK);
}
static void describe_pairs(uint64_t c, char* b, size_t sz) { snprintf(b, sz, "key number %d behind a common prefix of %d bytes against all others", (int)(c % NK), prefix_len[c / NK]); }

/* ---- C strings, NULL keys, non-dictionaries */
static int never(const VALUE* k, VALUE* x, void* c) { mc_fail("a visitor was called"); return 0; }
static uint64_t cnt_misc(void) { return 2 + 11; }
static void run_misc(uint64_t c)
{
    VALUE* it, *it2; const VALUE* ks[8];
    if(c < 2) {
        MC_ASSERT(value_init_dict_ex(&v, NULL, c ? VALUE_DICT_MAINTAINORDER : 0) == 0, "init");
        MC_ASSERT(value_dict_get(&v, NULL) == NULL && value_dict_get(&v, "") == NULL && value_dict_get_(&v, NULL, 0) == NULL && value_dict_remove(&v, NULL) != 0, "an empty dictionary has the empty key");
        it = value_dict_add(&v, NULL); MC_ASSERT(it && value_is_new(it), "adding the NULL key failed"); value_init_int32(it, 7);
        MC_ASSERT(value_dict_get(&v, "") == it && value_dict_get(&v, NULL) == it && value_dict_get_(&v, "x", 0) == it && value_dict_get_(&v, NULL, 0) == it, "the NULL key is not the empty key");
        MC_ASSERT(value_dict_add(&v, "") == NULL && value_dict_add(&v, NULL) == NULL && value_dict_add_(&v, NULL, 0) == NULL, "the empty key was added twice");
        MC_ASSERT(value_dict_get_or_add(&v, NULL) == it && value_dict_get_or_add(&v, "") == it && value_dict_get_or_add_(&v, NULL, 0) == it, "get-or-add of the empty key");
        it2 = value_dict_add(&v, "foo"); MC_ASSERT(it2 && value_is_new(it2), "add");
        MC_ASSERT(value_dict_add(&v, "foo") == NULL, "a present but still new key was added again");
        MC_ASSERT(value_dict_get_or_add(&v, "foo") == it2 && value_is_new(it2), "get-or-add of a still new key");
        MC_ASSERT(value_dict_get_(&v, "foobar", 3) == it2 && value_dict_get_(&v, "foo", 4) == NULL && value_dict_get_(&v, "foo", 2) == NULL && value_dict_get(&v, "foobar") == NULL, "key lengths are not respected");
        it2 = value_dict_add_(&v, "foo\0", 4); MC_ASSERT(it2, "add with an embedded zero");
        MC_ASSERT(value_dict_get(&v, "foo\0") != it2 && value_dict_size(&v) == 3, "embedded zero");
        it2 = value_dict_get_or_add(&v, "b"); MC_ASSERT(it2 && value_is_new(it2), "get-or-add");
        MC_ASSERT(value_dict_keys_sorted(&v, ks, 8) == 4 && value_string_length(ks[0]) == 0 && !strcmp(value_string(ks[1]), "b") && value_string_length(ks[2]) == 3 && value_string_length(ks[3]) == 4, "sorted keys");
        MC_ASSERT(value_dict_remove(&v, NULL) == 0 && value_dict_remove(&v, "") != 0 && value_dict_remove(&v, "foo") == 0 && value_dict_remove(&v, "foo") != 0 && value_dict_remove_(&v, "foo\0", 4) == 0 && value_dict_remove(&v, "b") == 0 && value_dict_size(&v) == 0, "removals");
        MC_ASSERT(value_dict_keys_sorted(&v, ks, 8) == 0 && value_dict_walk_sorted(&v, never, NULL) == 0, "an empty dictionary lists keys");
        value_dict_clean(&v);
        MC_ASSERT(value_dict_flags(&v) == (c ? VALUE_DICT_MAINTAINORDER : 0) && value_dict_add(&v, "again") != NULL && value_dict_size(&v) == 1, "reuse after clean");
        MC_ASSERT(value_dict_keys_ordered(&v, ks, 8) == c, "ordered keys");
    } else {
        VALUE* x = &v; char raw[sizeof v];
        memset(&v, 0, sizeof v);
        switch(c - 2) {
        case 0: x = NULL; break; case 1: value_init_null(&v); break; case 2: value_init_bool(&v, 1); break; case 3: value_init_int32(&v, 5); break; case 4: value_init_uint64(&v, 5); break; case 5: value_init_float(&v, 5); break;
        case 6: value_init_double(&v, 5); break; case 7: value_init_string(&v, "abc"); break; case 8: value_init_string(&v, "a string which is not stored inline"); break; case 9: value_init_array(&v); break; case 10: value_init_array(&v); value_array_append(&v); break;
        }
        memcpy(raw, &v, sizeof v);
        MC_ASSERT(value_dict_size(x) == 0 && value_dict_flags(x) == 0 && value_dict_get(x, "a") == NULL && value_dict_get_(x, "a", 1) == NULL && value_dict_get(x, NULL) == NULL, "something is found in what is not a dictionary");
        MC_ASSERT(value_dict_keys_sorted(x, ks, 8) == 0 && value_dict_keys_ordered(x, ks, 8) == 0, "keys are listed of what is not a dictionary");
        value_dict_walk_sorted(x, never, NULL); value_dict_walk_ordered(x, never, NULL);
        if(x != NULL) {
            MC_ASSERT(value_dict_add(x, "a") == NULL && value_dict_get_or_add(x, "a") == NULL && value_dict_add_(x, NULL, 0) == NULL && value_dict_remove(x, "a") != 0, "what is not a dictionary is modified");
            value_dict_clean(x);
        }
        MC_ASSERT(memcmp(raw, &v, sizeof v) == 0, "dictionary operations changed what is not a dictionary");
    }
    value_fini(&v);
    MC_ASSERT(mc_live_blocks() == 0, "leak");
    mc_count_calls(30); mc_count_trace(1);
}
static void describe_misc(uint64_t c, char* b, size_t sz) { snprintf(b, sz, "C string and NULL keys, wrong types (case %d)", (int)c); }

/* ---- keys of every length around a power of two or ten: keys which differ only at their end, by one byte in length, in the middle ... */
static const EDGES ek_q = { 1, 17, 3, 1 }, ek_t = { 1, 21, 6, 1 };
#define EK (mc_thorough ? &ek_t : &ek_q)
#define KV 9
static size_t kv_make(size_t L, int x, char** out)      /* an exact-size copy */
{
    size_t l = x == 2 ? L - 1 : x == 3 ? L + 1 : x == 8 ? 2 * L : L; char* k = mc_xmalloc(l + !l); memset(k, 'a', l);
    switch(x) { case 1: k[l - 1] = 'b'; break; case 4: k[l - 1] = 0; break; case 5: k[0] = 'b'; break; case 6: k[l / 2] = (char)0xff; break; case 7: k[l / 2] = 'A'; break; }
    *out = k; return l;
}
static uint64_t cnt_kl(void) { return edge_count(EK) * 4; }
static void run_kl(uint64_t c)
{
    size_t L = edge_at(EK, c / 4), l[KV]; char* k[KV]; int i, j, srt[KV], add[KV], here[KV] = { 0 }, cnt = 0; const VALUE* ks[KV + 1];
    if(L < 4) return;
    keep = c & 1; memset(&v, 0x5A, sizeof v); mc_alloc_begin(); MC_ASSERT(value_init_dict_ex(&v, NULL, keep ? VALUE_DICT_MAINTAINORDER : 0) == 0, "init failed");
    for(i = 0; i < KV; i++) { l[i] = kv_make(L, i, &k[i]); srt[i] = i; add[i] = c / 2 % 2 ? KV - 1 - i : (i * 5) % KV; }
    for(i = 1; i < KV; i++) for(j = i; j > 0; j--) { int a = srt[j - 1], b = srt[j], r = memcmp(k[a], k[b], l[a] < l[b] ? l[a] : l[b]); if(r > 0 || (r == 0 && l[a] > l[b])) { srt[j - 1] = b; srt[j] = a; } }
    for(j = 0; j < 2 * KV; j++) {
        int x = add[j % KV], q; VALUE* it; size_t got; mc_beat();
        if(j < KV) {
            MC_ASSERT(value_dict_get_(&v, k[x], l[x]) == NULL && value_dict_remove_(&v, k[x], l[x]) != 0, "key %d (%zu bytes) is there before it is added", x, l[x]);
            it = j & 1 ? value_dict_add_(&v, k[x], l[x]) : value_dict_get_or_add_(&v, k[x], l[x]); MC_ASSERT(it && value_is_new(it), "key %d (%zu bytes) is not added", x, l[x]); value_init_int32(it, x); here[x] = 1; cnt++;
            MC_ASSERT(value_dict_add_(&v, k[x], l[x]) == NULL && value_dict_get_or_add_(&v, k[x], l[x]) == it, "key %d (%zu bytes) is added twice", x, l[x]);
        } else { MC_ASSERT(value_dict_remove_(&v, k[x], l[x]) == 0, "key %d (%zu bytes) is not removed", x, l[x]); here[x] = 0; cnt--; }
        MC_ASSERT(value_dict_size(&v) == (size_t)cnt, "size is %zu, expected %d", value_dict_size(&v), cnt);
        for(i = 0; i < KV; i++) { it = value_dict_get_(&v, k[i], l[i]); MC_ASSERT(here[i] ? it && value_type(it) == VALUE_INT32 && value_int32(it) == i : it == NULL, "lookup of %s key %d (%zu bytes) is wrong", here[i] ? "present" : "absent", i, l[i]); }
        { char* z = mc_xmalloc(L + 1); memset(z, 'a', L); z[L] = 0; it = value_dict_get(&v, z); MC_ASSERT(it == (here[0] ? value_dict_get_(&v, k[0], l[0]) : NULL), "lookup by a C string of %zu bytes", L); mc_xfree(z); }
        got = value_dict_keys_sorted(&v, ks, KV); MC_ASSERT(got == (size_t)cnt, "sorted listing gives %zu of %d keys", got, cnt);
        for(i = q = 0; i < KV; i++) if(here[srt[i]]) { MC_ASSERT(value_string_length(ks[q]) == l[srt[i]] && memcmp(value_string(ks[q]), k[srt[i]], l[srt[i]]) == 0 && value_string(ks[q])[l[srt[i]]] == 0, "sorted listing: key %d is wrong (length %zu)", q, L); q++; }
        if(keep) { got = value_dict_keys_ordered(&v, ks, KV); for(i = q = 0; i < KV; i++) if(here[add[i]]) { MC_ASSERT((size_t)q < got && value_string_length(ks[q]) == l[add[i]] && memcmp(value_string(ks[q]), k[add[i]], l[add[i]]) == 0, "ordered listing: key %d is wrong (length %zu)", q, L); q++; } MC_ASSERT(got == (size_t)q, "ordered listing gives %zu keys", got); }
    }
    value_fini(&v); MC_ASSERT(mc_live_blocks() == 0, "leak"); for(i = 0; i < KV; i++) mc_xfree(k[i]);
    mc_count_calls(KV * 2 * (KV + 8)); mc_count_trace(1);
}
static void describe_kl(uint64_t c, char* b, size_t z) { snprintf(b, z, "keys of about %zu bytes, variant %d", edge_at(EK, c / 4), (int)(c % 4)); }

/* ---- the comparer uses another dictionary: all orders of insertion and removal of 4 (5) keys, with an operation on the other one at each comparison */
#define NI 7
static VALUE in_d; static char in_here[NI]; static int in_mode, in_step;
static int in_cmp(const char* a, size_t al, const char* b, size_t bl) { MC_ASSERT(al == 2 && bl == 2, "keys of %zu and %zu bytes are compared", al, bl); return (unsigned char)b[1] - (unsigned char)a[1]; }
static void in_key(int k, char* b) { b[0] = 'k'; b[1] = 'a' + k; b[2] = 0; }
static void in_check(void) { const VALUE* ks[NI + 1]; int k, c = 0, i; char b[3]; size_t got; for(k = 0; k < NI; k++) c += in_here[k]; got = value_dict_keys_sorted(&in_d, ks, NI + 1); MC_ASSERT(got == (size_t)c, "the dictionary used by the comparer lists %zu of %d keys", got, c); for(k = NI - 1, i = 0; k >= 0; k--) if(in_here[k]) { in_key(k, b); MC_ASSERT(strcmp(value_string(ks[i]), b) == 0 && value_int32(value_dict_get(&in_d, b)) == k, "the dictionary used by the comparer is damaged"); i++; } }
static void in_toggle(int k) { char b[3]; in_key(k, b); if(in_here[k]) { MC_ASSERT(value_dict_remove(&in_d, b) == 0, "removal within a comparison"); in_here[k] = 0; } else { VALUE* x = value_dict_get_or_add(&in_d, b); MC_ASSERT(x && value_is_new(x) && value_init_int32(x, k) == 0, "addition within a comparison"); in_here[k] = 1; } }
static int in_visit(const VALUE* k, VALUE* x, void* ctx) { MC_ASSERT(value_string(k)[1] == 'a' + value_int32(x) && in_here[value_int32(x)], "walk within a comparison"); ++*(int*) ctx; return 0; }
static void in_act(void)
{
    int s = in_step++, k, c = 0; char b[3];
    switch(in_mode) {
    case 0: in_key(s % NI, b); MC_ASSERT((value_dict_get(&in_d, b) != NULL) == in_here[s % NI], "lookup within a comparison"); break;
    case 1: in_toggle(s * 3 % NI); break;
    case 2: for(k = 0; k < NI; k++) c -= in_here[k]; value_dict_walk_sorted(&in_d, in_visit, &c); MC_ASSERT(c == 0, "a walk within a comparison misses %d", -c); break;
    default: if(s & 1) for(k = 0; k < NI; k++) { if(!in_here[k]) in_toggle(k); } else { value_dict_clean(&in_d); memset(in_here, 0, sizeof in_here); in_check(); } break;
    }
}
static int out_cmp(const char* a, size_t al, const char* b, size_t bl) { in_act(); return in_cmp(a, al, b, bl); }
static int nest_n(void) { return mc_thorough ? 5 : 4; }
static uint64_t nest_f(void) { uint64_t f = 1; int i; for(i = 2; i <= nest_n(); i++) f *= i; return f; }
static uint64_t cnt_nest(void) { return nest_f() * nest_f() * 8; }
static void nest_perm(uint64_t k, int m, int* p) { int i, j, used[8] = { 0 }; for(i = 0; i < m; i++) { int d = k % (m - i); k /= m - i; for(j = 0; ; j++) if(!used[j] && d-- == 0) break; used[j] = 1; p[i] = j; } }
static void run_nest(uint64_t c)
{
    int m = nest_n(), i, j, k, x, pi[8], pr[8], cnt = 0; char here[8] = { 0 }, b[3]; VALUE d; VALUE* it; const VALUE* ks[8];
    in_mode = c % 4; x = c / 4 & 1; c /= 8; nest_perm(c % nest_f(), m, pi); nest_perm(c / nest_f(), m, pr); in_step = (int)c;
    mc_alloc_begin(); MC_ASSERT(value_init_dict_ex(&in_d, in_cmp, 0) == 0 && value_init_dict_ex(&d, out_cmp, x ? VALUE_DICT_MAINTAINORDER : 0) == 0, "init"); memset(in_here, 0, sizeof in_here); for(k = 1; k < NI; k += 2) in_toggle(k);
    for(i = 0; i < 2 * m; i++) {
        k = i < m ? pi[i] : pr[i - m]; in_key(k, b);
        if(i < m) { MC_ASSERT(value_dict_get_(&d, b, 2) == NULL, "key %d is there before it is added", k); it = i & 1 ? value_dict_add_(&d, b, 2) : value_dict_get_or_add_(&d, b, 2); MC_ASSERT(it && value_is_new(it), "addition of key %d", k); value_init_int32(it, k); here[k] = 1; cnt++; MC_ASSERT(value_dict_add_(&d, b, 2) == NULL, "an equal key is taken"); }
        else { MC_ASSERT((it = value_dict_get_(&d, b, 2)) != NULL && value_int32(it) == k, "lookup of key %d", k); MC_ASSERT(value_dict_remove_(&d, b, 2) == 0 && value_dict_remove_(&d, b, 2) != 0, "removal of key %d", k); here[k] = 0; cnt--; }
        MC_ASSERT(value_dict_keys_sorted(&d, ks, 8) == (size_t)cnt, "number of keys after step %d", i);
        for(j = 0, k = m - 1; k >= 0; k--) if(here[k]) { MC_ASSERT(value_string(ks[j])[1] == 'a' + k, "wrong order after step %d", i); j++; }
        if(x) { MC_ASSERT(value_dict_keys_ordered(&d, ks, 8) == (size_t)cnt, "number of ordered keys after step %d", i); for(j = 0, k = 0; k < m && k <= i; k++) if(here[pi[k]]) { MC_ASSERT(value_string(ks[j])[1] == 'a' + pi[k], "wrong insertion order after step %d", i); j++; } }
        in_check();
    }
    value_fini(&d); value_fini(&in_d); MC_ASSERT(mc_live_blocks() == 0, "leak"); mc_count_calls(5 * m); mc_count_trace(1);
}
static void desc_nest(uint64_t c, char* b, size_t z) { static const char* w[] = { "looks up in", "updates", "walks", "cleans" }; int pi[8], pr[8], i, u; nest_perm(c / 8 % nest_f(), nest_n(), pi); nest_perm(c / 8 / nest_f(), nest_n(), pr); u = snprintf(b, z, "the comparer %s another dictionary; keys added", w[c % 4]); for(i = 0; i < nest_n(); i++) u += snprintf(b + u, z - u, " %d", pi[i]); u += snprintf(b + u, z - u, ", removed"); for(i = 0; i < nest_n(); i++) u += snprintf(b + u, z - u, " %d", pr[i]); }

/* ---- very large dictionaries */
static uint64_t cnt_lg(void) { return 2 * 4 * 4; }
static int lg_m(uint64_t c) { return mc_thorough ? (c % 2 ? 300000 : 1100000) : c % 2 ? 66000 : 132000; }
static int lg_at(int how, int m, int i) { return how == 0 ? i : how == 1 ? m - 1 - i : how == 2 ? (i & 1 ? m - 1 - i / 2 : i / 2) : (int)((uint64_t)i * 7919 % m); }
static void lg_key(int x, char* k) { k[0] = x >> 24; k[1] = x >> 16; k[2] = x >> 8; k[3] = x; k[4] = 'k'; }
static unsigned long lg_cmps; static int lg_cmp(const char* a, size_t al, const char* b, size_t bl) { int r = memcmp(a, b, al < bl ? al : bl); lg_cmps++; return r ? r : al < bl ? -1 : al > bl; }
static void lg_lists(int m, int hi, int ho, const char* here)
{
    static const VALUE** ks; static int cap; int i, q, cnt = value_dict_size(&v); char b[5]; size_t got;
    if(cap < m) { ks = mc_xrealloc(ks, m * sizeof *ks); cap = m; }
    got = value_dict_keys_sorted(&v, ks, m); MC_ASSERT(got == (size_t)cnt, "sorted listing gives %zu of %d keys", got, cnt);
    for(i = q = 0; i < m; i++) if(here[i]) { lg_key(i, b); MC_ASSERT(q < cnt && value_string_length(ks[q]) == 5 && memcmp(value_string(ks[q]), b, 5) == 0, "sorted listing of %d keys is wrong at %d", cnt, q); q++; }
    MC_ASSERT(q == cnt, "%d keys instead of %d", cnt, q);
    got = value_dict_keys_ordered(&v, ks, m); MC_ASSERT(got == (keep ? (size_t)cnt : 0), "ordered listing gives %zu of %d keys", got, cnt);
    if(keep) for(i = q = 0; i < m; i++) if(here[lg_at(hi, m, i)]) { lg_key(lg_at(hi, m, i), b); MC_ASSERT(memcmp(value_string(ks[q]), b, 5) == 0, "ordered listing of %d keys is wrong at %d", cnt, q); q++; }
    mc_beat();
}
static void run_lg(uint64_t c)
{
    int m = lg_m(c), hi = c / 2 % 4, ho = c / 8 % 4, i, mark = m / 2; char* here; char b[5]; VALUE* it;
    while(m % 7919 == 0) m++;
    keep = (hi + ho) & 1; memset(&v, 0, sizeof v); mc_alloc_begin(); MC_ASSERT(value_init_dict_ex(&v, c % 2 ? lg_cmp : NULL, keep ? VALUE_DICT_MAINTAINORDER : 0) == 0, "init failed");
    here = mc_xcalloc(m, 1);
    for(i = 0; i < m; i++) {
        int x = lg_at(hi, m, i); lg_key(x, b); lg_cmps = 0; it = i % 3 ? value_dict_add_(&v, b, 5) : value_dict_get_or_add_(&v, b, 5); MC_ASSERT(it && value_is_new(it), "key %d is not added to %d", x, i);
        MC_CHECK("C18", lg_cmps <= 2 * bound(i + 1), "adding to %d keys compares %lu of them", i, lg_cmps);
        value_init_int32(it, x); here[x] = 1; MC_ASSERT(value_dict_size(&v) == (size_t)i + 1, "size is %zu, expected %d", value_dict_size(&v), i + 1);
        if((i & 4095) == 0) mc_beat(); if((i & (i + 1)) == 0) lg_lists(m, hi, ho, here);
    }
    lg_lists(m, hi, ho, here);
    for(i = 0; i < m; i++) { lg_key(i, b); lg_cmps = 0; it = value_dict_get_(&v, b, 5); MC_ASSERT(it && value_int32(it) == i, "key %d of %d is lost", i, m); MC_CHECK("C18", lg_cmps <= bound(m), "a lookup among %d keys compares %lu of them", m, lg_cmps); MC_ASSERT(value_dict_get_(&v, b, 4) == NULL, "a prefix of a key is found"); }
    for(i = 0; i < m; i++) {
        int x = lg_at(ho, m, i); lg_key(x, b); lg_cmps = 0; MC_ASSERT(value_dict_remove_(&v, b, 5) == 0, "key %d is not removed from %d", x, m - i); here[x] = 0; MC_CHECK("C18", lg_cmps <= 2 * bound(m - i), "removing from %d keys compares %lu of them", m - i, lg_cmps);
        MC_ASSERT(value_dict_get_(&v, b, 5) == NULL && value_dict_size(&v) == (size_t)(m - 1 - i), "after removal of key %d the size is %zu, expected %d", x, value_dict_size(&v), m - 1 - i);
        if((i & 4095) == 0) mc_beat(); if(m - 1 - i == mark) { mark /= 2; lg_lists(m, hi, ho, here); if(hi == 3 && mark < m / 4) { value_dict_clean(&v); memset(here, 0, m); lg_lists(m, hi, ho, here); break; } }
    }
    value_fini(&v); MC_ASSERT(mc_live_blocks() == 0, "leak"); mc_xfree(here); mc_count_calls(4 * m); mc_count_trace(1);
}
static void describe_lg(uint64_t c, char* b, size_t z) { snprintf(b, z, "%d keys added in order %d and removed in order %d", lg_m(c), (int)(c / 2 % 4), (int)(c / 8 % 4)); }

/* ---- deep dictionaries: keys in one direction, for paths of more than 40 nodes */
static uint64_t cnt_dp(void) { return 2; }
#define DP_M (mc_thorough ? 4800000 : 2400000)
static int dp_x; static int dp_visit(const VALUE* k, VALUE* it, void* c) { char b[5]; lg_key(dp_x, b); MC_ASSERT(value_string_length(k) == 5 && memcmp(value_string(k), b, 5) == 0 && value_int32(it) == dp_x, "the walk is wrong at %d", dp_x); dp_x++; if((dp_x & 65535) == 0) mc_beat(); return c != NULL && dp_x > 10; }
static void run_dp(uint64_t c)
{
    int m = DP_M, i, r; char b[5]; VALUE* it; const VALUE* ks[64];
    memset(&v, 0, sizeof v); mc_alloc_begin(); MC_ASSERT(value_init_dict_ex(&v, lg_cmp, 0) == 0, "init failed");
    for(i = 0; i < m; i++) {
        int x = c ? m - 1 - i : i; lg_key(x, b); lg_cmps = 0; it = value_dict_add_(&v, b, 5); MC_ASSERT(it && value_is_new(it), "key %d is not added to %d", x, i); value_init_int32(it, x);
        MC_CHECK("C18", lg_cmps <= 2 * bound(i + 1), "adding to %d keys compares %lu of them", i, lg_cmps); if((i & 4095) == 0) mc_beat();
    }
    MC_ASSERT(value_dict_size(&v) == (size_t)m, "size is %zu, expected %d", value_dict_size(&v), m);
    dp_x = 0; r = value_dict_walk_sorted(&v, dp_visit, NULL); MC_ASSERT(r == 0 && dp_x == m, "the walk gives %d of %d keys", dp_x, m);
    dp_x = 0; r = value_dict_walk_sorted(&v, dp_visit, &v); MC_ASSERT(r == 1 && dp_x == 11, "a stopped walk gives %d keys", dp_x);
    MC_ASSERT(value_dict_keys_sorted(&v, ks, 64) == 64, "keys are missing"); for(i = 0; i < 64; i++) { lg_key(i, b); MC_ASSERT(memcmp(value_string(ks[i]), b, 5) == 0, "key %d", i); }
    for(i = 0; i < m; i++) { lg_key(i, b); lg_cmps = 0; it = i & 1 ? value_dict_get_(&v, b, 5) : value_dict_get_or_add_(&v, b, 5); MC_ASSERT(it && value_int32(it) == i, "key %d of %d is lost", i, m); MC_CHECK("C18", lg_cmps <= 2 * bound(m), "finding one of %d keys compares %lu of them", m, lg_cmps); if((i & 4095) == 0) mc_beat(); }
    for(i = 0; i < 20000; i++) { int x = i & 1 ? i / 2 : m - 1 - i / 2; lg_key(x, b); lg_cmps = 0; MC_ASSERT(value_dict_remove_(&v, b, 5) == 0 && value_dict_get_(&v, b, 5) == NULL, "key %d is not removed", x); MC_CHECK("C18", lg_cmps <= 4 * bound(m), "removing one of %d keys compares %lu of them", m, lg_cmps); }
    MC_ASSERT(value_dict_size(&v) == (size_t)m - 20000, "size is %zu", value_dict_size(&v));
    mc_beat(); value_dict_clean(&v); MC_ASSERT(value_dict_size(&v) == 0 && value_dict_keys_sorted(&v, ks, 64) == 0, "keys are left"); mc_beat();
    value_fini(&v); MC_ASSERT(mc_live_blocks() == 0, "leak"); mc_count_calls(3 * (uint64_t)m); mc_count_trace(1);
}
static void describe_dp(uint64_t c, char* b, size_t z) { snprintf(b, z, "%d keys added in %s order", DP_M, c ? "falling" : "rising"); }

/* ---- keys of gigabytes */
static int hk_cmp(const char* a, size_t al, const char* b, size_t bl) { int r = memcmp(a, b, al < bl ? al : bl); return r ? r : al < bl ? -1 : al > bl; }
static void hk(uint64_t c)
{
    static const size_t szs[] = { ((size_t)1 << 31) + 1, ((size_t)1 << 32) + 1, ((size_t)1 << 31), ((size_t)1 << 32), ((size_t)1 << 32) - 1, 65537 };
    size_t n1 = szs[c / 2 % 3 * 2], n2 = szs[c / 2 % 3 * 2 + 1], t; int i, j, cmp = (int)(c & 1); VALUE* it[5]; const VALUE* ks[8]; size_t len[5]; char* k = vast('k', ((size_t)1 << 32) + 8, "", "");
    if(k == NULL) { fprintf(stderr, "harness: no mapping\n"); abort(); }
    if(n1 > n2) { t = n1; n1 = n2; n2 = t; }
    len[0] = 0; len[1] = 1; len[2] = 2; len[3] = n1; len[4] = n2;
    memset(&v, 0, sizeof v); mc_alloc_begin(); MC_ASSERT(value_init_dict_ex(&v, cmp ? hk_cmp : NULL, VALUE_DICT_MAINTAINORDER) == 0, "init failed");
    for(i = 0; i < 3; i++) { it[i] = value_dict_add_(&v, k, len[i]); MC_ASSERT(it[i], "add"); value_init_int32(it[i], i); }
    for(i = 3; i < 5; i++) {
        MC_ASSERT(value_dict_get_(&v, k, len[i]) == NULL, "a key of %zu bytes is found in a dictionary of short ones", len[i]); MC_ASSERT(value_dict_remove_(&v, k, len[i]) != 0 && value_dict_size(&v) == 3, "a key of %zu bytes is removed from a dictionary without it", len[i]); mc_beat();
        mc_fail_plan(-1); MC_ASSERT(value_dict_add_(&v, k, len[i]) == NULL && value_dict_get_or_add_(&v, k, len[i]) == NULL && value_dict_size(&v) == 3, "a key of %zu bytes is added without memory", len[i]); mc_fail_plan(0); mc_beat();
    }
    for(i = 4; i >= 3; i--) { it[i] = i & 1 ? value_dict_add_(&v, k, len[i]) : value_dict_get_or_add_(&v, k, len[i]); MC_ASSERT(it[i] && value_is_new(it[i]), "a key of %zu bytes is not added", len[i]); value_init_int32(it[i], i); mc_beat(); }
    MC_ASSERT(value_dict_size(&v) == 5 && value_dict_keys_sorted(&v, ks, 8) == 5, "size");
    for(i = 0; i < 5; i++) { MC_ASSERT(value_string_length(ks[i]) == len[i], "key %d has %zu bytes, expected %zu", i, value_string_length(ks[i]), len[i]); MC_ASSERT(value_string(ks[i])[len[i]] == 0 && (i < 1 || value_string(ks[i])[len[i] - 1] == 'k'), "key %d has changed", i); }
    for(i = 0; i < 5; i++) { MC_ASSERT(value_dict_get_(&v, k, len[i]) == it[i] && value_dict_add_(&v, k, len[i]) == NULL && value_dict_get_or_add_(&v, k, len[i]) == it[i], "a key of %zu bytes is not found", len[i]); mc_beat(); }
    MC_ASSERT(value_dict_get_(&v, k, n1 + 1) == NULL && value_dict_get_(&v, k, n2 + 1) == NULL && value_dict_get_(&v, k, n2 - 2) == NULL, "a key of another length is found"); mc_beat();
    for(j = 0, i = 3; j < 2; j++, i = 4) { MC_ASSERT(value_dict_remove_(&v, k, len[i]) == 0 && value_dict_get_(&v, k, len[i]) == NULL && value_dict_size(&v) == (size_t)(4 - j), "a key of %zu bytes is not removed", len[i]); mc_beat(); }
    for(i = 0; i < 3; i++) MC_ASSERT(value_dict_get_(&v, k, len[i]) == it[i] && value_int32(it[i]) == i, "another key was removed");
    MC_ASSERT(value_dict_keys_ordered(&v, ks, 8) == 3, "ordered listing");
    value_fini(&v); MC_ASSERT(mc_live_blocks() == 0, "leak"); vast_free(k, ((size_t)1 << 32) + 8, "", ""); mc_count_calls(40); mc_count_trace(1);
}
static uint64_t cnt_hk(void) { return 1; }
static size_t mem_kb(void) { FILE* f = fopen("/proc/meminfo", "r"); char l[200]; size_t k = 0; while(f && fgets(l, sizeof l, f)) if(sscanf(l, "MemAvailable: %zu", &k) == 1) break; if(f) fclose(f); return k; }
static void run_hk(uint64_t c) { size_t cap = mc_alloc_cap; if(mem_kb() < (size_t)14 << 20) { fprintf(stderr, "keys of gigabytes: skipped, too little memory\n"); return; } mc_alloc_cap = (size_t)1 << 44; for(c = 0; c < (mc_thorough ? 6 : 2); c++) { hk(c); mc_beat(); } mc_alloc_cap = cap; }     /* one after the other: they need 6 GB */
static void describe_hk(uint64_t c, char* b, size_t z) { (void)c; snprintf(b, z, "keys of 2^31+1 and 2^32+1 bytes, default and custom comparison"); }
__attribute__((constructor)) static void patience(void) { mc_hang_limit = 120; }     /* one call may work through gigabytes */

#define U(p, nm, q, a) { p, nm, q, a, 0, reset, n_ops, apply, canon, teardown, describe, 0, 0 }
/* arg: order*10000 + cmp*1000 + key form*100 + N */
MC_SYS mc_systems[] = {
    U("C17", "dict-default-inline-14", 1, 14), U("C17", "dict-default-heap-12", 1, 112), U("C17 C18", "dict-custom-11", 1, 1011), U("C17", "dict-reverse-11", 1, 2011), U("C17", "dict-coarse-11", 1, 3111), U("C17", "dict-long-keys-9", 1, 309),
    U("C18", "dict-custom-16", 1, 1016),
    U("C17 C19", "dict-ordered-7", 1, 10007), U("C19", "dict-ordered-custom-6", 1, 11106), U("C19", "dict-ordered-heap-5", 1, 10105), U("C17 C19", "dict-ordered-reverse-6", 1, 12006), U("C17", "dict-ordered-coarse-6", 1, 13106),
    U("C17", "dict-default-inline-18", 2, 18), U("C17", "dict-default-heap-15", 2, 115), U("C17", "dict-custom-13", 2, 1013), U("C17", "dict-reverse-13", 2, 2013), U("C17", "dict-coarse-13", 2, 3113), U("C17", "dict-long-keys-10", 2, 310),
    U("C18", "dict-custom-21", 2, 1021),
    U("C17 C19", "dict-ordered-8", 2, 10008), U("C19", "dict-ordered-custom-7", 2, 11107), U("C17 C19", "dict-ordered-reverse-7", 2, 12107), U("C17", "dict-ordered-coarse-7", 2, 13107),
    { "C17 C18 C19", "dict-nomerge", 1, 10206, 5, reset, n_ops, apply, canon_nm, teardown, describe, 0, 1 },
    { "C17 C18 C19", "dict-nomerge-deep", 2, 11206, 6, reset, n_ops, apply, canon_nm, teardown, describe, 0, 1 },
    { 0 }
};
MC_ENUM mc_enums[] = {
    { "C17 C18 C19", "dict-bulk", 3, 0, cnt_bulk, run_bulk, describe_bulk, 4 },
    { "C17 C19", "dict-nested", 3, 0, cnt_nest, run_nest, desc_nest, 64 },
    { "C17", "dict-key-lengths", 3, 0, cnt_kl, run_kl, describe_kl, 1 },
    { "C17 C18", "dict-deep", 3, 0, cnt_dp, run_dp, describe_dp, 1 },
    { "C17 C18 C19", "dict-large", 3, 0, cnt_lg, run_lg, describe_lg, 1 },
    { "C17", "dict-key-pairs", 3, 0, cnt_pairs, run_pairs, describe_pairs, 8 },
    { "C17", "dict-strings-and-types", 3, 0, cnt_misc, run_misc, describe_misc, 1 },
    { "C17", "dict-huge-keys", 3, 0, cnt_hk, run_hk, describe_hk, 1 },
    { 0 }
};
