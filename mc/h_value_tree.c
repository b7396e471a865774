/* C22 value hierarchies release everything and survive memory failure. */
#include "vtree.h"
static VALUE root; static int quota;
static const int plans[] = { 0, 1, -1, 2, -2, 3, -3, 4 };
static int nplans, nloc;
static const char* keys[] = { "a", "key-too-long-for-inline", "b" };
enum { L_ROOT, L_FIRST, L_LAST, L_FIRST_FIRST, L_LAST_LAST, L_FFF, L_N };
enum { I_INT, I_STR, I_BIG, I_ARR, I_DICT, I_ODICT, I_NULL, I_N };
enum { X_APP = I_N, X_INS0, X_REM0, X_REMLAST, X_REMALL, X_ACLEAN, X_AREFUSED, X_ADDA, X_ADDLONG, X_GOAB, X_DREMA, X_DREMFIRST, X_DREMLONG, X_DCLEAN, X_DREFUSED, X_PATH1, X_PATH2, X_FINI, X_N };
static const char* xn[] = { "fini and init int", "fini and init heap string", "fini and init 300-byte string", "fini and init array", "fini and init dict", "fini and init order-keeping dict", "fini and init null",
    "append", "insert at 0", "remove 0", "remove last", "remove_range all", "clean array", "refused array requests", "add \"a\"", "add long key", "get_or_add \"b\"", "remove \"a\"", "remove first key", "remove long key", "clean dict", "refused dict requests", "build \"b/[]/a\"", "build \"[]/[]\"", "fini" };
static const char* ln[] = { "root", "first child", "last child", "first grandchild", "last grandchild", "first great-grandchild" };
static T* locate(T* t, int l)
{
    int d = l == L_ROOT ? 0 : l <= L_LAST ? 1 : l <= L_LAST_LAST ? 2 : 3, last = l == L_LAST || l == L_LAST_LAST;
    while(d-- > 0) { if(t->nc == 0 || (last && t->nc == 1)) return NULL; t = t->c[last ? t->nc - 1 : 0]; }
    return t;
}
static void t_del(T* t, int i) { int j, o = t->order[i]; for(j = i; j + 1 < t->nc; j++) { t->c[j] = t->c[j+1]; memcpy(t->key[j], t->key[j+1], sizeof *t->key); t->keylen[j] = t->keylen[j+1]; t->order[j] = t->order[j+1]; } t->nc--; if(t->kind == T_DICT && o >= 0) for(j = 0; j < t->nc; j++) if(t->order[j] > o) t->order[j]--; }
static int t_key(T* t, const char* k) { int i, l = (int)strlen(k); for(i = 0; i < t->nc; i++) if(t->keylen[i] == l && !memcmp(t->key[i], k, l)) return i; return -1; }
static char expect[6][8192]; static int n_expect; static char now[8192];
static void allow(T* t) { t_text(t, expect[n_expect++], sizeof *expect); }
static void compare(int first, const char* what)
{
    int i;
    t_clear(); t_text(t_import(&root), now, sizeof now);
    for(i = first; i < n_expect; i++) if(strcmp(now, expect[i]) == 0) return;
    mc_fail("%s left %s, expected %s (it was %s)", what, now, expect[n_expect - 1], expect[0]);
}
static int init_as(VALUE* v, int k)
{
    static char big[300];
    switch(k) {
    case I_INT: return value_init_int32(v, 42);
    case I_STR: return value_init_string(v, "a string too long for storing inline");
    case I_BIG: memset(big, 'x', sizeof big); return value_init_string_(v, big, sizeof big);
    case I_ARR: return value_init_array(v);
    case I_DICT: return value_init_dict(v);
    case I_ODICT: return value_init_dict_ex(v, NULL, VALUE_DICT_MAINTAINORDER);
    case I_NULL: value_init_null(v); return 0;
    }
    return -1;
}
static void model_init(T* t, int k)
{
    VALUE tmp; T* x;
    int tr = mc_track; mc_track = 0;
    memset(&tmp, 0, sizeof tmp);
    if(init_as(&tmp, k) != 0) abort();
    x = t_import(&tmp); value_fini(&tmp);
    mc_track = tr;
    { VALUE* r = t->real; *t = *x; t->real = r; }
}
static void reset(void)
{
    quota = mc_arg % 10; nplans = mc_arg / 10 % 10; nloc = mc_arg / 100 % 10;
    memset(&root, 0, sizeof root);
}
static int n_ops(void) { return nloc * X_N * nplans; }
static int apply(int op)
{
    int plan = plans[op % nplans], x, l, i, rc = 0, fired, adding = 0; T* t; T* at; VALUE* v; VALUE* got = NULL; void* rem = NULL;
    op /= nplans; x = op % X_N; l = op / X_N;
    t_clear(); n_expect = 0; t = t_import(&root); at = locate(t, l);
    if(at == NULL) return 0;
    v = at->real; (void)rem;
    allow(t);
    /* is it enabled, and what is expected? */
    if(x < I_N) {
        /* no deeper than three levels */
        if(l == L_FFF && x >= I_ARR && x <= I_ODICT) return 0;
        if(plan && (x == I_INT || x == I_NULL) && plan != -1) return 0;
        value_fini(v);
        MC_ASSERT(value_type(v) == VALUE_NULL, "a finalized value is not null");
        at->kind = T_NULL; at->nc = 0; n_expect = 0; allow(t); at->kind = T_NEW; allow(t);
        model_init(at, x); allow(t);
        mc_fail_plan(plan); rc = init_as(v, x); fired = mc_fail_fired(); mc_fail_plan(0);
        MC_ASSERT(rc == 0 || rc == -1, "initialisation returned %d", rc);
        MC_ASSERT(rc == 0 || fired, "initialisation failed though memory was available");
        if(rc) n_expect = 2;
        compare(rc ? 0 : 2, xn[x]);
        return 1;
    }
    if(x == X_FINI) {
        if(plan && plan != -1) return 0;
        if(at->kind == T_NULL) return 0;
        mc_fail_plan(plan); value_fini(v); mc_fail_plan(0);
        at->kind = T_NULL; at->nc = 0; n_expect = 0; allow(t);
        compare(0, "fini"); return 1;
    }
    if(x >= X_APP && x <= X_AREFUSED && at->kind != T_ARRAY) return 0;
    if(x >= X_ADDA && x <= X_DREFUSED && at->kind != T_DICT) return 0;
    if(x == X_PATH1 || x == X_PATH2) {
        COMP c[8]; int n; const char* path = x == X_PATH1 ? "b/[]/a" : "[]/[]"; T* cur = at; int ok = 1;
        if(at->nc >= quota || (l != L_ROOT && l != L_FIRST)) return 0;
        n = t_parse(path, c, 8);
        for(i = 0; i < n; i++) {
            if(cur->kind == T_NEW) { cur->kind = c[i].kind ? T_ARRAY : T_DICT; cur->flags = 0; if(n_expect < 6) { } }
            if(cur->kind != (c[i].kind ? T_ARRAY : T_DICT)) { ok = 0; break; }
            if(c[i].kind == 0 && t_child(cur, &c[i]) >= 0) cur = cur->c[t_child(cur, &c[i])]; else cur = t_newchild(cur, c[i].key, c[i].kl);
        }
        if(!ok) return 0;       /* judged by C21 */
        allow(t);
        mc_fail_plan(plan); got = value_build_path(v, path); fired = mc_fail_fired(); mc_fail_plan(0);
        MC_ASSERT(got || fired, "building a path failed though memory was available");
        if(got) compare(1, "building a path");
        else { t_clear(); t_import(&root); }        /* which parts a failed build may leave behind is judged by C21 */
        return 1;
    }
    switch(x) {
    case X_APP: case X_INS0:
        if(at->nc >= quota) return 0;
        adding = 1; t_newchild(at, NULL, 0);
        if(x == X_INS0) { T* y = at->c[at->nc - 1]; memmove(at->c + 1, at->c, (at->nc - 1) * sizeof *at->c); at->c[0] = y; }
        break;
    case X_REM0: if(!at->nc) return 0; t_del(at, 0); break;
    case X_REMLAST: if(at->nc < 2) return 0; t_del(at, at->nc - 1); break;
    case X_REMALL: case X_ACLEAN: case X_DCLEAN: if(!at->nc) return 0; at->nc = 0; break;
    case X_ADDA: case X_ADDLONG: case X_GOAB: { const char* k = keys[x - X_ADDA]; if(at->nc >= quota || t_key(at, k) >= 0) return 0; adding = 1; t_newchild(at, k, (int)strlen(k)); break; }
    case X_DREMA: case X_DREMLONG: i = t_key(at, x == X_DREMA ? keys[0] : keys[1]); if(i < 0) return 0; t_del(at, i); break;
    case X_DREMFIRST: if(at->nc < 2) return 0; t_del(at, 0); break;
    case X_AREFUSED: case X_DREFUSED: break;
    }
    if(!adding && plan && plan != -1) return 0;
    allow(t);
    mc_fail_plan(plan);
    switch(x) {
    case X_APP: got = value_array_append(v); break;
    case X_INS0: got = value_array_insert(v, 0); break;
    case X_REM0: rc = value_array_remove(v, 0); break;
    case X_REMLAST: rc = value_array_remove(v, value_array_size(v) - 1); break;
    case X_REMALL: rc = value_array_remove_range(v, 0, value_array_size(v)); break;
    case X_ACLEAN: value_array_clean(v); break;
    case X_DCLEAN: value_dict_clean(v); break;
    case X_ADDA: got = value_dict_add(v, keys[0]); break;
    case X_ADDLONG: got = value_dict_add(v, keys[1]); break;
    case X_GOAB: got = value_dict_get_or_add(v, keys[2]); break;
    case X_DREMA: rc = value_dict_remove(v, keys[0]); break;
    case X_DREMLONG: rc = value_dict_remove(v, keys[1]); break;
    case X_DREMFIRST: { const VALUE* k; char b[64]; size_t n; if(value_dict_keys_sorted(v, &k, 1) != 1) mc_fail("no key listed"); n = value_string_length(k); memcpy(b, value_string(k), n); rc = value_dict_remove_(v, b, n); break; }
    case X_AREFUSED: MC_ASSERT(value_array_insert(v, value_array_size(v) + 1) == NULL && value_array_remove(v, value_array_size(v)) && value_dict_add(v, "a") == NULL && value_dict_remove(v, "a") && value_dict_get_or_add(v, "a") == NULL, "an impossible request on an array succeeded"); value_dict_clean(v); break;
    case X_DREFUSED: MC_ASSERT(value_array_append(v) == NULL && value_array_insert(v, 0) == NULL && value_array_remove(v, 0) && value_dict_remove(v, "nokey"), "an impossible request on a dictionary succeeded"); { const VALUE* k; if(value_dict_keys_sorted(v, &k, 1) == 1) MC_ASSERT(value_dict_add_(v, value_string(k), value_string_length(k)) == NULL, "a used key was added"); } value_array_clean(v); break;
    }
    fired = mc_fail_fired(); mc_fail_plan(0);
    if(adding && got == NULL) {
        MC_ASSERT(fired, "%s failed though memory was available", xn[x]);
        n_expect = 1; compare(0, xn[x]);
    } else {
        MC_ASSERT(rc == 0, "%s returned %d", xn[x], rc);
        if(adding) MC_ASSERT(value_is_new(got), "%s returned a value which is not new", xn[x]);
        compare(1, xn[x]);
    }
    return 1;
}
static void describe(int op, char* b, size_t z) { int p = plans[op % nplans]; op /= nplans; snprintf(b, z, "%s: %s, failure plan %d", ln[op / X_N], xn[op % X_N], p); }
static void canon(MC_HASH* h)
{
    size_t i, n = mc_live_blocks(), sz; void* p; uint64_t sum = 0;
    t_clear(); t_text(t_import(&root), now, sizeof now);
    mc_hash_bytes(h, now, strlen(now) + 1);
    for(i = 0; i < n; i++) { mc_block_at(i, &p, &sz); sum += sz * sz * 31 + 7 * sz + 1; }
    mc_hash_u64(h, sum);
}
static void teardown(void) { value_fini(&root); MC_ASSERT(value_type(&root) == VALUE_NULL, "a finalized value is not null"); MC_ASSERT(mc_live_blocks() == 0, "%zu blocks leaked", mc_live_blocks()); value_fini(&root); }
/* deep and wide hierarchies with a failure at every allocation */
static const int depths[] = { 1, 2, 3, 10, 50, 200, 500, 1000 };
static int chain(VALUE* v, int depth, int pat)
{
    int i;
    memset(v, 0, sizeof *v);
    for(i = 0; i < depth; i++) {
        VALUE* n;
        switch((pat >> (i % 4 * 2)) & 3) {
        case 0: if(value_init_array(v)) return -1; n = value_array_append(v); if(n && i % 7 == 3) { if(value_init_string(n, "something long enough for the heap")) return -1; n = value_array_insert(v, 0); } break;
        case 1: if(value_init_dict(v)) return -1; n = value_dict_add(v, "k"); break;
        case 2: if(value_init_dict_ex(v, NULL, VALUE_DICT_MAINTAINORDER)) return -1; n = value_dict_add(v, "a key which needs its own block"); if(n) n = value_dict_get_or_add(v, "z"); break;
        default: n = value_build_path(v, ""); if(i == 0) { if(value_init_array(v)) return -1; n = value_array_append(v); } else n = value_build_path(v, i & 1 ? "p/[]/q" : "[]/p"); break;
        }
        if(n == NULL) return -1;
        v = n;
    }
    return value_init_string(v, "leaf too long for inline storage....");
}
static uint64_t cnt_deep(void) { return 8 * 256; }
static void run_deep(uint64_t c)
{
    VALUE v; int d = depths[c / 256], pat = (int)(c % 256), k; unsigned long total;
    MC_ASSERT(chain(&v, d, pat) == 0, "building failed though memory was available");
    total = mc_alloc_calls();
    value_fini(&v);
    MC_ASSERT(mc_live_blocks() == 0, "%zu blocks leaked (depth %d)", mc_live_blocks(), d);
    mc_count_calls(4 * d); mc_count_trace(1);
    if(d <= (mc_thorough ? 50 : 10)) for(k = 1; k <= (int)total; k++) {
        int both;
        for(both = 0; both < 2; both++) {
            mc_fail_plan(both ? -k : k);
            chain(&v, d, pat);
            mc_fail_plan(0);
            value_fini(&v);
            MC_ASSERT(mc_live_blocks() == 0, "%zu blocks leaked (depth %d, failure plan %d)", mc_live_blocks(), d, both ? -k : k);
            mc_count_calls(4 * d); mc_count_trace(1);
        }
    }
}
static void desc_deep(uint64_t c, char* b, size_t z) { snprintf(b, z, "chain of %d nested containers, pattern %d", depths[c / 256], (int)(c % 256)); }
#define S(nm, tier, loc, np, q, d, nm2) { "C22", nm, tier, (loc) * 100 + (np) * 10 + (q), d, reset, n_ops, apply, canon, teardown, describe, 0, nm2 }
MC_SYS mc_systems[] = {
    S("tree", 1, 4, 4, 2, 6, 0), S("tree-nomerge", 1, 2, 3, 2, 4, 1),
    S("tree-deep", 2, 6, 7, 2, 7, 0), S("tree-wide", 2, 3, 4, 3, 7, 0), S("tree-nomerge-deep", 2, 3, 3, 2, 5, 1),
    { 0 }
};
/* containers of many items, half of them removed, cleaned or finalized */
#include "edges.h"
static const EDGES* eg(void) { static const EDGES q = { 3, 14, 1, 0 }, t = { 3, 17, 2, 1 }; return mc_thorough ? &t : &q; }
#define NF 16
static uint64_t cnt_edge(void) { return NF * edge_count(eg()); }
static void child(VALUE* v, size_t k)
{
    VALUE* x;
    switch(k % 7) {
        case 0: MC_ASSERT(value_init_string(v, "a string that is too long to be inline") == 0, "string"); break;
        case 1: value_init_uint32(v, (uint32_t)k); break;
        case 2: value_init_array(v); for(int j = 0; j < 3; j++) { x = value_array_append(v); MC_ASSERT(x, "append"); child(x, 7 * j); } break;
        case 3: value_init_dict(v); x = value_dict_add(v, "another key that is too long to be inline"); MC_ASSERT(x, "add"); child(x, 0); break;
        case 4: value_init_dict_ex(v, NULL, VALUE_DICT_MAINTAINORDER); x = value_dict_add(v, "a"); MC_ASSERT(x, "add"); child(x, 2); break;
        case 5: value_init_string(v, "short"); break;
        default: value_init_null(v); break;
    }
}
static int child_ok(const VALUE* v, size_t k)
{
    if(v == NULL) return 0;
    switch(k % 7) {
        case 0: return value_type(v) == VALUE_STRING && strcmp(value_string(v), "a string that is too long to be inline") == 0;
        case 1: return value_type(v) == VALUE_UINT32 && value_uint32(v) == k;
        case 2: return value_array_size(v) == 3 && child_ok(value_array_get(v, 0), 0) && child_ok(value_array_get(v, 2), 0);
        case 3: return value_dict_size(v) == 1 && child_ok(value_dict_get(v, "another key that is too long to be inline"), 0);
        case 4: return value_dict_size(v) == 1 && child_ok(value_dict_get(v, "a"), 2);
        case 5: return value_type(v) == VALUE_STRING && strcmp(value_string(v), "short") == 0;
        default: return value_type(v) == VALUE_NULL;
    }
}
static void run_edge(uint64_t c)
{
    static size_t per[7]; static int known;
    size_t n = edge_at(eg(), c / NF), k, left, sum, live; int form = c % NF, dict = form / 4, how = form % 4; VALUE v; char key[80]; static const char* const kf[] = { "", "%zu", "key number %zu that is too long for inline", "%zx" };
    if(n == 0) return;
    mc_alloc_begin();
    if(!known) { for(k = 0; k < 7; k++) { child(&v, k); per[k] = mc_live_blocks(); value_fini(&v); MC_ASSERT(mc_live_blocks() == 0, "blocks are left"); } known = 1; }
    if(!dict) value_init_array(&v); else value_init_dict_ex(&v, NULL, dict == 3 ? VALUE_DICT_MAINTAINORDER : 0);
    for(k = 0; k < n; k++) { VALUE* x; if(dict) { snprintf(key, sizeof key, kf[dict], k); x = value_dict_add(&v, key); } else x = value_array_append(&v); MC_ASSERT(x != NULL, "item %zu is not added", k); child(x, k); }
    left = n;
    if(how == 1) {     /* remove the middle half: at once, or one by one */
        size_t from = n / 4, to = n - n / 4;
        if(!dict) MC_ASSERT(value_array_remove_range(&v, from, to - from) == 0, "not removed"); else for(k = from; k < to; k++) { snprintf(key, sizeof key, kf[dict], k); MC_ASSERT(value_dict_remove(&v, key) == 0, "item %zu is not removed", k); }
        left = n - (to - from); sum = 0;
        for(k = 0; k < n; k++) { if(k == from) { k = to; if(k == n) break; } if(dict) snprintf(key, sizeof key, kf[dict], k); MC_ASSERT(child_ok(dict ? value_dict_get(&v, key) : value_array_get(&v, k < from ? k : k - (to - from)), k), "item %zu has changed", k); sum += per[k % 7] + (dict ? 2 : 0); }
        live = mc_live_blocks(); MC_ASSERT(live <= sum + (to - from) / 4 + 8, "%zu blocks are live with %zu of %zu items left", live, left, n);
    } else if(how == 2) {
        if(dict) value_dict_clean(&v); else value_array_clean(&v);
        MC_ASSERT((dict ? value_dict_size(&v) : value_array_size(&v)) == 0, "not empty"); MC_ASSERT(mc_live_blocks() <= 4, "%zu blocks are live in an empty container", mc_live_blocks()); left = 0;
        { VALUE* x = dict ? value_dict_add(&v, "again") : value_array_append(&v); MC_ASSERT(x != NULL && value_is_new(x), "a cleaned container is not usable"); child(x, 3); left = 1; }
    } else if(how == 3) for(k = 0; k < n; k += 3) {       /* replace every third item */
        VALUE* x; if(dict) { snprintf(key, sizeof key, kf[dict], k); x = value_dict_get(&v, key); } else x = value_array_get(&v, k);
        MC_ASSERT(child_ok(x, k), "item %zu has changed", k); value_fini(x); MC_ASSERT(value_type(x) == VALUE_NULL, "a finalized value is not null"); child(x, k + 1);
    }
    MC_ASSERT((dict ? value_dict_size(&v) : value_array_size(&v)) == left, "the size is wrong");
    value_fini(&v); MC_ASSERT(value_type(&v) == VALUE_NULL, "a finalized value is not null"); MC_ASSERT(mc_live_blocks() == 0, "%zu blocks leaked", mc_live_blocks());
    mc_count_calls(n); mc_count_trace(1);
}
static void desc_edge(uint64_t c, char* b, size_t z) { snprintf(b, z, "%zu items, form %d", edge_at(eg(), c / NF), (int)(c % NF)); }
MC_ENUM mc_enums[] = { { "C22", "tree-chains", 3, 0, cnt_deep, run_deep, desc_deep, 4 }, { "C22", "edges-tree", 3, 0, cnt_edge, run_edge, desc_edge, 4 }, { 0 } };
