/* C39: the workloads. Together they call every module; each touches only objects of its own. */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include "threads.h"
#include "buffer.h"
#include "htable.h"
#include "list.h"
#include "rbtree.h"
#include "value.h"
#include "base64.h"
#include "hex.h"
#include "crc32.h"
#include "fnv1a.h"
#include "memchunk.h"
#include "malloca.h"
#include "cmdline.h"
#include "defs.h"

static unsigned char pat(int v, int i) { return (unsigned char)(i * 37 + v * 101 + (i >> 3) + 5); }
static void w_buffer(int v)
{
    BUFFER a, b; int i, n = v == 0 ? 3 : v == 1 ? 40 : 300; unsigned char x[8]; void* p; size_t s;
    buffer_init(&a); buffer_init(&b);
    for(i = 0; i < n; i++) { x[0] = pat(v, i); x[1] = pat(v, i + 7); tw_log("a%d ", buffer_append(&a, x, 1 + i % 2)); }
    tw_bytes(buffer_data(&a), buffer_size(&a));
    tw_log("i%d ", buffer_insert(&a, 1, "hello", 5)); p = buffer_insert_raw(&a, 0, 2); if(p) memset(p, 'z', 2); p = buffer_append_raw(&a, 3); if(p) memset(p, 'y', 3);
    buffer_remove(&a, 2, 1); tw_bytes(buffer_const_data(&a), buffer_size(&a)); buffer_shrink(&a); tw_log("r%d ", buffer_reserve(&b, 17)); tw_log("q%d ", buffer_realloc(&b, 5));
    tw_log("b%d ", buffer_append(&b, "0123456789", 10)); buffer_swap(&a, &b); tw_bytes(buffer_data(&a), buffer_size(&a)); tw_bytes(buffer_data(&b), buffer_size(&b));
    p = buffer_acquire(&a, &s); tw_bytes(p, s); free(p); tw_log("e%d", buffer_is_empty(&a)); buffer_clear(&b); tw_log("e%d", buffer_is_empty(&b)); buffer_fini(&a); buffer_fini(&b);
}
static void w_stack(int v)
{
    STACK s; int i; ARRAY_int32 a; ARRAY_ptr q; ARRAY_uint8 u;
    stack_init(&s);
    for(i = 0; i < 10 + 30 * v; i++) { stack_push_int32(&s, i * 7 + v); stack_push_uint8(&s, pat(v, i)); stack_push_uint64(&s, (uint64_t)i << 33); stack_push_int16(&s, (int16_t)-i); }
    while(!stack_is_empty(&s)) { tw_log("%d ", (int)stack_peek_int16(&s)); tw_log("%d ", (int)stack_pop_int16(&s)); tw_log("%llu ", (unsigned long long)stack_pop_uint64(&s)); tw_log("%u ", stack_pop_uint8(&s)); tw_log("%d\n", stack_pop_int32(&s)); }
    stack_fini(&s);
    array_int32_init(&a); for(i = 0; i < 20; i++) array_int32_append(&a, i * i + v); array_int32_insert(&a, 3, -5); array_int32_remove(&a, 0); array_int32_set(&a, 2, 99); for(i = 0; i < (int)array_int32_size(&a); i++) tw_log("%d ", array_int32_get(&a, i)); array_int32_fini(&a);
    array_ptr_init(&q); array_ptr_append(&q, &s); tw_log("%d", array_ptr_get(&q, 0) == &s); array_ptr_fini(&q);
    array_uint8_init(&u); for(i = 0; i < 5; i++) array_uint8_append(&u, pat(v, i)); tw_bytes(array_uint8_data(&u), array_uint8_size(&u)); array_uint8_fini(&u);
}
typedef struct { HTABLE_NODE node; int key, val; } HN;
static uint32_t hn_hash(const HTABLE_NODE* n) { const HN* h = HTABLE_DATA(n, HN, node); return (uint32_t)h->key * 2654435761u; }
static uint32_t hn_hash_bad(const HTABLE_NODE* n) { const HN* h = HTABLE_DATA(n, HN, node); return (uint32_t)(h->key % 3); }
static int hn_cmp(const HTABLE_NODE* a, const HTABLE_NODE* b) { return HTABLE_DATA(a, HN, node)->key - HTABLE_DATA(b, HN, node)->key; }
static void w_htable(int v)
{
    HTABLE t; HN* n = malloc(400 * sizeof(HN)); HN k; int i, c = v == 0 ? 12 : v == 1 ? 60 : 400; HTABLE_NODE* r; HTABLE_HASH_FUNC f = v == 2 ? hn_hash_bad : hn_hash; if(v == 2) c = 40;
    if(!n) return;
    htable_init(&t);
    for(i = 0; i < c; i++) { n[i].key = i * 5 + v; n[i].val = i; tw_log("%d", htable_insert(&t, &n[i].node, hn_cmp, f)); }
    k.key = 5 + v; tw_log("d%d ", htable_insert(&t, &k.node, hn_cmp, f));
    for(i = 0; i < c; i += 3) { k.key = i * 5 + v; r = htable_remove(&t, &k.node, hn_cmp, f); tw_log("%d ", r ? HTABLE_DATA(r, HN, node)->val : -1); }
    for(i = 0; i < 5 * c; i++) { k.key = i; r = htable_lookup(&t, &k.node, hn_cmp, f); tw_log("%d ", r ? HTABLE_DATA(r, HN, node)->val : -1); }
    htable_fini(&t, NULL); free(n);
}
typedef struct { RBTREE_NODE node; int key; } RN;
static int rn_cmp(const RBTREE_NODE* a, const RBTREE_NODE* b) { return RBTREE_DATA(a, RN, node)->key - RBTREE_DATA(b, RN, node)->key; }
static void w_rbtree(int v)
{
    RBTREE t; RN* n = malloc(64 * sizeof(RN)); RN k; int i, c = v ? 64 : 9; RBTREE_NODE* r; RBTREE_CURSOR cu;
    if(!n) return;
    rbtree_init(&t);
    for(i = 0; i < c; i++) { n[i].key = (i * 29 + v) % 97; tw_log("%d", rbtree_insert(&t, &n[i].node, rn_cmp)); }
    for(r = rbtree_head(&t, &cu); r; r = rbtree_next(&cu)) tw_log("%d ", RBTREE_DATA(r, RN, node)->key);
    for(i = 0; i < c; i += 2) { k.key = (i * 29 + v) % 97; r = rbtree_remove(&t, &k.node, rn_cmp); tw_log("%d ", r ? RBTREE_DATA(r, RN, node)->key : -1); }
    for(i = 0; i < 97; i++) { k.key = i; tw_log("%d", rbtree_lookup(&t, &k.node, rn_cmp) != NULL); }
    k.key = 29 + v; r = rbtree_lookup_ex(&t, &k.node, rn_cmp, &cu); tw_log("%d ", r == rbtree_current(&cu)); r = rbtree_prev(&cu); tw_log("%d ", r ? RBTREE_DATA(r, RN, node)->key : -1);
    for(r = rbtree_tail(&t, &cu); r; r = rbtree_prev(&cu)) tw_log("%d ", RBTREE_DATA(r, RN, node)->key);
    i = 0; while(rbtree_fini_step(&t)) i++; tw_log("f%d", i); free(n);
}
typedef struct { int k; LIST_NODE n; SLIST_NODE s; QLIST_NODE q; } LN;
static void w_list(int v)
{
    LIST l; SLIST s; QLIST q; LN x[8]; int i; LIST_NODE* p; SLIST_NODE* ps; QLIST_NODE* pq;
    list_init(&l); slist_init(&s); qlist_init(&q);
    for(i = 0; i < 8; i++) { x[i].k = i * 3 + v; if(i % 2) list_append(&l, &x[i].n); else list_prepend(&l, &x[i].n); slist_prepend(&s, &x[i].s); if(i % 3) qlist_append(&q, &x[i].q); else qlist_prepend(&q, &x[i].q); }
    list_remove(&l, &x[3].n); list_insert_after(&l, &x[1].n, &x[3].n); list_remove_head(&l); list_remove_tail(&l); slist_remove_head(&s); slist_remove(&s, &x[5].s, &x[4].s); qlist_remove_head(&q); qlist_insert_after(&q, &x[5].q, &x[6].q);
    for(p = list_head(&l); p != list_end(&l); p = list_next(p)) tw_log("%d ", LIST_DATA(p, LN, n)->k);
    for(ps = slist_head(&s); ps != slist_end(&s); ps = slist_next(ps)) tw_log("%d ", SLIST_DATA(ps, LN, s)->k);
    for(pq = qlist_head(&q), i = 0; pq != qlist_end(&q) && i < 10; pq = qlist_next(pq), i++) tw_log("%d ", QLIST_DATA(pq, LN, q)->k);
}
static void w_num(int v)
{
    static const double ds[] = { 0, 1.5, -2.5, 1e300, -1e300, 3e9, -0.4999 }; VALUE x; int i;
    for(i = 0; i < 7; i++) {
        int k; double d = ds[i] * (v + 1);
        for(k = 0; k < 7; k++) {
            switch(k) { case 0: value_init_int32(&x, (int32_t)(i * 1000 - 3 + v)); break; case 1: value_init_uint32(&x, 0xfffffff0u + (unsigned)i); break; case 2: value_init_int64(&x, -(int64_t)i << (40 + v)); break; case 3: value_init_uint64(&x, ~(uint64_t)0 - (uint64_t)i); break; case 4: value_init_float(&x, (float)d); break; case 5: value_init_double(&x, d); break; default: value_init_bool(&x, i & 1); }
            tw_log("%d %d %d %u %lld %llu %a %a %d ", (int)value_type(&x), value_is_compatible(&x, VALUE_INT32), (int)value_int32(&x), (unsigned)value_uint32(&x), (long long)value_int64(&x), (unsigned long long)value_uint64(&x), (double)value_float(&x), value_double(&x), k == 6 ? value_bool(&x) : 0);
            value_fini(&x);
        }
    }
    value_init_null(&x); tw_log("%d", (int)value_type(&x)); value_fini(&x);
}
static void w_string(int v)
{
    VALUE x; char b[600]; int i, n = v == 0 ? 3 : v == 1 ? 20 : 500; for(i = 0; i < n; i++) b[i] = (char)(pat(v, i) | 1); b[n] = 0;
    tw_log("%d ", value_init_string(&x, b)); tw_bytes(value_string(&x), value_string_length(&x)); tw_log("%d", value_is_new(&x)); value_fini(&x);
    b[1] = 0; tw_log("%d ", value_init_string_(&x, b, (size_t)n)); tw_bytes(value_string(&x), value_string_length(&x) + 1); value_fini(&x);
    tw_log("%d ", value_init_string(&x, "")); tw_log("%s", value_string(&x)); value_fini(&x);
}
static void w_array(int v)
{
    VALUE x, *y; int i, n = v ? 60 : 5; value_init_array(&x);
    for(i = 0; i < n; i++) { y = i % 3 ? value_array_append(&x) : value_array_insert(&x, (size_t)i / 2); if(y) { if(i % 4 == 0) { char b[30]; sprintf(b, "string %d of %d, long enough", i, v); value_init_string(y, b); } else value_init_int32(y, i * (v + 1)); } }
    tw_log("%d ", value_array_remove(&x, 1)); tw_log("%d ", value_array_remove_range(&x, 0, 2));
    for(i = 0; i < (int)value_array_size(&x); i++) { y = value_array_get(&x, (size_t)i); if(value_type(y) == VALUE_STRING) tw_bytes(value_string(y), value_string_length(y)); else tw_log("%d ", (int)value_int32(y)); }
    tw_log("%d ", value_array_get_all(&x) == value_array_get(&x, 0)); tw_log("%d", value_array_get(&x, 10000) == NULL); value_array_clean(&x); tw_log("%d", (int)value_array_size(&x)); value_fini(&x);
}
static int nocase(const char* a, size_t n, const char* b, size_t m) { size_t i; for(i = 0; i < n && i < m; i++) { int d = (a[i] | 32) - (b[i] | 32); if(d) return d; } return n < m ? -1 : n > m; }
static int visit(const VALUE* k, VALUE* x, void* ctx) { tw_bytes(value_string(k), value_string_length(k)); tw_log("=%d", (int)value_int32(x)); return --*(int*)ctx == 0; }
static void w_dict(int v)
{
    VALUE x, *y; const VALUE* ks[64]; char b[80]; int i, n = v ? 40 : 6, left; size_t c;
    tw_log("%d ", v == 2 ? value_init_dict_ex(&x, nocase, VALUE_DICT_MAINTAINORDER) : v == 1 ? value_init_dict_ex(&x, NULL, VALUE_DICT_MAINTAINORDER) : value_init_dict(&x));
    tw_log("%u ", value_dict_flags(&x));
    for(i = 0; i < n; i++) { sprintf(b, "%s%d%s", i % 2 ? "Key" : "kEY", i * 7 % n, i % 5 == 0 ? " with a long tail of a name" : ""); y = i % 2 ? value_dict_add(&x, b) : value_dict_get_or_add(&x, b); if(y) { tw_log("%d", value_is_new(y)); value_init_int32(y, i + v); } y = value_dict_add(&x, b); tw_log("%d ", y == NULL); }
    for(i = 0; i < n; i += 4) { sprintf(b, "%s%d", i % 2 ? "Key" : "kEY", i); tw_log("r%d ", value_dict_remove(&x, b)); y = value_dict_get(&x, b); tw_log("%d ", y ? (int)value_int32(y) : -1); }
    c = value_dict_keys_sorted(&x, ks, 64); for(i = 0; i < (int)c; i++) tw_bytes(value_string(ks[i]), value_string_length(ks[i])); c = value_dict_keys_ordered(&x, ks, 64); for(i = 0; i < (int)c; i++) tw_bytes(value_string(ks[i]), value_string_length(ks[i]));
    left = 1000; tw_log("w%d ", value_dict_walk_sorted(&x, visit, &left)); left = 3; tw_log("w%d ", value_dict_walk_ordered(&x, visit, &left)); left = 2; tw_log("w%d ", value_dict_walk_sorted(&x, visit, &left));
    tw_log("%d ", (int)value_dict_size(&x)); value_dict_clean(&x); tw_log("%d ", (int)value_dict_size(&x)); value_fini(&x);
}
static void w_path(int v)
{
    VALUE x, *y; char b[80]; int i; value_init_dict(&x);
    for(i = 0; i < 4 + 6 * v; i++) {
        sprintf(b, i % 3 == 0 ? "a/b%d/[]" : i % 3 == 1 ? "arr/[]/name%d" : "deep/er/and/deeper/still/key number %d", i % 3 == 0 ? i % 2 : i); y = value_build_path(&x, b); tw_log("%d", y != NULL); if(y) { tw_log("%d ", value_is_new(y)); if(value_is_new(y)) value_init_int32(y, i * 3 + v); }
    }
    for(i = 0; i < 6; i++) { sprintf(b, i % 3 == 0 ? "a/b0/[%d]" : i % 3 == 1 ? "arr/[%d]/name1" : "deep/er/and/deeper/still/key number %d", i); y = value_path(&x, b); tw_log("%d ", y ? (int)value_int32(y) : -7); }
    y = value_path(&x, "arr/[-1]"); tw_log("%d ", y ? (int)value_type(y) : -1); y = value_path(&x, "nowhere/to/go"); tw_log("%d ", y == NULL); y = value_path(&x, "a/b0/[x]"); tw_log("%d ", y == NULL);
    value_fini(&x);
}
static void w_base64(int v)
{
    unsigned char in[120]; char out[200]; unsigned char back[120]; int i, n, k; BASE64_OPTIONS o = { '-', '_', 0 };
    for(k = 0; k < 5 + 20 * v; k++) { for(i = 0; i < k; i++) in[i] = pat(v, i); n = base64_encode(in, (unsigned)k, out, sizeof out, v ? &o : NULL); tw_log("%d ", n); if(n > 0) tw_bytes(out, (size_t)n); if(n >= 0) { n = base64_decode(out, (unsigned)n, back, sizeof back, v ? &o : NULL); tw_log("%d ", n); if(n > 0) tw_bytes(back, (size_t)n); } }
    tw_log("%d ", base64_decode("####", 4, back, sizeof back, NULL)); tw_log("%d ", base64_encode(in, 9, out, 3, NULL)); tw_log("%d %d", base64_encode(in, 9, NULL, 0, NULL), base64_decode("QUJDREVGR0", 9, NULL, 0, &o));
    if(v == 2) { o.pad = '.'; n = base64_encode(in, 10, out, sizeof out, &o); tw_bytes(out, (size_t)MAX(n, 0)); n = base64_decode(out, (unsigned)n, back, sizeof back, &o); tw_log("%d", n); }
}
static void w_hex(int v)
{
    unsigned char in[64]; char out[130]; unsigned char back[64]; int i, n; for(i = 0; i < 64; i++) in[i] = pat(v, i);
    for(i = 0; i < 64; i += 1 + 5 * v) { n = hex_encode(in, (unsigned)i, out, sizeof out, (i + v) & 1); tw_log("%d ", n); if(n > 0) { tw_bytes(out, (size_t)n); n = hex_decode(out, (unsigned)n, back, sizeof back); tw_log("%d ", n); if(n > 0) tw_bytes(back, (size_t)n); } }
    tw_log("%d %d ", hex_decode("zz", 2, back, 64), hex_decode("abc", 3, back, 64)); tw_log("%d %d", hex_encode(in, 9, NULL, 0, 0), hex_encode(in, 9, out, 3, 1));
}
static void w_hash(int v)
{
    unsigned char in[300]; int i; uint32_t h = 0; uint64_t g = 0; for(i = 0; i < 300; i++) in[i] = pat(v, i);
    for(i = 0; i < 300; i += 1 + 13 * v) { tw_log("%08x ", (unsigned)crc32(in, (size_t)i)); h = fnv1a_32(i % 3 ? h : 0x811c9dc5u, in, (size_t)i); g = fnv1a_64(i % 3 ? g : 0xcbf29ce484222325ull, in, (size_t)i); tw_log("%08x %016llx ", (unsigned)h, (unsigned long long)g); }
}
static void w_chunk(int v)
{
    MEMCHUNK c; int i; unsigned char* p[60]; memchunk_init(&c, v == 0 ? 0 : v == 1 ? 64 : 256);
    for(i = 0; i < 60; i++) { size_t n = (size_t)(i * 13 % 50 + 1) * (v == 2 && i % 10 == 0 ? 20 : 1); p[i] = memchunk_alloc(&c, n); tw_log("%d", p[i] != NULL); if(p[i]) memset(p[i], pat(v, i), n); }
    for(i = 0; i < 60; i++) if(p[i]) tw_log("%02x", p[i][0]);
    memchunk_fini(&c);
}
static void w_malloca(int v)
{
    int i; for(i = 1; i < 2000; i += 333 + v) { unsigned char* p = MALLOCA((size_t)i); tw_log("%d", p != NULL); if(p) { memset(p, pat(v, i), (size_t)i); tw_log("%02x", p[i - 1]); } FREEA(p); }
}
static int on_opt(int id, const char* arg, void* u) { ++*(int*)u; tw_log("(%d", id); if(arg) tw_bytes(arg, strlen(arg)); return id == 77; }
static void w_cmdline(int v)
{
    static const CMDLINE_OPTION opts[] = { { 'a', "alpha", 1, 0 }, { 'b', "beta", 2, CMDLINE_OPTFLAG_REQUIREDARG }, { 'c', "gamma", 3, CMDLINE_OPTFLAG_OPTIONALARG }, { 0, "-D", 4, CMDLINE_OPTFLAG_COMPILERLIKE }, { 's', NULL, 77, 0 }, { 'e', "alphabet", 5, 0 }, { 0 } };
    char a0[] = "prog", a1[] = "-ae", a2[] = "--beta=value with a longish text behind it", a3[] = "--gamma", a4[] = "-DNAME=1", a5[] = "pos", a6[] = "--nope=17", a7[] = "-b", a8[] = "arg", a9[] = "-x", a10[] = "--alpha=3", a11[] = "--", a12[] = "-a", a13[] = "-ac", a14[] = "-D", a15[] = "X", a16[] = "-s", a17[] = "-a", a18[] = "--beta", a19[] = "-axe", a20[] = "--unknown-with-a-long-name-before=the sign"; int n = 0;
    char* s0[] = { a0, a1, a2, a3, a4, a5, a6, NULL }; char* s1[] = { a0, a7, a8, a9, a10, a14, a15, a19, a20, a11, a12, a13, NULL }; char* s2[] = { a0, a13, a16, a17, a18, NULL }; char* s3[] = { a0, a1, a20, a18, NULL };
    char** s = v == 0 ? s0 : v == 1 ? s1 : v == 2 ? s2 : s3; int c = 0; while(s[c]) c++;
    tw_log("%d ", cmdline_read(opts, c, s, on_opt, &n)); tw_log("%d", n);
}
/* out of memory at every allocation of its own */
static void w_oom(int v)
{
    VALUE x, *y; int k, e; BUFFER b; HTABLE t; HN n; MEMCHUNK c;
    for(k = 1; k < 12; k++) {
        tw_fail_from(k); e = v ? value_init_dict_ex(&x, NULL, VALUE_DICT_MAINTAINORDER) : value_init_dict(&x); tw_log("%d", e);
        if(e == 0) { y = value_build_path(&x, "some/longer key than fits/[]/x"); tw_log("%d", y != NULL); if(y) tw_log("%d", value_init_string(y, "a string which needs memory")); tw_log("%d", (int)value_dict_size(&x)); }
        tw_fail_from(0); value_fini(&x);
        tw_fail_from(k); buffer_init(&b); tw_log("%d", buffer_append(&b, "abc", 3)); htable_init(&t); n.key = k; tw_log("%d", htable_insert(&t, &n.node, hn_cmp, hn_hash)); memchunk_init(&c, 64); tw_log("%d", memchunk_alloc(&c, 50) != NULL); tw_log("%d ", memchunk_alloc(&c, 50) != NULL);
        tw_fail_from(0); buffer_fini(&b); htable_fini(&t, NULL); memchunk_fini(&c);
    }
}
/* single calls: few accesses, so that the schedules can be explored completely where there are conflicts */
static void m_base64(int v) { char o[16]; int n; BASE64_OPTIONS p = { '-', '_', '=' }, q = { '.', ',', 0 }; const BASE64_OPTIONS* op = v % 3 == 0 ? NULL : v % 3 == 1 ? &p : &q; if(v < 3) n = base64_decode(v == 0 ? "a+/b" : v == 1 ? "a-_b" : "a.,b", 4, o, sizeof o, op); else n = base64_encode("\x6b\xef\xff", 3, o, sizeof o, op); tw_log("%d ", n); if(n > 0) tw_bytes(o, (size_t)n); }
static void m_hex(int v) { char o[16]; int n = v < 2 ? hex_encode("\xab\x1f", 2, o, sizeof o, v) : hex_decode(v == 2 ? "aB1f" : "0c9D", 4, o, sizeof o); tw_log("%d ", n); if(n > 0) tw_bytes(o, (size_t)n); }
static void m_hash(int v) { if(v < 2) tw_log("%08x", (unsigned)crc32(v ? "ab" : "c", v ? 2 : 1)); else if(v < 4) tw_log("%08x", (unsigned)fnv1a_32(0x811c9dc5u, v == 2 ? "ab" : "c", v == 2 ? 2 : 1)); else tw_log("%016llx", (unsigned long long)fnv1a_64(0xcbf29ce484222325ull, v == 4 ? "ab" : "c", v == 4 ? 2 : 1)); }
static void m_value(int v)
{
    VALUE x, *y; const VALUE* k; char b[40];
    if(v < 2) { value_init_string(&x, v ? "a string, not so short" : "abc"); tw_bytes(value_string(&x), value_string_length(&x) + 1); }
    else if(v < 4) { value_init_dict(&x); sprintf(b, v == 2 ? "k" : "another key, long"); y = value_dict_add(&x, b); if(y) value_init_int32(y, v); y = value_dict_get(&x, b); tw_log("%d", y ? (int)value_int32(y) : -1); if(value_dict_keys_sorted(&x, &k, 1)) tw_bytes(value_string(k), value_string_length(k)); }
    else if(v < 6) { value_init_null(&x); sprintf(b, v == 4 ? "a/[]" : "b/c"); y = value_build_path(&x, b); if(y) value_init_int32(y, v); y = value_path(&x, v == 4 ? "a/[0]" : "b/c"); tw_log("%d", y ? (int)value_int32(y) : -1); }
    else { value_init_array(&x); y = value_array_append(&x); if(y) value_init_double(y, v); y = value_array_insert(&x, 0); if(y) value_init_uint64(y, (uint64_t)v << 40); y = value_array_get(&x, 1); tw_log("%a", y ? value_double(y) : -1.0); y = value_array_get(&x, 0); tw_log("%llx", y ? (unsigned long long)value_uint64(y) : 1); }
    value_fini(&x);
}
static void m_table(int v)
{
    HTABLE t; HN n[2], k; RBTREE r; RN m[2], q; RBTREE_NODE* z; RBTREE_CURSOR c; int i, l;
    if(v < 2) { htable_init(&t); for(i = 0; i < 2; i++) { n[i].key = i + 3 * v; tw_log("%d", htable_insert(&t, &n[i].node, hn_cmp, hn_hash)); } for(i = 0; i < 6; i++) { k.key = i; tw_log("%d", htable_lookup(&t, &k.node, hn_cmp, hn_hash) != NULL); } k.key = 1 + 3 * v; tw_log("%d", htable_remove(&t, &k.node, hn_cmp, hn_hash) == &n[1].node); htable_fini(&t, NULL); }
    else { rbtree_init(&r); for(i = 0; i < 2; i++) { m[i].key = v * 2 - i; tw_log("%d", rbtree_insert(&r, &m[i].node, rn_cmp)); } for(l = 0, z = rbtree_head(&r, &c); z && l < 4; z = rbtree_next(&c), l++) tw_log("%d ", RBTREE_DATA(z, RN, node)->key); q.key = v * 2; tw_log("%d", rbtree_lookup(&r, &q.node, rn_cmp) == &m[0].node); tw_log("%d", rbtree_remove(&r, &q.node, rn_cmp) == &m[0].node); tw_log("%d", rbtree_lookup(&r, &q.node, rn_cmp) == NULL); }
}
static void m_mem(int v)
{
    BUFFER b; MEMCHUNK c; char *p, *q;
    if(v < 2) { buffer_init(&b); tw_log("%d", buffer_append(&b, v ? "abc" : "z", v ? 3 : 1)); tw_log("%d", buffer_insert(&b, 0, v ? "u" : "vw", v ? 1 : 2)); tw_bytes(buffer_data(&b), buffer_size(&b)); buffer_fini(&b); }
    else if(v < 4) { memchunk_init(&c, 32); p = memchunk_alloc(&c, 5); q = memchunk_alloc(&c, 40); if(p && q) { memset(p, v, 5); memset(q, v + 1, 40); tw_bytes(p, 5); tw_bytes(q, 40); } memchunk_fini(&c); }
    else { p = MALLOCA(v == 4 ? 10 : 3000); q = MALLOCA(4); if(p && q) { memset(p, v, 10); memset(q, 9, 4); tw_bytes(p, 10); tw_bytes(q, 4); } FREEA(q); FREEA(p); }
}
static void m_cmdline(int v)
{
    static const CMDLINE_OPTION opts[] = { { 'a', "alpha", 1, 0 }, { 'b', "beta", 2, CMDLINE_OPTFLAG_REQUIREDARG }, { 0, "-D", 4, CMDLINE_OPTFLAG_COMPILERLIKE }, { 0 } };
    char p[] = "p", x[30]; char* a[] = { p, x, NULL }; int n = 0;
    strcpy(x, v == 0 ? "--nope=1" : v == 1 ? "-abq" : v == 2 ? "--alpha=x" : v == 3 ? "-DQ" : v == 4 ? "--other=22" : v == 5 ? "-z" : v == 6 ? "-b" : "--beta"); tw_log("%d ", cmdline_read(opts, 2, a, on_opt, &n)); tw_log("%d", n);
}
const WORKLOAD workloads[] = { { "buffer", w_buffer, 3 }, { "stack and arrays", w_stack, 2 }, { "htable", w_htable, 3 }, { "rbtree", w_rbtree, 2 }, { "lists", w_list, 2 }, { "numbers", w_num, 2 }, { "strings", w_string, 3 }, { "value arrays", w_array, 2 }, { "dictionaries", w_dict, 3 }, { "paths", w_path, 3 }, { "base64", w_base64, 3 }, { "hex", w_hex, 2 }, { "hashes", w_hash, 2 }, { "memchunk", w_chunk, 3 }, { "malloca", w_malloca, 2 }, { "cmdline", w_cmdline, 4 }, { "no memory", w_oom, 2 },
    { "one base64 call", m_base64, 6 }, { "one hex call", m_hex, 4 }, { "one hash call", m_hash, 6 }, { "one value", m_value, 8 }, { "one table", m_table, 4 }, { "one buffer or chunk", m_mem, 6 }, { "one option", m_cmdline, 8 } };
const int n_workloads = sizeof workloads / sizeof workloads[0];
