/* C44: asking never modifies. All objects live in an arena which is write-protected while every query is made in every state
 * that the histories reach; any write, also one that is undone, faults. */
#include "mc.h"
#include "buffer.h"
#include "htable.h"
#include "list.h"
#include "rbtree.h"
#include "value.h"
#include "crc32.h"
#include "fnv1a.h"
#include "base64.h"
#include "hex.h"
#include "cmdline.h"

static volatile uint64_t sink;
static size_t blocks; static uint64_t n_q;
static void begin(void) { mc_arena_reset(); mc_alloc_begin(); mc_arena = 1; }
static void freeze(void) { blocks = mc_live_blocks(); n_q = 0; mc_freeze(); }
static void thaw(void) { mc_thaw(); MC_ASSERT(mc_live_blocks() == blocks, "queries left %zd blocks allocated", (ptrdiff_t)(mc_live_blocks() - blocks)); mc_count_calls(n_q); mc_count_trace(1); }
#define ASK(e) (n_q++, sink += (uint64_t)(e))

/* ---- buffer, stack */
static const size_t szs[] = { 0, 1, 3, 7, 8, 9, 40, 300 };
static BUFFER* b; static STACK* s;
static void ask_buf(void)
{
    size_t n, i;
    freeze();
    n = buffer_size(b); ASK(n); ASK(buffer_is_empty(b)); ASK((uintptr_t)buffer_const_data(b)); ASK((uintptr_t)buffer_data(b));
    for(i = 0; i < n; i += 1 + n / 9) { ASK(*(const char*)buffer_const_data_at(b, i)); ASK((uintptr_t)buffer_data_at(b, i)); }
    thaw();
}
static void ask_stack(void)
{
    size_t n, i; char tmp[512];
    freeze();
    n = stack_size(s); ASK(n); ASK(stack_is_empty(s)); ASK((uintptr_t)stack_const_data(s)); ASK((uintptr_t)stack_data(s));
    if(n >= 1) { ASK(stack_peek_int8(s)); ASK(stack_peek_uint8(s)); }
    if(n >= 2) { ASK(stack_peek_int16(s)); ASK(stack_peek_uint16(s)); }
    if(n >= 4) { ASK(stack_peek_int32(s)); ASK(stack_peek_uint32(s)); }
    if(n >= 8) { ASK(stack_peek_int64(s)); ASK(stack_peek_uint64(s)); ASK((uintptr_t)stack_peek_ptr(s)); }
    for(i = 0; i < sizeof szs / sizeof *szs; i++) if(szs[i] <= n && szs[i] <= sizeof tmp) { stack_peek(s, tmp, szs[i]); ASK(*(volatile char*)tmp); if(szs[i]) ASK((uintptr_t)stack_peek_raw(s, szs[i])); }
    thaw();
}
#define NSZ 8
static uint64_t cnt_buf(void) { uint64_t o = NSZ + NSZ + 5; return 2 * o * o * o * (mc_thorough ? o : 1); }
static void run_buf(uint64_t c)
{
    static const char data[512]; int st = c % 2, k, nk = mc_thorough ? 4 : 3; c /= 2;
    begin();
    if(st) { s = mc_arena_alloc(sizeof *s); stack_init(s); ask_stack(); } else { b = mc_arena_alloc(sizeof *b); buffer_init(b); ask_buf(); }
    for(k = 0; k < nk; k++) {
        int op = c % (2 * NSZ + 5); c /= 2 * NSZ + 5;
        if(st) {
            size_t n = stack_size(s);
            if(op < NSZ) stack_push(s, data, szs[op]); else if(op < 2 * NSZ) { size_t m = szs[op - NSZ]; char tmp[512]; stack_pop(s, tmp, m < n ? m : n); }
            else switch(op - 2 * NSZ) { case 0: stack_clear(s); break; case 1: stack_reserve(s, 60); break; case 2: stack_push_int16(s, -2); break; case 3: stack_push_int64(s, 99); break; case 4: stack_push_ptr(s, s); break; }
            ask_stack();
        } else {
            size_t n = buffer_size(b);
            if(op < NSZ) buffer_insert(b, n / 2, data, szs[op]); else if(op < 2 * NSZ) buffer_remove(b, n / 3, szs[op - NSZ]);
            else switch(op - 2 * NSZ) { case 0: buffer_clear(b); break; case 1: buffer_reserve(b, 60); break; case 2: buffer_shrink(b); break; case 3: buffer_realloc(b, 20); break; case 4: buffer_append(b, data, 5); break; }
            ask_buf();
        }
    }
    if(st) stack_fini(s); else buffer_fini(b);
    MC_ASSERT(mc_live_blocks() == 0, "%zu blocks leaked", mc_live_blocks());
}
#define ARR(T, VT) static void arr_##T(size_t n) { ARRAY_##T* a; size_t i; begin(); a = mc_arena_alloc(sizeof *a); array_##T##_init(a); \
    for(i = 0; i < n; i++) array_##T##_append(a, (VT)(uintptr_t)i); \
    freeze(); ASK(array_##T##_size(a)); ASK(array_##T##_is_empty(a)); ASK((uintptr_t)array_##T##_data(a)); ASK((uintptr_t)array_##T##_const_data(a)); \
    for(i = 0; i < n; i++) ASK((uintptr_t)array_##T##_get(a, i)); thaw(); array_##T##_fini(a); }
ARR(int8, int8_t) ARR(uint8, uint8_t) ARR(int16, int16_t) ARR(uint16, uint16_t) ARR(int32, int32_t) ARR(uint32, uint32_t) ARR(int64, int64_t) ARR(uint64, uint64_t) ARR(ptr, void*)
static uint64_t cnt_arr(void) { return 9 * 70; }
static void run_arr(uint64_t c) { static void (*const f[])(size_t) = { arr_int8, arr_uint8, arr_int16, arr_uint16, arr_int32, arr_uint32, arr_int64, arr_uint64, arr_ptr }; f[c % 9](c / 9); }

/* ---- lists */
typedef struct { int v; LIST_NODE l; SLIST_NODE s; QLIST_NODE q; } LN;
static uint64_t cnt_list(void) { return 3 * 9 * 9; }
static void run_list(uint64_t c)
{
    int k = c % 3, n = c / 3 % 9, r = c / 27, i; LN* x; LIST* l; SLIST* sl; QLIST* q;
    begin(); x = mc_arena_alloc(16 * sizeof *x); l = mc_arena_alloc(sizeof *l); sl = mc_arena_alloc(sizeof *sl); q = mc_arena_alloc(sizeof *q);
    list_init(l); slist_init(sl); qlist_init(q);
    for(i = 0; i < n; i++) if(k == 0) { if(i & 1) list_append(l, &x[i].l); else list_prepend(l, &x[i].l); } else if(k == 1) slist_prepend(sl, &x[i].s); else { if(i & 1) qlist_append(q, &x[i].q); else qlist_prepend(q, &x[i].q); }
    for(i = 0; i < r && i < n; i++) if(k == 0) list_remove_head(l); else if(k == 1) slist_remove_head(sl); else qlist_remove_head(q);
    freeze();
    if(k == 0) { LIST_NODE* p; ASK(list_is_empty(l)); for(p = list_head(l); p != list_end(l); p = list_next(p)) ASK(LIST_DATA(p, LN, l)->v); for(p = list_tail(l); p != list_end(l); p = list_prev(p)) ASK(LIST_DATA(p, LN, l)->v); }
    if(k == 1) { SLIST_NODE* p; ASK(slist_is_empty(sl)); for(p = slist_head(sl); p != slist_end(sl); p = slist_next(p)) ASK(SLIST_DATA(p, LN, s)->v); }
    if(k == 2) { QLIST_NODE* p; ASK(qlist_is_empty(q)); ASK((uintptr_t)qlist_tail(q)); for(p = qlist_head(q); p != qlist_end(q); p = qlist_next(p)) ASK(QLIST_DATA(p, LN, q)->v); }
    thaw();
}

/* ---- hash table and tree: all sequences of inserting/removing keys (an operation toggles a key), with queries in every state */
typedef struct { uint32_t key; HTABLE_NODE h; RBTREE_NODE r; } ND;
static ND* nd; static HTABLE* ht; static RBTREE* rb; static int hf; static char in[4096];
static uint32_t hash(const HTABLE_NODE* p) { uint32_t k = HTABLE_DATA(p, ND, h)->key; return hf == 0 ? k : hf == 1 ? 7 : hf == 2 ? k * 2654435761u : k * 59; }
static int hcmp(const HTABLE_NODE* a, const HTABLE_NODE* c) { return HTABLE_DATA(a, ND, h)->key != HTABLE_DATA(c, ND, h)->key; }
static int rcmp(const RBTREE_NODE* a, const RBTREE_NODE* c) { uint32_t x = RBTREE_DATA(a, ND, r)->key, y = RBTREE_DATA(c, ND, r)->key; return x < y ? -1 : x > y; }
static void ask_ht(int K)
{
    int k;
    freeze();
    ASK(htable_is_empty(ht));
    for(k = 0; k <= K; k++) ASK((uintptr_t)htable_lookup(ht, &nd[k].h, hcmp, hash));
    thaw();
}
static void ask_rb(int K)
{
    RBTREE_CURSOR c; RBTREE_NODE* p; int k;
    freeze();
    ASK(rbtree_is_empty(rb));
    for(k = 0; k <= K; k++) {
        ASK((uintptr_t)rbtree_lookup(rb, &nd[k].r, rcmp));
        memset(&c, 0, sizeof c);
        p = rbtree_lookup_ex(rb, &nd[k].r, rcmp, &c); ASK((uintptr_t)p);
        if(p && (K < 20 || k % 7 == 0)) { ASK((uintptr_t)rbtree_next(&c)); ASK((uintptr_t)rbtree_current(&c)); ASK((uintptr_t)rbtree_prev(&c)); ASK((uintptr_t)rbtree_prev(&c)); ASK((uintptr_t)rbtree_current(&c)); }
    }
    for(p = rbtree_head(rb, &c); p; p = rbtree_next(&c)) ASK((uintptr_t)rbtree_current(&c));
    for(p = rbtree_tail(rb, &c); p; p = rbtree_prev(&c)) ASK((uintptr_t)rbtree_current(&c));
    thaw();
}
static void sets_begin(int K) { int i; begin(); nd = mc_arena_alloc((K + 2) * sizeof *nd); for(i = 0; i < K + 2; i++) nd[i].key = i; ht = mc_arena_alloc(sizeof *ht); rb = mc_arena_alloc(sizeof *rb); htable_init(ht); rbtree_init(rb); memset(in, 0, K + 2); }
static void toggle(int tree, int k)
{
    if(tree) { if(in[k]) rbtree_remove(rb, &nd[k].r, rcmp); else rbtree_insert(rb, &nd[k].r, rcmp); }
    else { if(in[k]) htable_remove(ht, &nd[k].h, hcmp, hash); else MC_ASSERT(htable_insert(ht, &nd[k].h, hcmp, hash) == 0, "insert"); }
    in[k] ^= 1;
}
#define KS 5
static int len_s(void) { return mc_thorough ? 9 : 7; }
static uint64_t cnt_sets(void) { uint64_t n = 5; int i; for(i = 0; i < len_s(); i++) n *= KS; return n; }
static void run_sets(uint64_t c)
{
    int kind = c % 5, i; c /= 5; hf = kind & 3;
    sets_begin(KS);
    for(i = 0; i < len_s(); i++) { toggle(kind == 4, c % KS); c /= KS; if(kind == 4) ask_rb(KS); else ask_ht(KS); }
    if(kind != 4) htable_fini(ht, NULL);
}
static const int big[] = { 20, 60, 118, 130, 300, 700 };
static uint64_t cnt_big(void) { return 5 * 4 * 6; }
static void run_big(uint64_t c)
{
    int kind = c % 5, ord = c / 5 % 4, K = big[c / 20], i; hf = kind & 3;
    sets_begin(K);
    for(i = 0; i < K; i++) { toggle(kind == 4, ord == 0 ? i : ord == 1 ? K - 1 - i : ord == 2 ? (i % 2 ? K - 1 - i / 2 : i / 2) : (int)((i * 7919ll) % K)); if(i < 40 || i % (K / 10) == 0) { if(kind == 4) ask_rb(K); else ask_ht(K); } }
    for(i = 0; i < K; i++) if(in[i]) { toggle(kind == 4, i); if(i < 40 || i % (K / 10) == 0 || K - i < 20) { if(kind == 4) ask_rb(K); else ask_ht(K); } }
    if(kind != 4) htable_fini(ht, NULL);
}

/* ---- values */
static int ccmp(const char* a, size_t n, const char* c, size_t m) { size_t i; for(i = 0; i < n && i < m; i++) if(a[i] != c[i]) return a[i] < c[i] ? 1 : -1; return n < m ? -1 : n > m; }
static VALUE* root;
static const char* const keys[] = { "a", "b", "", "ab", "foo", "c", "zz" };
static const char* const paths[] = { "", "/", "a", "b", "foo", "foo[0]", "foo[-1]", "[0]", "[-1]", "[1]/a", "[2][0]", "ab", "ab/a", "ab/zz", "[99]", "a/b", "[", "[x]", "foo[0", "zz[]", "[-99]", "c/", "//a" };
static int visit(const VALUE* k, VALUE* v, void* ctx) { ASK(value_type(v)); ASK(value_string_length(k)); return *(int*)ctx && --*(int*)ctx == 0; }
static void ask_value(VALUE* v, int depth)
{
    size_t i, n; int t, ctx; const VALUE* buf[12];
    ASK(value_type(v)); ASK(value_is_new(v));
    for(t = VALUE_NULL; t <= VALUE_DICT; t++) ASK(value_is_compatible(v, t));
    ASK(value_bool(v)); ASK(value_int32(v)); ASK(value_uint32(v)); ASK(value_int64(v)); ASK(value_uint64(v)); sink += value_float(v) > 1; sink += value_double(v) > 1;
    ASK((uintptr_t)value_string(v)); ASK(value_string_length(v));
    ASK(value_array_size(v)); ASK((uintptr_t)value_array_get_all(v)); n = value_array_size(v);
    for(i = 0; i <= n; i++) ASK((uintptr_t)value_array_get(v, i));
    ASK(value_dict_flags(v)); ASK(value_dict_size(v));
    for(i = 0; i < 7; i++) { ASK((uintptr_t)value_dict_get(v, keys[i])); ASK((uintptr_t)value_dict_get_(v, keys[i], strlen(keys[i]))); }
    ASK((uintptr_t)value_dict_get_(v, "a\0b", 3)); ASK((uintptr_t)value_dict_get(v, NULL));
    for(i = 0; i <= 10; i += i < 4 ? 1 : 3) { ASK(value_dict_keys_sorted(v, buf, i)); ASK(value_dict_keys_ordered(v, buf, i)); }
    for(i = 0; i < 3; i++) { ctx = i; ASK(value_dict_walk_sorted(v, visit, &ctx)); ctx = i; ASK(value_dict_walk_ordered(v, visit, &ctx)); }
    for(i = 0; i < sizeof paths / sizeof *paths; i++) ASK((uintptr_t)value_path(v, paths[i]));
    if(depth < 3) {
        for(i = 0; i < n; i++) ask_value(value_array_get(v, i), depth + 1);
        n = value_dict_keys_sorted(v, buf, 12);
        for(i = 0; i < n; i++) { VALUE* x = value_dict_get_(v, value_string(buf[i]), value_string_length(buf[i])); if(x) ask_value(x, depth + 1); }
    }
}
static void set(VALUE* v, int kind)
{
    VALUE* x;
    switch(kind % 9) {
    case 0: value_init_int32(v, -5); break;
    case 1: value_init_string(v, "short"); break;
    case 2: value_init_array(v); x = value_array_append(v); value_init_double(x, 2.5); value_array_append(v); break;
    case 3: value_init_dict(v); x = value_dict_add(v, "a"); value_init_uint64(x, UINT64_MAX); x = value_dict_add(v, "zz"); value_init_bool(x, 1); break;
    case 4: break;      /* stays new */
    case 5: value_init_string_(v, "a longer string that does not fit anywhere inside of the value itself, and is therefore put on the heap ....................................................................", 165); break;
    case 6: value_init_float(v, -0.5f); break;
    case 7: value_init_dict_ex(v, ccmp, VALUE_DICT_MAINTAINORDER); x = value_dict_add_(v, "a\0b", 3); value_init_int64(x, INT64_MIN); value_dict_add(v, "foo"); break;
    case 8: value_init_uint32(v, 7); break;
    }
}
static void val_begin(int kind)
{
    begin(); root = mc_arena_alloc(sizeof *root);
    if(kind == 0) value_init_array(root); else value_init_dict_ex(root, kind & 1 ? NULL : ccmp, kind > 2 ? VALUE_DICT_MAINTAINORDER : 0);
}
static void ask_root(void) { freeze(); ask_value(root, 0); thaw(); }
static void val_end(void) { value_fini(root); MC_ASSERT(mc_live_blocks() == 0, "%zu blocks leaked", mc_live_blocks()); }
static int len_v(void) { return mc_thorough ? 7 : 5; }
static uint64_t cnt_val(void) { uint64_t n = 5; int i; for(i = 0; i < len_v(); i++) n *= 7; return n; }
static void run_val(uint64_t c)
{
    int kind = c % 5, i, cnt = 0; VALUE* x; c /= 5; val_begin(kind); ask_root();
    for(i = 0; i < len_v(); i++) {
        int k = c % 7; c /= 7;
        if(kind) { if(value_dict_remove(root, keys[k]) != 0) { x = value_dict_add(root, keys[k]); MC_ASSERT(x, "value_dict_add failed"); set(x, k + i); } }
        else if(k < 4) { x = value_array_insert(root, k < (int)value_array_size(root) ? k : value_array_size(root)); MC_ASSERT(x, "value_array_insert failed"); set(x, cnt++); }
        else if(k < 6) value_array_remove(root, k - 4); else value_array_remove_range(root, 0, 2);
        ask_root();
    }
    val_end();
}
/* every order of adding seven keys, then removing one: all small tree shapes */
static uint64_t cnt_perm(void) { return 4 * 5040; }
static void run_perm(uint64_t c)
{
    int kind = 1 + c % 4, i, j, left[7] = { 0, 1, 2, 3, 4, 5, 6 }, o[7]; c /= 4; val_begin(kind);
    for(i = 0; i < 7; i++) { int d = c % (7 - i); c /= 7 - i; o[i] = left[d]; for(j = d; j < 6 - i; j++) left[j] = left[j + 1]; }
    for(i = 0; i < 7; i++) { VALUE* x = value_dict_add(root, keys[o[i]]); MC_ASSERT(x, "value_dict_add failed"); set(x, o[i] == 0 || o[i] > 4 ? 0 : i); }
    ask_root();
    value_dict_remove(root, keys[o[3]]); ask_root(); value_dict_remove(root, keys[o[0]]); ask_root();
    val_end();
}
static const int vbig[] = { 20, 100, 400 };
static uint64_t cnt_vbig(void) { return 5 * 3; }
static void run_vbig(uint64_t c)
{
    int kind = c % 5, n = vbig[c / 5], i; char kb[32]; VALUE* x; val_begin(kind);
    for(i = 0; i < n; i++) { snprintf(kb, sizeof kb, "key%d", i * 37 % n); x = kind ? value_dict_add(root, kb) : value_array_append(root); MC_ASSERT(x, "cannot add"); set(x, i); if(i % (n / 20) == 0) ask_root(); }
    for(i = 0; i < n; i++) { snprintf(kb, sizeof kb, "key%d", i); if(kind) value_dict_remove(root, kb); else value_array_remove(root, 0); if(i % (n / 20) == 0) ask_root(); mc_beat(); }
    val_end();
}

/* ---- inputs: the sources lie in protected memory (odd and even addresses) */
static int cl_cb(int id, const char* arg, void* u) { sink += id + (arg ? arg[0] : 0); return 0; }
#define NLEN 70
static uint64_t cnt_in(void) { return 13 * 4 * NLEN; }
static void run_in(uint64_t c)
{
    int f = c % 13, al = c / 13 % 4; size_t n = c / 52, i; unsigned char* p; char out[512]; static const char abc[] = "ABCDEFGHabcdefgh0123456789+-_/===";
    static const char* const tok[] = { "-a", "-b", "x", "--long", "--long=5", "-bfoo", "-ab", "--", "-", "--bad", "-Dx", "-D", "--opt=", "-ax", "-Dx=1" };
    begin(); p = (unsigned char*)mc_arena_alloc(NLEN + 16) + al;
    if(f == 0 || f == 1 || f == 2) for(i = 0; i < n; i++) p[i] = i * 37 + 1;
    else if(f == 4) for(i = 0; i < n; i++) p[i] = abc[i % 16 + (i / 5) % 8];
    else for(i = 0; i < n; i++) p[i] = "0123456789abcdefABCDEF"[i * 5 % 22];
    p[n] = 0; mc_arena = 0;
    if(f == 12) {
        CMDLINE_OPTION* o; char** av; int k;
        mc_arena = 1; o = mc_arena_alloc(5 * sizeof *o); av = mc_arena_alloc(8 * sizeof *av); memset(o, 0, 5 * sizeof *o); mc_arena = 0;
        o[0].shortname = 'a'; o[0].id = 1; o[1].shortname = 'b'; o[1].id = 2; o[1].flags = CMDLINE_OPTFLAG_REQUIREDARG; o[1].longname = "opt"; o[2].longname = "long"; o[2].id = 3; o[2].flags = CMDLINE_OPTFLAG_OPTIONALARG; o[3].longname = "-D"; o[3].id = 4; o[3].flags = CMDLINE_OPTFLAG_COMPILERLIKE | CMDLINE_OPTFLAG_REQUIREDARG;
        for(k = 0; k < 5; k++) { const char* t = k ? tok[(n * 4 + al + (k - 1) * (1 + (n / 4) % 14)) % 15] : "prog"; char lng[NLEN + 32];
            if(k == 2) { snprintf(lng, sizeof lng, "%s%s%s", al == 0 ? "--" : al == 1 ? "-a" : al == 2 ? "--long" : "-", (char*)p, al == 3 ? "" : "=value"); t = lng; }
            av[k] = mc_arena_alloc(strlen(t) + 1); strcpy(av[k], t); }
        av[5] = NULL;
        freeze(); ASK(cmdline_read(o, 5, av, cl_cb, NULL)); thaw();
        return;
    }
    {
        BUFFER bf; STACK st; VALUE v; VALUE* x;
        buffer_init(&bf); stack_init(&st);
        if(f == 9) value_init_array(&v); else value_init_dict_ex(&v, al & 1 ? ccmp : NULL, al & 2 ? VALUE_DICT_MAINTAINORDER : 0);
        mc_freeze(); n_q = 0;
        switch(f) {
        case 0: ASK(crc32(p, n)); break;
        case 1: ASK(fnv1a_32(FNV1A_BASE_32, p, n)); ASK(fnv1a_64(FNV1A_BASE_64, p, n)); break;
        case 2: ASK(base64_encode(p, n, out, sizeof out, NULL)); ASK(base64_encode(p, n, NULL, 0, NULL)); ASK(hex_encode(p, n, out, sizeof out, al & 1)); break;
        case 3: ASK(hex_decode((char*)p, n, out, sizeof out)); break;
        case 4: ASK(base64_decode((char*)p, n, out, sizeof out, NULL)); ASK(base64_decode((char*)p, n, NULL, 0, NULL)); break;
        case 5: for(i = 0; i < 3; i++) { ASK(buffer_insert(&bf, i * n / 2, p, n)); ASK(buffer_append(&bf, p, n)); } break;
        case 6: for(i = 0; i < 3; i++) ASK(stack_push(&st, p, n)); break;
        case 7: { VALUE w; ASK(value_init_string_(&w, (char*)p, n)); value_fini(&w); ASK(value_init_string(&w, (char*)p)); value_fini(&w); break; }
        case 8: for(i = 0; i <= n; i += 1 + n / 5) { ASK((uintptr_t)value_dict_add_(&v, (char*)p, n - i)); ASK((uintptr_t)value_dict_get_or_add_(&v, (char*)p, n - i)); ASK((uintptr_t)value_dict_get_(&v, (char*)p, n - i)); } ASK((uintptr_t)value_dict_get(&v, (char*)p)); ASK((uintptr_t)value_dict_get_or_add(&v, (char*)p)); ASK(value_dict_remove(&v, (char*)p)); ASK((uintptr_t)value_dict_add(&v, (char*)p)); ASK(value_dict_remove_(&v, (char*)p, n)); break;
        default: {      /* path strings */
            static const char* const ps[] = { "a/b", "/a//b/", "foo[]", "foo[][]/x", "[]", "[0]", "[-1]/foo", "a/b[0]", "foo[0]", "foo[-1]", "", "//", "a[", "]", "x[]y", "[00]", "a/b/c/d", "[]/a/b" };
            const char* q = ps[(n + f * 5) % 18]; char* m;
            mc_thaw(); m = (char*)mc_arena_alloc(strlen(q) + 8) + al; strcpy(m, q); mc_freeze();
            for(i = 0; i < 3; i++) { x = value_build_path(&v, m); ASK((uintptr_t)x); ASK((uintptr_t)value_path(&v, m)); }
            break; }
        }
        mc_thaw(); mc_count_calls(n_q); mc_count_trace(1);
        buffer_fini(&bf); stack_fini(&st); value_fini(&v);
        MC_ASSERT(mc_live_blocks() == 0, "%zu blocks leaked", mc_live_blocks());
    }
}
#define DESC(nm, txt) static void d_##nm(uint64_t c, char* o, size_t z) { snprintf(o, z, txt " (case number %llu)", (unsigned long long)c); }
DESC(buf, "buffer or stack, queries after each operation") DESC(arr, "typed array") DESC(list, "list") DESC(sets, "hash table or tree, queries after each operation") DESC(big, "large hash table or tree")
DESC(val, "value, queries after each operation") DESC(perm, "dictionary of seven keys in some order") DESC(vbig, "large array or dictionary") DESC(in, "function with its input in protected memory")
MC_SYS mc_systems[] = { { 0 } };
#define E(n) { "C44", "queries-" #n, 3, 0, cnt_##n, run_##n, d_##n, 0 }
MC_ENUM mc_enums[] = { E(buf), E(arr), E(list), E(sets), E(big), E(val), E(perm), E(vbig), { "C44", "inputs", 3, 0, cnt_in, run_in, d_in, 0 }, { 0 } };
