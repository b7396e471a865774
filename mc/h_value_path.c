/* C20 path lookup, C21 path building. */
#define _GNU_SOURCE
#include <sys/mman.h>
#include "vtree.h"
#include "vast.h"
#include "edges.h"

/* ============ C20 ============ */
#define NROOT 6
static VALUE roots[NROOT]; static T* mirror[NROOT]; static char before[NROOT][8192]; static int built; static size_t mirror_used;
static VALUE* must(VALUE* v) { if(v == NULL) { fprintf(stderr, "harness: could not build the hierarchy\n"); abort(); } return v; }
static void leaf(VALUE* v) { static int id = 1000; value_init_int32(v, id++); }
static void populate(VALUE* v, int depth, int which)
{
    int i; static const char* keys[] = { "a", "b", "ab", "0", "1", "-1", "aa", "", "+", "12" };
    if(depth == 0) { leaf(v); return; }
    if(which & 1) {
        value_init_array(v);
        for(i = 0; i < 1 + (depth + which / 2) % 3; i++) { must(value_array_append(v)); populate(value_array_get(v, i), depth - 1, which / 2 + i); }
    } else {
        value_init_dict_ex(v, NULL, depth & 1 ? VALUE_DICT_MAINTAINORDER : 0);
        for(i = 0; i < (depth > 2 ? 3 : 10); i++) { VALUE* x = must(value_dict_add(v, keys[i])); populate(x, i > 3 ? 0 : depth - 1, which / 2 + i + 1); }
    }
}
/* raw image of the hierarchies: only if it changes is their meaning compared */
static struct { char* p; char* copy; size_t n; } img[8000]; static int n_img; static VALUE roots_copy[NROOT];
/* dictionaries whose keys are every string of the characters of a path but '/', and some whole components: only
 * those which are names may ever be found by a path */
static VALUE odd, odd_copy; static const VALUE* odd_keys[700]; static size_t n_odd;
static const char odd_alpha[] = "a[]-01b+";
static void populate_odd(VALUE* v, int len, int depth)
{
    static const char* const whole[] = { "[-1]", "[00]", "[10]", "[-0]", "[0]a", "[0][1]", "a[0]", "[1a]", "[0x1]", "[--1]", "[a]b" };
    int l, i, n, k; char s[8]; VALUE* x;
    value_init_dict(v);
    for(l = 0, n = 1; l <= len; l++, n *= 8) for(i = 0; i < n; i++) {
        for(k = 0; k < l; k++) s[k] = odd_alpha[i >> 3 * k & 7];
        x = must(value_dict_add_(v, s, l));
        if(depth > 1 && (l < 2 || (l == 2 && s[0] == '['))) populate_odd(x, len - 1, depth - 1); else if(l == 3 && s[0] == '[' && s[2] == ']') { value_init_array(x); leaf(must(value_array_append(x))); } else leaf(x);
    }
    for(i = 0; i < (int)(sizeof whole / sizeof *whole); i++) { x = must(value_dict_get_or_add(v, whole[i])); if(value_is_new(x)) leaf(x); }
}
static VALUE* resolve_odd(const COMP* c, int n)
{
    VALUE* v = &odd; int i, k;
    for(i = 0; i < n && v; i++) {
        if(c[i].kind == 0) v = value_type(v) == VALUE_DICT ? value_dict_get_(v, c[i].key, c[i].kl) : NULL;
        else if(c[i].kind == 1 && value_type(v) == VALUE_ARRAY) { k = (int)value_array_size(v); v = c[i].neg ? c[i].idx >= 1 && c[i].idx <= (unsigned)k ? value_array_get(v, k - (int)c[i].idx) : NULL : c[i].idx < (unsigned)k ? value_array_get(v, (int)c[i].idx) : NULL; }
        else v = NULL;
    }
    return v;
}
static int image_same(void) { int i; if(memcmp(roots, roots_copy, sizeof roots) || memcmp(&odd, &odd_copy, sizeof odd)) return 0; for(i = 0; i < n_img; i++) if(memcmp(img[i].p, img[i].copy, img[i].n)) return 0; return 1; }
static void build_roots(void)
{
    int i, k;
    if(built) return;
    built = 1; mc_alloc_begin();
    populate(&roots[0], 3, 0); populate(&roots[1], 4, 1); populate(&roots[2], 3, 3);
    leaf(&roots[3]); value_init_string(&roots[4], "a[0]");
    value_init_array(&roots[5]); for(i = 0; i < 130; i++) { VALUE* x = must(value_array_append(&roots[5])); if(i % 5 == 1) { value_init_array(x); for(k = 0; k < i / 5 % 4; k++) leaf(must(value_array_append(x))); } else if(i % 5 == 2) value_init_null(x); else if(i % 5 == 3) { value_init_dict(x); leaf(must(value_dict_add(x, "0"))); leaf(must(value_dict_add(x, "a"))); } }
    t_clear();
    for(i = 0; i < NROOT; i++) { mirror[i] = t_import(&roots[i]); t_text(mirror[i], before[i], sizeof before[i]); }
    mirror_used = t_used;
    populate_odd(&odd, 3, 2);
    n_img = (int)mc_live_blocks(); if(n_img > 8000) { fprintf(stderr, "harness: %d blocks\n", n_img); abort(); }
    for(i = 0; i < n_img; i++) { void* q; mc_block_at(i, &q, &img[i].n); img[i].p = q; img[i].copy = mc_xmalloc(img[i].n); memcpy(img[i].copy, q, img[i].n); }
    memcpy(roots_copy, roots, sizeof roots); odd_copy = odd; n_odd = value_dict_keys_sorted(&odd, odd_keys, 700);
    mc_alloc_begin();
}
static void look(const char* path, size_t len)
{
    COMP c[40]; int n, r; VALUE* got; T* want; static char now[8192]; char* p;
    build_roots();
    p = mc_xmalloc(len + 1);        /* exact-size copy */
    memcpy(p, path, len); p[len] = 0;
    n = t_parse(p, c, 40);
    for(r = 0; r < NROOT; r++) {
        got = value_path(&roots[r], p);
        if(n >= 0) {
            want = t_resolve(mirror[r], c, n);
            MC_ASSERT(got == (want ? want->real : NULL), "path \"%s\" on root %d gives %s", p, r, got ? want ? "another value" : "a value though it does not resolve" : "nothing though it resolves");
        }
        t_used = mirror_used;
    }
    got = value_path(&odd, p);
    if(n >= 0) { VALUE* w = resolve_odd(c, n); MC_ASSERT(got == w, "path \"%s\" on dictionaries with odd keys gives %s", p, got ? w ? "another value" : "a value though it does not resolve" : "nothing though it resolves"); }
    if(!image_same()) {
        for(r = 0; r < NROOT; r++) { t_used = mirror_used; MC_ASSERT(strcmp(t_text(t_import(&roots[r]), now, sizeof now), before[r]) == 0, "looking up \"%s\" changed the hierarchy %d", p, r); }
        {            const VALUE* ks[700]; t_used = mirror_used;
            MC_ASSERT(value_dict_size(&odd) == n_odd && value_dict_keys_sorted(&odd, ks, 700) == n_odd && memcmp(ks, odd_keys, n_odd * sizeof *ks) == 0, "looking up \"%s\" changed the dictionary with odd keys", p);
        }
    }
    MC_ASSERT(value_path(NULL, p) == NULL, "path \"%s\" finds something in no value", p);
    MC_ASSERT(mc_live_blocks() == 0, "looking up a path allocated memory");
    mc_xfree(p);
    mc_count_calls(NROOT + 2); mc_count_trace(n >= 0);
}
static const char alpha[] = "a/[]-01b+";
#define NA 9
static int maxlen(void) { return mc_arg; }
static uint64_t cnt_str(void) { uint64_t t = 1, p = 1; int i; for(i = 0; i < maxlen(); i++) { p *= NA; t += p; } return t; }
static int mkstr(uint64_t i, char* s) { uint64_t p = 1; int l = 0, k; while(i >= p) { i -= p; p *= NA; l++; } for(k = l - 1; k >= 0; k--) { s[k] = alpha[i % NA]; i /= NA; } s[l] = 0; return l; }
static void run_str(uint64_t i) { char s[32]; int l = mkstr(i, s); look(s, l); }
static void desc_str(uint64_t i, char* b, size_t z) { char s[32]; mkstr(i, s); snprintf(b, z, "path \"%s\"", s); }
/* well-formed paths: all sequences of components with all separators */
static const char* comps[] = { "a", "b", "ab", "0", "-1", "c", "+", "[0]", "[1]", "[2]", "[3]", "[-1]", "[-2]", "[-3]", "[-4]", "[00]", "[-01]", "[]", "[-0]", "[-]", "[x]", "[0x1]", "[--1]", "[ 1]", "[1 ]", "[1-]", "[1a]" };
#define NC 27
#define NSEP 4
static uint64_t cnt_wf(void) { uint64_t t = 0, p = 1; int i; for(i = 0; i < mc_arg; i++) { p *= NC * NSEP; t += p; } return t; }
static int mkwf(uint64_t i, char* s)
{
    static const char* sep[] = { "", "/", "//", "" }; uint64_t p = NC * NSEP; int n = 1, k; s[0] = 0;
    while(i >= p) { i -= p; p *= NC * NSEP; n++; }
    for(k = 0; k < n; k++) { int c = i % NC, q = i / NC % NSEP; i /= NC * NSEP; strcat(s, comps[c]); strcat(s, sep[q]); if(q == 0 && k + 1 < n && comps[i % NC][0] != '[') strcat(s, "/"); if(q == 3) { if(k) return -1; memmove(s + 1, s, strlen(s) + 1); s[0] = '/'; if(k + 1 < n && comps[i % NC][0] != '[') strcat(s, "/"); } }
    return (int)strlen(s);
}
static void run_wf(uint64_t i) { char s[128]; int l = mkwf(i, s); if(l < 0) return; look(s, l); }
static void desc_wf(uint64_t i, char* b, size_t z) { char s[128]; if(mkwf(i, s) < 0) snprintf(b, z, "(skipped)"); else snprintf(b, z, "path \"%s\"", s); }
/* index numerals around every power of two, with leading zeros */
static uint64_t cnt_num(void) { return 2 * 130 * 2 * 12; }
static void mknum(uint64_t i, char* s)
{
    int neg = i & 1, z; uint64_t k = i / 2; unsigned __int128 x; int pw = k % 130, hi, d; char t[64]; int n = 0;
    k /= 130; hi = k % 2; k /= 2; d = (int)k - 6;           /* around 0 .. +-6 */
    z = hi ? 25 : (pw % 3);
    x = (pw < 128 ? (unsigned __int128)1 << pw : pw == 128 ? 0 : (unsigned __int128)130) ;
    if(d < 0 && x < (unsigned)-d) x = 0; else x += d;
    if(pw < 128 && pw >= 64 && hi) x += ((unsigned __int128)1 << 64);
    do { t[n++] = '0' + (int)(x % 10); x /= 10; } while(x);
    *s++ = '['; if(neg) *s++ = '-'; while(z-- > 0) *s++ = '0'; while(n) *s++ = t[--n]; *s++ = ']'; *s = 0;
}
static void run_num(uint64_t i) { char s[160], t[200]; mknum(i, s); look(s, strlen(s)); snprintf(t, sizeof t, "[1]%s", s); look(t, strlen(t)); snprintf(t, sizeof t, "a/%s", s); look(t, strlen(t)); }
static void desc_num(uint64_t i, char* b, size_t z) { char s[160]; mknum(i, s); snprintf(b, z, "path \"%s\", also behind [1] and a/", s); }
/* arbitrary bytes */
static uint64_t cnt_byte(void) { return 256 * 256 + 256 * 8; }
static void mkbyte(uint64_t i, char* s) { static const char* f[] = { "[?]", "[1?", "[?1]", "a?b", "a[0]?", "?/a", "[-?]", "a/?" }; if(i < 65536) { s[0] = (char)(i >> 8); s[1] = (char)i; s[2] = 0; } else { int k; i -= 65536; strcpy(s, f[i / 256]); for(k = 0; s[k]; k++) if(s[k] == '?') { s[k] = (char)i; break; } } }
static void run_byte(uint64_t i) { char s[16]; mkbyte(i, s); look(s, strlen(s)); }
static void desc_byte(uint64_t i, char* b, size_t z) { char s[16]; unsigned k, u; mkbyte(i, s); u = snprintf(b, z, "path bytes"); for(k = 0; s[k]; k++) u += snprintf(b + u, z - u, " %02x", (unsigned char)s[k]); }

/* numbers, names and numbers of components around every power of two and ten */
static const EDGES* eg(void) { static const EDGES q = { 3, 16, 3, 1 }, t = { 3, 20, 9, 1 }; return mc_thorough ? &t : &q; }
static VALUE big[3]; static size_t n_big, n_chain; static VALUE** chain[2]; static int big_built;
static void build_big(void)
{
    size_t i; int k;
    if(big_built) return;
    big_built = 1; mc_alloc_begin();
    n_big = edge_base(eg(), eg()->hi - eg()->lo) + 2; n_chain = n_big;
    value_init_array(&big[0]); for(i = 0; i < n_big; i++) { must(value_array_append(&big[0])); mc_beat(); }
    for(k = 0; k < 2; k++) {       /* a chain of dictionaries and one of arrays */
        chain[k] = mc_xmalloc(sizeof(VALUE*) * (n_chain + 1)); chain[k][0] = &big[1 + k];
        for(i = 0; i < n_chain; i++) { if(k == 0) { value_init_dict(chain[k][i]); chain[k][i + 1] = must(value_dict_add(chain[k][i], "a")); } else { value_init_array(chain[k][i]); chain[k][i + 1] = must(value_array_append(chain[k][i])); } mc_beat(); }
        leaf(chain[k][n_chain]);
    }
    mc_alloc_begin();
}
static uint64_t cnt_edge(void) { return 10 * edge_count(eg()); }
static void value_build_path_undo(VALUE* v, const char* p)      /* removes the last component, a name */
{
    const char* e = p + strlen(p); char* q; VALUE* d; size_t n;
    while(e > p && e[-1] != '/' && e[-1] != ']') e--;
    n = e - p; q = mc_xmalloc(n + 1); memcpy(q, p, n); q[n] = 0; d = value_path(v, q); mc_xfree(q);
    MC_ASSERT(d != NULL && value_dict_remove(d, e) == 0, "the name built is not in its dictionary");
}
static void expect(VALUE* v, const char* p, const VALUE* want, const char* what) { VALUE* g;
    if(mc_arg) {      /* C21: building what exists is looking it up; an index out of range gives nothing; a missing name is added */
        size_t live = mc_live_blocks(), size = value_type(v) == VALUE_ARRAY ? value_array_size(v) : value_dict_size(v); const char* e = p + strlen(p);
        g = value_build_path(v, p); mc_count_calls(1);
        if(want == NULL && e > p && e[-1] != ']') { MC_ASSERT(g != NULL && value_is_new(g), "%s: %s", what, g == NULL ? "nothing is built" : "an old value is given for a missing one"); MC_ASSERT(value_path(v, p) == g, "%s: what was built is not found", what); value_build_path_undo(v, p); return; }
        MC_ASSERT(mc_live_blocks() == live && size == (value_type(v) == VALUE_ARRAY ? value_array_size(v) : value_dict_size(v)), "%s: something was added", what);
    } else g = value_path(v, p);
    MC_ASSERT(g == want, "%s: %s", what, g == NULL ? "nothing is found" : want == NULL ? "a value is found though the path does not resolve" : "another value is found"); mc_count_calls(1); }
static char* reps(const char* unit, size_t n, const char* tail) { size_t u = strlen(unit), t = strlen(tail), i; char* p = mc_xmalloc(n * u + t + 1); for(i = 0; i < n; i++) memcpy(p + i * u, unit, u); memcpy(p + n * u, tail, t + 1); return p; }
static void run_edge(uint64_t i)
{
    size_t n = edge_at(eg(), i / 10), k; int form = i % 10; char t[80]; char* p;
    build_big();
    if(n == 0) return;
    switch(form) {
        case 0: snprintf(t, sizeof t, "[%zu]", n); expect(&big[0], t, n < n_big ? value_array_get(&big[0], n) : NULL, t); if(n < n_big) MC_ASSERT(value_array_get(&big[0], n) == value_array_get_all(&big[0]) + n, "array get"); break;
        case 1: snprintf(t, sizeof t, "[-%zu]", n); expect(&big[0], t, n <= n_big ? value_array_get(&big[0], n_big - n) : NULL, t); break;
        case 2: snprintf(t, sizeof t, "[%zu]", n_big - n); if(n <= n_big) expect(&big[0], t, value_array_get(&big[0], n_big - n), t); break;
        case 3: p = reps("0", n, "7]"); p[0] = '['; expect(&big[0], p, value_array_get(&big[0], 7), "an index with leading zeros"); mc_xfree(p); break;
        case 4: p = reps("0", n + 1, "8]"); p[0] = '['; p[1] = '-'; expect(&big[0], p, value_array_get(&big[0], n_big - 8), "a negative index with leading zeros"); mc_xfree(p); break;
        case 5: p = reps("1", n + 1, "]"); p[0] = '['; k = strlen(p); { size_t x = 0, j; for(j = 1; j + 1 < k && x < n_big; j++) x = x * 10 + 1; expect(&big[0], p, x < n_big ? value_array_get(&big[0], x) : NULL, "an index of many digits"); } mc_xfree(p); break;
        case 6: case 7:
            if(n > n_chain) break;
            p = reps(form == 6 ? "a/" : "[0]", n, ""); expect(&big[form - 5], p, chain[form - 6][n], "a path of many components"); mc_xfree(p);
            p = reps(form == 6 ? "/a" : "[-1]", n, ""); expect(&big[form - 5], p, chain[form - 6][n], "a path of many components"); mc_xfree(p);
            p = reps(form == 6 ? "a/" : "[0]", n, form == 6 ? "b" : "[1]"); if(!mc_arg || form == 7 || n < n_chain) expect(&big[form - 5], p, NULL, "a path of many components, the last one missing"); mc_xfree(p);
            break;
        case 8:
            p = reps("/", n, "a/a"); expect(&big[1], p, chain[0][2], "many slashes"); mc_xfree(p);
            p = reps("/", n + 1, "/a/"); p[0] = 'a'; expect(&big[1], p, chain[0][2], "many slashes"); mc_xfree(p);
            p = reps("/", n + 1, "[0]"); memcpy(p, "[0]", n >= 2 ? 3 : 0); if(n >= 3) expect(&big[2], p, chain[1][2], "many slashes"); mc_xfree(p);
            break;
        case 9: {       /* long names, and others which are one character shorter, longer or different */
            VALUE d; VALUE *v1, *v2, *v3, *w; char* q; mc_alloc_begin(); value_init_dict(&d); q = reps("k", n + 1, "/z"); p = reps("k", n, "");
            v1 = must(value_dict_add(&d, p)); leaf(v1); v2 = must(value_dict_add_(&d, q, n + 1)); value_init_dict(v2); w = must(value_dict_add(v2, "z")); leaf(w);
            if(n > 1) { v3 = must(value_dict_add_(&d, q, n - 1)); value_init_array(v3); leaf(must(value_array_append(v3))); }
            v1 = value_dict_get(&d, p); v2 = value_dict_get_(&d, q, n + 1); w = value_dict_get(v2, "z");
            MC_ASSERT(v1 && v2 && v1 != v2 && w, "long names are not found");
            expect(&d, p, v1, "a long name"); expect(&d, q, w, "a long name and another"); q[n + 1] = 0; expect(&d, q, v2, "a long name");
            if(n > 1) { v3 = value_dict_get_(&d, q, n - 1); MC_ASSERT(v3 && v3 != v1 && v3 != v2, "long names are mixed up"); q[n - 1] = 0; expect(&d, q, v3, "a long name"); memcpy(q + n - 1, "[0]", 4); expect(&d, q, value_array_get(v3, 0), "a long name and an index"); memcpy(q + n - 1, "kkq", 4); q[n + 2] = 0; expect(&d, q, NULL, "a longer name"); }
            p[n - 1] = 'j'; expect(&d, p, NULL, "a name with another last character"); p[n - 1] = 'k'; p[n / 2] = 'x'; expect(&d, p, NULL, "a name with another character");
            value_fini(&d); MC_ASSERT(mc_live_blocks() == 0, "%zu blocks are left", mc_live_blocks()); mc_xfree(p); mc_xfree(q);
            break; }
    }
    mc_count_trace(1);
}
static void desc_edge(uint64_t i, char* b, size_t z) { snprintf(b, z, "size %zu, form %d", edge_at(eg(), i / 10), (int)(i % 10)); }

/* ============ C21 ============ */
static VALUE outer; static VALUE* root; static int stage;
static const char* bc_q[] = { "a", "b", "[]", "[0]", "[-1]", "[1]" };
static const char* bc_t[] = { "a", "b", "ab", "[]", "[0]", "[-1]", "[1]", "[-2]", "[2]", "[x]" };
static const char** bc; static int nbc, blen, acts;
static const int plans[] = { 0, 1, 2, 3, -1, -2, 4, -3 };
static int nplans;
static char path[200];
static int npaths(void) { int t = 1, p = 1, i; for(i = 0; i < blen; i++) { p *= nbc; t += p; } return t; }
static void mkpath(int i)
{
    int p = 1, n = 0, k; path[0] = 0;
    while(i >= p) { i -= p; p *= nbc; n++; }
    for(k = 0; k < n; k++) { const char* c = bc[i % nbc]; i /= nbc; if(k && (c[0] != '[' || (k & 1))) strcat(path, (k + n) % 3 ? "/" : "//"); strcat(path, c); }
}
enum { R_NEW, R_NULL, R_DICT, R_ODICT, R_ARRAY, R_INT, R_MIXED, R_N };
enum { A_LEAVE, A_INT, A_STR, A_NULL, A_DICT, A_N };
static void make_root(int k)
{
    root = &outer; memset(&outer, 0, sizeof outer);
    switch(k) {
    case R_NEW: value_init_array(&outer); root = must(value_array_append(&outer)); break;
    case R_NULL: value_init_null(&outer); break;
    case R_DICT: value_init_dict(&outer); break;
    case R_ODICT: value_init_dict_ex(&outer, NULL, VALUE_DICT_MAINTAINORDER); break;
    case R_ARRAY: value_init_array(&outer); break;
    case R_INT: value_init_int32(&outer, 5); break;
    case R_MIXED: { VALUE* x; value_init_dict(&outer); x = must(value_dict_add(&outer, "a")); value_init_array(x); x = must(value_array_append(x)); value_init_dict(x); x = must(value_dict_add(x, "b")); value_init_string(x, "a string stored outside the value"); must(value_dict_add(&outer, "b")); break; }
    }
    stage = 1;
}
static void reset(void)
{
    blen = mc_arg % 10; acts = mc_arg / 10 % 10; nplans = mc_arg / 100 % 10; nbc = mc_arg / 1000 % 100;
    bc = nbc > 6 ? bc_t : bc_q; stage = 0; root = NULL;
    memset(&outer, 0, sizeof outer);
}
static int n_ops(void) { return stage == 0 ? R_N : npaths() * acts * nplans; }
/* builds one path and compares with the reference; what was there before stays, also if memory cannot be had */
static VALUE* build_one(const char* path_, int plan)
{
    COMP c[16]; int n, i, k, nsnap = 0, ok = 1, fired; T* t; T* cur; VALUE* got; VALUE* want; static char snap[40][4096]; static char now[4096]; static char raw[200]; char* p; struct { int idx; const COMP* c; } loc[16];
    t_clear();
    t = t_import(root); cur = t;
    n = t_parse(path_, c, 16);
    /* reference: every intermediate hierarchy is kept; a failure may leave any of them behind */
    t_text(t, snap[nsnap++], sizeof *snap);
    for(i = 0; i < n; i++) {
        if(c[i].kind == 3) { if(cur->kind == T_NEW) { cur->kind = T_ARRAY; cur->flags = 0; t_text(t, snap[nsnap++], sizeof *snap); } ok = 0; break; }
        if(cur->kind == T_NEW) { cur->kind = c[i].kind == 0 ? T_DICT : T_ARRAY; cur->flags = 0; t_text(t, snap[nsnap++], sizeof *snap); }
        if(c[i].kind == 0 ? cur->kind != T_DICT : cur->kind != T_ARRAY) { ok = 0; break; }
        if(c[i].kind == 2) { loc[i].idx = cur->nc; cur = t_newchild(cur, NULL, 0); t_text(t, snap[nsnap++], sizeof *snap); }
        else {
            k = t_child(cur, &c[i]);
            if(k >= 0) { loc[i].idx = k; cur = cur->c[k]; }
            else if(c[i].kind == 1) { ok = 0; break; }
            else { cur = t_newchild(cur, c[i].key, c[i].kl); t_text(t, snap[nsnap++], sizeof *snap); }
        }
        loc[i].c = &c[i];
    }
    want = n < 0 ? value_path(root, path_) : NULL;
    p = mc_xmalloc(strlen(path_) + 1); strcpy(p, path_);
    mc_fail_plan(plan);
    got = value_build_path(root, p);
    fired = mc_fail_fired(); mc_fail_plan(0);
    memset(p, 0xEE, strlen(path_)); mc_xfree(p);
    if(n < 0) {      /* an undocumented form: all that is known is what it means for the lookup */
        if(want == NULL) return got;
        MC_ASSERT(fired || got == want, "building \"%s\", which resolves, returns %s", path_, got ? "another value" : "nothing");
        t_text(t_import(root), now, sizeof now); MC_ASSERT(strcmp(now, snap[0]) == 0, "building \"%s\", which resolves, left %s (it was %s)", path_, now, snap[0]);
        return got;
    }
    t_text(t_import(root), now, sizeof now);
    if(got == NULL) {
        MC_ASSERT(!ok || fired, "building \"%s\" failed", path_);
        for(i = 0; i < nsnap; i++) if(strcmp(now, snap[i]) == 0) break;
        MC_ASSERT(i < nsnap, "a failed build of \"%s\" left %s (it was %s)", path_, now, snap[0]);
        return NULL;
    }
    MC_ASSERT(ok, "building \"%s\" succeeded on %s", path_, snap[0]);
    MC_ASSERT(strcmp(now, snap[nsnap - 1]) == 0, "building \"%s\" on %s gave %s, expected %s", path_, snap[0], now, snap[nsnap - 1]);
    /* the value returned is the one at that place, by the elementary getters and by lookup of the concrete path */
    want = root; raw[0] = 0;
    for(i = 0; i < n; i++) {
        char num[16];
        if(c[i].kind == 0) { want = value_dict_get_(want, c[i].key, c[i].kl); strcat(raw, "/"); strncat(raw, c[i].key, c[i].kl); }
        else { want = value_array_get(want, loc[i].idx); snprintf(num, sizeof num, "[%d]", loc[i].idx); strcat(raw, num); }
    }
    MC_ASSERT(got == want, "building \"%s\" returned a value which is not at that place", path_);
    MC_ASSERT(value_path(root, raw) == got, "looking up \"%s\" does not find the value built by \"%s\"", raw, path_);
    if(nsnap == 1) MC_ASSERT(value_path(root, path_) == got, "\"%s\" resolves but a lookup differs from building it", path_);
    return got;
}
static int apply(int op)
{
    int act, plan; VALUE* got;
    if(stage == 0) { make_root(op); return 1; }
    plan = plans[op % nplans]; op /= nplans; act = op % acts; mkpath(op / acts);
    got = build_one(path, plan);
    if(got != NULL && value_is_new(got)) switch(act) {
        case A_LEAVE: break;
        case A_INT: value_init_int32(got, 7); break;
        case A_STR: value_init_string(got, "a string too long for storing inline"); break;
        case A_NULL: value_init_null(got); break;
        case A_DICT: value_init_dict_ex(got, NULL, VALUE_DICT_MAINTAINORDER); break;
    }
    return 1;
}
static void describe(int op, char* b, size_t z)
{
    static const char* rn[] = { "root: new value", "root: null", "root: dict", "root: order-keeping dict", "root: array", "root: int", "root: mixed hierarchy" };
    static const char* an[] = { "leave", "init as int", "init as string", "init as null", "init as dict" };
    int plan, act;
    if(stage == 0) { snprintf(b, z, "%s", rn[op]); return; }
    plan = plans[op % nplans]; op /= nplans; act = op % acts; mkpath(op / acts);
    snprintf(b, z, "build \"%s\", %s, failure plan %d", path, an[act], plan);
}
/* any path, well-formed or not, on small hierarchies */
enum { Q_ARRAYS = R_N, Q_ODD, Q_N };
static void small_root(int k)
{
    VALUE* x; int i;
    if(k < R_N) { make_root(k); return; }
    root = &outer; memset(&outer, 0, sizeof outer);
    if(k == Q_ARRAYS) {
        value_init_array(&outer);
        for(i = 0; i < 12; i++) { x = must(value_array_append(&outer)); if(i == 1) { int j; value_init_array(x); for(j = 0; j < 3; j++) leaf(must(value_array_append(x))); } else if(i == 0) { value_init_dict(x); leaf(must(value_dict_add(x, "a"))); } else if(i == 11) value_init_string(x, "[0]"); else if(i != 2) leaf(x); }
    } else {
        static const char* const keys[] = { "[0]", "[]", "0", "-1", "+", "]", "[", "[-1]", "[00]" };
        value_init_dict_ex(&outer, NULL, VALUE_DICT_MAINTAINORDER);
        for(i = 0; i < 9; i++) { x = must(value_dict_add(&outer, keys[i])); if(i % 3 == 1) { value_init_array(x); leaf(must(value_array_append(x))); } else if(i % 3 == 2) leaf(x); }
    }
    stage = 1;
}
static void teardown(void);
static void build_any(const char* s)
{
    int k; char* t = mc_xmalloc(strlen(s) + 1); strcpy(t, s);
    for(k = 0; k < Q_N; k++) {
        VALUE* g;
        mc_alloc_begin(); small_root(k); g = build_one(t, 0);
        if(g != NULL) MC_ASSERT(k == R_INT ? g == root : 1, "something is built on a value that is no container");
        mc_count_calls(2); teardown();
    }
    MC_ASSERT(value_build_path(NULL, t) == NULL, "building \"%s\" on no value gives a value", t);
    mc_count_trace(1); mc_xfree(t);
}
static void brun_str(uint64_t i) { char s[32]; mkstr(i, s); build_any(s); }
static void brun_wf(uint64_t i) { char s[128]; if(mkwf(i, s) >= 0) build_any(s); }
static void brun_num(uint64_t i) { char s[160], t[200]; mknum(i, s); build_any(s); snprintf(t, sizeof t, "[1]%s", s); build_any(t); snprintf(t, sizeof t, "a/%s", s); build_any(t); snprintf(t, sizeof t, "[]%s", s); build_any(t); }
static void brun_byte(uint64_t i) { char s[16]; mkbyte(i, s); build_any(s); }
static void canon(MC_HASH* h)
{
    static char s[8192]; size_t i, n = mc_live_blocks(), sz; void* p; uint64_t sum = 0;
    mc_hash_u64(h, stage); if(!stage) return;
    t_clear(); t_text(t_import(root), s, sizeof s);
    mc_hash_bytes(h, s, strlen(s) + 1);
    for(i = 0; i < n; i++) { mc_block_at(i, &p, &sz); sum += sz * sz * 31 + 7 * sz + 1; }
    mc_hash_u64(h, sum); mc_hash_u64(h, root == &outer);
}
static void teardown(void)
{
    value_fini(&outer);
    MC_ASSERT(mc_live_blocks() == 0, "%zu blocks leaked", mc_live_blocks());
}
#define S(nm, tier, nbc, np, ac, len, d) { "C21", nm, tier, (nbc) * 1000 + (np) * 100 + (ac) * 10 + (len), (d) + 1, reset, n_ops, apply, canon, teardown, describe, 0, 0 }
/* paths that build many components, or long names, with failing allocations */
static const EDGES* eb(void) { static const EDGES q = { 3, 14, 2, 0 }, t = { 3, 17, 3, 1 }; return mc_thorough ? &t : &q; }
#define NBF 16
static uint64_t cnt_eb(void) { return NBF * edge_count(eb()); }
static void fini_chain(VALUE* v, size_t n)       /* from the innermost one, as value_fini() recurses */
{
    VALUE** st = mc_xmalloc(sizeof(VALUE*) * (n + 2)); size_t d = 0;
    while(v && d < n + 2) { st[d++] = v; v = value_type(v) == VALUE_ARRAY ? value_array_get(v, value_array_size(v) - 1) : value_type(v) == VALUE_DICT ? value_dict_get(v, "a") : NULL; }
    while(d > 0) { value_fini(st[--d]); if(d > 0) value_init_null(st[d]); }
    mc_xfree(st);
}
static VALUE* new_root(VALUE* o) { value_init_array(o); return must(value_array_append(o)); }
static void run_eb(uint64_t i)
{
    static const char* const unit[] = { "a/", "[]", "/a[]", "[]/a/", "a[]/" };
    size_t n = edge_at(eb(), i / NBF), k, per, d; int form = i % NBF; char* p; VALUE out_; VALUE* root; VALUE *g, *v;
    if(n == 0) return;
    mc_alloc_begin(); root = new_root(&out_);
    if(form < 15) {
        int f = form % 5; const char* c;
        p = reps(unit[f], n, "");
        per = f < 2 ? 1 : 2;
        if(form >= 5) {       /* first with failing memory: at the end, in the middle */
            size_t want = form < 10 ? n * per - 1 : n * per / 2;
            mc_fail_plan((int)want + 1); g = value_build_path(root, p); k = mc_fail_fired(); mc_fail_plan(0); mc_count_calls(1);
            MC_ASSERT(k == 0 || g == NULL, "a value is returned though memory could not be allocated");
            if(g == NULL) for(v = root, d = 0; d <= n * per && v; d++) {       /* what is left is a prefix of the path */
                if(value_type(v) == VALUE_ARRAY) { MC_ASSERT(value_array_size(v) <= 1, "an array of %zu items is left", value_array_size(v)); v = value_array_get(v, 0); }
                else if(value_type(v) == VALUE_DICT) { MC_ASSERT(value_dict_size(v) <= 1, "a dictionary of %zu items is left", value_dict_size(v)); v = value_dict_get(v, "a"); }
                else { MC_ASSERT(value_is_new(v), "level %zu has been made something else", d); v = NULL; } }
            fini_chain(root, n * per); value_init_null(root); value_fini(&out_); MC_ASSERT(mc_live_blocks() == 0, "%zu blocks are left after a failure", mc_live_blocks());
            root = new_root(&out_);
        }
        g = value_build_path(root, p); mc_count_calls(1);
        MC_ASSERT(g != NULL && value_is_new(g), "a path of %zu components gives %s", n * per, g ? "an old value" : "nothing");
        for(v = root, d = 0, c = p; d < n * per; d++) {
            while(*c == '/') c++;
            MC_ASSERT(v != NULL, "level %zu is missing", d);
            if(*c == '[') { MC_ASSERT(value_type(v) == VALUE_ARRAY && value_array_size(v) == 1, "level %zu is not an array of one item", d); v = value_array_get(v, 0); c += 2; }
            else { MC_ASSERT(value_type(v) == VALUE_DICT && value_dict_size(v) == 1, "level %zu is not a dictionary of one item", d); v = value_dict_get(v, "a"); c++; }
        }
        MC_ASSERT(v == g, "the value returned is not the one at the end of the path");
        if(f == 0) MC_ASSERT(value_build_path(root, p) == g, "building the path again gives another value");
        value_init_int32(g, 7); fini_chain(root, n * per); value_init_null(root); value_fini(&out_); mc_xfree(p);
    } else {        /* a long name; and appending many items */
        p = reps("k", n, "/a"); 
        for(k = 1; ; k++) { mc_fail_plan((int)k); g = value_build_path(root, p); d = mc_fail_fired(); mc_fail_plan(0); if(!d) break; MC_ASSERT(g == NULL, "a value is returned though memory could not be allocated"); }
        MC_ASSERT(g != NULL && value_is_new(g) && value_dict_size(root) == 1, "a long name"); v = value_dict_get_(root, p, n); MC_ASSERT(v && value_dict_size(v) == 1 && value_dict_get(v, "a") == g, "a long name is not found");
        MC_ASSERT(value_dict_get_(root, p, n - 1) == NULL || n == 1, "a part of the name is found"); MC_ASSERT(value_build_path(root, p) == g, "building the path again gives another value");
        value_fini(&out_); mc_xfree(p); root = new_root(&out_);
        for(k = 0; k < n; k++) { g = value_build_path(root, "[]"); MC_ASSERT(g != NULL && value_is_new(g), "item %zu", k); value_init_uint32(g, (uint32_t)k); MC_ASSERT(value_array_size(root) == k + 1 && value_array_get(root, k) == g, "item %zu is not at the end", k); }
        for(k = 0; k < n; k++) MC_ASSERT(value_uint32(value_array_get(root, k)) == k, "item %zu has changed", k);
        mc_count_calls(n); { char t[40]; snprintf(t, sizeof t, "[%zu]", n - 1); MC_ASSERT(value_build_path(root, t) == value_array_get(root, n - 1), "%s", t); snprintf(t, sizeof t, "[%zu]", n); MC_ASSERT(value_build_path(root, t) == NULL && value_array_size(root) == n, "%s", t); snprintf(t, sizeof t, "[-%zu]", n); MC_ASSERT(value_build_path(root, t) == value_array_get(root, 0), "%s", t); }
        value_fini(&out_);
    }
    MC_ASSERT(mc_live_blocks() == 0, "%zu blocks are left", mc_live_blocks()); mc_count_trace(1);
}
static void desc_eb(uint64_t i, char* b, size_t z) { snprintf(b, z, "size %zu, form %d", edge_at(eb(), i / NBF), (int)(i % NBF)); }
/* ---- paths of gigabytes: a mapping of one small file again and again, with private pages at both ends */
static const struct { char c; const char* head; const char* tail; int want; const char* what; } vasts[] = {
    { 'k', "", "", 0, "a name" }, { '/', "", "k", 1, "slashes before a name" }, { '0', "[", "1]", 3, "an index with leading zeros" }, { '0', "[-", "3]", 2, "a negative index with leading zeros" },
    { 'k', "", "/k", 0, "a name and another" }, { '1', "[", "]", 0, "an index" }, { '/', "k", "k", 4, "slashes between names" }, { '9', "[-", "]", 0, "a negative index" }, { 'k', "k/", "", 0, "a name after another" }, { '/', "[0]", "", 2, "slashes at the end" } };
#define NVAST ((int)(sizeof vasts / sizeof *vasts))
static size_t vsize(uint64_t i) { static const size_t q[] = { ((size_t)1 << 32) + 1, ((size_t)1 << 31) + 1, (size_t)1 << 32, ((size_t)1 << 32) - 1, ((size_t)1 << 33) + 1 }; return q[i / NVAST]; }
static uint64_t cnt_vast(void) { return (mc_thorough ? 5 : 1) * NVAST; }
static void run_vast(uint64_t i)
{
    size_t n = vsize(i); int k = i % NVAST; char* p = vast(vasts[k].c, n, vasts[k].head, vasts[k].tail); VALUE d, a; VALUE *want[5] = { 0 }, *g; char t0[200], t1[200];
    if(p == NULL) { fprintf(stderr, "harness: no mapping\n"); abort(); }
    mc_alloc_begin();
    value_init_dict(&d); value_init_dict(must(value_dict_add(&d, "k"))); leaf(must(value_dict_add(value_dict_get(&d, "k"), "k"))); leaf(must(value_dict_add(value_dict_get(&d, "k"), ""))); leaf(must(value_dict_add(&d, "")));
    want[1] = value_dict_get(&d, "k"); want[4] = value_dict_get(want[1], "k");
    value_init_array(&a); for(n = 0; n < 3; n++) leaf(must(value_array_append(&a)));
    n = vsize(i); want[2] = value_array_get(&a, 0); want[3] = value_array_get(&a, 1);
    t_clear(); t_text(t_import(*vasts[k].head == '[' ? &a : &d), t0, sizeof t0);
    if(mc_arg) mc_fail_plan(-1);      /* nothing may be added, for want of memory */
    g = mc_arg ? value_build_path(*vasts[k].head == '[' ? &a : &d, p) : value_path(*vasts[k].head == '[' ? &a : &d, p);
    mc_fail_plan(0); mc_count_calls(1);
    MC_ASSERT(g == want[vasts[k].want], "%s: %zu bytes: %s", vasts[k].what, n, g == NULL ? "nothing is found" : want[vasts[k].want] == NULL ? "a value is found" : "another value is found");
    t_clear(); t_text(t_import(*vasts[k].head == '[' ? &a : &d), t1, sizeof t1); MC_ASSERT(strcmp(t0, t1) == 0, "%s: the hierarchy has changed", vasts[k].what);
    value_fini(&d); value_fini(&a); MC_ASSERT(mc_live_blocks() == 0, "%zu blocks are left", mc_live_blocks());
    vast_free(p, n, vasts[k].head, vasts[k].tail); mc_count_trace(1);
}
static void desc_vast(uint64_t i, char* b, size_t z) { snprintf(b, z, "%s, %zu times '%c'", vasts[i % NVAST].what, vsize(i), vasts[i % NVAST].c); }
MC_SYS mc_systems[] = {
    S("build-long-paths", 1, 6, 1, 1, 4, 2), S("build-many-steps", 1, 6, 1, 3, 2, 3), S("build-failures", 1, 6, 5, 2, 3, 2),
    S("build-long-paths-deep", 2, 10, 1, 2, 4, 2), S("build-many-steps-deep", 2, 10, 1, 5, 2, 3), S("build-failures-deep", 2, 10, 8, 2, 3, 2), S("build-longest-paths", 2, 6, 8, 1, 6, 1), S("build-most-steps", 2, 6, 1, 2, 2, 4),
    { 0 }
};
MC_ENUM mc_enums[] = {
    { "C20", "path-strings", 1, 6, cnt_str, run_str, desc_str, 512 }, { "C20", "path-strings-deep", 2, 8, cnt_str, run_str, desc_str, 512 },
    { "C20", "path-components", 1, 2, cnt_wf, run_wf, desc_wf, 64 }, { "C20", "path-components-deep", 2, 3, cnt_wf, run_wf, desc_wf, 64 },
    { "C20", "path-numerals", 3, 0, cnt_num, run_num, desc_num, 64 },
    { "C20", "path-bytes", 3, 0, cnt_byte, run_byte, desc_byte, 256 },
    { "C20", "edges-path", 3, 0, cnt_edge, run_edge, desc_edge, 16 }, { "C21", "edges-build", 3, 0, cnt_eb, run_eb, desc_eb, 4 },
    { "C21", "build-strings", 1, 5, cnt_str, brun_str, desc_str, 256 }, { "C21", "build-strings-deep", 2, 7, cnt_str, brun_str, desc_str, 512 },
    { "C21", "build-components", 1, 2, cnt_wf, brun_wf, desc_wf, 32 }, { "C21", "build-components-deep", 2, 3, cnt_wf, brun_wf, desc_wf, 64 },
    { "C21", "build-numerals", 3, 0, cnt_num, brun_num, desc_num, 32 }, { "C21", "build-bytes", 3, 0, cnt_byte, brun_byte, desc_byte, 128 },
    { "C20", "huge-paths", 3, 0, cnt_vast, run_vast, desc_vast, 1 }, { "C21", "huge-paths-build", 3, 1, cnt_vast, run_vast, desc_vast, 1 },
    { "C21", "edges-build-existing", 3, 1, cnt_edge, run_edge, desc_edge, 16 },
    { 0 }
};
__attribute__((constructor)) static void patience(void) { mc_hang_limit = 150; }     /* one call may work through gigabytes */
