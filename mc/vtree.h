/* A mirror of a VALUE hierarchy, read through the public interface only. */
#ifndef VTREE_H
#define VTREE_H
#include "mc.h"
#include "value.h"
enum { T_NEW, T_NULL, T_SCALAR, T_ARRAY, T_DICT };
typedef struct T { int kind; VALUE* real; char text[40]; unsigned flags; int nc; struct T** c; char (*key)[24]; int* keylen; int* order; } T;
static char t_arena[1 << 20]; static size_t t_used;
static void* t_get(size_t n) { void* p = t_arena + t_used; n = (n + 15) & ~(size_t)15; if(t_used + n > sizeof t_arena) { fprintf(stderr, "harness: arena full\n"); abort(); } t_used += n; memset(p, 0, n); return p; }
static void t_clear(void) { t_used = 0; }
static void t_room(T* t, int n)
{
    T** c = t_get((n + 1) * sizeof *c); char (*k)[24] = t_get((n + 1) * sizeof *k); int* kl = t_get((n + 1) * sizeof *kl); int* o = t_get((n + 1) * sizeof *o);
    if(t->nc) { memcpy(c, t->c, t->nc * sizeof *c); memcpy(k, t->key, t->nc * sizeof *k); memcpy(kl, t->keylen, t->nc * sizeof *kl); memcpy(o, t->order, t->nc * sizeof *o); }
    t->c = c; t->key = k; t->keylen = kl; t->order = o;
}
#define T_MAXC 300
static T* t_import(VALUE* v)
{
    T* t = t_get(sizeof *t); int i;
    t->real = v;
    switch(value_type(v)) {
    case VALUE_NULL: t->kind = value_is_new(v) ? T_NEW : T_NULL; break;
    case VALUE_ARRAY:
        t->kind = T_ARRAY; t->nc = 0; i = (int)value_array_size(v); MC_ASSERT(i < T_MAXC, "array of size %d", i); t_room(t, i);
        t->nc = i; for(i = 0; i < t->nc; i++) { VALUE* x = value_array_get(v, i); MC_ASSERT(x != NULL, "array item %d of %d is missing", i, t->nc); t->c[i] = t_import(x); }
        break;
    case VALUE_DICT: {
        const VALUE* ks[T_MAXC]; const VALUE* os[T_MAXC]; int n = (int)value_dict_size(v), m, j;
        MC_ASSERT(n < T_MAXC, "dictionary of size %d", n);
        t->kind = T_DICT; t->flags = value_dict_flags(v); t_room(t, n); t->nc = n;
        MC_ASSERT((int)value_dict_keys_sorted(v, ks, T_MAXC) == n, "listing of %d keys is incomplete", n);
        m = (int)value_dict_keys_ordered(v, os, T_MAXC);
        MC_ASSERT(m == (t->flags & VALUE_DICT_MAINTAINORDER ? n : 0), "ordered listing of %d keys gives %d", n, m);
        for(i = 0; i < n; i++) {
            size_t l = value_string_length(ks[i]); const char* s = value_string(ks[i]); VALUE* x;
            MC_ASSERT(l < sizeof *t->key, "a key of length %zu", l);
            memcpy(t->key[i], s, l); t->keylen[i] = (int)l;
            x = value_dict_get_(v, s, l); MC_ASSERT(x != NULL, "a listed key is not found");
            t->c[i] = t_import(x);
            t->order[i] = -1; for(j = 0; j < m; j++) if(os[j] == ks[i]) t->order[i] = j;
            MC_ASSERT(m == 0 || t->order[i] >= 0, "a key is not listed in insertion order");
        }
        break; }
    case VALUE_STRING: { size_t l = value_string_length(v); uint32_t h = 2166136261u; const unsigned char* s = (const unsigned char*)value_string(v); for(i = 0; i < (int)l; i++) h = (h ^ s[i]) * 16777619u; MC_ASSERT(s[l] == 0, "unterminated string"); t->kind = T_SCALAR; snprintf(t->text, sizeof t->text, "s%zu:%08x", l, h); break; }
    default: t->kind = T_SCALAR; snprintf(t->text, sizeof t->text, "%d:%llx:%g", (int)value_type(v), (unsigned long long)value_int64(v), value_double(v)); break;
    }
    return t;
}
static size_t t_text_(const T* t, char* b, size_t z, size_t u)
{
    int i;
#define PUT(...) do { int w_ = snprintf(b + u, z - u, __VA_ARGS__); u += w_; if(u >= z) { fprintf(stderr, "harness: text too long\n"); abort(); } } while(0)
    switch(t->kind) {
    case T_NEW: PUT("N"); break;
    case T_NULL: PUT("n"); break;
    case T_SCALAR: PUT("%s", t->text); break;
    case T_ARRAY: PUT("["); for(i = 0; i < t->nc; i++) { u = t_text_(t->c[i], b, z, u); PUT(","); } PUT("]"); break;
    case T_DICT: PUT("{%x|", t->flags); for(i = 0; i < t->nc; i++) { int j; PUT("%d'", t->keylen[i]); for(j = 0; j < t->keylen[i]; j++) PUT("%c", t->key[i][j] ? t->key[i][j] : '0'); PUT("'"); if(t->flags & VALUE_DICT_MAINTAINORDER) PUT("#%d", t->order[i]); PUT("="); u = t_text_(t->c[i], b, z, u); PUT(","); } PUT("}"); break;
    }
    return u;
}
static const char* t_text(const T* t, char* b, size_t z) { b[0] = 0; t_text_(t, b, z, 0); return b; }
static T* t_newchild(T* t, const char* key, int kl)      /* appends to an array, or adds a key to a dictionary */
{
    int i = t->nc, j; T* x;
    t_room(t, t->nc + 1);
    if(t->kind == T_DICT) {
        for(i = 0; i < t->nc; i++) { int m = t->keylen[i] < kl ? t->keylen[i] : kl; int c = memcmp(t->key[i], key, m); if(c > 0 || (c == 0 && t->keylen[i] > kl)) break; }
        for(j = t->nc; j > i; j--) { t->c[j] = t->c[j-1]; memcpy(t->key[j], t->key[j-1], sizeof *t->key); t->keylen[j] = t->keylen[j-1]; t->order[j] = t->order[j-1]; }
        memset(t->key[i], 0, sizeof *t->key); memcpy(t->key[i], key, kl); t->keylen[i] = kl; t->order[i] = t->flags & VALUE_DICT_MAINTAINORDER ? t->nc : -1;
    }
    t->nc++;
    x = t->c[i] = t_get(sizeof *x); x->kind = T_NEW;
    return x;
}
/* ---- the documented path language */
typedef struct { int kind; /* 0 key, 1 index, 2 append, 3 not an integer */ const char* key; int kl; int neg; unsigned __int128 idx; } COMP;
static int t_parse(const char* p, COMP* c, int max)      /* number of components, or -1: outside the documented language */
{
    int n = 0;
    for(;;) {
        while(*p == '/') p++;
        if(*p == 0) return n;
        if(n >= max) return -1;
        memset(&c[n], 0, sizeof c[n]);
        if(*p == '[') {
            const char* e = ++p; const char* d;
            while(*e && *e != ']' && *e != '/' && *e != '[') e++;
            if(*e != ']' || (e[1] && e[1] != '/' && e[1] != '[')) return -1;
            if(*p == '+') { for(d = p + 1; d < e && *d >= '0' && *d <= '9'; d++) ; if(d == e && e > p + 1) return -1; }      /* an explicit plus is undocumented, but anything else is no integer */
            if(p == e) c[n].kind = 2;
            else {
                d = p; if(*d == '-') { c[n].neg = 1; d++; }
                c[n].kind = d == e ? 3 : 1;
                for(; d < e; d++) { if(*d < '0' || *d > '9') { c[n].kind = 3; break; } if(c[n].idx < (unsigned __int128)1 << 100) c[n].idx = c[n].idx * 10 + (*d - '0'); }
            }
            p = e + 1;
        } else {
            c[n].key = p; while(*p && *p != '/' && *p != '[') { if(*p == ']') return -1; p++; }
            c[n].kl = (int)(p - c[n].key);
        }
        n++;
    }
}
static int t_child(const T* t, const COMP* c)
{
    int i;
    if(c->kind == 0) {
        if(t->kind != T_DICT) return -1;
        for(i = 0; i < t->nc; i++) if(t->keylen[i] == c->kl && memcmp(t->key[i], c->key, c->kl) == 0) return i;
        return -1;
    }
    if(c->kind != 1 || t->kind != T_ARRAY) return -1;
    if(c->neg) return c->idx >= 1 && c->idx <= (unsigned)t->nc ? t->nc - (int)c->idx : -1;
    return c->idx < (unsigned)t->nc ? (int)c->idx : -1;
}
static T* t_resolve(T* t, const COMP* c, int n) { int i, k; for(i = 0; i < n; i++) { k = t_child(t, &c[i]); if(k < 0) return NULL; t = t->c[k]; } return t; }
#endif
