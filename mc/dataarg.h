/* The macro from an embedded node to its structure, with every form of expression as argument and any place of the node. */
#ifndef DATAARG_H
#define DATAARG_H
#define DATA_UNIT(pre, DATA, NODE)                                                                                                    \
typedef struct { NODE n; long id; } pre##A; typedef struct { char c; NODE n; char d; } pre##B; struct pre##C { long x[3]; struct { char y; NODE in[3]; } sub; NODE n[4]; };   \
static int pre##calls; static NODE* pre##give(NODE* p) { pre##calls++; return p; }                                                     \
static uint64_t pre##cnt(void) { return 64; }                                                                                          \
static void pre##run(uint64_t v)                                                                                                       \
{                                                                                                                                      \
    static pre##A a[3]; static pre##B b[3]; static struct pre##C c[3]; int k = v & 1, l = v >> 1 & 1, m = v >> 2 & 1; unsigned f = (unsigned)(v >> 3);   \
    NODE* p = &a[k].n; NODE* q = &a[2].n; NODE** pp; NODE* ptrs[4]; const NODE* cp = &b[k].n; const void* got; const void* want;       \
    ptrs[0] = &a[0].n; ptrs[1] = &a[1].n; ptrs[2] = &a[2].n; ptrs[3] = NULL; pp = ptrs; pre##calls = 0;                                \
    switch(f) {                                                                                                                        \
    case 0: got = DATA(l ? p : q, pre##A, n); want = l ? &a[k] : &a[2]; MC_ASSERT(got == want, "conditional expression as node");      \
            got = DATA(l == m ? q : p, pre##A, n); want = l == m ? &a[2] : &a[k]; MC_ASSERT(got == want, "comparison as node");        \
            got = DATA(l || m ? q : p, pre##A, n); want = l || m ? &a[2] : &a[k]; break;                                               \
    case 1: p = &c[k].n[1]; got = DATA(p + 1, struct pre##C, n[2]); want = &c[k]; MC_ASSERT(got == want, "sum as node");              \
            got = DATA(p - 1, struct pre##C, n[0]); MC_ASSERT(got == want, "difference as node");                                     \
            got = DATA(p + 1 + l, struct pre##C, n[2]); if(l) got = DATA(p + 2, struct pre##C, n[3]); break;                           \
    case 2: p = &c[k].sub.in[0]; got = DATA(p++, struct pre##C, sub.in[0]); want = &c[k]; MC_ASSERT(got == want && p == &c[k].sub.in[1], "post-increment as node");  \
            got = DATA(++p, struct pre##C, sub.in[2]); MC_ASSERT(p == &c[k].sub.in[2], "pre-increment as node"); break;               \
    case 3: got = DATA(*pp++, pre##A, n); want = &a[0]; MC_ASSERT(got == want && pp == ptrs + 1, "dereferenced increment as node");    \
            got = DATA(pp[l], pre##A, n); want = &a[1 + l]; MC_ASSERT(got == want, "element as node");                                \
            got = DATA(*(pp + l), pre##A, n); break;                                                                                  \
    case 4: got = DATA(pre##give(p), pre##A, n); want = &a[k]; MC_ASSERT(got == want && pre##calls == 1, "a call as node is made %d times", pre##calls);   \
            break;                                                                                                               \
    case 5: want = &b[k]; got = DATA(cp, pre##B, n); MC_ASSERT(got == want, "const node"); got = DATA(&b[k].n, pre##B, n); MC_ASSERT(got == want, "address as node");   \
            got = DATA((void*) cp, const pre##B, n); break;                                                                          \
    case 6: a[k].id = 77 + v; want = &a[k].id; MC_ASSERT(DATA(p, pre##A, n)->id == 77 + (long)v, "member of the result"); got = &DATA(l ? p : p, pre##A, n)->id;   \
            MC_ASSERT(got == want, "address of a member of the result"); (*DATA(p, pre##A, n)).id++; MC_ASSERT(a[k].id == 78 + (long)v, "dereferenced result"); break;   \
    default: want = &b[1 + k]; got = DATA(&b[k].n, pre##B, n) + 1; MC_ASSERT(got == want && sizeof *DATA(cp, pre##B, n) == sizeof(pre##B), "arithmetic with the result");   \
            got = 1 + (l ? DATA(cp, pre##B, n) : DATA(&b[k].n, pre##B, n)); break;                                                    \
    }                                                                                                                                  \
    MC_ASSERT(got == want, #DATA "() gives a structure %ld bytes off", (long)((const char*)got - (const char*)want));                  \
    mc_count_calls(3); mc_count_trace(1);                                                                                              \
}                                                                                                                                      \
static void pre##desc(uint64_t v, char* s, size_t z) { snprintf(s, z, #DATA "() with expressions of group %d, case %d", (int)(v >> 3), (int)(v & 7)); }
/* the macro in translation units compiled with and without offsetof and the compiler's builtin (offs.c) */
#define OFFS_USE(NAME) \
long NAME##_offs_0(int k); long NAME##_offs_1(int k); long NAME##_offs_2(int k); \
static uint64_t NAME##_ocnt(void) { return 27; } \
static void NAME##_orun(uint64_t v) { static long (*const f[])(int) = { NAME##_offs_0, NAME##_offs_1, NAME##_offs_2 }; long r = f[v / 9](v % 9); MC_ASSERT(r == 0, "the structure is found %ld bytes off", r); mc_count_calls(1); mc_count_trace(1); } \
static void NAME##_odesc(uint64_t v, char* s, size_t z) { static const char* n[] = { "offsetof", "no <stddef.h>", "no builtin" }; snprintf(s, z, "data macro of " #NAME ", %s, structure %d", n[v / 9], (int)(v % 9)); }
#endif
