/* The macro from a node to its structure in translation units which see no offsetof: OFFS=1 as a plain user who did not include <stddef.h>, OFFS=2 for a
 * compiler without the builtin. OFFS=0: with <stddef.h>. MOD: 1 list.h, 2 htable.h, 3 rbtree.h */
#if OFFS == 0
    #include <stddef.h>
#endif
#if OFFS == 2
    #include <stdint.h>
    #include <stdlib.h>
    #include <string.h>
    #undef offsetof
    #undef __GNUC__
#endif
#if MOD == 1
    #include "list.h"
#elif MOD == 2
    #include "htable.h"
#else
    #include "rbtree.h"
#endif
#define CAT_(a, b) a##b
#define CAT(a, b) CAT_(a, b)
#define OFFS_UNIT(NAME, DATA, NODE)                                                                                            \
typedef struct { NODE n; long id; } NAME##_A; typedef struct { char c; NODE n; char d; } NAME##_B;                              \
typedef struct { long x[3]; struct { char y; NODE in[3]; } sub; union { NODE u; int v; } w; NODE n[4]; } NAME##_C;              \
typedef struct { char big[70001]; NODE n; } NAME##_D;                                                                           \
long CAT(NAME, CAT(_offs_, OFFS))(int k)                                                                                        \
{                                                                                                                              \
    static NAME##_A a; static NAME##_B b; static NAME##_C c; static NAME##_D d;                                                 \
    switch(k) {                                                                                                                \
    case 0: return (char*) DATA(&a.n, NAME##_A, n) - (char*) &a; case 1: return (char*) DATA(&b.n, NAME##_B, n) - (char*) &b;   \
    case 2: return (char*) DATA(&c.sub.in[0], NAME##_C, sub.in[0]) - (char*) &c; case 3: return (char*) DATA(&c.sub.in[2], NAME##_C, sub.in[2]) - (char*) &c;   \
    case 4: return (char*) DATA(&c.w.u, NAME##_C, w.u) - (char*) &c; case 5: return (char*) DATA(c.n, NAME##_C, n) - (char*) &c; \
    case 6: return (char*) DATA(c.n + 3, NAME##_C, n[3]) - (char*) &c; case 7: return (char*) DATA(&d.n, NAME##_D, n) - (char*) &d;   \
    default: return (char*) DATA((k ? &d.n : (NODE*) 0), NAME##_D, n)->big - d.big;                                                  \
    }                                                                                                                          \
}
#if MOD == 1
OFFS_UNIT(list, LIST_DATA, LIST_NODE) OFFS_UNIT(slist, SLIST_DATA, SLIST_NODE) OFFS_UNIT(qlist, QLIST_DATA, QLIST_NODE)
#elif MOD == 2
OFFS_UNIT(htable, HTABLE_DATA, HTABLE_NODE)
#else
OFFS_UNIT(rbtree, RBTREE_DATA, RBTREE_NODE)
#endif
