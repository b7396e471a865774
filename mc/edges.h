/* All sizes within `d` of each power of two 2^lo .. 2^hi and of the powers of ten between: where sizes are rounded, counted in fewer bits or
 * cut into pieces, something changes there. */
#ifndef EDGES_H
#define EDGES_H
#include <stddef.h>
typedef struct EDGES { int lo, hi, d, tens; } EDGES;
static inline size_t edge_base(const EDGES* e, size_t i)
{
    size_t t;
    if(i <= (size_t)(e->hi - e->lo)) return (size_t)1 << (e->lo + i);
    i -= e->hi - e->lo + 1;
    for(t = 10; t >> e->lo == 0; t *= 10) ;
    while(i--) t *= 10;
    return t;
}
static inline size_t edge_bases(const EDGES* e) { size_t n = e->hi - e->lo + 1, t; if(e->tens) for(t = 10; t >> e->hi == 0; t *= 10) if(t >> e->lo) n++; return n; }
static inline size_t edge_count(const EDGES* e) { return edge_bases(e) * (2 * e->d + 1); }
/* 0 if the distance is larger than the base */
static inline size_t edge_at(const EDGES* e, size_t i) { size_t b = edge_base(e, i / (2 * e->d + 1)), off = i % (2 * e->d + 1); return b + off >= (size_t)e->d ? b + off - e->d : 0; }
#endif
