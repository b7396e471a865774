/* C07: LIST; C08: SLIST and QLIST. */
#include "mc.h"
#include "dataarg.h"
#include "list.h"

#define MAXN 8
static int N;                       /* pool of nodes */
/* the node is embedded at different places of the payload structures */
typedef struct { int id; char pad[3]; LIST_NODE ln; int id2; } PA;
typedef struct { LIST_NODE ln; int id; } PB;
typedef struct { double x; int id; LIST_NODE ln; } PC;
static PA pa[MAXN]; static PB pb[MAXN]; static PC pc[MAXN];
static LIST_NODE* lnode(int i) { return i % 3 == 0 ? &pa[i].ln : i % 3 == 1 ? &pb[i].ln : &pc[i].ln; }
static int lid(const LIST_NODE* p)
{
    int i; for(i = 0; i < N; i++) if(lnode(i) == p) {
        int id = i % 3 == 0 ? LIST_DATA(p, PA, ln)->id : i % 3 == 1 ? LIST_DATA(p, PB, ln)->id : LIST_DATA(p, PC, ln)->id;
        MC_ASSERT(id == i, "LIST_DATA recovered the wrong payload");
        return i;
    }
    return -1;
}
static LIST L[2]; static int nl;
static int ord[2][MAXN], len[2], where[MAXN];

static void ins(int l, int pos, int id) { memmove(&ord[l][pos+1], &ord[l][pos], (len[l] - pos) * sizeof(int)); ord[l][pos] = id; len[l]++; where[id] = l; }
static int del(int l, int pos) { int id = ord[l][pos]; memmove(&ord[l][pos], &ord[l][pos+1], (len[l] - pos - 1) * sizeof(int)); len[l]--; where[id] = -1; return id; }

static void l_check(int l)
{
    LIST* list = &L[l]; LIST_NODE* p; int i = 0;
    MC_ASSERT(!list_is_empty(list) == (len[l] != 0), "list_is_empty() wrong at length %d", len[l]);
    for(p = list_head(list); p != list_end(list); p = list_next(p), i++) {
        MC_ASSERT(i < len[l], "forward walk longer than %d", len[l]);
        MC_ASSERT(p != NULL && lid(p) == ord[l][i], "forward walk: item %d is %d, expected %d", i, p ? lid(p) : -2, ord[l][i]);
    }
    MC_ASSERT(i == len[l], "forward walk has %d items, expected %d", i, len[l]);
    for(p = list_tail(list); p != list_end(list); p = list_prev(p)) {
        i--;
        MC_ASSERT(i >= 0, "backward walk longer than %d", len[l]);
        MC_ASSERT(p != NULL && lid(p) == ord[l][i], "backward walk: item %d is %d, expected %d", i, p ? lid(p) : -2, ord[l][i]);
    }
    MC_ASSERT(i == 0, "backward walk misses %d items", i);
}
static void l_reset(void)
{
    int i; N = mc_arg % 100; nl = mc_arg / 100;
    for(i = 0; i < N; i++) { pa[i].id = pb[i].id = pc[i].id = i; memset(lnode(i), 0x5A, sizeof(LIST_NODE)); where[i] = -1; }
    for(i = 0; i < nl; i++) { memset(&L[i], 0x5A, sizeof(LIST)); list_init(&L[i]); len[i] = 0; l_check(i); }
}
/* op: kind, list, node, position */
enum { APPEND, PREPEND, AFTER, BEFORE, REMOVE, REM_HEAD, REM_TAIL, MOVE_APPEND, NKIND };
static const char* kn[] = { "append", "prepend", "insert_after", "insert_before", "remove", "remove_head", "remove_tail", "remove and append to the other list" };
static int l_nops(void) { return NKIND * 2 * MAXN * (MAXN + 1); }
static void dec(int op, int* kind, int* l, int* id, int* pos) { *pos = op % (MAXN + 1); op /= (MAXN + 1); *id = op % MAXN; op /= MAXN; *l = op % 2; *kind = op / 2; }
static int l_apply(int op)
{
    int k, l, id, pos, i; LIST_NODE* n; LIST* list;
    dec(op, &k, &l, &id, &pos);
    if(l >= nl || id >= N) return 0;
    list = &L[l]; n = lnode(id);
    switch(k) {
    case APPEND: if(pos || where[id] >= 0) return 0; list_append(list, n); ins(l, len[l], id); break;
    case PREPEND: if(pos || where[id] >= 0) return 0; list_prepend(list, n); ins(l, 0, id); break;
    case AFTER: /* pos == len: after the end marker, i.e. at the very beginning */
        if(pos > len[l] || where[id] >= 0) return 0;
        list_insert_after(list, pos == len[l] ? (LIST_NODE*) list_end(list) : lnode(ord[l][pos]), n); ins(l, pos == len[l] ? 0 : pos + 1, id); break;
    case BEFORE: if(pos > len[l] || where[id] >= 0) return 0;
        list_insert_before(list, pos == len[l] ? (LIST_NODE*) list_end(list) : lnode(ord[l][pos]), n); ins(l, pos, id); break;
    case REMOVE: if(id || pos >= len[l]) return 0; n = lnode(ord[l][pos]); list_remove(list, n); del(l, pos); memset(n, 0x5A, sizeof *n); break;
    case REM_HEAD: if(id || pos || !len[l]) return 0; n = lnode(ord[l][0]); list_remove_head(list); del(l, 0); memset(n, 0x5A, sizeof *n); break;
    case REM_TAIL: if(id || pos || !len[l]) return 0; n = lnode(ord[l][len[l]-1]); list_remove_tail(list); del(l, len[l]-1); memset(n, 0x5A, sizeof *n); break;
    case MOVE_APPEND: if(id || pos >= len[l] || nl < 2) return 0;
        n = lnode(ord[l][pos]); list_remove(list, n); id = del(l, pos); list_append(&L[1-l], n); ins(1-l, len[1-l], id); break;
    }
    for(i = 0; i < nl; i++) l_check(i);
    return 1;
}
static void describe_op(int op, char* b, size_t n) { int k, l, id, pos; dec(op, &k, &l, &id, &pos); snprintf(b, n, "list %d: %s node %d, position %d", l, kn[k], id, pos); }
static void l_canon(MC_HASH* h)
{
    MC_REGION r[] = { { pa, sizeof pa, 1 }, { pb, sizeof pb, 2 }, { pc, sizeof pc, 3 }, { L, sizeof L, 4 } };
    MC_CANON c; memset(&c, 0, sizeof c); c.h = h; c.regions = r; c.n_regions = 4;
    mc_canon(&c, L, sizeof(LIST) * nl);
    { int i, j; for(i = 0; i < nl; i++) { mc_hash_u64(h, len[i]); for(j = 0; j < len[i]; j++) mc_hash_u64(h, ord[i][j]); } }
}
static void none(void) { }

/* ---------------------------------------------------------------- SLIST / QLIST share the harness text */
#define SINGLE(P, UP, HAS_TAIL)                                                                                          \
typedef struct { int id; UP##_NODE sn; } P##_A; typedef struct { UP##_NODE sn; int id; } P##_B;                            \
static P##_A P##a[MAXN]; static P##_B P##b[MAXN]; static UP P##L[2];                                                      \
static UP##_NODE* P##node(int i) { return i % 2 ? &P##a[i].sn : &P##b[i].sn; }                                            \
static int P##id(const UP##_NODE* p)                                                                                     \
{   int i; for(i = 0; i < N; i++) if(P##node(i) == p) {                                                                    \
        int id = i % 2 ? UP##_DATA(p, P##_A, sn)->id : UP##_DATA(p, P##_B, sn)->id;                                        \
        MC_ASSERT(id == i, #UP "_DATA recovered the wrong payload"); return i; }                                          \
    return -1; }                                                                                                         \
static void P##check(int l)                                                                                              \
{   UP* list = &P##L[l]; UP##_NODE* p; int i = 0;                                                                          \
    MC_ASSERT(!P##_is_empty(list) == (len[l] != 0), #P "_is_empty() wrong at length %d", len[l]);                           \
    for(p = P##_head(list); p != P##_end(list); p = P##_next(p), i++) {                                                     \
        MC_ASSERT(i < len[l], #P " walk longer than %d", len[l]);                                                          \
        MC_ASSERT(p != NULL && P##id(p) == ord[l][i], #P " walk: item %d is %d, expected %d", i, p ? P##id(p) : -2, ord[l][i]); }  \
    MC_ASSERT(i == len[l], #P " walk has %d items, expected %d", i, len[l]);                                               \
    P##tailcheck(l); }                                                                                                   \
static void P##reset(void)                                                                                               \
{   int i; N = mc_arg % 100; nl = mc_arg / 100;                                                                            \
    for(i = 0; i < N; i++) { P##a[i].id = P##b[i].id = i; memset(P##node(i), 0x5A, sizeof(UP##_NODE)); where[i] = -1; }    \
    for(i = 0; i < nl; i++) { memset(&P##L[i], 0x5A, sizeof(UP)); P##_init(&P##L[i]); len[i] = 0; P##check(i); } }          \
static int P##apply(int op)                                                                                              \
{   int k, l, id, pos, i; UP##_NODE* n; UP* list;                                                                          \
    dec(op, &k, &l, &id, &pos); if(l >= nl || id >= N) return 0;                                                           \
    list = &P##L[l]; n = P##node(id);                                                                                     \
    switch(k) {                                                                                                          \
    case APPEND: if(!HAS_TAIL || pos || where[id] >= 0) return 0; P##do_append(list, n); ins(l, len[l], id); break;       \
    case PREPEND: if(pos || where[id] >= 0) return 0; P##_prepend(list, n); ins(l, 0, id); break;                          \
    case AFTER: if(pos > len[l] || where[id] >= 0) return 0;                                                             \
        P##_insert_after(list, pos == len[l] ? (UP##_NODE*) P##_end(list) : P##node(ord[l][pos]), n); ins(l, pos == len[l] ? 0 : pos + 1, id); break;  \
    case REMOVE: if(id || pos >= len[l]) return 0; n = P##node(ord[l][pos]);                                              \
        P##_remove(list, pos == 0 ? (UP##_NODE*) P##_end(list) : P##node(ord[l][pos-1]), n); del(l, pos); memset(n, 0x5A, sizeof *n); break;  \
    case REM_HEAD: if(id || pos || !len[l]) return 0; n = P##node(ord[l][0]); P##_remove_head(list); del(l, 0); memset(n, 0x5A, sizeof *n); break;  \
    case MOVE_APPEND: if(id || pos >= len[l] || nl < 2) return 0; n = P##node(ord[l][pos]);                                \
        P##_remove(list, pos == 0 ? (UP##_NODE*) P##_end(list) : P##node(ord[l][pos-1]), n); id = del(l, pos);              \
        P##_prepend(&P##L[1-l], n); ins(1-l, 0, id); break;                                                               \
    default: return 0; }                                                                                                 \
    for(i = 0; i < nl; i++) P##check(i);                                                                                   \
    return 1; }                                                                                                          \
static void P##canon(MC_HASH* h)                                                                                         \
{   MC_REGION r[] = { { P##a, sizeof P##a, 1 }, { P##b, sizeof P##b, 2 }, { P##L, sizeof P##L, 4 } };                      \
    MC_CANON c; memset(&c, 0, sizeof c); c.h = h; c.regions = r; c.n_regions = 3;                                          \
    mc_canon(&c, P##L, sizeof(UP) * nl);                                                                                   \
    { int i, j; for(i = 0; i < nl; i++) { mc_hash_u64(h, len[i]); for(j = 0; j < len[i]; j++) mc_hash_u64(h, ord[i][j]); } } }

static void slisttailcheck(int l) { (void)l; }
static void slistdo_append(SLIST* l, SLIST_NODE* n) { (void)l; (void)n; }
SINGLE(slist, SLIST, 0)

static QLIST qlistL[2]; static QLIST_NODE* qlistnode(int i); static int qlistid(const QLIST_NODE*);
static void qlisttailcheck(int l)
{
    const QLIST_NODE* t = qlist_tail(&qlistL[l]);
    if(len[l] == 0) MC_ASSERT(t == qlist_end(&qlistL[l]), "tail of an empty queue is not the end marker");
    else MC_ASSERT(t == qlistnode(ord[l][len[l]-1]), "tail of the queue is not its last member (length %d)", len[l]);
}
static void qlistdo_append(QLIST* l, QLIST_NODE* n) { qlist_append(l, n); }
SINGLE(qlist, QLIST, 1)

#define U(p, nm, q, a, pre, desc, d, nomerge) { p, nm, q, a, d, pre##reset, l_nops, pre##apply, pre##canon, none, describe_op, 0, nomerge }
MC_SYS mc_systems[] = {
    { "C07", "list-one", 3, 106, 0, l_reset, l_nops, l_apply, l_canon, none, describe_op },
    { "C07", "list-two", 3, 204, 0, l_reset, l_nops, l_apply, l_canon, none, describe_op },
    { "C07", "list-two-deep", 2, 206, 0, l_reset, l_nops, l_apply, l_canon, none, describe_op },
    { "C07", "list-one-deep", 2, 108, 0, l_reset, l_nops, l_apply, l_canon, none, describe_op },
    { "C07", "list-nomerge", 3, 103, 4, l_reset, l_nops, l_apply, l_canon, none, describe_op, 0, 1 },
    U("C08", "slist-one", 3, 106, slist, 0, 0, 0), U("C08", "slist-two", 3, 204, slist, 0, 0, 0), U("C08", "slist-two-deep", 2, 206, slist, 0, 0, 0), U("C08", "slist-one-deep", 2, 108, slist, 0, 0, 0), U("C08", "slist-nomerge", 3, 103, slist, 0, 4, 1),
    U("C08", "qlist-one", 3, 106, qlist, 0, 0, 0), U("C08", "qlist-two", 3, 204, qlist, 0, 0, 0), U("C08", "qlist-two-deep", 2, 206, qlist, 0, 0, 0), U("C08", "qlist-one-deep", 2, 108, qlist, 0, 0, 0), U("C08", "qlist-nomerge", 3, 103, qlist, 0, 4, 1),
    { 0 }
};
OFFS_USE(list) OFFS_USE(slist) OFFS_USE(qlist)
DATA_UNIT(dl, LIST_DATA, LIST_NODE)
DATA_UNIT(ds, SLIST_DATA, SLIST_NODE)
DATA_UNIT(dq, QLIST_DATA, QLIST_NODE)
MC_ENUM mc_enums[] = { { "C07", "list-data", 3, 0, dlcnt, dlrun, dldesc, 64 }, { "C07", "list-data-units", 3, 0, list_ocnt, list_orun, list_odesc, 64 },
    { "C08", "slist-data-units", 3, 0, slist_ocnt, slist_orun, slist_odesc, 64 }, { "C08", "qlist-data-units", 3, 0, qlist_ocnt, qlist_orun, qlist_odesc, 64 }, { "C08", "slist-data", 3, 0, dscnt, dsrun, dsdesc, 64 }, { "C08", "qlist-data", 3, 0, dqcnt, dqrun, dqdesc, 64 }, { 0 } };
