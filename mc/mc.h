/* Small explicit-state model-checking engine for C code.
 *
 * Two kinds of units are explored, both exhaustively within stated bounds:
 *
 *  MC_SYS  - a transition system whose transitions are calls into the real code. The engine does a breadth-first
 *            search: every discovered state is re-created by replaying its (shortest) history, every operation
 *            enabled in it is applied and checked, and the resulting state is canonically hashed and deduplicated.
 *  MC_ENUM - a finite, completely enumerated space of cases; each case is a straight-line run of the real code.
 *
 * Work is spread over forked worker processes; a worker that dies (AddressSanitizer, signal, failed assertion) or
 * hangs is a violation and the history it was executing is written as a replay file.
 */
#ifndef MC_H
#define MC_H

#include <stddef.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>

#ifdef __cplusplus
extern "C" {
#endif

typedef struct MC_HASH { uint64_t a, b; } MC_HASH;

void mc_hash_u64(MC_HASH* h, uint64_t x);
void mc_hash_bytes(MC_HASH* h, const void* p, size_t n);

/* --- failing --- */
extern const char* mc_prop;     /* property being checked */
extern int mc_thorough;         /* tier */
extern int mc_replaying;        /* verbose replay */
int mc_is(const char* prop);    /* is this one of the properties being checked? ("" = always) */
void mc_fail(const char* fmt, ...) __attribute__((noreturn, format(printf, 1, 2)));
#define MC_ASSERT(cond, ...)        do { if(!(cond)) mc_fail(__VA_ARGS__); } while(0)
#define MC_CHECK(prop, cond, ...)   do { int mc_ok_ = !!(cond); if(!mc_ok_ && mc_is(prop)) mc_fail(prop ": " __VA_ARGS__); } while(0)

/* --- interposed allocator (linked with --wrap) --- */
void  mc_alloc_begin(void);             /* forget all tracked blocks, disarm failures */
size_t mc_live_blocks(void);
size_t mc_live_bytes(void);
void  mc_block_at(size_t i, void** p, size_t* n);               /* i-th live block in address order */
int   mc_block_of(const void* p, void** base, size_t* size);    /* 1 if p is in a live tracked block */
unsigned long mc_alloc_calls(void);     /* number of allocation requests since mc_alloc_begin() */
unsigned long mc_alloc_failed(void);    /* number of those refused since mc_alloc_begin() */
unsigned long mc_free_calls(void);
uint64_t mc_requested_bytes(void);      /* sum of the sizes of all granted requests since mc_alloc_begin() */
/* plan 0: no failures; plan k>0: k-th allocation from now fails; plan -1: all fail; plan -k: all from the k-th fail */
void  mc_fail_plan(int plan);
int   mc_fail_fired(void);              /* did an injected failure happen since mc_fail_plan()? */
extern size_t mc_alloc_cap;             /* larger requests are refused (0 = no cap) */
int   mc_huge_at(const void* p, size_t n, size_t* off); /* file descriptor and offset of [p, p+n) in a huge block, or -1 */
extern int mc_huge;                     /* blocks of mc_huge_min (64 MB) and more are sparse mappings, followed by an inaccessible page */
extern size_t mc_huge_min;
extern int mc_arena;                    /* blocks come from one arena, which can be write-protected */
void* mc_arena_alloc(size_t n);         /* for the harness' own objects */
void  mc_arena_reset(void);
void  mc_freeze(void);                  /* any write into the arena faults; new blocks come from elsewhere */
void  mc_thaw(void);
extern int mc_track;                    /* tracking enabled */
void* mc_xmalloc(size_t n);             /* untracked */
void* mc_xcalloc(size_t n, size_t m);
void* mc_xrealloc(void* p, size_t n);
void  mc_xfree(void* p);

/* --- canonical hashing of implementation memory --- */
/* Hash the words of [p, p+n); words pointing into tracked live blocks (or registered regions) are hashed as
 * (discovery number, offset) and the target is hashed recursively. `filter` may say how a block is to be hashed. */
typedef struct MC_REGION { const void* base; size_t size; int label; } MC_REGION;
typedef struct MC_CANON {
    MC_HASH* h;
    int depth_payload;          /* if 0, contents of live blocks are not hashed, only their sizes */
    const MC_REGION* regions; int n_regions;
    /* optional: called for each 8-byte word; return 1 and set *out to replace the raw value */
    int (*word)(uint64_t w, uint64_t* out);
    int seen_n; const void* seen[512];
} MC_CANON;
void mc_canon(MC_CANON* c, const void* p, size_t n);

/* --- units --- */
typedef struct MC_SYS {
    const char* props;      /* space separated ids of properties this unit belongs to */
    const char* name;
    int tiers;              /* 1 quick, 2 thorough, 3 both */
    int arg;                /* made available in mc_arg */
    int depth;              /* 0: until closure */
    void (*reset)(void);
    int  (*n_ops)(void);    /* upper bound on op codes in the current state */
    int  (*apply)(int op);  /* 0: disabled in this state (must not have changed anything) */
    void (*canon)(MC_HASH* h);
    void (*teardown)(void);
    void (*describe)(int op, char* buf, size_t n);
    uint32_t max_states;    /* 0: default */
    int nomerge;            /* do not merge states: all operation sequences to `depth` */
} MC_SYS;

typedef struct MC_ENUM {
    const char* props;
    const char* name;
    int tiers;
    int arg;
    uint64_t (*count)(void);
    void (*run)(uint64_t i);
    void (*describe)(uint64_t i, char* buf, size_t n);
    uint64_t chunk;         /* cases per work item; 0: default */
} MC_ENUM;

extern int mc_arg;
extern int mc_final_check;      /* set while the engine replays leaf histories */
extern double mc_hang_limit;    /* seconds without progress after which a call is said not to terminate */
/* counters of the current worker; summed up over workers */
void mc_count_calls(uint64_t n);    /* calls into the implementation: transitions of MC_ENUM units */
void mc_count_trace(uint64_t n);    /* complete call sequences compared with the reference */
void mc_count_cut(uint64_t n);      /* cases that were given up part-way: the unit is then not exhaustive */
void mc_beat(void);                     /* "still alive": for cases that take long */
void mc_count_extra(int slot, const char* label, uint64_t n);

extern MC_SYS mc_systems[];     /* terminated by name == NULL */
extern MC_ENUM mc_enums[];

#ifdef __cplusplus
}
#endif
#endif
