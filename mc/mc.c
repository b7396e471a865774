#define _GNU_SOURCE
#include "mc.h"
#include <errno.h>
#include <malloc.h>
#include <semaphore.h>
#include <signal.h>
#include <stdarg.h>
#include <stdatomic.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

extern void* __real_malloc(size_t);
extern void* __real_calloc(size_t, size_t);
extern void* __real_realloc(void*, size_t);
extern void  __real_free(void*);

const char* mc_prop = "";
int mc_thorough = 0;
int mc_replaying = 0;
int mc_arg = 0;
int mc_final_check = 0;

void* mc_xmalloc(size_t n) { void* p = __real_malloc(n ? n : 1); if(!p) { fprintf(stderr, "mc: out of memory\n"); _exit(3); } return p; }
void* mc_xcalloc(size_t n, size_t m) { void* p = __real_calloc(n ? n : 1, m ? m : 1); if(!p) { fprintf(stderr, "mc: out of memory\n"); _exit(3); } return p; }
void* mc_xrealloc(void* q, size_t n) { void* p = __real_realloc(q, n ? n : 1); if(!p) { fprintf(stderr, "mc: out of memory\n"); _exit(3); } return p; }
void  mc_xfree(void* p) { __real_free(p); }

/* ------------------------------------------------------------------ hashing */

static inline uint64_t mix(uint64_t x)
{
    x ^= x >> 30; x *= 0xbf58476d1ce4e5b9ULL; x ^= x >> 27; x *= 0x94d049bb133111ebULL; x ^= x >> 31;
    return x;
}
void mc_hash_u64(MC_HASH* h, uint64_t x)
{
    h->a = mix(h->a * 0x9e3779b97f4a7c15ULL + x + 0x1234567ULL);
    h->b = mix((h->b ^ x) * 0xd6e8feb86659fd93ULL + 0x7654321ULL);
}
void mc_hash_bytes(MC_HASH* h, const void* p, size_t n)
{
    const unsigned char* s = p;
    uint64_t w;
    mc_hash_u64(h, n);
    while(n >= 8) { memcpy(&w, s, 8); mc_hash_u64(h, w); s += 8; n -= 8; }
    if(n) { w = 0; memcpy(&w, s, n); mc_hash_u64(h, w); }
}

/* ------------------------------------------------------------------ allocator */

int mc_track = 0;
size_t mc_alloc_cap = (size_t)1 << 32;
/* Sorted by address, as lookups of interior pointers are needed; in pieces, as there may be many blocks. */
#define CHUNK 512
struct blk { void* p; size_t n; };
struct chunk { size_t n; struct blk b[CHUNK]; };
static struct chunk** ch = NULL; static size_t n_ch = 0, cap_ch = 0, tab_n = 0;
static size_t live_bytes = 0;
static unsigned long n_calls = 0, n_failed = 0, n_frees = 0;
static int plan = 0; static int plan_seen = 0; static int plan_fired = 0;
static size_t ch_find(const void* p)       /* the piece where p belongs */
{
    size_t lo = 0, hi = n_ch;
    while(lo < hi) { size_t m = (lo + hi) / 2; if((char*)ch[m]->b[0].p <= (const char*)p) lo = m + 1; else hi = m; }
    return lo ? lo - 1 : 0;
}
static size_t in_find(const struct chunk* c, const void* p)    /* first index with .p > p */
{
    size_t lo = 0, hi = c->n;
    while(lo < hi) { size_t m = (lo + hi) / 2; if((char*)c->b[m].p <= (const char*)p) lo = m + 1; else hi = m; }
    return lo;
}
static struct blk* tab_le(const void* p)       /* the last block with .p <= p */
{
    struct chunk* c; size_t i;
    if(n_ch == 0) return NULL;
    c = ch[ch_find(p)]; i = in_find(c, p);
    return i ? &c->b[i - 1] : NULL;
}
static struct chunk* ch_new(size_t at)
{
    if(n_ch == cap_ch) { cap_ch = cap_ch ? 2 * cap_ch : 16; ch = mc_xrealloc(ch, cap_ch * sizeof(*ch)); }
    memmove(ch + at + 1, ch + at, (n_ch - at) * sizeof(*ch)); n_ch++;
    ch[at] = mc_xmalloc(sizeof(**ch)); ch[at]->n = 0;
    return ch[at];
}
static void tab_add(void* p, size_t n)
{
    size_t i, k; struct chunk* c;
    if(n_ch == 0) ch_new(0);
    k = ch_find(p); c = ch[k];
    if(c->n == CHUNK) {
        struct chunk* d = ch_new(k + 1); c = ch[k];
        d->n = CHUNK / 2; c->n = CHUNK - CHUNK / 2; memcpy(d->b, c->b + c->n, d->n * sizeof(*d->b));
        if((char*)d->b[0].p <= (char*)p) c = d;
    }
    i = in_find(c, p);
    memmove(c->b + i + 1, c->b + i, (c->n - i) * sizeof(*c->b));
    c->b[i].p = p; c->b[i].n = n; c->n++; tab_n++;
    live_bytes += n;
}
static int tab_del(void* p, size_t* n)
{
    size_t k, i; struct chunk* c;
    if(n_ch == 0) return 0;
    k = ch_find(p); c = ch[k]; i = in_find(c, p);
    if(i == 0 || c->b[i-1].p != p) return 0;
    if(n) *n = c->b[i-1].n;
    live_bytes -= c->b[i-1].n;
    memmove(c->b + i - 1, c->b + i, (c->n - i) * sizeof(*c->b));
    tab_n--;
    if(--c->n == 0 && n_ch > 1) { mc_xfree(c); memmove(ch + k, ch + k + 1, (n_ch - k - 1) * sizeof(*ch)); n_ch--; }
    return 1;
}
static void tab_clear(void) { while(n_ch > 1) mc_xfree(ch[--n_ch]); if(n_ch) ch[0]->n = 0; tab_n = 0; }
static uint64_t req_bytes;
void mc_alloc_begin(void) { req_bytes = 0; tab_clear(); live_bytes = 0; n_calls = n_failed = n_frees = 0; plan = plan_seen = plan_fired = 0; mc_track = 1; }
size_t mc_live_blocks(void) { return tab_n; }
size_t mc_live_bytes(void) { return live_bytes; }
unsigned long mc_alloc_calls(void) { return n_calls; }
unsigned long mc_alloc_failed(void) { return n_failed; }
unsigned long mc_free_calls(void) { return n_frees; }
void mc_fail_plan(int p) { plan = p; plan_seen = 0; plan_fired = 0; }
int mc_fail_fired(void) { return plan_fired; }
void mc_block_at(size_t i, void** p, size_t* n)
{
    size_t k = 0;
    while(i >= ch[k]->n) i -= ch[k++]->n;
    *p = ch[k]->b[i].p; *n = ch[k]->b[i].n;
}
int mc_block_of(const void* p, void** base, size_t* size)
{
    struct blk* t = tab_le(p);
    if(t == NULL || (const char*)p > (char*)t->p + t->n) return 0;     /* one past the end belongs to the block if nothing else starts there */
    if(base) *base = t->p;
    if(size) *size = t->n;
    return 1;
}
uint64_t mc_requested_bytes(void) { return req_bytes; }
static int refuse(size_t n)
{
    n_calls++;
    if(plan != 0) {
        plan_seen++;
        if((plan > 0 && plan_seen == plan) || (plan < 0 && plan_seen >= -plan)) { plan_fired = 1; n_failed++; return 1; }
    }
    if(mc_alloc_cap && n > mc_alloc_cap) { n_failed++; return 1; }
    req_bytes += n;
    return 0;
}
static void fill(void* p, size_t from, size_t n) { if(n > from) memset((char*)p + from, 0xA5, (n - from > 65536) ? 65536 : n - from); }
/* Blocks of 64 MB and more as sparse files mapped to memory and followed by an inaccessible page: untouched parts cost nothing. */
int mc_huge = 0;
size_t mc_huge_min = (size_t)1 << 26;
#define HUGE_MIN mc_huge_min
#define PG(n) (((n) + 4095) & ~(size_t)4095)
static struct { void* p; size_t len; int fd; } hg[256]; static int n_hg;
static int hg_find(void* p) { int i; for(i = 0; i < n_hg; i++) if(hg[i].p == p) return i; return -1; }
static void* hg_map(size_t n, int fd)
{
    char* p = mmap(NULL, PG(n) + 4096, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if(p == MAP_FAILED) { perror("engine: mmap"); _exit(3); }
    if(ftruncate(fd, PG(n)) != 0) { perror("engine: ftruncate"); _exit(3); }
    if(mmap(p, PG(n), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_FIXED | MAP_NORESERVE, fd, 0) == MAP_FAILED) { perror("engine: mmap"); _exit(3); }
    if(n_hg == 256) { fprintf(stderr, "engine: too many huge blocks\n"); _exit(3); }
    hg[n_hg].p = p; hg[n_hg].fd = fd; hg[n_hg++].len = PG(n);
    return p;
}
static void* hg_alloc(size_t n)
{
    int fd;
    if(n > (size_t)1 << 45) return NULL;
    fd = memfd_create("huge", 0);
    if(fd < 0) { perror("engine: memfd_create"); _exit(3); }
    return hg_map(n, fd);
}
static void hg_drop(int i, int all) { munmap(hg[i].p, hg[i].len + 4096); if(all) close(hg[i].fd); hg[i] = hg[--n_hg]; }
int mc_huge_at(const void* a, size_t n, size_t* off)
{
    int i;
    for(i = 0; i < n_hg; i++) if((const char*)a >= (char*)hg[i].p && (const char*)a + n <= (char*)hg[i].p + hg[i].len) { *off = (const char*)a - (char*)hg[i].p; return hg[i].fd; }
    return -1;
}
/* Arena: blocks are taken from pages which can be write-protected as a whole while queries run. */
int mc_arena = 0;
#define ARENA ((size_t)16 << 20)
static char* ar; static size_t ar_top; static int ar_frozen;
void* mc_arena_alloc(size_t n)
{
    void* p;
    if(!ar) { ar = mmap(NULL, ARENA, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); if(ar == MAP_FAILED) { perror("engine: mmap"); _exit(3); } }
    n = (n + 15) & ~(size_t)15;
    if(n > ARENA - ar_top) { fprintf(stderr, "engine: arena exhausted\n"); _exit(3); }
    p = ar + ar_top; ar_top += n; return p;
}
static int in_arena(const void* p) { return ar && (const char*)p >= ar && (const char*)p < ar + ARENA; }
void mc_arena_reset(void) { mc_thaw(); ar_top = 0; }
void mc_freeze(void) { size_t n = PG(ar_top); if(n && !ar_frozen) { mprotect(ar, n, PROT_READ); ar_frozen = 1; } }
void mc_thaw(void) { if(ar_frozen) { mprotect(ar, ARENA, PROT_READ | PROT_WRITE); ar_frozen = 0; } }
static void* sys_malloc(size_t n) { return mc_arena && !ar_frozen ? mc_arena_alloc(n) : __real_malloc(n); }
static void sys_free(void* p) { if(in_arena(p)) { if(ar_frozen) mc_fail("a query released memory of the object"); } else __real_free(p); }
void* __wrap_malloc(size_t n)
{
    void* p;
    if(!mc_track) return __real_malloc(n);
    if(refuse(n)) return NULL;
    if(mc_huge && n >= HUGE_MIN) { p = hg_alloc(n); if(p) tab_add(p, n); return p; }
    p = sys_malloc(n);
    if(p) { fill(p, 0, n); tab_add(p, n); }
    return p;
}
void* __wrap_calloc(size_t n, size_t m)
{
    void* p;
    if(!mc_track) return __real_calloc(n, m);
    if(m && n > SIZE_MAX / m) { n_calls++; n_failed++; return NULL; }
    if(refuse(n * m)) return NULL;
    if(mc_arena && !ar_frozen) { p = mc_arena_alloc(n * m); memset(p, 0, n * m); } else p = __real_calloc(n, m);
    if(p) tab_add(p, n * m);
    return p;
}
void __wrap_free(void* p)
{
    if(p == NULL) return;
    if(!mc_track) { __real_free(p); return; }
    n_frees++;
    if(!tab_del(p, NULL) && mc_track) {
        if(in_arena(p)) mc_fail("released memory that is not allocated");
        /* unknown pointer: let AddressSanitizer judge (double free / bad free) */
    }
    else if(n_hg && hg_find(p) >= 0) { hg_drop(hg_find(p), 1); return; }
    sys_free(p);
}
void* __wrap_realloc(void* q, size_t n)
{
    void* p; size_t old = 0; struct blk* t;
    if(!mc_track) return __real_realloc(q, n);
    if(q == NULL) return __wrap_malloc(n);
    if(n == 0) { __wrap_free(q); return NULL; }
    if(refuse(n)) return NULL;
    t = tab_le(q);
    if(t == NULL || t->p != q) return __real_realloc(q, n);  /* bad pointer: AddressSanitizer reports it */
    old = t->n;
    if(mc_huge && (n >= HUGE_MIN || old >= HUGE_MIN)) {
        int h = hg_find(q);
        if(h >= 0 && n >= HUGE_MIN) { int fd = hg[h].fd; if(n > (size_t)1 << 45) return NULL; hg_drop(h, 0); p = hg_map(n, fd); tab_del(q, NULL); tab_add(p, n); return p; }
        p = n >= HUGE_MIN ? hg_alloc(n) : __real_malloc(n);
        if(p == NULL) return NULL;
        memcpy(p, q, old < n ? old : n);
        tab_del(q, NULL); if(h >= 0) hg_drop(h, 1); else __real_free(q);
        tab_add(p, n);
        return p;
    }
    /* always moves, so that stale pointers are detected */
    p = sys_malloc(n);
    if(p == NULL) return NULL;
    memcpy(p, q, old < n ? old : n);
    fill(p, old, n);
    tab_del(q, NULL);
    sys_free(q);
    tab_add(p, n);
    return p;
}
char* __wrap_strdup(const char* s) { size_t n = strlen(s) + 1; char* p = __wrap_malloc(n); if(p) memcpy(p, s, n); return p; }
char* __wrap_strndup(const char* s, size_t m) { size_t n = strnlen(s, m); char* p = __wrap_malloc(n + 1); if(p) { memcpy(p, s, n); p[n] = 0; } return p; }
void* __wrap_reallocarray(void* q, size_t n, size_t m) { if(m && n > SIZE_MAX / m) { n_calls++; n_failed++; return NULL; } return __wrap_realloc(q, n * m); }
void* __wrap_aligned_alloc(size_t al, size_t n) { void* p; if(mc_track && refuse(n)) return NULL; p = memalign(al, n); if(p && mc_track) { fill(p, 0, n); tab_add(p, n); } return p; }
int __wrap_posix_memalign(void** out, size_t al, size_t n) { void* p = __wrap_aligned_alloc(al, n); if(!p) return ENOMEM; *out = p; return 0; }

/* ------------------------------------------------------------------ canonical memory hash */

static int canon_ref(MC_CANON* c, uint64_t w, const void** base, size_t* size, int* kind)
{
    int i; void* b; size_t n;
    const char* p = (const char*)(uintptr_t)w;
    for(i = 0; i < c->n_regions; i++) {
        const MC_REGION* r = &c->regions[i];
        if(p >= (const char*)r->base && p <= (const char*)r->base + r->size) { *base = r->base; *size = r->size; *kind = 1 + r->label; return 1; }
    }
    if(mc_block_of(p, &b, &n)) { *base = b; *size = n; *kind = 0; return 1; }
    return 0;
}
void mc_canon(MC_CANON* c, const void* p, size_t n)
{
    size_t i; uint64_t w, out;
    mc_hash_u64(c->h, n);
    for(i = 0; i + 8 <= n; i += 8) {
        const void* base; size_t size; int kind;
        memcpy(&w, (const char*)p + i, 8);
        if(c->word && c->word(w, &out)) { mc_hash_u64(c->h, 0xABCDEF); mc_hash_u64(c->h, out); continue; }
        if(w >= 4096 && canon_ref(c, w, &base, &size, &kind)) {
            int k;
            for(k = 0; k < c->seen_n; k++) if(c->seen[k] == base) break;
            mc_hash_u64(c->h, 0xF00D + kind);
            mc_hash_u64(c->h, k);
            mc_hash_u64(c->h, w - (uint64_t)(uintptr_t)base);
            if(k == c->seen_n && c->seen_n < 512) {
                c->seen[c->seen_n++] = base;
                if(kind != 0 || c->depth_payload) mc_canon(c, base, size);
                else mc_hash_u64(c->h, size);
            }
        } else {
            mc_hash_u64(c->h, w);
        }
    }
    if(i < n) { w = 0; memcpy(&w, (const char*)p + i, n - i); mc_hash_u64(c->h, w); }
}

/* ------------------------------------------------------------------ shared state of the search */

#define MAXW 16
#define N_EXTRA 8
typedef struct WSTAT {
    _Atomic uint64_t beat;              /* progress counter */
    _Atomic int busy;
    _Atomic int64_t cur_parent;         /* BFS: index of the state being expanded; ENUM: case number */
    _Atomic int cur_op;
    uint64_t calls, traces, cases, transitions, cut;
    uint64_t extra[N_EXTRA];
    char extra_label[N_EXTRA][48];
    int failed;
    char msg[4096];
    uint64_t out_n;
    char pad[64];
} WSTAT;
typedef struct REC { uint32_t parent; uint32_t op; uint64_t a, b; } REC;
typedef struct SHARED {
    WSTAT w[MAXW];
    sem_t go[MAXW], done;
    _Atomic uint64_t next;
    uint64_t lo, hi, chunk;
    int mode;                   /* 0 expand level, 1 replay leaves, 2 enum, 3 quit */
} SHARED;
static SHARED* S;
static WSTAT* me = NULL;
static int n_workers = 8;
static pid_t pids[MAXW];

void mc_beat(void) { if(me) me->beat++; }
const char* __asan_default_options(void);
const char* __asan_default_options(void)
{ return "detect_leaks=0:allocator_may_return_null=1:quarantine_size_mb=4:thread_local_quarantine_size_kb=64:malloc_context_size=4:max_malloc_fill_size=0:detect_stack_use_after_return=0:symbolize=1:max_allocation_size_mb=8192"; }
void mc_count_calls(uint64_t n) { if(me) me->calls += n; }
void mc_count_cut(uint64_t n) { if(me) me->cut += n; }
void mc_count_trace(uint64_t n) { if(me) me->traces += n; }
void mc_count_extra(int slot, const char* label, uint64_t n)
{
    if(!me) return;
    me->extra[slot] += n;
    if(!me->extra_label[slot][0]) { strncpy(me->extra_label[slot], label, 47); me->extra_label[slot][47] = 0; }
}
int mc_is(const char* prop) { return prop[0] == 0 || strcmp(prop, mc_prop) == 0; }

void mc_fail(const char* fmt, ...)
{
    va_list ap;
    char buf[4000];
    mc_track = 0;
    va_start(ap, fmt);
    vsnprintf(buf, sizeof buf, fmt, ap);
    va_end(ap);
    if(me) { snprintf(me->msg, sizeof me->msg, "%s", buf); me->failed = 1; }
    else { printf("FAILED: %s\n", buf); fflush(stdout); }
    _exit(77);
}

/* State table: shared, append-only. */
static uint32_t* st_parent; static uint32_t* st_op; static uint8_t* st_leaf;
static uint64_t (*st_hash)[2];
static uint64_t n_states, cap_states;
static uint32_t* vis; static uint64_t vis_mask;     /* open addressing: state index + 1 */
static REC* out_buf[MAXW]; static uint64_t out_cap = (uint64_t)1 << 26;
static MC_SYS* cur_sys; static MC_ENUM* cur_enum;
static double t_start;

static double now(void) { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
static void* shm(size_t n)
{
    void* p = mmap(NULL, n, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if(p == MAP_FAILED) { perror("mmap"); exit(2); }
    return p;
}
static int64_t vis_lookup(uint64_t a, uint64_t b)
{
    uint64_t i = a & vis_mask;
    while(vis[i]) {
        uint32_t s = vis[i] - 1;
        if(st_hash[s][0] == a && st_hash[s][1] == b) return s;
        i = (i + 1) & vis_mask;
    }
    return -1;
}
static void vis_insert(uint32_t s);
static void vis_insert(uint32_t s)
{
    uint64_t i = st_hash[s][0] & vis_mask;
    while(vis[i]) i = (i + 1) & vis_mask;
    vis[i] = s + 1;
}
static int history(uint64_t s, int* ops)   /* returns length */
{
    int n = 0, i;
    while(s != 0) { ops[n++] = st_op[s]; s = st_parent[s]; }
    for(i = 0; i < n / 2; i++) { int t = ops[i]; ops[i] = ops[n-1-i]; ops[n-1-i] = t; }
    return n;
}
#define MAXHIST 65536
static int hist[MAXHIST];

static void sys_reset(void) { mc_alloc_begin(); cur_sys->reset(); }
static void sys_teardown(void)
{
    mc_fail_plan(0);
    cur_sys->teardown();
    mc_track = 0;
}
static MC_HASH sys_hash(const int* h, int n)
{
    MC_HASH x = { 1, 2 };
    if(cur_sys->nomerge) { int i; mc_hash_u64(&x, n); for(i = 0; i < n; i++) mc_hash_u64(&x, h[i]); return x; }
    cur_sys->canon(&x);
    return x;
}

static void expand(int w, uint64_t s)
{
    int n = history(s, hist), i, op, nops;
    REC* out = out_buf[w];
    me->cur_parent = s;
    /* one extra pass to learn n_ops */
    me->cur_op = -1;
    sys_reset();
    for(i = 0; i < n; i++) if(!cur_sys->apply(hist[i])) mc_fail("operation of a recorded history is not enabled on replay (nondeterminism)");
    if(s == 0) {
        /* the initial state: only one worker runs in this phase */
        MC_HASH h = sys_hash(hist, 0);
        st_hash[0][0] = h.a; st_hash[0][1] = h.b; vis_insert(0);
    }
    nops = cur_sys->n_ops();
    for(op = 0; op < nops; op++) {
        MC_HASH h; int en;
        me->cur_op = op;
        me->beat++;
        en = cur_sys->apply(op);
        if(!en) continue;
        me->transitions++;
        hist[n] = op;
        h = sys_hash(hist, n + 1);
        if(vis_lookup(h.a, h.b) < 0) {
            if(me->out_n >= out_cap) mc_fail("engine: output buffer overflow");
            out[me->out_n].parent = s; out[me->out_n].op = op; out[me->out_n].a = h.a; out[me->out_n].b = h.b;
            me->out_n++;
        }
        sys_teardown();
        sys_reset();
        {
            me->cur_op = -1;
            for(i = 0; i < n; i++) if(!cur_sys->apply(hist[i])) mc_fail("operation of a recorded history is not enabled on replay (nondeterminism)");
        }
    }
    me->cur_op = -1;
    sys_teardown();
}
static void replay_leaf(uint64_t s)
{
    int n = history(s, hist), i; MC_HASH h;
    me->cur_parent = s; me->cur_op = -1; me->beat++;
    mc_final_check = 1;
    sys_reset();
    for(i = 0; i < n; i++) if(!cur_sys->apply(hist[i])) mc_fail("operation of a recorded history is not enabled on replay (nondeterminism)");
    h = sys_hash(hist, n);
    if(h.a != st_hash[s][0] || h.b != st_hash[s][1]) mc_count_extra(N_EXTRA - 1, "replays_reaching_another_representation", 1);
    sys_teardown();
    mc_final_check = 0;
    me->traces++;
}
static void worker(int w)
{
    me = &S->w[w];
    signal(SIGINT, SIG_DFL);
    for(;;) {
        while(sem_wait(&S->go[w]) != 0) ;
        if(S->mode == 3) _exit(0);
        me->busy = 1;
        for(;;) {
            uint64_t b = atomic_fetch_add(&S->next, S->chunk), e = b + S->chunk, i;
            if(b >= S->hi) break;
            if(e > S->hi) e = S->hi;
            for(i = b; i < e; i++) {
                if(S->mode == 0) expand(w, i);
                else if(S->mode == 1) { if(st_leaf[i]) replay_leaf(i); }
                else {
                    me->cur_parent = i; me->cur_op = -1; me->beat++;
                    mc_alloc_begin();
                    cur_enum->run(i);
                    mc_track = 0;
                    me->cases++;
                }
            }
        }
        me->busy = 0;
        sem_post(&S->done);
    }
}

static int failing_worker = -1, failing_status = 0, failing_hang = 0;
double mc_hang_limit = 40.0;
static double budget = 0;   /* seconds for this unit set, 0 = none */
/* Run one phase on all workers; returns 0 ok, -1 violation, 1 time budget exhausted */
static int phase(int mode, uint64_t lo, uint64_t hi, uint64_t chunk)
{
    int i, done = 0, nw = n_workers, stopping = 0;
    uint64_t last[MAXW]; double seen[MAXW];
    if(hi - lo < (uint64_t)nw * chunk) { nw = (int)((hi - lo + chunk - 1) / chunk); if(nw < 1) nw = 1; }
    if(budget > 0 && now() - t_start > budget) return 1;
    S->mode = mode; S->next = lo; S->lo = lo; S->hi = hi; S->chunk = chunk;
    for(i = 0; i < nw; i++) { S->w[i].out_n = 0; last[i] = S->w[i].beat; seen[i] = now(); }
    for(i = nw; i < n_workers; i++) S->w[i].out_n = 0;
    for(i = 0; i < nw; i++) { S->w[i].busy = 1; sem_post(&S->go[i]); }
    while(done < nw) {
        struct timespec ts; double t;
        clock_gettime(CLOCK_REALTIME, &ts);
        ts.tv_nsec += 200000000; if(ts.tv_nsec >= 1000000000) { ts.tv_nsec -= 1000000000; ts.tv_sec++; }
        if(sem_timedwait(&S->done, &ts) == 0) { done++; continue; }
        for(i = 0; i < n_workers; i++) {
            int st;
            if(pids[i] > 0 && waitpid(pids[i], &st, WNOHANG) == pids[i]) { failing_worker = i; failing_status = st; pids[i] = 0; return -1; }
        }
        t = now();
        for(i = 0; i < nw; i++) {
            if(!S->w[i].busy) continue;
            if(S->w[i].beat != last[i]) { last[i] = S->w[i].beat; seen[i] = t; }
            else if(t - seen[i] > mc_hang_limit) { failing_worker = i; failing_hang = 1; kill(pids[i], SIGKILL); waitpid(pids[i], &failing_status, 0); pids[i] = 0; return -1; }
        }
        if(budget > 0 && t - t_start > budget && !stopping) { S->next = hi; stopping = 1; }   /* stop handing out work */
    }
    for(i = 0; i < n_workers; i++) { int st; if(pids[i] > 0 && waitpid(pids[i], &st, WNOHANG) == pids[i]) { failing_worker = i; failing_status = st; pids[i] = 0; return -1; } }
    return stopping;
}
static void start_workers(void)
{
    int i;
    memset(S, 0, sizeof *S);
    sem_init(&S->done, 1, 0);
    for(i = 0; i < n_workers; i++) sem_init(&S->go[i], 1, 0);
    fflush(stdout); fflush(stderr);
    for(i = 0; i < n_workers; i++) {
        pids[i] = fork();
        if(pids[i] == 0) { worker(i); _exit(0); }
        if(pids[i] < 0) { perror("fork"); exit(2); }
    }
}
static void stop_workers(void)
{
    int i;
    for(i = 0; i < n_workers; i++) if(pids[i] > 0) kill(pids[i], SIGKILL);
    for(i = 0; i < n_workers; i++) if(pids[i] > 0) { waitpid(pids[i], NULL, 0); pids[i] = 0; }
}

/* ------------------------------------------------------------------ reporting */

static FILE* out_json; static int first_unit = 1;
static const char* replay_path = NULL;
static void jstr(FILE* f, const char* s)
{
    fputc('"', f);
    for(; *s; s++) {
        unsigned char c = *s;
        if(c == '"' || c == '\\') fprintf(f, "\\%c", c);
        else if(c < 32 || c >= 127) fprintf(f, "\\u%04x", c);
        else fputc(c, f);
    }
    fputc('"', f);
}
static void op_name(MC_SYS* s, int op, char* buf, size_t n)
{
    buf[0] = 0;
    if(s->describe) { mc_arg = s->arg; s->describe(op, buf, n); }
    if(!buf[0]) snprintf(buf, n, "op%d", op);
}
/* Names of the operations of a history: operations are described in the state they are executed in, so a child replays. */
static char (*hist_names)[128];
static void name_history(MC_SYS* s, const int* h, int n)
{
    int k; pid_t pid;
    if(!hist_names) hist_names = shm((size_t)MAXHIST * 128);
    for(k = 0; k < n; k++) hist_names[k][0] = 0;
    fflush(stdout); fflush(stderr);
    pid = fork();
    if(pid == 0) {
        int dn = freopen("/dev/null", "w", stdout) && freopen("/dev/null", "w", stderr); (void)dn;
        alarm(20);
        cur_sys = s; mc_arg = s->arg;
        sys_reset();
        for(k = 0; k < n; k++) { op_name(s, h[k], hist_names[k], 128); s->apply(h[k]); }
        _exit(0);
    }
    if(pid > 0) waitpid(pid, NULL, 0);
    for(k = 0; k < n; k++) if(!hist_names[k][0]) snprintf(hist_names[k], 128, "op%d", h[k]);
}
static void report_violation(MC_SYS* sys, MC_ENUM* en)
{
    WSTAT* w = &S->w[failing_worker];
    FILE* f; int i, n = 0; char b[256];
    const char* what = w->failed ? w->msg : failing_hang ? "the call does not terminate" : "the process was killed by a memory error or signal (see AddressSanitizer report)";
    stop_workers();
    fflush(stdout);
    f = fopen(replay_path, "w");
    if(!f) { perror(replay_path); exit(2); }
    fprintf(f, "property=%s\nunit=%s\nthorough=%d\nwhat=%s\n", mc_prop, sys ? sys->name : en->name, mc_thorough, what);
    printf("--- %s: violation in %s\n    %s\n", mc_prop, sys ? sys->name : en->name, what);
    if(!w->failed && !failing_hang) printf("    status 0x%x (%s %d)\n", failing_status, WIFSIGNALED(failing_status) ? "signal" : "exit", WIFSIGNALED(failing_status) ? WTERMSIG(failing_status) : WEXITSTATUS(failing_status));
    if(sys) {
        n = history(w->cur_parent, hist);
        if(w->cur_op >= 0) hist[n++] = w->cur_op;
        name_history(sys, hist, n);
        fprintf(f, "ops=");
        for(i = 0; i < n; i++) fprintf(f, "%d ", hist[i]);
        fprintf(f, "\n");
        for(i = 0; i < n; i++) { fprintf(f, "# %3d: %s\n", i + 1, hist_names[i]); if(i < 60) printf("    %3d: %s\n", i + 1, hist_names[i]); }
    } else {
        b[0] = 0; mc_arg = en->arg;
        if(en->describe) en->describe(w->cur_parent, b, sizeof b);
        fprintf(f, "case=%llu\n# %s\n", (unsigned long long)w->cur_parent, b);
        printf("    case %llu: %s\n", (unsigned long long)w->cur_parent, b);
    }
    fclose(f);
    if(!w->failed && !failing_hang && WIFSIGNALED(failing_status) && WTERMSIG(failing_status) == SIGKILL) {
        printf("engine: worker was killed from outside (memory?)\n"); exit(2);
    }
    printf("MCVIOLATION %s\n", replay_path);
    fflush(stdout);
    exit(1);
}

static uint64_t sum_states, sum_trans;
static void unit_json(const char* name, const char* kind, uint64_t states, uint64_t trans, uint64_t traces, int exhaustive, const char* bound, double wall, char samples[][2048], int ns)
{
    int i, k;
    if(!out_json) return;
    fprintf(out_json, "%s{\"unit\":", first_unit ? "" : ",\n");
    first_unit = 0;
    jstr(out_json, name);
    fprintf(out_json, ",\"kind\":\"%s\",\"states\":%llu,\"transitions\":%llu,\"traces\":%llu,\"exhaustive\":%s,\"bound\":", kind,
            (unsigned long long)states, (unsigned long long)trans, (unsigned long long)traces, exhaustive ? "true" : "false");
    jstr(out_json, bound);
    fprintf(out_json, ",\"wall_s\":%.2f,\"samples\":[", wall);
    for(i = 0; i < ns; i++) { if(i) fputc(',', out_json); jstr(out_json, samples[i]); }
    fprintf(out_json, "]");
    for(k = 0; k < N_EXTRA; k++) {
        uint64_t t = 0; const char* l = NULL;
        for(i = 0; i < n_workers; i++) { t += S->w[i].extra[k]; if(S->w[i].extra_label[k][0]) l = S->w[i].extra_label[k]; }
        if(l) { fprintf(out_json, ","); jstr(out_json, l); fprintf(out_json, ":%llu", (unsigned long long)t); }
    }
    fprintf(out_json, "}");
    fflush(out_json);
}

static void run_sys(MC_SYS* sys)
{
    uint64_t lo, hi, i; int depth = 0, rc, exhaustive = 1, closed = 0; double t0 = now();
    uint64_t trans = 0, traces = 0, leaves;
    char samples[4][2048]; int ns = 0; char bound[256];
    static int maps = 0;
    cur_sys = sys; cur_enum = NULL; mc_arg = sys->arg;
    cap_states = sys->max_states ? sys->max_states : 8000000;
    if(!maps) {
        for(i = 0; i < (uint64_t)n_workers; i++) out_buf[i] = shm(out_cap * sizeof(REC));
        maps = 1;
    }
    st_parent = shm(cap_states * 4); st_op = shm(cap_states * 4); st_leaf = shm(cap_states); st_hash = shm(cap_states * 16);
    vis_mask = 1; while(vis_mask < 2 * cap_states) vis_mask <<= 1;
    vis = shm(vis_mask * 4); vis_mask--;
    n_states = 1; st_parent[0] = 0; st_op[0] = 0; st_leaf[0] = 1;
    st_hash[0][0] = st_hash[0][1] = 0;
    start_workers();
    lo = 0; hi = 1;
    while(lo < hi) {
        uint64_t chunk = (hi - lo) / (n_workers * 16); int w;
        if(sys->depth && depth >= sys->depth) break;
        if(chunk < 1) chunk = 1; if(chunk > 64) chunk = 64;
        rc = phase(0, lo, hi, chunk);
        if(rc < 0) report_violation(sys, NULL);
        if(rc > 0) { exhaustive = 0; break; }
        /* deterministic merge: by parent */
        {
            uint64_t pos[MAXW] = { 0 };
            for(;;) {
                int best = -1;
                REC* r;
                for(w = 0; w < n_workers; w++) if(pos[w] < S->w[w].out_n && (best < 0 || out_buf[w][pos[w]].parent < out_buf[best][pos[best]].parent)) best = w;
                if(best < 0) break;
                r = &out_buf[best][pos[best]++];
                if(vis_lookup(r->a, r->b) >= 0) continue;
                if(n_states >= cap_states) { exhaustive = 0; break; }
                st_parent[n_states] = r->parent; st_op[n_states] = r->op; st_leaf[n_states] = 1; st_leaf[r->parent] = 0;
                st_hash[n_states][0] = r->a; st_hash[n_states][1] = r->b;
                vis_insert(n_states);
                n_states++;
            }
        }
        depth++;
        lo = hi; hi = n_states;
        if(!exhaustive) break;
    }
    closed = (lo >= hi);
    for(i = 0; i < (uint64_t)n_workers; i++) trans += S->w[i].transitions;
    /* second pass: maximal histories of the search tree, end to end */
    leaves = 0; for(i = 0; i < n_states; i++) leaves += st_leaf[i];
    if(leaves > 40000 && !mc_thorough) { /* thin out evenly */
        uint64_t k = leaves / 40000 + 1, c = 0;
        for(i = 0; i < n_states; i++) if(st_leaf[i] && (c++ % k) != 0) st_leaf[i] = 0;
    }
    if(exhaustive && n_states > 1) {
        st_leaf[0] = 0;
        rc = phase(1, 1, n_states, 64);
        if(rc < 0) report_violation(sys, NULL);
    }
    for(i = 0; i < (uint64_t)n_workers; i++) traces += S->w[i].traces;
    for(i = 0; i < 3 && n_states > 1; i++) {
        uint64_t s = (i == 0) ? n_states - 1 : (i == 1) ? n_states / 2 : n_states / 4;
        int n = history(s, hist), k; size_t o = 0;
        samples[ns][0] = 0;
        name_history(sys, hist, n);
        for(k = 0; k < n && o < 1500; k++) { const char* b = hist_names[k]; o += snprintf(samples[ns] + o, 2048 - o, "%s%s", k ? "; " : "", b); }
        if(k < n) snprintf(samples[ns] + o, 2048 - o, "; ... (%d operations)", n);
        ns++;
    }
    snprintf(bound, sizeof bound, "%s, depth reached %d%s", closed ? "closed: no new state remains" : exhaustive ? "all histories to the depth bound" : "INCOMPLETE (state or time cap)", depth, sys->nomerge ? ", no state merging" : "");
    unit_json(sys->name, "bfs", n_states, trans, traces, exhaustive, bound, now() - t0, samples, ns);
    printf("  %-34s states %9llu transitions %10llu traces %8llu depth %3d %s  %.1fs\n", sys->name, (unsigned long long)n_states, (unsigned long long)trans, (unsigned long long)traces, depth,
           closed ? "closed" : exhaustive ? "bounded" : "INCOMPLETE", now() - t0);
    fflush(stdout);
    sum_states += n_states; sum_trans += trans;
    stop_workers();
    munmap(st_parent, cap_states * 4); munmap(st_op, cap_states * 4); munmap(st_leaf, cap_states); munmap(st_hash, cap_states * 16); munmap(vis, (vis_mask + 1) * 4);
}
static void run_enum(MC_ENUM* en)
{
    uint64_t n, calls = 0, traces = 0, cases = 0, cut = 0, i, chunk; int rc; char bound[80]; double t0 = now(); char samples[4][2048]; int ns = 0;
    cur_enum = en; cur_sys = NULL; mc_arg = en->arg;
    n = en->count();
    start_workers();
    chunk = en->chunk ? en->chunk : n / (n_workers * 64);
    if(chunk < 1) chunk = 1; if(chunk > 65536) chunk = 65536;
    rc = phase(2, 0, n, chunk);
    if(rc < 0) report_violation(NULL, en);
    for(i = 0; i < (uint64_t)n_workers; i++) { calls += S->w[i].calls; traces += S->w[i].traces; cases += S->w[i].cases; cut += S->w[i].cut; }
    if(cut) snprintf(bound, sizeof bound, "INCOMPLETE (%llu cases cut short)", (unsigned long long)cut); else strcpy(bound, rc == 0 ? "complete enumeration of the stated space" : "INCOMPLETE (time cap)");
    for(i = 0; i < 3 && en->describe; i++) {
        uint64_t k = i == 0 ? n / 2 : i == 1 ? n - 1 : n / 3;
        samples[ns][0] = 0; en->describe(k, samples[ns], 2048); ns++;
    }
    unit_json(en->name, "enum", cases, calls, traces, rc == 0 && cases == n && !cut, bound, now() - t0, samples, ns);
    printf("  %-34s cases  %9llu calls       %10llu traces %8llu %s  %.1fs\n", en->name, (unsigned long long)cases, (unsigned long long)calls, (unsigned long long)traces,
           rc == 0 && !cut ? "complete" : "INCOMPLETE", now() - t0);
    fflush(stdout);
    sum_states += cases; sum_trans += calls;
    stop_workers();
}

/* ------------------------------------------------------------------ replay of one history */

static int do_replay(const char* path)
{
    FILE* f = fopen(path, "r"); static char line[1 << 20]; char unit[256] = ""; static int ops[MAXHIST]; int n = 0, have_case = 0; unsigned long long cs = 0; static char prop[64];
    int i;
    if(!f) { perror(path); return 2; }
    while(fgets(line, sizeof line, f)) {
        line[strcspn(line, "\n")] = 0;
        if(!strncmp(line, "property=", 9)) { snprintf(prop, sizeof prop, "%s", line + 9); mc_prop = prop; }
        else if(!strncmp(line, "unit=", 5)) snprintf(unit, sizeof unit, "%s", line + 5);
        else if(!strncmp(line, "thorough=", 9)) mc_thorough = atoi(line + 9);
        else if(!strncmp(line, "ops=", 4)) { char* p = line + 4; char* e; for(;;) { long v = strtol(p, &e, 10); if(e == p) break; ops[n++] = v; p = e; } }
        else if(!strncmp(line, "case=", 5)) { cs = strtoull(line + 5, NULL, 10); have_case = 1; }
    }
    fclose(f);
    mc_replaying = 1;
    if(have_case) {
        for(i = 0; mc_enums[i].name; i++) if(!strcmp(mc_enums[i].name, unit)) {
            char b[2048] = "";
            mc_arg = mc_enums[i].arg;
            mc_enums[i].count();
            if(mc_enums[i].describe) mc_enums[i].describe(cs, b, sizeof b);
            printf("case %llu: %s\n", cs, b); fflush(stdout);
            mc_alloc_begin();
            mc_enums[i].run(cs);
            mc_track = 0;
            printf("held\n");
            return 0;
        }
    } else {
        for(i = 0; mc_systems[i].name; i++) if(!strcmp(mc_systems[i].name, unit)) {
            int k; char b[256];
            cur_sys = &mc_systems[i]; mc_arg = cur_sys->arg;
            sys_reset();
            for(k = 0; k < n; k++) {
                op_name(cur_sys, ops[k], b, sizeof b);
                printf("%3d: %s\n", k + 1, b); fflush(stdout);
                if(!cur_sys->apply(ops[k])) mc_fail("not enabled");
            }
            { MC_HASH h = { 1, 2 }; cur_sys->canon(&h); }
            printf("teardown\n"); fflush(stdout);
            sys_teardown();
            printf("held\n");
            return 0;
        }
    }
    fprintf(stderr, "no such unit: %s\n", unit);
    return 2;
}

static int has_prop(const char* props, const char* p)
{
    size_t n = strlen(p); const char* s = props;
    while((s = strstr(s, p)) != NULL) { if((s == props || s[-1] == ' ') && (s[n] == 0 || s[n] == ' ')) return 1; s += n; }
    return 0;
}
int main(int argc, char** argv)
{
    int i, ran = 0; const char* only = NULL;
    for(i = 1; i < argc; i++) {
        if(!strcmp(argv[i], "--prop")) mc_prop = argv[++i];
        else if(!strcmp(argv[i], "--thorough")) mc_thorough = 1;
        else if(!strcmp(argv[i], "--json")) { out_json = fopen(argv[++i], "w"); if(!out_json) { perror(argv[i]); return 2; } }
        else if(!strcmp(argv[i], "--replay-out")) replay_path = argv[++i];
        else if(!strcmp(argv[i], "--workers")) n_workers = atoi(argv[++i]);
        else if(!strcmp(argv[i], "--budget")) budget = atof(argv[++i]);
        else if(!strcmp(argv[i], "--hang")) mc_hang_limit = atof(argv[++i]);
        else if(!strcmp(argv[i], "--unit")) only = argv[++i];
        else if(!strcmp(argv[i], "--replay")) return do_replay(argv[++i]);
        else if(!strcmp(argv[i], "--list")) {
            int k;
            for(k = 0; mc_systems[k].name; k++) printf("%s\t%s\tbfs\t%d\n", mc_systems[k].props, mc_systems[k].name, mc_systems[k].tiers);
            for(k = 0; mc_enums[k].name; k++) printf("%s\t%s\tenum\t%d\n", mc_enums[k].props, mc_enums[k].name, mc_enums[k].tiers);
            return 0;
        } else { fprintf(stderr, "bad argument %s\n", argv[i]); return 2; }
    }
    if(n_workers > MAXW) n_workers = MAXW;
    if(n_workers < 1) n_workers = 1;
    if(!replay_path) replay_path = "/tmp/mc-replay.txt";
    t_start = now();
    S = shm(sizeof *S);
    if(out_json) fprintf(out_json, "[");
    for(i = 0; mc_systems[i].name; i++) {
        if(!has_prop(mc_systems[i].props, mc_prop) || !(mc_systems[i].tiers & (mc_thorough ? 2 : 1))) continue;
        if(only && strcmp(only, mc_systems[i].name)) continue;
        run_sys(&mc_systems[i]); ran++;
    }
    for(i = 0; mc_enums[i].name; i++) {
        if(!has_prop(mc_enums[i].props, mc_prop) || !(mc_enums[i].tiers & (mc_thorough ? 2 : 1))) continue;
        if(only && strcmp(only, mc_enums[i].name)) continue;
        run_enum(&mc_enums[i]); ran++;
    }
    if(out_json) { fprintf(out_json, "]\n"); fclose(out_json); }
    if(!ran) { fprintf(stderr, "no unit for property %s in this tier\n", mc_prop); return 2; }
    return 0;
}
