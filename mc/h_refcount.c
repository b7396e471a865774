/* C38: the reference counting of the memory stream under every interleaving of its users.
 *
 * memstream.c is compiled with -fsanitize=thread, but the callbacks are implemented here: every memory access to a stream
 * object and every interlocked operation is a scheduling point of a cooperative scheduler, and all schedules of each
 * scenario (one short program per thread) are executed one after the other on the real code. Two schedules are only
 * continued separately as long as they differ in something that matters: the contents of all streams, the
 * stacks and registers of the threads, or who holds which references (which is the whole state of the program). */
#define _GNU_SOURCE
#include "mc.h"
#include "memstream.h"
#include <unistd.h>

/* ---------------------------------------------------------------- coroutines */
#define MAXT 4
#define STK 65536
typedef struct { void* sp; int done, wants; char* stack; } CO;
static CO co[MAXT]; static void* main_sp; static int nt, cur = -1;
__attribute__((noinline, naked)) static void swtch(void** from, void* to)
{
    __asm__ volatile("pushq %rbp\n pushq %rbx\n pushq %r12\n pushq %r13\n pushq %r14\n pushq %r15\n movq %rsp, (%rdi)\n movq %rsi, %rsp\n popq %r15\n popq %r14\n popq %r13\n popq %r12\n popq %rbx\n popq %rbp\n ret\n");
}
static void thread_main(int t);
static void co_entry(void) { int t = cur; thread_main(t); co[t].done = 1; swtch(&co[t].sp, main_sp); abort(); }
static void co_start(int t)
{
    uint64_t* p; if(!co[t].stack) co[t].stack = mc_xmalloc(STK);
    memset(co[t].stack + STK - 2048, 0, 2048); p = (uint64_t*)(((uintptr_t)co[t].stack + STK) & ~15ull); *--p = 0; *--p = (uint64_t)(uintptr_t)co_entry; p -= 6; memset(p, 0, 48);
    co[t].sp = p; co[t].done = 0; co[t].wants = 0;
}
/* ---------------------------------------------------------------- memory of the code under test: never reused within one execution */
#define ARENA 8192
#define MAXBLK 16
static unsigned char arena[ARENA] __attribute__((aligned(16))); static size_t arena_top[MAXT + 1]; /* each thread allocates from its own part */
#define PART (ARENA / 8)
static struct { size_t off, n; int live; int own[MAXT], busy; } blk[MAXBLK]; static int nblk;
static char sched_text[600]; static int sched_len;
static const char* scen_text(void);
#define BAD(...) do { char b_[400]; snprintf(b_, sizeof b_, __VA_ARGS__); mc_fail("%s; threads: %s; schedule: %.*s", b_, scen_text(), sched_len, sched_text); } while(0)
static int blk_of(const void* p) { size_t o; int i; if((const unsigned char*)p < arena || (const unsigned char*)p >= arena + ARENA) return -1; o = (const unsigned char*)p - arena; for(i = 0; i < nblk; i++) if(o >= blk[i].off && o < blk[i].off + blk[i].n) return i; return -2; }
static uint64_t points;
static uint64_t mix(uint64_t h, uint64_t x) { h ^= x + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdull; return h ^ (h >> 32); }
static void point(void) { if(cur >= 0) { points++; swtch(&co[cur].sp, main_sp); } }
static void touch(const void* p, size_t n, int w)
{
    int b = blk_of(p);
    if(cur < 0 || b == -1) return;
    point();
    if(b < 0 || (const unsigned char*)p + n > arena + blk[b].off + blk[b].n) BAD("thread %d accesses memory outside of a stream object", cur);
    if(!blk[b].live) BAD("thread %d accesses a stream after it was freed", cur);
}
void* rc_malloc(size_t n)
{
    size_t m = (n + 31) & ~(size_t)15;
    size_t* top = &arena_top[cur + 1], base = PART * (size_t)(cur + 1);
    if(nblk >= MAXBLK || *top + m > PART) BAD("unexpectedly many allocations");
    blk[nblk].off = base + *top; blk[nblk].n = n; blk[nblk].live = 1; memset(blk[nblk].own, 0, sizeof blk[nblk].own); blk[nblk].busy = 0; memset(arena + base + *top, 0xA5, m); *top += m;
    return arena + blk[nblk++].off;
}
void* rc_calloc(size_t a, size_t b) { void* p = rc_malloc(a * b); if(p) memset(p, 0, a * b); return p; }
void* rc_realloc(void* p, size_t n) { void* q = rc_malloc(n); int b; if(p && q) { b = blk_of(p); memcpy(q, p, blk[b].n < n ? blk[b].n : n); blk[b].live = 0; } return q; }
static int held(int b) { int t, s = 0; for(t = 0; t < nt; t++) s += blk[b].own[t]; return s; }
void rc_free(void* p)
{
    int b;
    if(!p) return;
    b = blk_of(p); point();
    if(b < 0 || (unsigned char*)p != arena + blk[b].off) BAD("free() of something that was not allocated");
    if(!blk[b].live) BAD("a stream is freed twice");
    if(held(b)) BAD("a stream is freed while %d references to it are held", held(b));
    blk[b].live = 0; memset(p, 0x5A, blk[b].n);
}
void* rc_memcpy(void* d, const void* s, size_t n) { if(n) { touch(s, n, 0); touch(d, n, 1); } return memcpy(d, s, n); }
void* rc_memmove(void* d, const void* s, size_t n) { if(n) { touch(s, n, 0); touch(d, n, 1); } return memmove(d, s, n); }
void* rc_memset(void* d, int c, size_t n) { if(n) touch(d, n, 1); return memset(d, c, n); }
/* ---------------------------------------------------------------- the instrumentation */
LONG shim_interlocked_add(volatile LONG* p, LONG d) { touch((void*)p, 4, 1); return *p += d; }
LONG shim_interlocked_xchg(volatile LONG* p, LONG v) { LONG o; touch((void*)p, 4, 1); o = *p; *p = v; return o; }
LONG shim_interlocked_cas(volatile LONG* p, LONG v, LONG c) { LONG o; touch((void*)p, 4, 1); o = *p; if(o == c) *p = v; return o; }
void __tsan_init(void) {}
void __tsan_func_entry(void* pc) {}
void __tsan_func_exit(void* pc) {}
#define RW(n) void __tsan_read##n(void* p) { touch(p, n, 0); } void __tsan_write##n(void* p) { touch(p, n, 1); } void __tsan_unaligned_read##n(void* p) { touch(p, n, 0); } void __tsan_unaligned_write##n(void* p) { touch(p, n, 1); } void __tsan_volatile_read##n(void* p) { touch(p, n, 0); } void __tsan_volatile_write##n(void* p) { touch(p, n, 1); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* p, size_t n) { touch(p, n, 0); }
void __tsan_write_range(void* p, size_t n) { touch(p, n, 1); }
void __tsan_vptr_update(void** p, void* v) { touch(p, 8, 1); }
void __tsan_vptr_read(void** p) { touch(p, 8, 0); }
#define AT(B, T) \
T __tsan_atomic##B##_load(const volatile T* p, int mo) { touch((void*)p, sizeof(T), 0); return *p; } \
void __tsan_atomic##B##_store(volatile T* p, T v, int mo) { touch((void*)p, sizeof(T), 1); *p = v; } \
T __tsan_atomic##B##_exchange(volatile T* p, T v, int mo) { T o; touch((void*)p, sizeof(T), 1); o = *p; *p = v; return o; } \
T __tsan_atomic##B##_fetch_add(volatile T* p, T v, int mo) { T o; touch((void*)p, sizeof(T), 1); o = *p; *p = o + v; return o; } \
T __tsan_atomic##B##_fetch_sub(volatile T* p, T v, int mo) { T o; touch((void*)p, sizeof(T), 1); o = *p; *p = o - v; return o; } \
T __tsan_atomic##B##_fetch_and(volatile T* p, T v, int mo) { T o; touch((void*)p, sizeof(T), 1); o = *p; *p = o & v; return o; } \
T __tsan_atomic##B##_fetch_or(volatile T* p, T v, int mo) { T o; touch((void*)p, sizeof(T), 1); o = *p; *p = o | v; return o; } \
T __tsan_atomic##B##_fetch_xor(volatile T* p, T v, int mo) { T o; touch((void*)p, sizeof(T), 1); o = *p; *p = o ^ v; return o; } \
T __tsan_atomic##B##_fetch_nand(volatile T* p, T v, int mo) { T o; touch((void*)p, sizeof(T), 1); o = *p; *p = ~(o & v); return o; } \
int __tsan_atomic##B##_compare_exchange_strong(volatile T* p, T* c, T v, int mo, int fm) { touch((void*)p, sizeof(T), 1); if(*p == *c) { *p = v; return 1; } *c = *p; return 0; } \
int __tsan_atomic##B##_compare_exchange_weak(volatile T* p, T* c, T v, int mo, int fm) { return __tsan_atomic##B##_compare_exchange_strong(p, c, v, mo, fm); } \
T __tsan_atomic##B##_compare_exchange_val(volatile T* p, T c, T v, int mo, int fm) { T o; touch((void*)p, sizeof(T), 1); o = *p; if(o == c) *p = v; return o; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
void __tsan_atomic_thread_fence(int mo) {}
void __tsan_atomic_signal_fence(int mo) {}
DWORD GetLastError(void) { return 0; }
void SetLastError(DWORD e) {}
HRSRC FindResourceW(HMODULE mo, LPCWSTR name, LPCWSTR type) { return NULL; }
DWORD SizeofResource(HMODULE mo, HRSRC r) { return 0; }
HGLOBAL LoadResource(HMODULE mo, HRSRC r) { return NULL; }
LPVOID LockResource(HGLOBAL g) { return NULL; }
BOOL FreeResource(HGLOBAL g) { return FALSE; }
/* ---------------------------------------------------------------- scenarios */
enum { ADDREF, RELEASE, QUERY, QUERYNO, USE, CLONE, GIVE, NOP_ };
static const char opname[] = "ARQnUCG";
typedef struct { int nt, len; const char* ops; int zero; } SHAPE;  /* zero: a thread may also start without a reference */
static const SHAPE* shape; static int prog[MAXT][8], plen[MAXT], start_refs[MAXT];
static IStream* st; static int zero_returns[MAXBLK], finished[MAXT];
static const unsigned char bytes[] = "0123456789";
static const GUID odd_iid = { 0x11223344, 1, 2, { 3, 4, 5, 6, 7, 8, 9, 10 } };
static const char* scen_text(void)
{
    static char b[200]; int t, i, n = 0;
    for(t = 0; t < nt; t++) { n += snprintf(b + n, 50, "%s%d refs:", t ? " | " : "", start_refs[t]); for(i = 0; i < plen[t]; i++) b[n++] = opname[prog[t][i]]; b[n] = 0; }
    return b;
}
static void do_release(int t, int b)
{
    ULONG r; IStream* s = (IStream*)(arena + blk[b].off);
    if(!blk[b].live) BAD("thread %d holds a reference to a freed stream", t);
    blk[b].own[t]--; r = IStream_Release(s);
    if(r == 0) { zero_returns[b]++; if(zero_returns[b] > 1) BAD("Release() returned 0 to two callers"); if(held(b)) BAD("Release() returned 0 while %d references are held", held(b)); }
}
static void op(int t, int o)
{
    HRESULT hr; void* q = (void*)1; ULONG r; STATSTG sg; IStream* c;
    if(!blk[0].live) BAD("thread %d holds a reference to a freed stream", t);
    switch(o) {
    case ADDREF: r = IStream_AddRef(st); blk[0].own[t]++; if(r == 0) BAD("AddRef() returned 0"); break;
    case RELEASE: do_release(t, 0); break;
    case QUERY: hr = IStream_QueryInterface(st, &IID_IUnknown, &q); if(hr != S_OK || q != (void*)st) BAD("QueryInterface() returned %08x", (unsigned)hr); blk[0].own[t]++; break;
    case QUERYNO: hr = IStream_QueryInterface(st, &odd_iid, &q); if(SUCCEEDED(hr)) BAD("QueryInterface() for an unknown interface returned %08x", (unsigned)hr); break;
    case USE: hr = IStream_Stat(st, &sg, 1); if(hr != S_OK || sg.cbSize.QuadPart != 10) BAD("Stat() by thread %d returned %08x, size %llu", t, (unsigned)hr, (unsigned long long)sg.cbSize.QuadPart); break;
    case CLONE: c = NULL; hr = IStream_Clone(st, &c); if(hr != S_OK || c == NULL || c == st) BAD("Clone() returned %08x", (unsigned)hr); { int b = blk_of(c); if(b < 0) BAD("Clone() returned something else than a new stream"); blk[b].own[t] = 1; do_release(t, b); if(blk[b].live) BAD("the clone is not freed"); } break;
    case GIVE: blk[0].own[t]--; blk[0].own[(t + 1) % nt]++; point(); break;
    }
}
/* a thread without a reference has to wait until another one hands its reference over, or nobody can any more */
static int enabled(int t) { int k; if(!co[t].wants || blk[0].own[t] > 0) return 1; for(k = 0; k < nt; k++) if(k != t && !finished[k] && !(co[k].wants && blk[0].own[k] == 0)) return 0; return 1; }
static void wait_for_gift(int t) { co[t].wants = 1; swtch(&co[t].sp, main_sp); co[t].wants = 0; }
static void thread_main(int t)
{
    int i;
    for(i = 0; i < plen[t]; i++) {
        if(blk[0].own[t] == 0) wait_for_gift(t);
        if(blk[0].own[t] == 0) break;
        op(t, prog[t][i]);
    }
    finished[t] = 1;
    do { while(blk[0].own[t] > 0) do_release(t, 0); wait_for_gift(t); } while(blk[0].own[t] > 0);
}
/* one execution under the given choice prefix; extends it. returns number of choices */
#define MAXC 400
static unsigned char ch[MAXC], nalt[MAXC]; static int nch;
static uint64_t n_exec, n_steps, n_pruned; static int full;
/* states already continued from in this scenario */
#define VBITS 23
static uint64_t* vis; static uint32_t* visgen; static uint32_t vgen; static uint64_t nvis;
static int visited(uint64_t h)
{
    uint64_t i = h >> (64 - VBITS);
    if(!vis) { vis = mc_xcalloc((size_t)1 << VBITS, 8); visgen = mc_xcalloc((size_t)1 << VBITS, 4); }
    for(;; i = (i + 1) & (((uint64_t)1 << VBITS) - 1)) { if(visgen[i] != vgen) { if(nvis > (1u << VBITS) / 2) return 2; visgen[i] = vgen; vis[i] = h; nvis++; return 0; } if(vis[i] == h) return 1; }
}
static uint64_t state_hash(void)
{
    uint64_t h = 1; int b, t; size_t k;
    for(t = 0; t < nt; t++) {
        uint64_t* w = co[t].sp; uint64_t* e = (uint64_t*)(co[t].stack + STK); h = mix(h, (uint64_t)(co[t].done + 2 * finished[t] + 4 * co[t].wants));
        if(!co[t].done) for(; w < e; w++) h = mix(h, *w);
    }
    for(b = 0; b < nblk; b++) {
        uint64_t g = mix(blk[b].off, (uint64_t)blk[b].live); const uint32_t* w = (const uint32_t*)(arena + blk[b].off);
        for(k = 0; k < blk[b].n / 4; k++) g = mix(g, w[k]);
        for(t = 0; t < nt; t++) g = mix(g, (uint64_t)blk[b].own[t]);
        h += mix(g, (uint64_t)zero_returns[b]);
    }
    return mix(h, 7);
}
static void execute(void)
{
    int t, c = 0, b; HRESULT hr; int first = 1;
    memset(arena_top, 0, sizeof arena_top); nblk = 0; sched_len = 0; memset(zero_returns, 0, sizeof zero_returns); memset(finished, 0, sizeof finished);
    cur = -1; st = NULL;
    hr = memstream_create(bytes, 10, &st); if(hr != S_OK || !st || blk_of(st) != 0) BAD("creation failed: %08x", (unsigned)hr);
    for(t = 0; t < nt; t++) { int k; blk[0].own[t] = start_refs[t]; for(k = 0; k < start_refs[t]; k++) if(!first) IStream_AddRef(st); else first = 0; co_start(t); }
    for(;;) {
        int list[MAXT], n = 0, left = 0;
        for(t = 0; t < nt; t++) if(!co[t].done) { left = 1; if(enabled(t)) list[n++] = t; }
        if(!left) break;
        if(n == 0) BAD("engine: deadlock");
        if(n == 1) t = list[0];
        else {
            if(c >= MAXC) BAD("execution too long");
            if(c >= nch) { int v = visited(state_hash()); if(v) { nch = c; if(v == 2) full = 1; else n_pruned++; return; } ch[c] = 0; nch = c + 1; }
            nalt[c] = (unsigned char)n; t = list[ch[c]]; c++;
        }
        if(sched_len < (int)sizeof sched_text - 2) sched_text[sched_len++] = (char)('0' + t);
        cur = t; n_steps++; swtch(&main_sp, co[t].sp); cur = -1;
        if((n_steps & 0xfffff) == 0) mc_beat();
    }
    nch = c; n_exec++;
    for(b = 0; b < nblk; b++) { if(blk[b].live) BAD("a stream is never freed although all references were dropped"); if(zero_returns[b] != 1) BAD("Release() returned 0 to %d callers", zero_returns[b]); }
}
static const SHAPE shapes[] = {
    { 2, 2, "ARQnU", 0 }, { 3, 1, "ARQnU", 0 }, { 2, 3, "ARQnU", 0 }, { 3, 2, "ARQnU", 0 }, { 2, 2, "ARQnUC", 0 }, { 4, 1, "ARU", 0 }, { 2, 4, "ARQnU", 0 },
    { 2, 2, "ARQUG", 1 }, { 3, 1, "ARG", 1 }, { 2, 3, "ARQUG", 1 }, { 3, 2, "ARG", 1 }, { 4, 2, "AR", 0 }, { 3, 3, "ARU", 0 }, { 2, 5, "ARQU", 0 }, { 3, 4, "AR", 0 } };
/* a scenario: thread t starts with 1 or 2 references and runs `len` operations out of nops */
static uint64_t per_thread(void) { uint64_t n = (uint64_t)(2 + shape->zero); int i; for(i = 0; i < shape->len; i++) n *= strlen(shape->ops); return n; }
static uint64_t cnt(void) { uint64_t n = 1; int t; shape = &shapes[mc_arg]; for(t = 0; t < shape->nt; t++) n *= per_thread(); return n; }
static int decode(uint64_t x)
{
    int t, i, h, sum = 0; uint64_t v[MAXT];
    shape = &shapes[mc_arg]; nt = shape->nt;
    for(t = 0; t < nt; t++) { v[t] = x % per_thread(); x /= per_thread(); if(t && !shape->zero && v[t] > v[t - 1]) return 0; }   /* threads are interchangeable */
    for(t = 0; t < nt; t++) {
        uint64_t y = v[t]; start_refs[t] = 1 - shape->zero + (int)(y % (uint64_t)(2 + shape->zero)); y /= (uint64_t)(2 + shape->zero); sum += start_refs[t]; h = start_refs[t]; plen[t] = shape->len;
        for(i = 0; i < plen[t]; i++) { int o = (int)(strchr(opname, shape->ops[y % strlen(shape->ops)]) - opname); y /= strlen(shape->ops); prog[t][i] = o; if(!shape->zero && h == 0) { return 0; } if(o == ADDREF || o == QUERY) h++; if(o == RELEASE) h--; }
    }
    return sum > 0;
}
static void run(uint64_t x)
{
    uint64_t e0; int i;
    if(!decode(x)) return;
    if(!mc_track) mc_track = 1;
    e0 = n_exec; nch = 0; vgen++; nvis = 0; full = 0;
    for(;;) {
        execute();
        if(full) { mc_count_cut(1); break; }
        for(i = nch - 1; i >= 0 && ch[i] + 1 >= nalt[i]; i--) ;
        if(i < 0) break;
        ch[i]++; nch = i + 1;
    }
    mc_count_calls(n_steps); n_steps = 0; mc_count_trace(n_exec - e0); mc_count_extra(3, "states", nvis); mc_count_extra(4, "merged_schedules", n_pruned); n_pruned = 0; mc_count_extra(0, "scenarios", 1); mc_count_extra(1, "complete_schedules", n_exec - e0); mc_count_extra(2, "steps", points); points = 0;
}
static void desc(uint64_t x, char* b, size_t n) { snprintf(b, n, "%s", decode(x) ? scen_text() : "(not a scenario)"); }
MC_SYS mc_systems[] = { { 0 } };
MC_ENUM mc_enums[] = {
    { "C38", "two-threads-2-ops", 3, 0, cnt, run, desc, 64 },
    { "C38", "two-threads-3-ops", 3, 2, cnt, run, desc, 256 },
    { "C38", "three-threads-1-op", 3, 1, cnt, run, desc, 64 },
    { "C38", "three-threads-2-ops", 2, 3, cnt, run, desc, 256 },
    { "C38", "two-threads-clone", 3, 4, cnt, run, desc, 64 },
    { "C38", "two-threads-handing-over", 3, 7, cnt, run, desc, 64 },
    { "C38", "three-threads-handing-over", 3, 8, cnt, run, desc, 64 },
    { "C38", "four-threads-1-op", 2, 5, cnt, run, desc, 16 },
    { "C38", "two-threads-4-ops", 2, 6, cnt, run, desc, 256 },
    { "C38", "two-threads-5-ops", 2, 13, cnt, run, desc, 256 },
    { "C38", "two-threads-3-ops-handing-over", 2, 9, cnt, run, desc, 256 },
    { "C38", "three-threads-2-ops-handing-over", 2, 10, cnt, run, desc, 256 },
    { "C38", "three-threads-4-ops", 2, 14, cnt, run, desc, 16 },
    { "C38", "three-threads-3-ops", 2, 12, cnt, run, desc, 256 },
    { "C38", "four-threads-2-ops", 2, 11, cnt, run, desc, 256 },
    { 0 } };
