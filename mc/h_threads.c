/* C39: calls on distinct objects from distinct threads.
 *
 * The library is compiled with -fsanitize=thread, but the callbacks are implemented here. Two real threads run one workload
 * each, only one of them at a time. Accesses to a thread's own stack and own allocations commute with everything the other
 * thread does. All other accesses to writable memory - static data of the library, blocks allocated by the other thread - are
 * the scheduling points: without any there is just one class of equivalent schedules and running the workloads after one
 * another represents them all; otherwise the schedules are enumerated, up to a bound on the preemptions, and the results of
 * each thread are compared with those it gets alone. */
#define _GNU_SOURCE
#include "mc.h"
#include "threads.h"
#include <pthread.h>
#include <semaphore.h>
#include <stdarg.h>

extern char __start_libdata[] __attribute__((weak)), __stop_libdata[] __attribute__((weak)), __start_libbss[] __attribute__((weak)), __stop_libbss[] __attribute__((weak));
/* hidden state of the C library that non-reentrant functions use */
static char* tok_state __attribute__((section("libdata"))) = (char*)1;
static unsigned rand_state __attribute__((section("libdata"))) = 12345;
#define ARENA ((size_t)8 << 20)
#define LOGSZ ((size_t)1 << 20)
typedef struct { char* arena; size_t top; char* log; size_t loglen; int done, fail_from, n_alloc; sem_t go; const WORKLOAD* w; int variant; } TH;
static TH th[2]; static sem_t finished; static __thread int self = -1;
static int alone;
/* ---------------------------------------------------------------- schedules */
#define MAXEV 200000
static uint8_t* ev_can; static uint32_t n_ev;      /* could the thread have been preempted before event i? */
static uint32_t sw[8]; static int n_sw, cur_sw;
static uint8_t* written; static size_t lib_size[2]; static char* lib_base[2]; static char* lib_snap[2]; static int grew;
static uint64_t n_acc, n_shared, n_exec;
static void hand_over(void) { int o = 1 - self; sem_post(&th[o].go); while(sem_wait(&th[self].go)) ; }
static void event(void)
{
    uint32_t i = n_ev++;
    n_shared++;
    if(i < MAXEV) ev_can[i] = !alone && !th[1 - self].done;
    if(cur_sw < n_sw && sw[cur_sw] == i) { cur_sw++; if(!alone && !th[1 - self].done) hand_over(); }
}
static void touch(const void* p, size_t n, int w)
{
    const char* c = p; int k;
    if(self < 0 || n == 0) return;
    n_acc++;
    for(k = 0; k < 2; k++) if(c + n > lib_base[k] && c < lib_base[k] + lib_size[k]) {
        size_t o = c < lib_base[k] ? 0 : (size_t)(c - lib_base[k]), e = (size_t)(c + n - lib_base[k]), i; uint8_t* b = written + (k ? lib_size[0] : 0); int hit = 0;
        if(e > lib_size[k]) e = lib_size[k];
        for(i = o; i < e; i++) { if(w && !b[i]) { b[i] = 1; grew = 1; } hit |= b[i]; }
        if(hit) event();
        return;
    }
    if(c >= th[1 - self].arena && c < th[1 - self].arena + ARENA) event();
}
/* ---------------------------------------------------------------- instrumentation */
void __tsan_init(void) {}
void __tsan_func_entry(void* pc) {}
void __tsan_func_exit(void* pc) {}
#define RW(n) void __tsan_read##n(void* p) { touch(p, n, 0); } void __tsan_write##n(void* p) { touch(p, n, 1); } void __tsan_unaligned_read##n(void* p) { touch(p, n, 0); } void __tsan_unaligned_write##n(void* p) { touch(p, n, 1); } void __tsan_volatile_read##n(void* p) { touch(p, n, 0); } void __tsan_volatile_write##n(void* p) { touch(p, n, 1); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* p, size_t n) { touch(p, n, 0); }
void __tsan_write_range(void* p, size_t n) { touch(p, n, 1); }
void __tsan_vptr_update(void** p, void* v) { touch(p, 8, 1); }
void __tsan_vptr_read(void** p) { touch(p, 8, 0); }
#define AT(B, T) \
T __tsan_atomic##B##_load(const volatile T* p, int mo) { touch((void*)p, sizeof(T), 0); return *p; } \
void __tsan_atomic##B##_store(volatile T* p, T v, int mo) { touch((void*)p, sizeof(T), 1); *p = v; } \
T __tsan_atomic##B##_exchange(volatile T* p, T v, int mo) { T o; touch((void*)p, sizeof(T), 1); o = *p; *p = v; return o; } \
T __tsan_atomic##B##_fetch_add(volatile T* p, T v, int mo) { T o; touch((void*)p, sizeof(T), 1); o = *p; *p = o + v; return o; } \
T __tsan_atomic##B##_fetch_sub(volatile T* p, T v, int mo) { T o; touch((void*)p, sizeof(T), 1); o = *p; *p = o - v; return o; } \
T __tsan_atomic##B##_fetch_and(volatile T* p, T v, int mo) { T o; touch((void*)p, sizeof(T), 1); o = *p; *p = o & v; return o; } \
T __tsan_atomic##B##_fetch_or(volatile T* p, T v, int mo) { T o; touch((void*)p, sizeof(T), 1); o = *p; *p = o | v; return o; } \
T __tsan_atomic##B##_fetch_xor(volatile T* p, T v, int mo) { T o; touch((void*)p, sizeof(T), 1); o = *p; *p = o ^ v; return o; } \
T __tsan_atomic##B##_fetch_nand(volatile T* p, T v, int mo) { T o; touch((void*)p, sizeof(T), 1); o = *p; *p = ~(o & v); return o; } \
int __tsan_atomic##B##_compare_exchange_strong(volatile T* p, T* c, T v, int mo, int fm) { touch((void*)p, sizeof(T), 1); if(*p == *c) { *p = v; return 1; } *c = *p; return 0; } \
int __tsan_atomic##B##_compare_exchange_weak(volatile T* p, T* c, T v, int mo, int fm) { return __tsan_atomic##B##_compare_exchange_strong(p, c, v, mo, fm); } \
T __tsan_atomic##B##_compare_exchange_val(volatile T* p, T c, T v, int mo, int fm) { T o; touch((void*)p, sizeof(T), 1); o = *p; if(o == c) *p = v; return o; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
void __tsan_atomic_thread_fence(int mo) {}
void __tsan_atomic_signal_fence(int mo) {}
/* ---------------------------------------------------------------- the C library as seen by the code under test */
#define HDR 16
void tw_log(const char* fmt, ...)
{
    va_list a; TH* t = &th[self]; int n; va_start(a, fmt); n = vsnprintf(t->log + t->loglen, LOGSZ - t->loglen, fmt, a); va_end(a);
    if(n < 0 || t->loglen + (size_t)n >= LOGSZ) mc_fail("engine: log is full"); t->loglen += (size_t)n;
}
void tw_bytes(const void* p, size_t n) { size_t i; const unsigned char* c = p; touch(p, n, 0); tw_log("{"); for(i = 0; i < n; i++) tw_log("%02x", c[i]); tw_log("}"); }
void tw_fail_from(int k) { th[self].fail_from = k; th[self].n_alloc = 0; }
void mt_free(void* p);
void* mt_malloc(size_t n)
{
    TH* t = &th[self]; char* p; size_t m = (n + 15) & ~(size_t)15;
    t->n_alloc++; if(t->fail_from && t->n_alloc >= t->fail_from) return NULL;
    if(m < n || m > ARENA || t->top + m + HDR > ARENA) return NULL;
    p = t->arena + t->top; t->top += m + HDR; ((uint64_t*)p)[0] = n; ((uint64_t*)p)[1] = 0xA110CA7ED; memset(p + HDR, 0xA5, m);
    return p + HDR;
}
void* mt_calloc(size_t a, size_t b) { void* p; if(b && a > (size_t)-1 / b) return NULL; p = mt_malloc(a * b); if(p) memset(p, 0, a * b); return p; }
static uint64_t* hdr(void* p) { int k; for(k = 0; k < 2; k++) if((char*)p > th[k].arena && (char*)p < th[k].arena + ARENA) return (uint64_t*)((char*)p - HDR); tw_log(" FREEING SOMETHING ELSE "); return NULL; }
void mt_free(void* p) { uint64_t* h; if(!p || !(h = hdr(p))) return; touch(p, h[0] ? h[0] : 1, 1); if(h[1] != 0xA110CA7ED) { tw_log(" FREED TWICE "); return; } h[1] = 0xDEAD; memset(p, 0x5A, h[0]); }
void* mt_realloc(void* p, size_t n) { void* q; uint64_t* h; if(!p) return mt_malloc(n); q = mt_malloc(n); if(q && (h = hdr(p))) { touch(p, h[0], 0); memcpy(q, p, h[0] < n ? h[0] : n); mt_free(p); } return q; }
void* mt_memcpy(void* d, const void* s, size_t n) { touch(s, n, 0); touch(d, n, 1); return memcpy(d, s, n); }
void* mt_memmove(void* d, const void* s, size_t n) { touch(s, n, 0); touch(d, n, 1); return memmove(d, s, n); }
void* mt_memset(void* d, int c, size_t n) { touch(d, n, 1); return memset(d, c, n); }
int mt_memcmp(const void* a, const void* b, size_t n) { touch(a, n, 0); touch(b, n, 0); return memcmp(a, b, n); }
void* mt_memchr(const void* a, int c, size_t n) { touch(a, n, 0); return memchr(a, c, n); }
size_t mt_strlen(const char* s) { touch(s, strlen(s) + 1, 0); return strlen(s); }
int mt_strcmp(const char* a, const char* b) { touch(a, strlen(a) + 1, 0); touch(b, strlen(b) + 1, 0); return strcmp(a, b); }
int mt_strncmp(const char* a, const char* b, size_t n) { touch(a, strnlen(a, n), 0); touch(b, strnlen(b, n), 0); return strncmp(a, b, n); }
char* mt_strchr(const char* s, int c) { touch(s, strlen(s) + 1, 0); return strchr(s, c); }
char* mt_strrchr(const char* s, int c) { touch(s, strlen(s) + 1, 0); return strrchr(s, c); }
char* mt_strcpy(char* d, const char* s) { touch(s, strlen(s) + 1, 0); touch(d, strlen(s) + 1, 1); return strcpy(d, s); }
char* mt_strncpy(char* d, const char* s, size_t n) { touch(s, strnlen(s, n), 0); touch(d, n, 1); return strncpy(d, s, n); }
char* mt_strcat(char* d, const char* s) { touch(s, strlen(s) + 1, 0); touch(d, strlen(d) + strlen(s) + 1, 1); return strcat(d, s); }
char* mt_strncat(char* d, const char* s, size_t n) { size_t l = strnlen(s, n); touch(s, l, 0); touch(d, strlen(d) + l + 1, 1); return strncat(d, s, n); }
char* mt_strdup(const char* s) { char* p; size_t n = mt_strlen(s); p = mt_malloc(n + 1); return p ? mt_strcpy(p, s) : NULL; }
char* mt_strndup(const char* s, size_t n) { char* p; n = strnlen(s, n); p = mt_malloc(n + 1); if(p) { mt_memcpy(p, s, n); p[n] = 0; } return p; }
char* mt_strtok(char* s, const char* d) { char* r; touch(&tok_state, 8, s == NULL ? 0 : 1); if(!s) s = tok_state; if(s == NULL || s == (char*)1) return NULL; s += strspn(s, d); if(!*s) { touch(&tok_state, 8, 1); tok_state = NULL; return NULL; } r = s; s += strcspn(s, d); touch(s, 1, 1); if(*s) *s++ = 0; else s = NULL; touch(&tok_state, 8, 1); tok_state = s; return r; }
int mt_vsnprintf(char* b, size_t n, const char* f, va_list a) { va_list c; int r; char t[1]; va_copy(c, a); r = vsnprintf(t, 0, f, c); va_end(c); if(n) touch(b, r < 0 ? 1 : (size_t)r + 1 < n ? (size_t)r + 1 : n, 1); return vsnprintf(b, n, f, a); }
int mt_snprintf(char* b, size_t n, const char* f, ...) { va_list a; int r; va_start(a, f); r = mt_vsnprintf(b, n, f, a); va_end(a); return r; }
int mt_vsprintf(char* b, const char* f, va_list a) { return mt_vsnprintf(b, 1 << 20, f, a); }
int mt_sprintf(char* b, const char* f, ...) { va_list a; int r; va_start(a, f); r = mt_vsnprintf(b, 1 << 20, f, a); va_end(a); return r; }
long mt_strtol(const char* s, char** e, int b) { touch(s, strlen(s) + 1, 0); return strtol(s, e, b); }
unsigned long mt_strtoul(const char* s, char** e, int b) { touch(s, strlen(s) + 1, 0); return strtoul(s, e, b); }
long long mt_strtoll(const char* s, char** e, int b) { touch(s, strlen(s) + 1, 0); return strtoll(s, e, b); }
unsigned long long mt_strtoull(const char* s, char** e, int b) { touch(s, strlen(s) + 1, 0); return strtoull(s, e, b); }
double mt_strtod(const char* s, char** e) { touch(s, strlen(s) + 1, 0); return strtod(s, e); }
int mt_atoi(const char* s) { touch(s, strlen(s) + 1, 0); return atoi(s); }
int mt_rand(void) { touch(&rand_state, 4, 1); rand_state = rand_state * 1103515245u + 12345u; return (int)(rand_state >> 1); }
void mt_srand(unsigned s) { touch(&rand_state, 4, 1); rand_state = s; }
int mt_pthread_mutex_lock(pthread_mutex_t* m) { while(pthread_mutex_trylock(m)) { if(alone || th[1 - self].done) { tw_log(" DEADLOCK "); return 0; } hand_over(); } return 0; }
/* ---------------------------------------------------------------- executions */
static void* body(void* arg)
{
    self = (int)(intptr_t)arg; while(sem_wait(&th[self].go)) ;
    th[self].w->run(th[self].variant);
    th[self].done = 1;
    if(!alone && !th[1 - self].done) sem_post(&th[1 - self].go); else sem_post(&finished);
    return NULL;
}
static void init(void)
{
    int k;
    if(ev_can) return;
    ev_can = mc_xmalloc(MAXEV); lib_base[0] = __start_libdata; lib_base[1] = __start_libbss; lib_size[0] = (size_t)(__stop_libdata - __start_libdata); lib_size[1] = (size_t)(__stop_libbss - __start_libbss);
    for(k = 0; k < 2; k++) { lib_snap[k] = mc_xmalloc(lib_size[k] + 1); memcpy(lib_snap[k], lib_base[k], lib_size[k]); th[k].arena = mc_xmalloc(ARENA); th[k].log = mc_xmalloc(LOGSZ); sem_init(&th[k].go, 0, 0); }
    written = mc_xcalloc(lib_size[0] + lib_size[1] + 1, 1); sem_init(&finished, 0, 0);
}
static void execute(int first, int only)
{
    pthread_t p[2]; int k; pthread_attr_t at;
    for(k = 0; k < 2; k++) { memcpy(lib_base[k], lib_snap[k], lib_size[k]); th[k].top = 0; th[k].loglen = 0; th[k].log[0] = 0; th[k].done = only >= 0 && k != only; th[k].fail_from = 0; th[k].n_alloc = 0; }
    n_ev = 0; cur_sw = 0; alone = only >= 0; n_exec++;
    pthread_attr_init(&at); pthread_attr_setstacksize(&at, 512 << 10);
    for(k = 0; k < 2; k++) if(only < 0 || k == only) { if(pthread_create(&p[k], &at, body, (void*)(intptr_t)k)) mc_fail("engine: no thread"); }
    sem_post(&th[first].go); while(sem_wait(&finished)) ;
    for(k = 0; k < 2; k++) if(only < 0 || k == only) pthread_join(p[k], NULL);
    pthread_attr_destroy(&at);
}
static char* solo[2]; static size_t solo_len[2];
static void judge(int first)
{
    int k; char s[100]; int n = 0, i; s[0] = 0;
    for(i = 0; i < n_sw; i++) n += snprintf(s + n, sizeof s - (size_t)n, " %u", sw[i]);
    for(k = 0; k < 2; k++) if(th[k].loglen != solo_len[k] || memcmp(th[k].log, solo[k], solo_len[k])) {
        size_t d = 0, b; while(d < solo_len[k] && d < th[k].loglen && th[k].log[d] == solo[k][d]) d++; b = d > 20 ? d - 20 : 0;
        mc_fail("thread %d (%s, variant %d) gets '%.40s' where it gets '%.40s' alone; the other thread runs %s, variant %d; thread %d starts, switches before shared accesses:%s", k, th[k].w->name, th[k].variant, th[k].log + b, solo[k] + b, th[1 - k].w->name, th[1 - k].variant, first, n ? s : " none");
    }
}
static uint64_t left;   /* executions that may still be spent on this case */
static void explore(int first, int bound)
{
    uint32_t i, n, from, r, bits; uint8_t* can;
    if(left == 0) { mc_count_cut(1); return; }
    left--; execute(first, -1); mc_beat(); judge(first);
    if(n_sw >= bound || n_ev == 0) return;
    n = n_ev < MAXEV ? n_ev : MAXEV; from = n_sw ? sw[n_sw - 1] + 1 : 0; can = mc_xmalloc(n); memcpy(can, ev_can, n);
    for(bits = 0; (n - from) >> bits; bits++) ;
    for(r = 0; r < 1u << bits && left; r++) {   /* in an order which spreads over the execution, in case the budget does not suffice */
        uint32_t k; for(i = 0, k = 0; k < bits; k++) if(r >> k & 1) i |= 1u << (bits - 1 - k);
        i += from; if(i < n && can[i]) { sw[n_sw++] = i; explore(first, bound); n_sw--; }
    }
    mc_xfree(can);
}
static int total(void) { int i, t = 0; for(i = 0; i < n_workloads; i++) t += workloads[i].variants; return t; }
static void pick(int x, const WORKLOAD** w, int* v) { int i; for(i = 0; x >= workloads[i].variants; i++) x -= workloads[i].variants; *w = &workloads[i]; *v = x; }
static uint64_t cnt(void) { return (uint64_t)total() * (uint64_t)total(); }
static void run(uint64_t x)
{
    int a = (int)(x / (uint64_t)total()), b = (int)(x % (uint64_t)total()), k, again;
    if(b > a) return;
    init(); mc_track = 0;
    pick(a, &th[0].w, &th[0].variant); pick(b, &th[1].w, &th[1].variant);
    memset(written, 0, lib_size[0] + lib_size[1]); n_acc = n_shared = n_exec = 0; n_sw = 0;
    for(k = 0; k < 2; k++) { execute(k, k); if(!solo[k]) solo[k] = mc_xmalloc(LOGSZ); solo_len[k] = th[k].loglen; memcpy(solo[k], th[k].log, th[k].loglen + 1); if(strstr(solo[k], "FREED TWICE") || strstr(solo[k], "FREEING SOMETHING")) mc_fail("%s, variant %d, frees wrongly", th[k].w->name, th[k].variant);
        execute(k, k); if(th[k].loglen != solo_len[k] || memcmp(th[k].log, solo[k], solo_len[k])) mc_fail("%s, variant %d, is not deterministic", th[k].w->name, th[k].variant); }
    left = mc_thorough ? 100000 : 4000;
    /* one preemption bound after the other, so that short explanations come first */
    for(again = 0; again < 4; again++) { int bound, any = 0; grew = 0; for(bound = 0; bound <= (mc_thorough ? 3 : 2); bound++) { n_sw = 0; explore(0, bound); any |= n_ev > 0; n_sw = 0; explore(1, bound); any |= n_ev > 0; if(!any) break; } if(!grew) break; }
    mc_count_calls(n_acc); mc_count_trace(n_exec); mc_count_extra(0, "accesses_to_shared_writable_memory", n_shared); mc_count_extra(1, "pairs", 1);
    mc_track = 1;
}
static void desc(uint64_t x, char* b, size_t n) { const WORKLOAD *p, *q; int v, u; pick((int)(x / (uint64_t)total()), &p, &v); pick((int)(x % (uint64_t)total()), &q, &u); snprintf(b, n, "%s %d with %s %d", p->name, v, q->name, u); }
MC_SYS mc_systems[] = { { 0 } };
MC_ENUM mc_enums[] = { { "C39", "pairs-of-workloads", 3, 0, cnt, run, desc, 4 }, { 0 } };
