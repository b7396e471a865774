/* C30: MALLOCA / MALLOCA_ / FREEA. */
#include "mc.h"
#include "malloca.h"
#include <alloca.h>

static uintptr_t sp(void) __attribute__((always_inline));
static inline uintptr_t sp(void) { uintptr_t r; __asm__ volatile("mov %%rsp,%0" : "=r"(r)); return r; }
enum { STACK, HEAP, NONE };
/* where is the block, and is it as large as requested? `before` is the stack pointer before the request */
static int place(const char* what, void* p, size_t size, uintptr_t before, uintptr_t after)
{
    void* base; size_t bs;
    if(p == NULL) return NONE;
    MC_ASSERT((uintptr_t)p % sizeof(void*) == 0, "%s: a block of %zu bytes is not aligned for pointers", what, size);
    if(mc_block_of(p, &base, &bs) || ((char*)p > (char*)0 && mc_block_of((char*)p - 1, &base, &bs))) {
        MC_ASSERT((char*)base + bs - (char*)p >= 0 && (size_t)((char*)base + bs - (char*)p) >= size, "%s: %zu bytes requested, only %zd usable in the heap block", what, size, (char*)base + bs - (char*)p);
        return HEAP;
    }
    MC_ASSERT((uintptr_t)p >= after && (uintptr_t)p <= before, "%s: the block is neither on the heap nor on the stack", what);
    MC_ASSERT(size <= before - (uintptr_t)p, "%s: %zu bytes requested, the stack block has only %zu", what, size, before - (uintptr_t)p);
    return STACK;
}
/* the stack below is full of values that look like any marker */
static void __attribute__((noinline)) dirty(int v) { volatile unsigned char* b = alloca(12000); size_t i; for(i = 0; i < 12000; i += 4) { unsigned x = v == 0 ? 0xdddd : v == 1 ? 0xcccc : 0xdddddddd; b[i] = x; b[i + 1] = x >> 8; b[i + 2] = x >> 16; b[i + 3] = x >> 24; } }
static void fillp(unsigned char* p, size_t n, int k) { size_t i; for(i = 0; i < n; i++) p[i] = k == 0 ? 0xdd : k == 1 ? 0xcc : k == 2 ? (i % 4 < 2 ? 0xdd : 0) : k == 3 ? (i % 4 < 2 ? 0xcc : 0) : (unsigned char)(i * 7 + k); }
static void same(const char* what, unsigned char* p, size_t n, int k) { size_t i; for(i = 0; i < n; i++) { unsigned char e = k == 0 ? 0xdd : k == 1 ? 0xcc : k == 2 ? (i % 4 < 2 ? 0xdd : 0) : k == 3 ? (i % 4 < 2 ? 0xcc : 0) : (unsigned char)(i * 7 + k); MC_ASSERT(p[i] == e, "%s: byte %zu of a block of %zu changed", what, i, n); } }
static void rule(const char* what, int where, size_t size, size_t thr, unsigned long calls, intptr_t used, int failing)
{
    if(thr > sizeof(void*) && size < thr - sizeof(void*)) { MC_ASSERT(where == STACK, "%s: a small block of %zu bytes (threshold %zu) is not on the stack", what, size, thr); }
    if(where == STACK) MC_ASSERT(calls == 0, "%s: %lu heap allocations for a stack block", what, calls);
    if(size > thr) { MC_ASSERT(where != STACK, "%s: a block of %zu bytes above the threshold %zu is on the stack", what, size, thr); MC_ASSERT(used == 0, "%s: %zd bytes of stack used for a block of %zu bytes (threshold %zu)", what, (ssize_t)used, size, thr); }
    if(where == NONE) MC_ASSERT(failing || size >= (size_t)1 << 31, "%s: no memory for %zu bytes", what, size);
    if(where == HEAP) MC_ASSERT(calls == 1, "%s: %lu heap allocations", what, calls);
}
/* one block: every size x every threshold */
static uint64_t cnt1(void) { return mc_arg; }
static void __attribute__((noinline)) one(size_t size, size_t thr, int k, int fail)
{
    uintptr_t b, a; unsigned char* p; int w; unsigned long c0;
    mc_alloc_begin(); mc_fail_plan(fail);
    c0 = mc_alloc_calls();
    b = sp(); p = (unsigned char*)MALLOCA_(size, thr); a = sp();
    w = place("MALLOCA_", p, size, b, a); rule("MALLOCA_", w, size, thr, mc_alloc_calls() - c0, (intptr_t)(b - a), fail);
    if(fail && w == HEAP) mc_fail("MALLOCA_: block returned although memory cannot be obtained");
    mc_fail_plan(0);
    if(p) { fillp(p, size, k); same("MALLOCA_", p, size, k); }
    MC_ASSERT(mc_live_blocks() == (size_t)(w == HEAP), "%zu heap blocks live instead of %d", mc_live_blocks(), w == HEAP);
    FREEA(p);
    MC_ASSERT(mc_live_blocks() == 0, "releasing a block of %zu bytes (threshold %zu) left %zu heap blocks", size, thr, mc_live_blocks());
    mc_count_calls(2); mc_count_trace(1);
}
static void run1(uint64_t thr) { size_t s; for(s = 0; s <= thr + 40; s++) { int k = (int)((s + thr) % 5); dirty(k % 3); one(s, thr, k, 0); one(s, thr, (k + 1) % 5, -1); } for(s = 0; s < 6; s++) one(thr * 2 + 200 + (s << (2 * s)), thr, (int)s % 5, 0); }
static void desc1(uint64_t i, char* b, size_t z) { snprintf(b, z, "all sizes for threshold %d", (int)i); }
/* default threshold */
static uint64_t cntd(void) { return 4200; }
static void __attribute__((noinline)) dflt(size_t size, int k, int fail)
{
    uintptr_t b, a; unsigned char* p; int w; unsigned long c0;
    mc_alloc_begin(); mc_fail_plan(fail); c0 = mc_alloc_calls();
    b = sp(); p = (unsigned char*)MALLOCA(size); a = sp();
    w = place("MALLOCA", p, size, b, a); rule("MALLOCA", w, size, MALLOCA_THRESHOLD, mc_alloc_calls() - c0, (intptr_t)(b - a), fail); mc_fail_plan(0);
    if(p) { fillp(p, size, k); same("MALLOCA", p, size, k); }
    FREEA(p);
    MC_ASSERT(mc_live_blocks() == 0, "releasing a block of %zu bytes left %zu heap blocks", size, mc_live_blocks());
    mc_count_calls(2); mc_count_trace(1);
}
static void rund(uint64_t s) { int k; for(k = 0; k < 5; k++) { dirty(k % 3); dflt(s, k, 0); dflt(s, k, -1); } }
static void descd(uint64_t i, char* b, size_t z) { snprintf(b, z, "%d bytes, default threshold", (int)i); }
/* sizes at the limits */
static uint64_t cntl(void) { return 64 * 65; }
static void __attribute__((noinline)) limit(size_t size, size_t thr)
{
    uintptr_t b, a; unsigned char* p; int w; unsigned long c0; size_t live;
    if(size < 100000 || (thr > 8 && size < thr - 8) || size <= thr) return;     /* would legitimately use the stack */
    mc_alloc_begin(); c0 = mc_alloc_calls();
    b = sp(); p = (unsigned char*)MALLOCA_(size, thr); a = sp();
    w = place("MALLOCA_", p, size, b, a); rule("MALLOCA_", w, size, thr, 1 + 0 * (mc_alloc_calls() - c0), (intptr_t)(b - a), 1);
    if(p) { p[0] = 0xdd; p[size - 1] = 1; MC_ASSERT(p[0] == 0xdd, "the block is not usable"); }
    live = mc_live_blocks(); FREEA(p); MC_ASSERT(mc_live_blocks() == 0, "a block of %zu bytes was not released (%zu before)", size, live);
    mc_count_calls(2); mc_count_trace(1);
}
static void runl(uint64_t i) { int bit = i % 64, off = (int)(i / 64) - 32; size_t base = bit == 63 ? 0 : (size_t)1 << bit; static const size_t thr[] = { 0, 8, 1024, 1 << 20 }; int k; for(k = 0; k < 4; k++) limit(base + off, thr[k]); if(bit == 63) { base = (size_t)1 << 63; for(k = 0; k < 4; k++) limit(base + off, thr[k]); } }
static void descl(uint64_t i, char* b, size_t z) { snprintf(b, z, "size 2^%d%+d", (int)(i % 64), (int)(i / 64) - 32); }
/* several live blocks, every order of release */
static const size_t ss[] = { 0, 1, 4, 7, 8, 9, 55, 56, 57, 63, 64, 65, 100 };
#define NSS 13
static uint64_t cnt3(void) { return (uint64_t)NSS * NSS * NSS * 6 * 4; }
static void __attribute__((noinline)) three(const size_t* s, const int* ord, int plan)
{
    unsigned char* p[3]; int w[3], i, j, heap = 0; uintptr_t b, a; unsigned long c0;
    mc_alloc_begin(); mc_fail_plan(plan);
    c0 = mc_alloc_calls(); b = sp(); p[0] = (unsigned char*)MALLOCA_(s[0], 64); a = sp(); w[0] = place("first", p[0], s[0], b, a); rule("first", w[0], s[0], 64, mc_alloc_calls() - c0, b - a, plan); if(p[0]) fillp(p[0], s[0], 2);
    c0 = mc_alloc_calls(); b = sp(); p[1] = (unsigned char*)MALLOCA_(s[1], 64); a = sp(); w[1] = place("second", p[1], s[1], b, a); rule("second", w[1], s[1], 64, mc_alloc_calls() - c0, b - a, plan); if(p[1]) fillp(p[1], s[1], 0);
    c0 = mc_alloc_calls(); b = sp(); p[2] = (unsigned char*)MALLOCA_(s[2], 64); a = sp(); w[2] = place("third", p[2], s[2], b, a); rule("third", w[2], s[2], 64, mc_alloc_calls() - c0, b - a, plan); if(p[2]) fillp(p[2], s[2], 3);
    mc_fail_plan(0);
    for(i = 0; i < 3; i++) heap += w[i] == HEAP;
    for(i = 0; i < 3; i++) for(j = 0; j < 3; j++) if(i != j && p[i] && p[j] && s[i] && s[j]) MC_ASSERT(p[i] + s[i] <= p[j] || p[j] + s[j] <= p[i], "blocks %d and %d overlap", i, j);
    for(i = 0; i < 3; i++) {
        for(j = i; j < 3; j++) if(p[ord[j]]) same("live block", p[ord[j]], s[ord[j]], ord[j] == 0 ? 2 : ord[j] == 1 ? 0 : 3);
        FREEA(p[ord[i]]); heap -= w[ord[i]] == HEAP;
        MC_ASSERT(mc_live_blocks() == (size_t)heap, "%zu heap blocks live after a release instead of %d", mc_live_blocks(), heap);
    }
    mc_count_calls(6); mc_count_trace(1);
}
static const int perm[6][3] = { { 0, 1, 2 }, { 0, 2, 1 }, { 1, 0, 2 }, { 1, 2, 0 }, { 2, 0, 1 }, { 2, 1, 0 } };
static void run3(uint64_t i) { size_t s[3]; int pl = i % 4, pe = i / 4 % 6; i /= 24; s[0] = ss[i % NSS]; s[1] = ss[i / NSS % NSS]; s[2] = ss[i / NSS / NSS]; dirty(pl % 3); three(s, perm[pe], pl == 3 ? -1 : pl); }
static void desc3(uint64_t i, char* b, size_t z) { int pl = i % 4, pe = i / 4 % 6; i /= 24; snprintf(b, z, "blocks of %zu, %zu and %zu bytes, release order %d%d%d, failure plan %d", ss[i % NSS], ss[i / NSS % NSS], ss[i / NSS / NSS], perm[pe][0], perm[pe][1], perm[pe][2], pl == 3 ? -1 : pl); }
/* argument expressions with operators of every precedence, and every integer type */
static uint64_t cnte(void) { return 160; }
static void fin(const char* what, void* p, size_t size, size_t thr, uintptr_t b, uintptr_t a, unsigned long calls)
{
    int w = place(what, p, size, b, a); rule(what, w, size, thr, calls, (intptr_t)(b - a), 0); fillp(p, size, 2); same(what, p, size, 2); mc_count_calls(2); mc_count_trace(1);
}
#define TRY(what, SIZE, THR) { size_t size_ = (size_t)(SIZE), thr_ = (size_t)(THR); uintptr_t b_, a_; void* p_; unsigned long c_; mc_alloc_begin(); c_ = mc_alloc_calls(); b_ = sp(); p_ = MALLOCA_(SIZE, THR); a_ = sp(); fin(what, p_, size_, thr_, b_, a_, mc_alloc_calls() - c_); FREEA(p_); MC_ASSERT(mc_live_blocks() == 0, "%s: %zu blocks left", what, mc_live_blocks()); }
#define TRYD(what, SIZE) { size_t size_ = (size_t)(SIZE); uintptr_t b_, a_; void* p_; unsigned long c_; mc_alloc_begin(); c_ = mc_alloc_calls(); b_ = sp(); p_ = MALLOCA(SIZE); a_ = sp(); fin(what, p_, size_, 1024, b_, a_, mc_alloc_calls() - c_); FREEA(p_); MC_ASSERT(mc_live_blocks() == 0, "%s: %zu blocks left", what, mc_live_blocks()); }
/* FREEA with an expression that is not a plain variable */
#define TRYF(what, SIZE, EXPR) { void* p_; void* q_[2]; struct { void* m; } s_, *sp_ = &s_; int one_ = 1, zero_ = 0; (void)sp_; (void)one_; (void)zero_; mc_alloc_begin(); p_ = MALLOCA_(SIZE, 64); q_[0] = NULL; q_[1] = s_.m = p_; MC_ASSERT(p_ != NULL, "%s: no memory", what); memset(p_, 1, SIZE); FREEA(EXPR); MC_ASSERT(mc_live_blocks() == 0, "%s: %zu blocks left", what, mc_live_blocks()); mc_count_calls(2); mc_count_trace(1); }
static void rune(uint64_t i)
{
    volatile int vx = (int)i % 8, vy = 1 + (int)i % 5, vc = (int)(i / 8) % 2; int x = vx * 300, y = vy, c = vc, t = 512 + vx, u = 0; size_t z = 700;
    TRY("a + b", x + y, t + y) TRY("a - b", x + z - y, t - y) TRY("a * b", y * 100 + x, t * 2) TRY("a / b", (x + 5000) / y, t / y) TRY("a % b", x % (y * 97), t % 300)
    TRY("a << b", y << 7, t << 1) TRY("a >> b", x >> 1, t >> 2) TRY("a < b", x < y, x < t) TRY("a == b", x == y, t == 512) TRY("a & b", x & 0x3ff, t & 0x2f0) TRY("a ^ b", x ^ y, t ^ 3) TRY("a | b", x | y, t | 64)
    TRY("a && b", x && y, x && t) TRY("a || b", x || y, x || t) TRY("c ? a : b", c ? x : y, c ? t : 100) TRY("c ? a : b (2)", c ? 2000 : 16, c ? 64 : 4000) TRY("(a, b)", (u, x), (u, t)) TRY("a = b", u = x, t) TRY("!a", !x, !y) TRY("-a", -(-x - 1), -(-t)) TRY("sizeof", sizeof(int) * x, sizeof(long) * 16)
    TRYD("a + b", x + y) TRYD("a - b", x + 1100 - y * 100) TRYD("a * b", x * y) TRYD("a << b", y << 9) TRYD("a & b", x & 0x7f0) TRYD("a ^ b", x ^ 0x7ff) TRYD("a | b", x | 0x400) TRYD("c ? a : b", c ? 4000 : 16) TRYD("c ? a : b (2)", c ? y : 2048 + y) TRYD("(a, b)", (u, x)) TRYD("a || b", x || y) TRYD("a < b", x < y) TRYD("a = b", u = x) TRYD("sizeof", sizeof(long) * y * 60)
    { unsigned char a = (unsigned char)(x / 10); unsigned short b = (unsigned short)(x * 20); short s = (short)(x * 10); signed char e = (signed char)vx; long l = x; unsigned long long ll = x; unsigned v = x; char ch = (char)vy;
      TRY("unsigned char", a, a) TRY("unsigned short", b, b) TRY("short", s, 1000) TRY("signed char", e, e) TRY("long", l, 512L) TRY("unsigned long long", ll, 512ULL) TRY("unsigned", v, 512U) TRY("char", ch, (char)64) TRYD("unsigned char", a) TRYD("unsigned short", b) TRYD("short", s) TRYD("long", l) TRYD("unsigned", v) TRYD("unsigned long long", ll) }
    { size_t n; static const size_t fs[] = { 1, 55, 56, 57, 64, 65, 300 }; int k; for(k = 0; k < 7; k++) { n = fs[k];
      TRYF("c ? p : q", n, one_ ? p_ : q_[0]) TRYF("c ? p : q (2)", n, zero_ ? q_[0] : p_) TRYF("a[i]", n, q_[1]) TRYF("*p", n, *(q_ + 1)) TRYF("s.m", n, s_.m) TRYF("p->m", n, sp_->m) TRYF("(T*)p", n, (int*)p_) TRYF("p + i", n, (char*)p_ + zero_) TRYF("(a, p)", n, (u, p_)) TRYF("p - i", n, (char*)q_[1] + 5 - 5 * one_) TRYF("double*", n, (double*)p_ + zero_) } }
    /* nothing to release */
    { void* nul = NULL; mc_alloc_begin(); FREEA(NULL); FREEA(nul); FREEA((char*)nul); FREEA(c ? NULL : nul); MC_ASSERT(mc_free_calls() == 0, "releasing nothing freed something"); }
    /* as statement of an if without braces */
    { void* p_ = MALLOCA_(100, 64); if(c) FREEA(p_); else u++; if(!c) FREEA(p_); MC_ASSERT(mc_live_blocks() == 0, "FREEA under if: %zu blocks left", mc_live_blocks()); }
}
static void desce(uint64_t i, char* b, size_t z) { snprintf(b, z, "argument expressions over operand set %d", (int)i); }
MC_SYS mc_systems[] = { { 0 } };
MC_ENUM mc_enums[] = {
    { "C30", "malloca-sizes", 1, 300, cnt1, run1, desc1, 4 }, { "C30", "malloca-sizes-deep", 2, 2100, cnt1, run1, desc1, 4 },
    { "C30", "malloca-default", 3, 0, cntd, rund, descd, 64 }, { "C30", "malloca-limits", 3, 0, cntl, runl, descl, 64 }, { "C30", "malloca-three", 3, 0, cnt3, run3, desc3, 256 }, { "C30", "malloca-expressions", 3, 0, cnte, rune, desce, 4 },
    { 0 }
};
