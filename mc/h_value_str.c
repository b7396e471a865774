/* C15 string values: any bytes, any length. */
#include "mc.h"
#include "value.h"
#include <sys/mman.h>

static uint64_t lens[20000]; static int n_lens;
static void build_lens(void)
{
    uint64_t i; static const uint64_t b[] = { 4096, 8192, 16384, 32768, 65536, 1u << 17, 1u << 18, 1u << 19, 1u << 20, 1u << 21, 1u << 22 };
    n_lens = 0;
    for(i = 0; i <= (mc_arg ? 17000 : 1200); i++) lens[n_lens++] = i;
    for(i = 0; i < sizeof b / sizeof *b; i++) { uint64_t d; for(d = b[i] - 3; d <= b[i] + 3; d++) lens[n_lens++] = d; }
}
enum { C_CODED, C_ZERO, C_FF, C_80, C_ALT, C_ZEROHEAD, C_ZEROTAIL, C_ZEROMID, C_N };
static void content(unsigned char* p, uint64_t n, int c)
{
    uint64_t i;
    switch(c) {
    case C_CODED: for(i = 0; i < n; i++) p[i] = (unsigned char)(i * 7 + (i >> 8) + 3); break;
    case C_ZERO: memset(p, 0, n); break;
    case C_FF: memset(p, 0xFF, n); break;
    case C_80: memset(p, 0x80, n); break;
    case C_ALT: for(i = 0; i < n; i++) p[i] = (i & 1) ? 0x00 : 0x81; break;
    case C_ZEROHEAD: memset(p, 'x', n); if(n) p[0] = 0; break;
    case C_ZEROTAIL: memset(p, 'x', n); if(n) p[n-1] = 0; break;
    case C_ZEROMID: memset(p, 'x', n); if(n) p[n/2] = 0; break;
    }
}
static void check_value(VALUE* v, const unsigned char* want, uint64_t n)
{
    const char* s;
    MC_ASSERT(value_type(v) == VALUE_STRING, "type is %d", (int)value_type(v));
    MC_ASSERT(!value_is_new(v), "an initialised string is new");
    MC_ASSERT(value_string_length(v) == n, "length is %zu, expected %llu", value_string_length(v), (unsigned long long)n);
    s = value_string(v);
    MC_ASSERT(s != NULL, "value_string() is NULL");
    MC_ASSERT(memcmp(s, want, n) == 0, "contents differ (length %llu)", (unsigned long long)n);
    MC_ASSERT(s[n] == 0, "no terminator after %llu bytes", (unsigned long long)n);
}
static void one(uint64_t n, int c, int plan, int junk, int cstr)
{
    /* the source is an exact-size block: reading past its end is detected; it is destroyed before the value is read */
    unsigned char* want = mc_xmalloc(n + 1); unsigned char* src = mc_xmalloc(n + (cstr != 0) + (n + (cstr != 0) == 0)); VALUE v; int rc; uint64_t en = n;
    content(want, n, c); memcpy(src, want, n);
    if(cstr) { src[n] = 0; en = strlen((char*)src); }
    memset(&v, junk, sizeof v);
    mc_fail_plan(plan);
    rc = cstr ? value_init_string(&v, (char*)src) : value_init_string_(&v, (char*)src, n);
    MC_ASSERT(rc == 0 || rc == -1, "returned %d", rc);
    MC_ASSERT(rc == 0 || mc_fail_fired(), "creation failed though memory was available (length %llu)", (unsigned long long)n);
    mc_fail_plan(0);
    memset(src, 0xEE, n); mc_xfree(src);
    if(rc == 0) {
        check_value(&v, want, en);
        value_fini(&v);
        MC_ASSERT(value_type(&v) == VALUE_NULL, "finalized string is not null");
        MC_ASSERT(value_string(&v) == NULL && value_string_length(&v) == 0, "finalized string still reads as a string");
    } else {
        MC_ASSERT(value_type(&v) == VALUE_NULL, "a failed creation left a value of type %d", (int)value_type(&v));
        value_fini(&v);
    }
    MC_ASSERT(mc_live_blocks() == 0, "%zu blocks leaked (length %llu)", mc_live_blocks(), (unsigned long long)n);
    mc_xfree(want);
    mc_count_calls(8); mc_count_trace(1);
}
static uint64_t cnt(void) { build_lens(); return (uint64_t)n_lens * C_N * 3; }
static void run(uint64_t i)
{
    static int built = -1;
    int c, m; uint64_t k = i;
    if(built != mc_arg) { build_lens(); built = mc_arg; }
    m = k % 3; k /= 3; c = k % C_N; k /= C_N;
    if(m == 0) { one(lens[k], c, 0, 0x00, 0); one(lens[k], c, 0, 0xFF, 0); one(lens[k], c, 0, 0x95, 0); }
    else if(m == 1) { one(lens[k], c, -1, 0xFF, 0); one(lens[k], c, 1, 0xA5, 1); }
    else one(lens[k], c, 0, 0xA5, 1);
}
static void desc(uint64_t i, char* b, size_t n)
{
    static const char* cn[] = { "position-coded", "all zero", "all 0xff", "all 0x80", "0x81/0 alternating", "leading zero", "trailing zero", "zero in the middle" };
    int c, m; m = i % 3; i /= 3; c = i % C_N; i /= C_N; build_lens();
    snprintf(b, n, "length %llu, %s bytes, %s", (unsigned long long)lens[i], cn[c], m == 0 ? "with explicit length" : m == 1 ? "memory failing" : "as a C string");
}
/* all contents of length <= 2 completely; all single-zero positions of short strings; NULL sources */
static uint64_t cnt_small(void) { return 65536 + 256 + 20 * 20 + 3; }
static void run_small(uint64_t i)
{
    unsigned char s[64]; VALUE v; uint64_t n;
    memset(&v, (int)(i * 37), sizeof v);
    if(i < 65536) { s[0] = i >> 8; s[1] = i; n = 2; }
    else if(i < 65792) { s[0] = i - 65536; n = 1; }
    else if(i < 65792 + 400) { uint64_t k = i - 65792; n = k / 20; memset(s, 'a', sizeof s); s[k % 20] = 0; }
    else {
        int k = (int)(i - 65792 - 400), rc;
        if(k == 0) rc = value_init_string(&v, NULL); else if(k == 1) rc = value_init_string_(&v, NULL, 0); else rc = value_init_string_(&v, "abc", 0);
        MC_ASSERT(rc == 0, "an empty string was refused");
        check_value(&v, (unsigned char*)"", 0);
        value_fini(&v); MC_ASSERT(mc_live_blocks() == 0, "leak");
        mc_count_calls(6); mc_count_trace(1);
        return;
    }
    MC_ASSERT(value_init_string_(&v, (char*)s, n) == 0, "refused");
    check_value(&v, s, n);
    { unsigned char c = s[0]; s[0] ^= 0xFF; s[0] = ~s[0]; s[0] = c; }
    value_fini(&v);
    MC_ASSERT(mc_live_blocks() == 0, "leak");
    mc_count_calls(6); mc_count_trace(1);
}
static void desc_small(uint64_t i, char* b, size_t n) { snprintf(b, n, "short content number %llu", (unsigned long long)i); }
/* around the last boundaries of the length encoding */
static const uint64_t big_q[] = { (1ull << 28) - 1, 1ull << 28, (1ull << 28) + 1, (1ull << 31) + 5 };
static const uint64_t big_t[] = { (1ull << 28) - 2, (1ull << 28) - 1, 1ull << 28, (1ull << 28) + 1, (1ull << 29) - 1, 1ull << 29, (1ull << 30) + 1, (1ull << 31) - 1, 1ull << 31, (1ull << 31) + 1, (1ull << 32) - 1, 1ull << 32, (1ull << 32) + 1, (1ull << 32) + (1ull << 28) };
static uint64_t cnt_big(void) { return mc_arg ? 1 : sizeof big_q / sizeof *big_q; }
static void one_big(uint64_t n)
{
    uint64_t j; VALUE v; unsigned char* src; const unsigned char* s;
    src = mmap(NULL, n + 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if(src == MAP_FAILED) return;
    for(j = 0; j < n; j += 4096) { src[j] = (unsigned char)(j >> 12); src[j + 1] = (unsigned char)(j >> 20); }
    src[n - 1] = 0x9C; mc_beat();
    mc_alloc_cap = (size_t)6 << 30;
    memset(&v, 0x95, sizeof v);
    if(value_init_string_(&v, (char*)src, n) != 0) { munmap(src, n + 4096); return; }      /* not enough memory here */
    mc_beat();
    MC_ASSERT(value_string_length(&v) == n, "length is %zu, expected %llu", value_string_length(&v), (unsigned long long)n);
    s = (const unsigned char*)value_string(&v);
    for(j = 0; j < n; j += 1u << 26) { uint64_t k = n - j < (1u << 26) ? n - j : 1u << 26; MC_ASSERT(memcmp(s + j, src + j, k) == 0, "contents differ"); mc_beat(); }
    MC_ASSERT(s[n] == 0, "no terminator");
    munmap(src, n + 4096);
    value_fini(&v); MC_ASSERT(mc_live_blocks() == 0, "leak");
    mc_count_calls(5); mc_count_trace(1); mc_count_extra(0, "huge_strings_checked", 1);
}
/* the deep unit is one case, so that these multi-gigabyte strings are never in memory at the same time */
static void run_big(uint64_t i)
{
    size_t k;
    if(mc_arg) for(k = 0; k < sizeof big_t / sizeof *big_t; k++) one_big(big_t[k]); else one_big(big_q[i]);
}
static void desc_big(uint64_t i, char* b, size_t n) { if(mc_arg) snprintf(b, n, "all huge lengths one after another"); else snprintf(b, n, "length %llu", (unsigned long long)big_q[i]); }
MC_SYS mc_systems[] = { { 0 } };
MC_ENUM mc_enums[] = {
    { "C15", "strings-short", 3, 0, cnt_small, run_small, desc_small, 0 },
    { "C15", "strings-lengths", 1, 0, cnt, run, desc, 16 },
    { "C15", "strings-lengths-deep", 2, 1, cnt, run, desc, 16 },
    { "C15", "strings-huge", 1, 0, cnt_big, run_big, desc_big, 1 },
    { "C15", "strings-huge-deep", 2, 1, cnt_big, run_big, desc_big, 1 },
    { 0 }
};
