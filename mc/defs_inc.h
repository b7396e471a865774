/* instantiated once per variant of defs.h; V(name) appends the variant */
#define VREF(T, W) \
static void V(pair_##T)(T a, T b) { W x = a, y = b; W mn = x < y ? x : y, mx = x < y ? y : x; \
    MC_ASSERT(MIN(a, b) == mn, "MIN(%s %Lg, %Lg)", #T, (long double)x, (long double)y); MC_ASSERT(MAX(a, b) == mx, "MAX(%s %Lg, %Lg)", #T, (long double)x, (long double)y); \
    mc_count_calls(2); } \
static void V(triple_##T)(T a, T b, T c) { W x = a, y = b, z = c; W mn = x, mx = x, cl; if(y < mn) mn = y; if(z < mn) mn = z; if(y > mx) mx = y; if(z > mx) mx = z; \
    MC_ASSERT(MIN3(a, b, c) == mn, "MIN3(%s %Lg, %Lg, %Lg)", #T, (long double)x, (long double)y, (long double)z); MC_ASSERT(MAX3(a, b, c) == mx, "MAX3(%s %Lg, %Lg, %Lg)", #T, (long double)x, (long double)y, (long double)z); \
    if(y <= z) { cl = x < y ? y : x > z ? z : x; MC_ASSERT(CLAMP(a, b, c) == cl, "CLAMP(%s %Lg, %Lg, %Lg)", #T, (long double)x, (long double)y, (long double)z); } \
    mc_count_calls(3); } \
static void V(abs_##T)(T a) { W x = a; if(x < 0 && (W)(T)-x != -x) return; /* not representable */ MC_ASSERT(ABS(a) == (x < 0 ? (W)-x : x), "ABS(%s %Lg)", #T, (long double)x); mc_count_calls(1); }
VREF(schar, long long) VREF(uchar, long long) VREF(char, long long) VREF(short, long long) VREF(ushort, long long) VREF(int, long long) VREF(uint, long long) VREF(long, __int128) VREF(ulong, __int128) VREF(llong, __int128) VREF(ullong, __int128) VREF(float, long double) VREF(double, long double) VREF(ldouble, long double) VREF(size_t, __int128)
#undef VREF
static void V(bytes)(int a, int b)      /* all third operands */
{
    int c;
    V(pair_schar)((schar)a, (schar)b); V(pair_uchar)((uchar)a, (uchar)b); V(pair_char)((char)a, (char)b);
    for(c = 0; c < 256; c++) { V(triple_schar)((schar)a, (schar)b, (schar)c); V(triple_uchar)((uchar)a, (uchar)b, (uchar)c); }
    if(b == 0) { V(abs_schar)((schar)a); V(abs_uchar)((uchar)a); V(abs_char)((char)a); }
    mc_count_trace(1);
}
/* boundary values of the wider types */
#define ALL(T, arr) { int n_ = sizeof(arr) / sizeof(*arr), x_, y_, z_; for(x_ = 0; x_ < n_; x_++) { V(abs_##T)(arr[x_]); for(y_ = 0; y_ < n_; y_++) { V(pair_##T)(arr[x_], arr[y_]); for(z_ = 0; z_ < n_; z_++) V(triple_##T)(arr[x_], arr[y_], arr[z_]); } } }
static void V(wide)(int k)
{
    switch(k) {
        case 0: { short v[] = { SHRT_MIN, SHRT_MIN + 1, -256, -129, -128, -2, -1, 0, 1, 2, 127, 128, 255, 256, SHRT_MAX - 1, SHRT_MAX }; ALL(short, v) break; }
        case 1: { ushort v[] = { 0, 1, 2, 127, 128, 255, 256, 32767, 32768, 65534, 65535 }; ALL(ushort, v) break; }
        case 2: { int v[] = { INT_MIN, INT_MIN + 1, -65537, -65536, -32769, -32768, -256, -2, -1, 0, 1, 2, 255, 32767, 32768, 65535, 65536, INT_MAX - 1, INT_MAX }; ALL(int, v) break; }
        case 3: { uint v[] = { 0, 1, 2, 255, 65535, 65536, INT_MAX, 0x80000000u, 0x80000001u, UINT_MAX - 1, UINT_MAX }; ALL(uint, v) break; }
        case 4: { long v[] = { LONG_MIN, LONG_MIN + 1, -4294967297L, -4294967296L, -2147483649L, -2147483648L, -2, -1, 0, 1, 2, 2147483647L, 2147483648L, 4294967295L, 4294967296L, LONG_MAX - 1, LONG_MAX }; ALL(long, v) break; }
        case 5: { ulong v[] = { 0, 1, 2, 4294967295UL, 4294967296UL, LONG_MAX, 1UL << 63, (1UL << 63) + 1, ULONG_MAX - 1, ULONG_MAX }; ALL(ulong, v) break; }
        case 6: { llong v[] = { LLONG_MIN, LLONG_MIN + 1, -4294967296LL, -2147483649LL, -1, 0, 1, 2147483648LL, 4294967296LL, LLONG_MAX - 1, LLONG_MAX }; ALL(llong, v) break; }
        case 7: { ullong v[] = { 0, 1, 4294967295ULL, 4294967296ULL, LLONG_MAX, 1ULL << 63, ULLONG_MAX }; ALL(ullong, v) break; }
        case 8: { float v[] = { -FLT_MAX, -16777217.f, -1.5f, -1, -0.5f, -FLT_MIN, 0, FLT_MIN, 0.25f, 0.5f, 1, 1.5f, 16777216.f, FLT_MAX }; ALL(float, v) break; }
        case 9: { double v[] = { -INFINITY, -DBL_MAX, -4294967296.5, -2147483648.0, -1.5, -1, -0.999, -0.5, -DBL_MIN, -4.9e-324, 0, 4.9e-324, DBL_MIN, 0.25, 0.5, 0.999, 1, 1.5, 2147483648.0, 9007199254740993.0, DBL_MAX, INFINITY }; ALL(double, v) break; }
        case 10: { ldouble v[] = { -LDBL_MAX, -1.5L, -1, -0.1L, 0, 0.1L, 0.5L, 1, 18446744073709551615.0L, LDBL_MAX }; ALL(ldouble, v) break; }
        case 11: { size_t v[] = { 0, 1, 2, 4294967295UL, 4294967296UL, SIZE_MAX / 2, SIZE_MAX / 2 + 1, SIZE_MAX - 1, SIZE_MAX }; ALL(size_t, v) break; }
        case 12: { schar v[] = { -128, -127, -1, 0, 1, 126, 127 }; ALL(schar, v) { uchar w[] = { 0, 1, 127, 128, 254, 255 }; ALL(uchar, w) } break; }
    }
    mc_count_trace(1);
}
#undef ALL
#ifdef WITH_EXPRS
/* compound operands: every operator in every position, and the results inside larger expressions */
static int V(rmin)(int a, int b) { return a < b ? a : b; }
static int V(rmax)(int a, int b) { return a > b ? a : b; }
#define BAD(COND, TEXT) if(!(COND)) bad = TEXT;
#define E2(A, B) { int p_, q_; p_ = (A); q_ = (B); BAD(MIN(A, B) == (p_ < q_ ? p_ : q_), "MIN(" #A ", " #B ")") BAD(MAX(A, B) == (p_ > q_ ? p_ : q_), "MAX(" #A ", " #B ")") }
#define E3(A) { int p_; p_ = (A); BAD(MIN3(A, y, w) == V(rmin)(V(rmin)(p_, y), w), "MIN3(" #A ", y, w)") BAD(MIN3(y, A, w) == V(rmin)(V(rmin)(p_, y), w), "MIN3(y, " #A ", w)") BAD(MIN3(y, w, A) == V(rmin)(V(rmin)(p_, y), w), "MIN3(y, w, " #A ")") BAD(MIN3(A, A, A) == p_, "MIN3(" #A " three times)") \
    BAD(MAX3(A, y, w) == V(rmax)(V(rmax)(p_, y), w), "MAX3(" #A ", y, w)") BAD(MAX3(y, A, w) == V(rmax)(V(rmax)(p_, y), w), "MAX3(y, " #A ", w)") BAD(MAX3(y, w, A) == V(rmax)(V(rmax)(p_, y), w), "MAX3(y, w, " #A ")") BAD(MAX3(A, A, A) == p_, "MAX3(" #A " three times)") \
    if(y <= w) BAD(CLAMP(A, y, w) == V(rmin)(V(rmax)(p_, y), w), "CLAMP(" #A ", y, w)") if(p_ <= w) BAD(CLAMP(y, A, w) == V(rmin)(V(rmax)(y, p_), w), "CLAMP(y, " #A ", w)") if(w <= p_) BAD(CLAMP(y, w, A) == V(rmin)(V(rmax)(y, w), p_), "CLAMP(y, w, " #A ")") BAD(CLAMP(y, A, A) == p_, "CLAMP(y, " #A " twice)") \
    BAD(ABS(A) == (p_ < 0 ? -p_ : p_), "ABS(" #A ")") mc_count_calls(13); mc_count_trace(1); }
#define E1(A) E2(A, x + y) E2(A, x & y) E2(A, c ? x : y) E2(A, x | y) E2(A, x == y) E2(A, -x) E2(A, (u, y)) E2(A, u = x) E2(A, x < y) E2(A, x ^ y) E2(A, x || y) E2(x + y, A) E2(x & y, A) E2(c ? x : y, A) E2(x | y, A) E2(x == y, A) E2(-x, A) E2(u = x, A) E2(x || y, A) E2(A, A) E3(A)
static void V(ex0)(int x, int y, int w, int c) { int u = 0; const char* bad = NULL; (void)u; (void)c; E1(x + y) if(bad) mc_fail("%s is wrong for x=%d y=%d w=%d c=%d", bad, x, y, w, c); }
static void V(ex1)(int x, int y, int w, int c) { int u = 0; const char* bad = NULL; (void)u; (void)c; E1(x - y) if(bad) mc_fail("%s is wrong for x=%d y=%d w=%d c=%d", bad, x, y, w, c); }
static void V(ex2)(int x, int y, int w, int c) { int u = 0; const char* bad = NULL; (void)u; (void)c; E1(x * y) if(bad) mc_fail("%s is wrong for x=%d y=%d w=%d c=%d", bad, x, y, w, c); }
static void V(ex3)(int x, int y, int w, int c) { int u = 0; const char* bad = NULL; (void)u; (void)c; E1(x << 2) if(bad) mc_fail("%s is wrong for x=%d y=%d w=%d c=%d", bad, x, y, w, c); }
static void V(ex4)(int x, int y, int w, int c) { int u = 0; const char* bad = NULL; (void)u; (void)c; E1(x >> 1) if(bad) mc_fail("%s is wrong for x=%d y=%d w=%d c=%d", bad, x, y, w, c); }
static void V(ex5)(int x, int y, int w, int c) { int u = 0; const char* bad = NULL; (void)u; (void)c; E1(x & y) if(bad) mc_fail("%s is wrong for x=%d y=%d w=%d c=%d", bad, x, y, w, c); }
static void V(ex6)(int x, int y, int w, int c) { int u = 0; const char* bad = NULL; (void)u; (void)c; E1(x | y) if(bad) mc_fail("%s is wrong for x=%d y=%d w=%d c=%d", bad, x, y, w, c); }
static void V(ex7)(int x, int y, int w, int c) { int u = 0; const char* bad = NULL; (void)u; (void)c; E1(x ^ y) if(bad) mc_fail("%s is wrong for x=%d y=%d w=%d c=%d", bad, x, y, w, c); }
static void V(ex8)(int x, int y, int w, int c) { int u = 0; const char* bad = NULL; (void)u; (void)c; E1(x == y) if(bad) mc_fail("%s is wrong for x=%d y=%d w=%d c=%d", bad, x, y, w, c); }
static void V(ex9)(int x, int y, int w, int c) { int u = 0; const char* bad = NULL; (void)u; (void)c; E1(x != y) if(bad) mc_fail("%s is wrong for x=%d y=%d w=%d c=%d", bad, x, y, w, c); }
static void V(ex10)(int x, int y, int w, int c) { int u = 0; const char* bad = NULL; (void)u; (void)c; E1(x < y) if(bad) mc_fail("%s is wrong for x=%d y=%d w=%d c=%d", bad, x, y, w, c); }
static void V(ex11)(int x, int y, int w, int c) { int u = 0; const char* bad = NULL; (void)u; (void)c; E1(x >= y) if(bad) mc_fail("%s is wrong for x=%d y=%d w=%d c=%d", bad, x, y, w, c); }
static void V(ex12)(int x, int y, int w, int c) { int u = 0; const char* bad = NULL; (void)u; (void)c; E1(x && y) if(bad) mc_fail("%s is wrong for x=%d y=%d w=%d c=%d", bad, x, y, w, c); }
static void V(ex13)(int x, int y, int w, int c) { int u = 0; const char* bad = NULL; (void)u; (void)c; E1(x || y) if(bad) mc_fail("%s is wrong for x=%d y=%d w=%d c=%d", bad, x, y, w, c); }
static void V(ex14)(int x, int y, int w, int c) { int u = 0; const char* bad = NULL; (void)u; (void)c; E1(c ? x : y) if(bad) mc_fail("%s is wrong for x=%d y=%d w=%d c=%d", bad, x, y, w, c); }
static void V(ex15)(int x, int y, int w, int c) { int u = 0; const char* bad = NULL; (void)u; (void)c; E1((c, x)) if(bad) mc_fail("%s is wrong for x=%d y=%d w=%d c=%d", bad, x, y, w, c); }
#ifdef ASSIGNMENTS_REJECTED
static void V(ex16)(int x, int y, int w, int c) { mc_fail("a macro does not accept an assignment (u = y) as its operand: it does not compile"); }
#else
static void V(ex16)(int x, int y, int w, int c) { int u = 0; const char* bad = NULL; (void)u; (void)c; E3(u = y) E2(u = y, x + y) E2(x, u = y) if(bad) mc_fail("%s is wrong for x=%d y=%d w=%d c=%d", bad, x, y, w, c); }
#endif
static void V(ex17)(int x, int y, int w, int c) { int u = 0; const char* bad = NULL; (void)u; (void)c; E1(!x) if(bad) mc_fail("%s is wrong for x=%d y=%d w=%d c=%d", bad, x, y, w, c); }
static void V(ex18)(int x, int y, int w, int c) { int u = 0; const char* bad = NULL; (void)u; (void)c; E1(-x) if(bad) mc_fail("%s is wrong for x=%d y=%d w=%d c=%d", bad, x, y, w, c); }
static void V(ex19)(int x, int y, int w, int c) { int u = 0; const char* bad = NULL; (void)u; (void)c; E1(~x) if(bad) mc_fail("%s is wrong for x=%d y=%d w=%d c=%d", bad, x, y, w, c); }
static void V(ex20)(int x, int y, int w, int c) { int u = 0; const char* bad = NULL; (void)u; (void)c; E1(x % 3) if(bad) mc_fail("%s is wrong for x=%d y=%d w=%d c=%d", bad, x, y, w, c); }
static void V(ex21)(int x, int y, int w, int c) { int u = 0; const char* bad = NULL; (void)u; (void)c; E1((int)sizeof(x) - x) if(bad) mc_fail("%s is wrong for x=%d y=%d w=%d c=%d", bad, x, y, w, c); }
static void V(ex22)(int x, int y, int w, int c) { int u = 0; const char* bad = NULL; (void)u; (void)c; E1(y ? y / (y ? y : 1) : x) if(bad) mc_fail("%s is wrong for x=%d y=%d w=%d c=%d", bad, x, y, w, c); }
static void V(ex23)(int x, int y, int w, int c) { int u = 0; const char* bad = NULL; (void)u; (void)c; E1(MIN(x, y)) if(bad) mc_fail("%s is wrong for x=%d y=%d w=%d c=%d", bad, x, y, w, c); }
static void V(ex24)(int x, int y, int w, int c) { int u = 0; const char* bad = NULL; (void)u; (void)c; E1(ABS(x - y)) if(bad) mc_fail("%s is wrong for x=%d y=%d w=%d c=%d", bad, x, y, w, c); }
static void V(ex25)(int x, int y, int w, int c) { int u = 0; const char* bad = NULL; (void)u; (void)c; E1(CLAMP(x, -2, 2)) if(bad) mc_fail("%s is wrong for x=%d y=%d w=%d c=%d", bad, x, y, w, c); }
static void V(exprs)(int x, int y, int w, int c)
{
    V(ex0)(x, y, w, c); V(ex1)(x, y, w, c); V(ex2)(x, y, w, c); V(ex3)(x, y, w, c); V(ex4)(x, y, w, c); V(ex5)(x, y, w, c); V(ex6)(x, y, w, c); V(ex7)(x, y, w, c); V(ex8)(x, y, w, c); V(ex9)(x, y, w, c); V(ex10)(x, y, w, c); V(ex11)(x, y, w, c); V(ex12)(x, y, w, c); V(ex13)(x, y, w, c); V(ex14)(x, y, w, c); V(ex15)(x, y, w, c); V(ex16)(x, y, w, c); V(ex17)(x, y, w, c); V(ex18)(x, y, w, c); V(ex19)(x, y, w, c); V(ex20)(x, y, w, c); V(ex21)(x, y, w, c); V(ex22)(x, y, w, c); V(ex23)(x, y, w, c); V(ex24)(x, y, w, c); V(ex25)(x, y, w, c);
    /* around */
    MC_ASSERT(2 * MIN(x, y) == 2 * V(rmin)(x, y) && MIN(x, y) * 2 == 2 * V(rmin)(x, y) && 1 + MIN(x, y) == V(rmin)(x, y) + 1 && MIN(x, y) + 1 == V(rmin)(x, y) + 1 && -MIN(x, y) == -V(rmin)(x, y) && !MIN(x, y) == !V(rmin)(x, y), "MIN(%d, %d) inside an expression", x, y);
    MC_ASSERT(2 * MAX(x, y) == 2 * V(rmax)(x, y) && MAX(x, y) * 2 == 2 * V(rmax)(x, y) && 1 + MAX(x, y) == V(rmax)(x, y) + 1 && MAX(x, y) + 1 == V(rmax)(x, y) + 1 && -MAX(x, y) == -V(rmax)(x, y) && (MAX(x, y) ? 5 : 6) == (V(rmax)(x, y) ? 5 : 6), "MAX(%d, %d) inside an expression", x, y);
    MC_ASSERT(2 * MIN3(x, y, w) == 2 * V(rmin)(w, V(rmin)(x, y)) && MIN3(x, y, w) * 2 + 1 == 1 + 2 * V(rmin)(w, V(rmin)(x, y)) && 2 * MAX3(x, y, w) == 2 * V(rmax)(w, V(rmax)(x, y)) && MAX3(x, y, w) * 2 + 1 == 1 + 2 * V(rmax)(w, V(rmax)(x, y)) && -MAX3(x, y, w) == -V(rmax)(w, V(rmax)(x, y)), "MIN3/MAX3(%d, %d, %d) inside an expression", x, y, w);
    MC_ASSERT(3 * ABS(x) == 3 * (x < 0 ? -x : x) && ABS(x) * 3 == 3 * (x < 0 ? -x : x) && -ABS(x) == -(x < 0 ? -x : x) && 7 - ABS(x) == 7 - (x < 0 ? -x : x) && ABS(x) - 7 == (x < 0 ? -x : x) - 7, "ABS(%d) inside an expression", x);
    if(x <= y) MC_ASSERT(3 * CLAMP(w, x, y) == 3 * V(rmin)(V(rmax)(w, x), y) && CLAMP(w, x, y) * 3 - 1 == 3 * V(rmin)(V(rmax)(w, x), y) - 1 && -CLAMP(w, x, y) == -V(rmin)(V(rmax)(w, x), y), "CLAMP(%d, %d, %d) inside an expression", w, x, y);
    mc_count_calls(30);
}
#undef E1
#undef E2
#undef E3
#undef BAD
#endif
/* layout */
struct V(inner) { char a; double d; short s[3]; };
struct V(outer) { char c; int i; char c2; struct V(inner) in; long double ld; void* p; struct V(inner) arr[4]; union { char uc; long ul; struct { short us; int ui; } un; } u; int bits : 3; char tail[7]; };
struct V(packed) { char c; int i; char c2; double d; } __attribute__((packed));
#define MEMBER(T, M) { struct T* o_ = &objs[n]; char* raw_ = (char*)o_; \
    MC_ASSERT(OFFSETOF(struct T, M) == __builtin_offsetof(struct T, M), "OFFSETOF(" #T ", " #M ") is %zu instead of %zu", (size_t)OFFSETOF(struct T, M), __builtin_offsetof(struct T, M)); \
    MC_ASSERT(100 - OFFSETOF(struct T, M) * 2 == 100 - __builtin_offsetof(struct T, M) * 2, "OFFSETOF in an expression"); \
    MC_ASSERT(CONTAINEROF(&o_->M, struct T, M) == o_, "CONTAINEROF(&o->" #M ")"); MC_ASSERT(CONTAINEROF(c ? &o_->M : NULL, struct T, M) == o_, "CONTAINEROF(c ? &o->" #M " : NULL)"); MC_ASSERT(CONTAINEROF((u, &o_->M), struct T, M) == o_, "CONTAINEROF((u, &o->" #M "))"); \
    MC_ASSERT((char*)CONTAINEROF(&objs[n].M, struct T, M) == raw_ && CONTAINEROF(&objs[n].M, struct T, M) + 1 == &objs[n + 1] && &CONTAINEROF(&objs[n].M, struct T, M)->M == &o_->M, "CONTAINEROF(&objs[n]." #M ") in an expression"); mc_count_calls(8); mc_count_trace(1); }
static void V(layout)(int n, int c0)
{
    volatile int vc = 1; int c = vc, u = 0; (void)u; (void)c0;
    { static struct V(outer) objs[6];
      MEMBER(V(outer), c) MEMBER(V(outer), i) MEMBER(V(outer), c2) MEMBER(V(outer), in) MEMBER(V(outer), in.a) MEMBER(V(outer), in.d) MEMBER(V(outer), in.s) MEMBER(V(outer), in.s[2]) MEMBER(V(outer), ld) MEMBER(V(outer), p) MEMBER(V(outer), arr) MEMBER(V(outer), arr[0]) MEMBER(V(outer), arr[3].d) MEMBER(V(outer), arr[1].s[1]) MEMBER(V(outer), u) MEMBER(V(outer), u.ul) MEMBER(V(outer), u.un.ui) MEMBER(V(outer), tail) MEMBER(V(outer), tail[6])
      { struct V(inner)* pi = &objs[n].in; double* pd = &objs[n].in.d; MC_ASSERT(CONTAINEROF(pi, struct V(outer), in) == &objs[n] && CONTAINEROF(CONTAINEROF(pd, struct V(inner), d), struct V(outer), in) == &objs[n] && CONTAINEROF(pi - 0, struct V(outer), in)->c2 == objs[n].c2, "nested CONTAINEROF"); }
      { int* base = &objs[0].i; int* q[2]; q[1] = &objs[n].i; MC_ASSERT(CONTAINEROF(base + 0, struct V(outer), i) == objs && CONTAINEROF(q[1], struct V(outer), i) == &objs[n] && CONTAINEROF(*(q + 1), struct V(outer), i) == &objs[n], "CONTAINEROF of compound pointers"); }
      { struct V(inner)* e = objs[n].arr; MC_ASSERT(CONTAINEROF(e + 2, struct V(outer), arr[2]) == &objs[n] && CONTAINEROF(e + 3 - 1, struct V(outer), arr[2]) == &objs[n], "CONTAINEROF of pointer arithmetic"); } }
    { static struct V(packed) objs[6]; MEMBER(V(packed), c) MEMBER(V(packed), i) MEMBER(V(packed), c2) MEMBER(V(packed), d) }
    { char a1[1]; short a7[7]; int m[3][5]; struct V(inner) si[4]; void* vp[9]; long double l[2]; struct { int z[11]; char y[6][2]; } s, *ps = &s; int (*pm)[5] = m; char big[1000]; int (*fn[3])(void); const int k4[] = { 1, 2, 3, 4 };
      MC_ASSERT(SIZEOF_ARRAY(a1) == 1 && SIZEOF_ARRAY(a7) == 7 && SIZEOF_ARRAY(m) == 3 && SIZEOF_ARRAY(m[0]) == 5 && SIZEOF_ARRAY(si) == 4 && SIZEOF_ARRAY(si[0].s) == 3 && SIZEOF_ARRAY(vp) == 9 && SIZEOF_ARRAY(l) == 2 && SIZEOF_ARRAY(s.z) == 11 && SIZEOF_ARRAY(ps->z) == 11 && SIZEOF_ARRAY(ps->y) == 6 && SIZEOF_ARRAY(ps->y[1]) == 2 && SIZEOF_ARRAY(*pm) == 5 && SIZEOF_ARRAY(*(pm + 1)) == 5 && SIZEOF_ARRAY(big) == 1000 && SIZEOF_ARRAY(fn) == 3 && SIZEOF_ARRAY(k4) == 4 && SIZEOF_ARRAY("abc") == 4, "SIZEOF_ARRAY");
      MC_ASSERT(100 / SIZEOF_ARRAY(a7) == 14 && 100 % SIZEOF_ARRAY(a7) == 2 && SIZEOF_ARRAY(a7) * 2 == 14 && 2 * SIZEOF_ARRAY(a7) - 1 == 13, "SIZEOF_ARRAY in an expression"); }
#define V1 abc
#define V2 V1 + 1
#define VE
#define VF(x) <x>
    MC_ASSERT(strcmp(STRINGIZE(foo), "foo") == 0 && strcmp(STRINGIZE(V1), "abc") == 0 && strcmp(STRINGIZE(V2), "abc + 1") == 0 && strcmp(STRINGIZE(VF(V1)), "<abc>") == 0 && strcmp(STRINGIZE(VE), "") == 0 && strcmp(STRINGIZE("q"), "\"q\"") == 0 && strcmp(STRINGIZE(1.5f), "1.5f") == 0 && strcmp("<" STRINGIZE(V1) ">", "<abc>") == 0 && strcmp(STRINGIZE('\n'), "'\\n'") == 0, "STRINGIZE");
#undef V1
#undef V2
#undef VE
#undef VF
    mc_count_trace(1);
}
#undef MEMBER
