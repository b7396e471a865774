/* C13 scalar round trip and neutral defaults, C14 numeric conversions and compatibility: VALUE. */
#include "mc.h"
#include "value.h"
#include <limits.h>

typedef unsigned __int128 U128; typedef __int128 S128;
static const VALUE_TYPE NUMT[6] = { VALUE_INT32, VALUE_UINT32, VALUE_INT64, VALUE_UINT64, VALUE_FLOAT, VALUE_DOUBLE };
static const char* tname(int t) { static const char* n[] = { "null", "bool", "int32", "uint32", "int64", "uint64", "float", "double", "string", "array", "dict" }; return n[t]; }

/* ---- an exact number: (-1)^neg * m * 2^e, or infinite, or NaN */
typedef struct { int nan, inf, neg; uint64_t m; int e; } NUM;
static NUM num_int(S128 x) { NUM r = { 0 }; r.neg = x < 0; r.m = (uint64_t)(x < 0 ? -x : x); return r; }
static NUM num_float(uint32_t b) { NUM r = { 0 }; int ex = b >> 23 & 255; r.neg = b >> 31; r.m = b & 0x7fffff; if(ex == 255) { if(r.m) r.nan = 1; else r.inf = 1; } else if(ex == 0) r.e = -149; else { r.m |= 0x800000; r.e = ex - 150; } return r; }
static NUM num_double(uint64_t b) { NUM r = { 0 }; int ex = b >> 52 & 2047; r.neg = b >> 63; r.m = b & 0xfffffffffffffull; if(ex == 2047) { if(r.m) r.nan = 1; else r.inf = 1; } else if(ex == 0) r.e = -1074; else { r.m |= 1ull << 52; r.e = ex - 1075; } return r; }
/* rounds to nearest integer, halves away from zero; returns 0 if |x| >= 2^65 or so; *exact: was an integer */
static int num_to_int(NUM a, S128* out, int* exact)
{
    U128 v; *exact = 1;
    if(a.nan || a.inf) return 0;
    if(a.m == 0) { *out = 0; return 1; }
    if(a.e >= 0) { if(a.e > 64) return 0; v = (U128)a.m << a.e; if(a.e > 0 && (v >> a.e) != a.m) return 0; if(v >> 66) return 0; }
    else if(-a.e > 64) { v = 0; *exact = 0; }      /* m < 2^64, so |x| < 1/2 unless e == -64 */
    else {
        U128 w = (U128)a.m; int s = -a.e;
        v = w >> s; { U128 fr = w - (v << s); if(fr) { *exact = 0; if((fr << 1) >= ((U128)1 << s)) v++; } }
    }
    *out = a.neg ? -(S128)v : (S128)v;
    return 1;
}
/* rounds to a binary floating format (nearest, ties to even), returns its bit pattern; *exact tells whether nothing was lost */
static uint64_t num_to_fp(NUM a, int p, int emin, int emax, int mant_bits, int* exact)
{
    uint64_t sign = (uint64_t)a.neg << (mant_bits == 52 ? 63 : 31), infp = (uint64_t)(mant_bits == 52 ? 2047 : 255) << mant_bits;
    uint64_t m = a.m; int e = a.e, bits = 0, drop; uint64_t q, rem;
    *exact = 1;
    if(a.inf) return sign | infp;
    if(m == 0) return sign;
    while(bits < 64 && (m >> bits)) bits++;
    /* exponent of the last kept bit */
    drop = bits - p;
    if(e + drop < emin) drop = emin - e;
    if(drop <= 0) { /* exact; normalise up as far as possible so that the significand has p bits or e reaches emin */
        while(bits < p && e > emin) { m <<= 1; bits++; e--; }
        q = m;
    } else {
        if(drop > 64) { q = 0; rem = 1; *exact = 0; }
        else {
            if(drop == 64) { q = 0; rem = m; } else { q = m >> drop; rem = m & ((1ull << drop) - 1); }
            if(rem) {
                uint64_t half = 1ull << (drop - 1);
                *exact = 0;
                if(rem > half || (rem == half && (q & 1))) q++;
            }
        }
        e += drop;
        if(q >> p) { q >>= 1; e++; }
    }
    if(q == 0) return sign;
    if(e > emax) { *exact = 0; return sign | infp; }
    if(q < (1ull << mant_bits)) return sign | q;                  /* subnormal: e == emin */
    return sign | ((uint64_t)(e - emin + 1) << mant_bits) | (q & ((1ull << mant_bits) - 1));
}
static NUM num_of(VALUE_TYPE t, uint64_t bits)
{
    switch(t) {
    case VALUE_INT32: return num_int((int32_t)bits); case VALUE_UINT32: return num_int((uint32_t)bits);
    case VALUE_INT64: return num_int((int64_t)bits); case VALUE_UINT64: return num_int((U128)bits);
    case VALUE_FLOAT: return num_float((uint32_t)bits); default: return num_double(bits);
    }
}
static int in_range(VALUE_TYPE t, S128 x)
{
    switch(t) {
    case VALUE_INT32: return x >= INT32_MIN && x <= INT32_MAX; case VALUE_UINT32: return x >= 0 && x <= UINT32_MAX;
    case VALUE_INT64: return x >= INT64_MIN && x <= INT64_MAX; default: return x >= 0 && x <= (S128)UINT64_MAX;
    }
}
static int init_num(VALUE* v, VALUE_TYPE t, uint64_t bits)
{
    switch(t) {
    case VALUE_INT32: return value_init_int32(v, (int32_t)(uint32_t)bits);
    case VALUE_UINT32: return value_init_uint32(v, (uint32_t)bits);
    case VALUE_INT64: return value_init_int64(v, (int64_t)bits);
    case VALUE_UINT64: return value_init_uint64(v, bits);
    case VALUE_FLOAT: { float f; uint32_t b = (uint32_t)bits; memcpy(&f, &b, 4); return value_init_float(v, f); }
    default: { double d; memcpy(&d, &bits, 8); return value_init_double(v, d); }
    }
}
static uint64_t get_num(const VALUE* v, VALUE_TYPE t)      /* as a bit pattern of t */
{
    switch(t) {
    case VALUE_INT32: return (uint32_t)value_int32(v);
    case VALUE_UINT32: return value_uint32(v);
    case VALUE_INT64: return (uint64_t)value_int64(v);
    case VALUE_UINT64: return value_uint64(v);
    case VALUE_FLOAT: { float f = value_float(v); uint32_t b; memcpy(&b, &f, 4); return b; }
    default: { double d = value_double(v); uint64_t b; memcpy(&b, &d, 8); return b; }
    }
}
static S128 as_int(VALUE_TYPE t, uint64_t bits) { switch(t) { case VALUE_INT32: return (int32_t)bits; case VALUE_UINT32: return (uint32_t)bits; case VALUE_INT64: return (int64_t)bits; default: return (S128)(U128)bits; } }

static int visit_none(const VALUE* k, VALUE* v, void* c) { (void)k; (void)v; (void)c; mc_fail("C13: a non-dictionary value was walked"); return 0; }
/* everything that does not apply to a value of type t (or NULL) gives its neutral result */
static void check_neutral(VALUE* v, int t)
{
    const VALUE* buf[2]; VALUE before; int k;
    if(v) before = *v;
    MC_ASSERT((int)value_type(v) == t, "value_type() is %d, expected %s", (int)value_type(v), tname(t));
    for(k = VALUE_NULL; k <= VALUE_DICT; k++) {
        if(k == t) MC_ASSERT(value_is_compatible(v, k), "%s is not compatible with its own type", tname(t));
        else if(t < VALUE_INT32 || t > VALUE_DOUBLE || k < VALUE_INT32 || k > VALUE_DOUBLE) MC_ASSERT(!value_is_compatible(v, k), "%s is compatible with %s", tname(t), tname(k));
    }
    if(t != VALUE_BOOL) MC_ASSERT(value_bool(v) == -1, "value_bool() of %s is %d, expected -1", tname(t), value_bool(v));
    if(t < VALUE_INT32 || t > VALUE_DOUBLE) {
        MC_ASSERT(value_int32(v) == -1 && value_uint32(v) == UINT32_MAX && value_int64(v) == -1 && value_uint64(v) == UINT64_MAX && value_float(v) == -1.0f && value_double(v) == -1.0,
                  "a numeric getter of %s (%s) does not give minus one", v ? "a value" : "NULL", tname(t));
    }
    if(t != VALUE_STRING) MC_ASSERT(value_string(v) == NULL && value_string_length(v) == 0, "%s reads as a string", tname(t));
    if(t != VALUE_ARRAY) {
        MC_ASSERT(value_array_size(v) == 0 && value_array_get(v, 0) == NULL && value_array_get(v, SIZE_MAX) == NULL && value_array_get_all(v) == NULL, "%s reads as an array", tname(t));
        MC_ASSERT(value_array_append(v) == NULL && value_array_insert(v, 0) == NULL && value_array_remove(v, 0) == -1 && value_array_remove_range(v, 0, 1) == -1, "%s accepts array modifications", tname(t));
        value_array_clean(v);
        MC_ASSERT(value_path(v, "[0]") == NULL && value_path(v, "[-1]") == NULL, "%s has items by path", tname(t));
    }
    if(t != VALUE_DICT) {
        MC_ASSERT(value_dict_size(v) == 0 && value_dict_flags(v) == 0 && value_dict_get(v, "a") == NULL && value_dict_get_(v, "", 0) == NULL && value_dict_get(v, NULL) == NULL, "%s reads as a dictionary", tname(t));
        MC_ASSERT(value_dict_keys_sorted(v, buf, 2) == 0 && value_dict_keys_ordered(v, buf, 2) == 0, "%s has keys", tname(t));
        MC_ASSERT(value_dict_add(v, "a") == NULL && value_dict_add_(v, "a", 1) == NULL && value_dict_get_or_add(v, "a") == NULL && value_dict_get_or_add_(v, "a", 1) == NULL, "%s accepts keys", tname(t));
        MC_ASSERT(value_dict_remove(v, "a") == -1 && value_dict_remove_(v, "a", 1) == -1, "%s lets keys be removed", tname(t));
        MC_ASSERT(value_dict_walk_sorted(v, visit_none, NULL) == -1 && value_dict_walk_ordered(v, visit_none, NULL) == -1, "walking %s does not fail", tname(t));
        value_dict_clean(v);
        MC_ASSERT(value_path(v, "a") == NULL, "%s has members by path", tname(t));
    }
    MC_ASSERT(value_path(v, "") == v, "the empty path of %s is not the value itself", tname(t));
    if(v) MC_ASSERT(memcmp(&before, v, sizeof before) == 0, "refused operations modified the %s", tname(t));
    else MC_ASSERT(!value_is_new(v), "NULL is new");
}

static void check_scalar(VALUE_TYPE t, uint64_t bits, int junk, int full)
{
    VALUE v; uint64_t r;
    memset(&v, junk, sizeof v);
    MC_ASSERT(init_num(&v, t, bits) == 0, "initialising %s failed", tname(t));
    MC_ASSERT(value_type(&v) == t, "%s 0x%llx reports type %d", tname(t), (unsigned long long)bits, value_type(&v));
    r = get_num(&v, t);
    MC_ASSERT(r == bits, "%s 0x%llx reads back as 0x%llx", tname(t), (unsigned long long)bits, (unsigned long long)r);
    MC_ASSERT(!value_is_new(&v), "initialised %s is new", tname(t));
    if(full) check_neutral(&v, t);
    value_fini(&v);
    MC_ASSERT(value_type(&v) == VALUE_NULL && !value_is_new(&v), "finalized %s is not a plain null", tname(t));
}
static void check_conv(VALUE_TYPE t, uint64_t bits)
{
    VALUE v; int i; NUM a = num_of(t, bits); S128 n = 0; int exact = 0, fits;
    memset(&v, 0x5A, sizeof v);
    init_num(&v, t, bits);
    fits = num_to_int(a, &n, &exact);
    for(i = 0; i < 6; i++) {
        VALUE_TYPE g = NUMT[i]; int comp = value_is_compatible(&v, g);
#define WHERE "%s 0x%llx as %s: "
#define WARGS tname(t), (unsigned long long)bits, tname(g)
        if(g == t) { MC_ASSERT(comp, WHERE "not compatible with its own type", WARGS); continue; }
        if(g == VALUE_FLOAT || g == VALUE_DOUBLE) {
            int ex = 0; uint64_t want, got;
            if(a.nan) { if(comp) { got = get_num(&v, g); MC_ASSERT((g == VALUE_FLOAT ? num_float(got) : num_double(got)).nan, WHERE "NaN became a number", WARGS); } continue; }
            want = g == VALUE_FLOAT ? num_to_fp(a, 24, -149, 104, 23, &ex) : num_to_fp(a, 53, -1074, 971, 52, &ex);
            if(ex) MC_ASSERT(comp, WHERE "exactly representable but not compatible", WARGS);
            got = get_num(&v, g);
            if(got != want && !(a.m == 0 && !a.inf && (got << 1 == 0 || got == 0x80000000u))) mc_fail("C14: " WHERE "read as 0x%llx, expected 0x%llx", WARGS, (unsigned long long)got, (unsigned long long)want);
        } else {
            int ok = fits && in_range(g, n);
            if(ok && exact) {
                MC_ASSERT(comp, WHERE "in range and without fraction, but not compatible", WARGS);
            } else MC_ASSERT(!comp, WHERE "%s, but reported compatible", WARGS, ok ? "has a fraction" : "out of range");
            if(ok) { S128 got = as_int(g, get_num(&v, g)); MC_ASSERT(got == n, WHERE "read as %lld, expected %lld", WARGS, (long long)got, (long long)n); }
        }
    }
    mc_count_calls(11);
    mc_count_trace(1);
}

/* ---- families of bit patterns */
static const uint16_t lows[] = {
#define R8(b) b, b+1, b+2, b+3, b+4, b+5, b+6, b+7
    R8(0), R8(8), R8(0x00fc), R8(0x07fc), R8(0x0ffc), R8(0x3ffc), R8(0x7ff8), R8(0x8000), R8(0x8008), R8(0xbffc), R8(0xeffc), R8(0xfff0), R8(0xfff8) };
#define NLOWS (sizeof lows / sizeof *lows)
static uint64_t count32(void) { return mc_arg == 0 ? 65536ull * NLOWS : 1ull << 32; }
static uint32_t pat32(uint64_t i) { return mc_arg == 0 ? (uint32_t)(i / NLOWS << 16 | lows[i % NLOWS]) : (uint32_t)i; }
static void run13_32(uint64_t i)
{
    uint32_t b = pat32(i); int full = (mc_arg == 0 ? i % NLOWS : b % 4096) == 0;
    check_scalar(VALUE_INT32, b, 0xA5, full); check_scalar(VALUE_UINT32, b, 0xFF, full); check_scalar(VALUE_FLOAT, b, 0x00, full);
    mc_count_calls(15); mc_count_trace(3);
}
static void run14_32(uint64_t i) { uint32_t b = pat32(i); check_conv(VALUE_INT32, b); check_conv(VALUE_UINT32, b); check_conv(VALUE_FLOAT, b); }
static void desc32(uint64_t i, char* b, size_t n) { snprintf(b, n, "bit pattern 0x%08x as int32, uint32 and float", pat32(i)); }

/* 64-bit: 2^a +- 2^b + d for all a, b and small d, both signs; every double exponent with structured mantissas */
#define ND 17
static uint64_t count64(void) { return 65ull * 65 * 2 * ND * 2; }
static uint64_t pat64(uint64_t i)
{
    int d = (int)(i % ND) - ND / 2, neg, sub, a, b; uint64_t x; i /= ND;
    neg = i % 2; i /= 2; sub = i % 2; i /= 2; a = i % 65; b = i / 65;
    x = a == 64 ? 0 : 1ull << a;
    x = sub ? x - (b == 64 ? 0 : 1ull << b) : x + (b == 64 ? 0 : 1ull << b);
    x += (uint64_t)(int64_t)d;
    return neg ? 0 - x : x;
}
static uint64_t count_d(void) { return 2ull * 2048 * (mc_arg ? 6000 : 700); }
static uint64_t pat_d(uint64_t i)
{
    uint64_t per = mc_arg ? 6000 : 700, k = i % per, ex = i / per % 2048, sg = i / per / 2048, m;
    /* mantissas: 2^a, 2^a-1, complements, 2^a+2^b, and small / large ones */
    if(k < 52) m = 1ull << k;
    else if(k < 104) m = (1ull << (k - 52)) - 1;
    else if(k < 156) m = ~((1ull << (k - 104)) - 1);
    else if(k < 208) m = ~(1ull << (k - 156));
    else if(k < 272) m = k - 208;
    else if(k < 336) m = ~(k - 272);
    else if(k < 388) m = (1ull << (k - 336)) | 1;
    else if(k < 440) m = (1ull << (k - 388)) * 3;
    else if(k < 492) m = 0x8000000000000ull | (1ull << (k - 440));
    else if(k < 544) m = 0x8000000000000ull | ((1ull << (k - 492)) - 1);
    else if(k < 700) { uint64_t j = k - 544; m = 0x10000000ull * ((j % 3) - 1) + (0x20000000ull << (j / 3 % 23)) + (j / 69) - 1; }     /* ties when narrowed to float */
    else { uint64_t j = k - 700; m = (1ull << (j % 52)) + (1ull << (j / 52 % 52)) - (j / 2704 == 1); }
    return sg << 63 | ex << 52 | (m & 0xfffffffffffffull);
}
static void run13_64(uint64_t i) { uint64_t b = pat64(i); int full = i % 5 == 0; check_scalar(VALUE_INT64, b, 0xA5, full); check_scalar(VALUE_UINT64, b, 0xFF, full); check_scalar(VALUE_DOUBLE, b, 0, full); mc_count_calls(15); mc_count_trace(3); }
static void run14_64(uint64_t i) { uint64_t b = pat64(i); check_conv(VALUE_INT64, b); check_conv(VALUE_UINT64, b); check_conv(VALUE_DOUBLE, b); }
static void desc64(uint64_t i, char* b, size_t n) { snprintf(b, n, "bit pattern 0x%016llx as int64, uint64 and double", (unsigned long long)pat64(i)); }
static void run13_d(uint64_t i) { check_scalar(VALUE_DOUBLE, pat_d(i), 0xA5, i % 50 == 0); mc_count_calls(5); mc_count_trace(1); }
static void run14_d(uint64_t i) { check_conv(VALUE_DOUBLE, pat_d(i)); }
static void desc_d(uint64_t i, char* b, size_t n) { snprintf(b, n, "bit pattern 0x%016llx as double", (unsigned long long)pat_d(i)); }
/* doubles equal to integers +- fractions around every boundary */
static const double fr[] = { 0, 0.25, 0.5, 0.75, 0.49999999999999994, 0.5000000000000001, -0.25, -0.5, -0.75, 1.0, -1.0, 1.5, -1.5, 2.0, 2.5, 3.0, 0.499999, 0.500001, 1e-9, -1e-9 };
#define NFR (sizeof fr / sizeof *fr)
static uint64_t count_b(void) { return 2ull * 70 * NFR * 9 * 2; }
static void run14_b(uint64_t i)
{
    int f = i % NFR, k, neg, nx, isf; double d; uint64_t bits; int j;
    i /= NFR; nx = (int)(i % 9) - 4; i /= 9; isf = i % 2; i /= 2; neg = i % 2; k = i / 2;
    d = 1; for(j = 0; j < k; j++) d *= 2; if(k == 69) d = 0;
    d += fr[f]; if(neg) d = -d;
    if(isf) { float x = (float)d; uint32_t b; memcpy(&b, &x, 4); check_conv(VALUE_FLOAT, (uint32_t)(b + nx)); }
    else { memcpy(&bits, &d, 8); check_conv(VALUE_DOUBLE, bits + nx); }
}
/* roundings: every first bit, leading bits of a float's / a double's precision or one more or less, then bits around the middle */
static uint64_t count_t(void) { return 64ull * 6 * 6 * 9 * 2; }
static uint64_t pat_t(uint64_t i)
{
    int top = i % 64, pr, h, t, len; uint64_t w, r; i /= 64; pr = (int[]){ 23, 24, 25, 52, 53, 54 }[i % 6]; i /= 6; h = i % 6; i /= 6; t = i % 9; i /= 9;
    /* w: pr bits with the first one set, left-aligned; r: the bits behind */
    w = h == 0 ? 1ull << 63 : h == 1 ? ~0ull << (64 - pr) : h == 2 ? 1ull << 63 | 1ull << (64 - pr) : h == 3 ? 1ull << 63 | 2ull << (64 - pr) : h == 4 ? ~0ull << (65 - pr) : 0xAAAAAAAAAAAAAAAAull >> (64 - pr) << (64 - pr);
    len = 64 - pr; r = 0;
    switch(t) { case 0: r = 0; break; case 1: r = 1ull << (len - 1); break; case 2: r = (1ull << (len - 1)) - 1; break; case 3: r = (1ull << (len - 1)) + 1; break; case 4: r = (1ull << len) - 1; break; case 5: r = 1; break; case 6: r = 1ull << (len - 2); break; case 7: r = 3ull << (len - 2); break; case 8: r = (1ull << (len - 1)) + (len > 12 ? 1ull << 11 : 1); break; }
    w = (w | r) >> (63 - top);
    return i ? 0 - w : w;
}
static void run14_t(uint64_t i) { uint64_t w = pat_t(i), k; check_conv(VALUE_UINT64, w); check_conv(VALUE_INT64, w); check_conv(VALUE_UINT32, (uint32_t)w); check_conv(VALUE_INT32, (uint32_t)w); if(i % 64 == 52) for(k = 0; k < 2048; k++) check_conv(VALUE_DOUBLE, (w & 0xfffffffffffffull) | k << 52 | (i & 1) << 63); }
static void desc_t(uint64_t i, char* b, size_t n) { snprintf(b, n, "bit pattern 0x%016llx near a rounding tie", (unsigned long long)pat_t(i)); }
/* bools, null, non-numeric types, NULL pointers */
static uint64_t count_misc(void) { return 256 + 12; }
static void run13_misc(uint64_t i)
{
    VALUE v;
    if(i < 256) {
        static const int bs[] = { 0, 1, -1, 2, 256, 0x10000, INT_MIN, INT_MAX, -256, 3, 0x80, 0xff, 0x100000 };
        int b = bs[i % 13];
        memset(&v, (int)i, sizeof v);
        MC_ASSERT(value_init_bool(&v, b) == 0, "value_init_bool() failed");
        MC_ASSERT(value_bool(&v) == (b != 0), "bool %d reads back as %d", b, value_bool(&v));
        MC_ASSERT(!value_is_new(&v), "an initialised bool is new");
        check_neutral(&v, VALUE_BOOL);
        value_fini(&v); MC_ASSERT(value_type(&v) == VALUE_NULL, "finalized bool is not null");
        memset(&v, (int)i, sizeof v);
        value_init_null(&v);
        MC_ASSERT(!value_is_new(&v), "an explicitly initialised null is new");
        check_neutral(&v, VALUE_NULL);
        value_fini(&v); MC_ASSERT(value_type(&v) == VALUE_NULL, "finalized null is not null");
    } else switch(i - 256) {
    case 0: check_neutral(NULL, VALUE_NULL); value_fini(NULL); break;
    case 1: value_init_null(NULL); MC_ASSERT(value_init_bool(NULL, 1) == -1 && value_init_int32(NULL, 1) == -1 && value_init_uint32(NULL, 1) == -1 && value_init_int64(NULL, 1) == -1 && value_init_uint64(NULL, 1) == -1
            && value_init_float(NULL, 1) == -1 && value_init_double(NULL, 1) == -1 && value_init_string(NULL, "x") == -1 && value_init_string_(NULL, "x", 1) == -1 && value_init_array(NULL) == -1 && value_init_dict(NULL) == -1
            && value_init_dict_ex(NULL, NULL, VALUE_DICT_MAINTAINORDER) == -1, "initialising NULL does not fail"); break;
    case 2: case 3: case 4: { static const char* ss[] = { "", "inline", "a string which does not fit inline" };
        memset(&v, 0xA5, sizeof v); MC_ASSERT(value_init_string(&v, ss[i - 258]) == 0, "string"); MC_ASSERT(!value_is_new(&v), "an initialised string is new"); check_neutral(&v, VALUE_STRING); value_fini(&v); check_neutral(&v, VALUE_NULL); MC_ASSERT(mc_live_blocks() == 0, "leak"); break; }
    case 5: memset(&v, 0xA5, sizeof v); MC_ASSERT(value_init_array(&v) == 0, "array"); MC_ASSERT(!value_is_new(&v), "an initialised array is new"); check_neutral(&v, VALUE_ARRAY); value_array_append(&v); check_neutral(&v, VALUE_ARRAY); value_fini(&v); check_neutral(&v, VALUE_NULL); MC_ASSERT(mc_live_blocks() == 0, "leak"); break;
    case 6: memset(&v, 0xA5, sizeof v); MC_ASSERT(value_init_dict(&v) == 0, "dict"); MC_ASSERT(!value_is_new(&v), "an initialised dict is new"); check_neutral(&v, VALUE_DICT); value_dict_add(&v, "a"); check_neutral(&v, VALUE_DICT); MC_ASSERT(value_dict_flags(&v) == 0, "flags"); value_fini(&v); check_neutral(&v, VALUE_NULL); MC_ASSERT(mc_live_blocks() == 0, "leak"); break;
    case 7: memset(&v, 0xA5, sizeof v); MC_ASSERT(value_init_dict_ex(&v, NULL, VALUE_DICT_MAINTAINORDER) == 0, "dict"); MC_ASSERT(!value_is_new(&v), "an initialised dict is new"); value_dict_add(&v, "a"); check_neutral(&v, VALUE_DICT); MC_ASSERT(value_dict_flags(&v) == VALUE_DICT_MAINTAINORDER, "flags"); value_fini(&v); check_neutral(&v, VALUE_NULL); MC_ASSERT(mc_live_blocks() == 0, "leak"); break;
    case 8: { VALUE z = VALUE_NULL_INITIALIZER; MC_ASSERT(!value_is_new(&z), "a statically initialised null is new"); check_neutral(&z, VALUE_NULL); break; }
    case 9: { VALUE* p; value_init_array(&v); p = value_array_append(&v); MC_ASSERT(value_is_new(p), "an appended item is not new"); check_neutral(p, VALUE_NULL); MC_ASSERT(value_is_new(p), "not new after reads"); value_init_null(p); MC_ASSERT(!value_is_new(p), "explicit null is still new"); check_neutral(p, VALUE_NULL); value_fini(&v); break; }
    case 10: { VALUE* p; value_init_dict(&v); p = value_dict_add(&v, "k"); MC_ASSERT(value_is_new(p), "an added member is not new"); check_neutral(p, VALUE_NULL); value_init_bool(p, 0); MC_ASSERT(!value_is_new(p), "initialised member is still new"); check_neutral(p, VALUE_BOOL); value_fini(&v); break; }
    case 11: MC_ASSERT(value_path(NULL, "") == NULL && value_path(NULL, "a") == NULL && value_path(NULL, "[0]") == NULL && value_build_path(NULL, "") == NULL && value_build_path(NULL, "a") == NULL && value_build_path(NULL, "[]") == NULL, "a path from NULL leads somewhere"); break;
    }
    mc_count_calls(40); mc_count_trace(1);
}
static void desc_misc(uint64_t i, char* b, size_t n) { snprintf(b, n, i < 256 ? "bool and null over memory filled with %llu" : "special case %llu", (unsigned long long)(i < 256 ? i : i - 256)); }
static void desc_b(uint64_t i, char* b, size_t n) { snprintf(b, n, "boundary case %llu: +-2^%llu + fraction, neighbours", (unsigned long long)i, (unsigned long long)(i / NFR / 9 / 4)); }

MC_SYS mc_systems[] = { { 0 } };
MC_ENUM mc_enums[] = {
    { "C13", "scalars-misc", 3, 0, count_misc, run13_misc, desc_misc, 0 },
    { "C13", "scalars-32", 1, 0, count32, run13_32, desc32, 0 },
    { "C13", "scalars-64", 3, 0, count64, run13_64, desc64, 0 },
    { "C13", "scalars-double", 1, 0, count_d, run13_d, desc_d, 0 },
    { "C14", "convert-boundaries", 3, 0, count_b, run14_b, desc_b, 0 },
    { "C14", "convert-ties", 3, 0, count_t, run14_t, desc_t, 0 },
    { "C14", "convert-32", 1, 0, count32, run14_32, desc32, 0 },
    { "C14", "convert-64", 3, 0, count64, run14_64, desc64, 0 },
    { "C14", "convert-double", 1, 0, count_d, run14_d, desc_d, 0 },
    { "C13", "scalars-32-complete", 2, 1, count32, run13_32, desc32, 0 },
    { "C13", "scalars-double-more", 2, 1, count_d, run13_d, desc_d, 0 },
    { "C14", "convert-32-complete", 2, 1, count32, run14_32, desc32, 0 },
    { "C14", "convert-double-more", 2, 1, count_d, run14_d, desc_d, 0 },
    { 0 }
};
