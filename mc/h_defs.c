/* C35: misc/defs.h, in each of its variants: with the compiler's builtin, with the standard offsetof, and with the portable fallback. */
#include <stdlib.h>
#define VJ_(a, b) a##_##b
#define VJ(a, b) VJ_(a, b)
#define V(n) VJ(n, VARIANT)
#include "defs.h"
#include "mc.h"
#include <limits.h>
#include <float.h>
#include <math.h>
typedef signed char schar; typedef unsigned char uchar; typedef unsigned short ushort; typedef unsigned int uint; typedef unsigned long ulong; typedef long long llong; typedef unsigned long long ullong; typedef long double ldouble;
#define VARIANT builtin
#define WITH_EXPRS
#include "defs_inc.h"
#undef WITH_EXPRS
#undef VARIANT
#undef CRE_DEFS_H
#undef MIN
#undef MAX
#undef MIN3
#undef MAX3
#undef CLAMP
#undef ABS
#undef SIZEOF_ARRAY
#undef OFFSETOF
#undef CONTAINEROF
#undef STRINGIZE
#undef STRINGIZE_HELPER__
#include <stddef.h>
#include "defs.h"
#define VARIANT standard
#include "defs_inc.h"
#undef VARIANT
#undef CRE_DEFS_H
#undef MIN
#undef MAX
#undef MIN3
#undef MAX3
#undef CLAMP
#undef ABS
#undef SIZEOF_ARRAY
#undef OFFSETOF
#undef CONTAINEROF
#undef STRINGIZE
#undef STRINGIZE_HELPER__
#pragma push_macro("offsetof")
#pragma push_macro("__GNUC__")
#undef offsetof
#undef __GNUC__
#include "defs.h"
#pragma pop_macro("__GNUC__")
#define VARIANT fallback
#include "defs_inc.h"
#undef VARIANT
#pragma pop_macro("offsetof")

static uint64_t cntb(void) { return 65536; }
static void runb(uint64_t i) { bytes_builtin((int)(i & 255), (int)(i >> 8)); if(mc_arg) { bytes_standard((int)(i & 255), (int)(i >> 8)); bytes_fallback((int)(i & 255), (int)(i >> 8)); } }
static void descb(uint64_t i, char* b, size_t z) { snprintf(b, z, "8-bit operands %d, %d and every third one", (int)(i & 255), (int)(i >> 8)); }
static uint64_t cntw(void) { return 13 * 3; }
static void runw(uint64_t i) { if(i % 3 == 0) wide_builtin(i / 3); else if(i % 3 == 1) wide_standard(i / 3); else wide_fallback(i / 3); }
static void descw(uint64_t i, char* b, size_t z) { snprintf(b, z, "boundary values of type %d", (int)(i / 3)); }
static const int ev[] = { 0, 1, 2, 3, 5, 6, -1, -2, -3, -7, 100, -100, 7, 1000, 4, -5 };
static uint64_t cnte(void) { return mc_arg * mc_arg * mc_arg * 2; }
static void rune(uint64_t i) { int c = i % 2, x = ev[i / 2 % mc_arg], y = ev[i / 2 / mc_arg % mc_arg], w = ev[i / 2 / mc_arg / mc_arg]; exprs_builtin(x, y, w, c); }
static void desce(uint64_t i, char* b, size_t z) { snprintf(b, z, "operand expressions over x=%d y=%d w=%d c=%d", ev[i / 2 % mc_arg], ev[i / 2 / mc_arg % mc_arg], ev[i / 2 / mc_arg / mc_arg], (int)(i % 2)); }
static uint64_t cntl(void) { return 5; }
static void runl(uint64_t i) { layout_builtin((int)i, 1); layout_standard((int)i, 1); layout_fallback((int)i, 1); }
static void descl(uint64_t i, char* b, size_t z) { snprintf(b, z, "layout helpers, object %d", (int)i); }
MC_SYS mc_systems[] = { { 0 } };
MC_ENUM mc_enums[] = {
    { "C35", "defs-bytes", 1, 0, cntb, runb, descb, 64 }, { "C35", "defs-bytes-all-variants", 2, 1, cntb, runb, descb, 64 }, { "C35", "defs-wide", 3, 0, cntw, runw, descw, 1 },
    { "C35", "defs-expressions", 1, 12, cnte, rune, desce, 64 }, { "C35", "defs-expressions-deep", 2, 16, cnte, rune, desce, 64 }, { "C35", "defs-layout", 3, 0, cntl, runl, descl, 1 },
    { 0 }
};
