/* C33, C34: command line parsing. */
#define _GNU_SOURCE
#include "mc.h"
#include "cmdline.h"
#include <limits.h>
#include "edges.h"
#include "vast.h"

typedef CMDLINE_OPTION O;
#define OPT CMDLINE_OPTFLAG_OPTIONALARG
#define REQ CMDLINE_OPTFLAG_REQUIREDARG
#define CL CMDLINE_OPTFLAG_COMPILERLIKE
typedef struct { int id; int null; int cut; size_t arg; const char* raw; } EV;   /* raw: the pointer given to the callback; arg: offset in the text of the log; cut: the reported name may be cut */
typedef struct { EV* e; int n, cap; char* text; size_t used, size; } LOG;
static LOG want, got; static int ambiguous; static size_t limit;
static int abort_at, abort_val; static int udata;

static void ev_n(LOG* l, int id, const char* arg, size_t n, int cut)
{
    EV* e;
    if(l->n == l->cap) { EV* x = mc_xmalloc(sizeof(EV) * (l->cap = l->cap * 2 + 64)); if(l->n) memcpy(x, l->e, sizeof(EV) * l->n); if(l->e) mc_xfree(l->e); l->e = x; }
    e = &l->e[l->n++]; e->raw = arg; e->id = id; e->null = arg == NULL; e->cut = cut; e->arg = l->used;
    if(arg == NULL) return;
    if(l->size - l->used <= n) { size_t z = l->size * 2 + n + 4096; char* x = mc_xmalloc(z); if(l->used) memcpy(x, l->text, l->used); if(l->text) mc_xfree(l->text); l->text = x; l->size = z; }
    memcpy(l->text + l->used, arg, n); l->text[l->used + n] = 0; l->used += n + 1;
}
static const char* arg_(const LOG* l, int i) { return l->e[i].null ? "" : l->text + l->e[i].arg; }
static void clear(LOG* l) { l->n = 0; l->used = 0; }

/* ---- reference parser */
static void ev(int id, const char* arg, int cut) { ev_n(&want, id, arg, arg ? strlen(arg) : 0, cut); }
static int starts(const char* s, const char* p) { return strncmp(s, p, strlen(p)) == 0; }
static int match(const O* o, const char* t)     /* 0: no, 1: compiler-like, 2: long, 3: long with an argument, 4: short */
{
    if(o->flags & CL) return starts(t, o->longname) ? 1 : 0;
    if(t[0] == '-' && t[1] == '-') { size_t n; if(!o->longname || !starts(t + 2, o->longname)) return 0; n = strlen(o->longname); return t[2 + n] == 0 ? 2 : t[2 + n] == '=' ? 3 : 0; }
    if(t[0] == '-' && o->shortname && t[1] == o->shortname) return 4;
    return 0;
}
static void model(const O* o, int argc, char** argv)
{
    int i, positional = 0, k, m, hit, how;
    clear(&want); ambiguous = 0;
    for(i = 1; i < argc; i++) {
        char* t = argv[i];
        if(positional || strcmp(t, "-") == 0) { ev(CMDLINE_OPTID_NONE, t, 0); continue; }
        if(strcmp(t, "--") == 0) { positional = 1; continue; }
        for(k = 0, hit = -1, how = 0; o[k].id; k++) if((m = match(&o[k], t)) != 0) { if(hit >= 0) { ambiguous = 1; return; } hit = k; how = m; }
        if(hit < 0) {
            if(t[0] != '-') ev(CMDLINE_OPTID_NONE, t, 0);
            else ev_n(&want, CMDLINE_OPTID_UNKNOWN, t, starts(t, "--") && strchr(t, '=') ? (size_t)(strchr(t, '=') - t) : strlen(t), 1);
            continue;
        }
        if(how == 1) { const char* rest = t + strlen(o[hit].longname); if(*rest) ev(o[hit].id, rest, 0); else if(i + 1 < argc) ev(o[hit].id, argv[++i], 0); else ev(CMDLINE_OPTID_MISSINGARG, o[hit].longname, 1); continue; }
        if(how == 2) { if(o[hit].flags & REQ) ev(CMDLINE_OPTID_MISSINGARG, t, 1); else ev(o[hit].id, NULL, 0); continue; }
        if(how == 3) { if(o[hit].flags & (REQ | OPT)) ev(o[hit].id, strchr(t, '=') + 1, 0); else ev_n(&want, CMDLINE_OPTID_BOGUSARG, t, strchr(t, '=') - t, 1); continue; }
        if(o[hit].flags & REQ) { if(t[2]) ev(o[hit].id, t + 2, 0); else if(i + 1 < argc) ev(o[hit].id, argv[++i], 0); else ev(CMDLINE_OPTID_MISSINGARG, t, 1); continue; }
        /* a group of short options */
        ev(o[hit].id, NULL, 0);
        for(t += 2; *t; t++) {
            char b[3]; b[0] = '-'; b[1] = *t; b[2] = 0;
            for(k = 0, hit = -1; o[k].id; k++) if(!(o[k].flags & CL) && o[k].shortname == *t) { if(hit >= 0) { ambiguous = 1; return; } hit = k; }
            if(hit < 0) ev(CMDLINE_OPTID_UNKNOWN, b, 1); else if(o[hit].flags & REQ) ev(CMDLINE_OPTID_MISSINGARG, b, 1); else ev(o[hit].id, NULL, 0);
        }
    }
}
/* a callback may parse another command line (as found in a file) before it looks at its argument */
static const O* in_opts; static int in_argc; static char** in_argv; static int in_cnt, in_fail; static const struct { int id; const char* arg; } * in_want; static int in_n;
static int in_callback(int id, const char* arg, void* ud)
{
    if(ud != &in_cnt || in_cnt >= in_n || id != in_want[in_cnt].id || (arg == NULL) != (in_want[in_cnt].arg == NULL) || (arg && (id < -1000 && strlen(arg) >= 16 ? strncmp(arg, in_want[in_cnt].arg, strlen(arg)) : strcmp(arg, in_want[in_cnt].arg)) != 0)) in_fail++;
    in_cnt++; return 0;
}
static void nested(void)
{
    in_cnt = in_fail = 0;
    if(cmdline_read(in_opts, in_argc, in_argv, in_callback, &in_cnt) != 0 || in_cnt != in_n || in_fail) mc_fail("a command line parsed from within the callback gives wrong reports");
}
static __attribute__((noinline)) void clobber(void) { volatile char b[2048]; size_t i; for(i = 0; i < sizeof b; i++) b[i] = (char)0xA5; }
static int callback(int id, const char* arg, void* ud)
{
    if(ud != &udata) mc_fail("the callback gets other user data than given");
    if((size_t)got.n >= limit) mc_fail("the callback is called more than %zu times", limit);
    if(in_opts) nested();
    ev_n(&got, id, arg, arg ? strlen(arg) : 0, 0);
    return abort_at && got.n == abort_at ? abort_val : 0;
}
static const char* idname(int id) { static char b[2][20]; static int k; if(id == CMDLINE_OPTID_NONE) return "positional"; if(id == CMDLINE_OPTID_UNKNOWN) return "UNKNOWN"; if(id == CMDLINE_OPTID_MISSINGARG) return "MISSINGARG"; if(id == CMDLINE_OPTID_BOGUSARG) return "BOGUSARG"; k ^= 1; snprintf(b[k], 20, "option %d", id); return b[k]; }
static void compare(int n)
{
    int i;
    MC_ASSERT(got.n == n, "%d callbacks instead of %d", got.n, n);
    for(i = 0; i < n; i++) { EV* w = &want.e[i]; EV* g = &got.e[i]; const char *wa = arg_(&want, i), *ga = arg_(&got, i);
        MC_ASSERT(g->id == w->id, "callback %d reports %s(%.60s) instead of %s(%.60s)", i + 1, idname(g->id), ga, idname(w->id), wa);
        MC_ASSERT(g->null == w->null, "callback %d for %s: %s argument", i + 1, idname(w->id), w->null ? "unexpected" : "missing");
        if(w->null) continue;
        if(w->cut) { size_t a = strlen(ga), b = strlen(wa); MC_ASSERT(a <= b && memcmp(ga, wa, a) == 0 && (a == b || a >= 16), "callback %d reports %s(%.60s) instead of (%.60s)", i + 1, idname(w->id), ga, wa); }
        else MC_ASSERT(strcmp(ga, wa) == 0, "callback %d for %s has the argument \"%.60s\" (%zu characters) instead of \"%.60s\" (%zu)", i + 1, idname(w->id), ga, strlen(ga), wa, strlen(wa)); }
}
static const int vals[] = { 1, -1, INT_MIN, INT_MAX, 0xbeef, CMDLINE_OPTID_UNKNOWN };
/* exact-size copies of everything */
static char* dup_(const char* s) { size_t n = strlen(s) + 1; char* p = mc_xmalloc(n); memcpy(p, s, n); return p; }
static void call(const O* opts, int argc, char** argv, int at, int val, int* r) { clear(&got); abort_at = at; abort_val = val; *r = cmdline_read(opts, argc, argv, callback, &udata); mc_count_calls(1); }
static void check(const O* opts, int argc, char** argv, int aborts)
{
    int r, k, v;
    limit = argc + 16; for(k = 0; k < argc; k++) limit += strlen(argv[k]);
    model(opts, argc, argv);
    if(ambiguous) return;
    call(opts, argc, argv, 0, 0, &r); mc_count_trace(1); clobber();
    compare(want.n);
    for(k = 0; k < want.n; k++) if(!want.e[k].null && !want.e[k].cut) MC_ASSERT(strcmp(got.e[k].raw, arg_(&want, k)) == 0, "the argument of %s is not the caller's: it reads \"%.60s\" after the parsing", idname(want.e[k].id), got.e[k].raw);
     MC_ASSERT(r == 0, "%d returned on success", r);
    if(aborts && mc_is("C34")) for(k = 1; k <= want.n; k++) {
        if(want.n > 200 && k > 2 && k < want.n - 1 && k != want.n / 2) continue;
        for(v = 0; v < aborts; v++) {
            int val = vals[(v + k) % 6];
            call(opts, argc, argv, k, val, &r);
            MC_ASSERT(got.n >= k, "only %d callbacks, %d expected", got.n, k); MC_ASSERT(got.n == k, "%d more callbacks after one returned %d", got.n - k, val); compare(k);
            MC_ASSERT(r == val, "callback %d returned %d but %d is returned", k, val, r); } }
}
/* ---- hand-made tables covering every kind of option, with every token form */
static const O t0[] = { { 'a', "alpha", 1, 0 }, { 'b', "beta", 2, REQ }, { 'c', "gamma", 3, OPT }, { 0, "al", 4, 0 }, { 0, "alpha-two", 5, REQ }, { 'z', NULL, 6, 0 }, { 'y', NULL, 7, REQ }, { 0, "-D", 8, CL }, { 0, "-isystem", 9, CL }, { 0 } };
static const O t1[] = { { 0, "/I", 1, CL }, { 'a', "alpha", -2, 0 }, { 'b', NULL, 3, REQ }, { 0, "beta", 4, OPT | REQ }, { 0, "al", 5, REQ }, { 'c', "gamma", 6, OPT | REQ }, { 0, "@", 7, CL }, { 0 } };
static const O t2[] = { { 0, NULL, 0, 0 } };
static const O t3[] = { { 'D', "-D", 11, CL }, { 'i', "-isystem", 12, CL | OPT }, { 'z', "--beta", 13, CL | REQ }, { 'a', NULL, 14, OPT }, { 'c', "alpha", 15, OPT }, { 0 } };
static const O t4[] = { { 0, "alpha-two", 1, 0 }, { 0, "alpha", 2, OPT }, { 0, "al", 3, OPT }, { 'b', "gamma", CMDLINE_OPTID_BOGUSARG + 1, 0 }, { 'y', "z", INT_MAX, 0 }, { 0, "a", 4, REQ }, { 'z', "y", -1, REQ }, { (char)0xE1, "\xE1lpha", 5, 0 }, { 0 } };
static const O* const tabs[] = { t0, t1, t2, t3, t4 };
static const int tabn[] = { 10, 8, 1, 6, 9 };
#define NTAB 5
static const char* const toks[] = { "x", "-", "--", "", "-a", "-b", "-bv", "-c", "-cx", "-ac", "-acab", "-aX", "-X", "-Xa", "-zy", "-y=", "--alpha", "--alpha=", "--alpha=v", "--beta", "--beta=v=w", "--gamma", "--gamma=v", "--al", "--al=", "--alp", "--alpha-two=q", "--unknown", "--unknown=v", "-D", "-DX=1", "-isystem", "-isystemfoo", "-i", "/I", "/Ifoo", "/", "@", "@f", "--z", "---", "-a-", "--=", "-\xE1", "--\xE1lpha", "a", "alpha" };
#define NT ((int)(sizeof(toks) / sizeof(*toks)))
static char* tokd[NT]; static O* tabd[NTAB];
static void prep(void) { int k; if(tokd[0]) return; for(k = 0; k < NT; k++) tokd[k] = dup_(toks[k]); for(k = 0; k < NTAB; k++) { tabd[k] = mc_xmalloc(sizeof(O) * tabn[k]); memcpy(tabd[k], tabs[k], sizeof(O) * tabn[k]); } }
static uint64_t ipow(uint64_t b, int e) { uint64_t r = 1; while(e--) r *= b; return r; }
static uint64_t cntv(void) { return ipow(NT, mc_arg) * NTAB; }
static int vlen; static int vtok[8]; static int vtab;
static void dec(uint64_t i) { int k; vtab = i % NTAB; i /= NTAB; vlen = mc_arg; for(k = 0; k < vlen; k++) { vtok[k] = i % NT; i /= NT; } }
static char** vec(int n) { static char** v[10]; if(!v[n]) v[n] = mc_xmalloc(sizeof(char*) * (n + 1)); v[n][0] = "-a"; return v[n]; }     /* the program name looks like an option */
static void runv(uint64_t i)
{
    int k, l; char** v; prep(); dec(i);
    v = vec(vlen); for(k = 0; k < vlen; k++) v[k + 1] = tokd[vtok[k]];
    check(tabd[vtab], vlen + 1, v, vlen <= 2 ? 6 : vlen == 3 ? 2 : 1);
    if(i == 0) { clear(&got); limit = 1; abort_at = 0; MC_ASSERT(cmdline_read(tabd[0], 0, v, callback, &udata) == 0 && got.n == 0, "an empty command line calls back"); }
}
static void descv(uint64_t i, char* b, size_t z) { int k, u; dec(i); u = snprintf(b, z, "table %d, argv", vtab); for(k = 0; k < vlen; k++) u += snprintf(b + u, z - u, " '%s'", toks[vtok[k]]); }
/* ---- every table of up to two (three) options of a pool */
static const O pool[] = { { 'a', NULL, 0, 0 }, { 'a', NULL, 0, REQ }, { 'a', NULL, 0, OPT }, { 'b', NULL, 0, 0 }, { 'b', NULL, 0, REQ }, { 0, "al", 0, 0 }, { 0, "al", 0, REQ }, { 0, "al", 0, OPT }, { 0, "alp", 0, 0 }, { 0, "alp", 0, REQ | OPT }, { 'a', "al", 0, 0 }, { 'a', "al", 0, REQ }, { 'b', "alp", 0, OPT }, { 'b', "a", 0, REQ | OPT }, { 0, "-D", 0, CL }, { 0, "D", 0, CL }, { 'b', "-D", 0, CL }, { 0, "--al", 0, CL }, { 'b', "-aa", 0, CL }, { 0, "--x=", 0, CL | OPT }, { 0, "--D", 0, CL | REQ } };
#define NP ((int)(sizeof(pool) / sizeof(*pool)))
static const char* const ptok[] = { "x", "-", "--", "-a", "-b", "-aa", "-ab", "-ba", "-bX", "-Xb", "-aD", "-D", "-Da", "--al", "--al=", "--al=b", "--alp", "--alp=", "--alpha", "--a", "--a=-a", "D", "DD", "--x=", "--x=3", "--x", "--D", "--D=-D", "" };
#define NPT ((int)(sizeof(ptok) / sizeof(*ptok)))
static char* ptd[NPT]; static O* ptab[5];
static int po[4], pn, pl, pv[4];
static uint64_t cntp(void) { return ipow(NP, mc_arg / 10) * ipow(NPT, mc_arg % 10); }
static void decp(uint64_t i) { int k; pn = mc_arg / 10; pl = mc_arg % 10; for(k = 0; k < pl; k++) { pv[k] = i % NPT; i /= NPT; } for(k = 0; k < pn; k++) { po[k] = i % NP; i /= NP; } }
static void runp(uint64_t i)
{
    int k; char** v; O* t; decp(i);
    if(!ptd[0]) for(k = 0; k < NPT; k++) ptd[k] = dup_(ptok[k]);
    if(!ptab[pn]) ptab[pn] = mc_xcalloc(pn + 1, sizeof(O));
    t = ptab[pn]; for(k = 0; k < pn; k++) { t[k] = pool[po[k]]; t[k].id = 10 + k; }
    v = vec(pl); for(k = 0; k < pl; k++) v[k + 1] = ptd[pv[k]];
    check(t, pl + 1, v, 1);
}
static void descp(uint64_t i, char* b, size_t z) { int k, u; decp(i); u = snprintf(b, z, "options"); for(k = 0; k < pn; k++) { const O* o = &pool[po[k]]; u += snprintf(b + u, z - u, " {%c,%s,%u}", o->shortname ? o->shortname : '0', o->longname ? o->longname : "NULL", o->flags); } u += snprintf(b + u, z - u, ", argv"); for(k = 0; k < pl; k++) u += snprintf(b + u, z - u, " '%s'", ptok[pv[k]]); }
/* ---- long names and arguments */
static const int longn[] = { 511, 512, 513, 1022, 1023, 1024, 1025, 4095, 4096, 4097 };
static int nlen(uint64_t i) { return i / 9 < 300 ? (int)(i / 9 + 1) : longn[i / 9 - 300]; }
static uint64_t cntn(void) { return 310 * 9; }
static void runn(uint64_t i)
{
    int n = nlen(i), form = i % 9, k; char name[4300], tok[4400], arg[4300]; O* o = mc_xcalloc(3, sizeof(O)); char** v = mc_xmalloc(sizeof(char*) * 3); char* copy; int argc = 2;
    for(k = 0; k < n; k++) name[k] = 'a' + k % 26; name[n] = 0; for(k = 0; k < n; k++) arg[k] = 'A' + k % 26; arg[n] = 0;
    v[0] = "prog"; v[1] = v[2] = NULL;
    o[0].id = 1; o[0].longname = "other";
    switch(form) {
        case 0: snprintf(tok, sizeof tok, "--%s=v", name); break;                                               /* unknown */
        case 1: snprintf(tok, sizeof tok, "--%s", name); break;
        case 2: snprintf(tok, sizeof tok, "-%s", name); break;
        case 3: o[1].id = 2; o[1].longname = copy = dup_(name); snprintf(tok, sizeof tok, "--%s=v", name); break;     /* unexpected argument */
        case 4: o[1].id = 2; o[1].longname = dup_(name); o[1].flags = REQ; snprintf(tok, sizeof tok, "--%s", name); break;      /* missing */
        case 5: name[0] = '-'; o[1].id = 2; o[1].longname = dup_(name); o[1].flags = CL; snprintf(tok, sizeof tok, "%s", name); break;
        case 6: o[1].id = 2; o[1].longname = dup_(name); o[1].flags = OPT; snprintf(tok, sizeof tok, "--%.15s=%s", name, arg); if(n > 15) { char s[20]; snprintf(s, 20, "%.15s", name); o[1].longname = dup_(s); } break;     /* long argument */
        case 7: o[1].id = 2; o[1].shortname = 'q'; o[1].flags = REQ; snprintf(tok, sizeof tok, "-q%s", arg); break;
        default: o[1].id = 2; o[1].shortname = 'a'; for(k = 0; k < n && k < 50; k++) tok[k + 1] = 'a'; tok[0] = '-'; tok[k + 1] = 0; break;
    }
    v[1] = dup_(tok);
    check(o, argc, v, 6);
    { char** v4 = mc_xmalloc(sizeof(char*) * 4); v4[0] = "prog"; v4[1] = v[1]; v4[2] = v[1]; v4[3] = v[1]; check(o, n < 12 || form != 8 ? 3 : 2, v4, 2); mc_xfree(v4); }
    mc_xfree(v[1]); if(form >= 3 && form <= 6) mc_xfree((void*)o[1].longname); mc_xfree(o); mc_xfree(v);
}
static void descn(uint64_t i, char* b, size_t z) { snprintf(b, z, "name of %d characters, form %d", nlen(i), (int)(i % 9)); }
/* ---- every short option character */
static uint64_t cntc(void) { return 255 * 3; }
static void runc(uint64_t i)
{
    int c = i / 3 + 1, form = i % 3; O* o = mc_xcalloc(3, sizeof(O)); char** v = mc_xmalloc(sizeof(char*) * 5); char t[8]; int k;
    if(c == '-') return;
    o[0].id = 5; o[0].shortname = (char)c; o[0].flags = form == 0 ? 0 : form == 1 ? REQ : OPT; o[1].id = 6; o[1].shortname = c == 'k' ? 'l' : 'k';
    v[0] = "prog"; t[0] = '-'; t[1] = (char)c; t[2] = 0; v[1] = dup_(t); t[1] = o[1].shortname; t[2] = (char)c; t[3] = 0; v[2] = dup_(t); t[1] = (char)c; t[2] = '='; v[3] = dup_(t); t[1] = (char)(c ^ 0x80 ? c ^ 0x80 : 1); t[2] = 0; v[4] = dup_(t);
    check(o, 5, v, 1);
    for(k = 1; k < 5; k++) mc_xfree(v[k]); mc_xfree(o); mc_xfree(v);
}
static void descc(uint64_t i, char* b, size_t z) { snprintf(b, z, "short option character 0x%02x, flags %d", (int)(i / 3 + 1), (int)(i % 3)); }
/* ---- every kind of length and count around powers of two (and ten) */
#define NF 16
static const EDGES* eg(void) { static const EDGES q = { 3, 16, 2, 0 }, t = { 3, 20, 3, 1 }; return mc_thorough ? &t : &q; }
static uint64_t cnte(void) { return NF * edge_count(eg()); }
static char* rep(const char* head, size_t n, char base, int mod) { size_t h = strlen(head), k; char* p = mc_xmalloc(h + n + 1); memcpy(p, head, h); for(k = 0; k < n; k++) p[h + k] = (char)(base + k % mod); p[h + n] = 0; return p; }
static void rune(uint64_t i)
{
    static const char* const cyc[] = { "x", "-a", "-bv", "--alpha=v", "-b", "-y", "-", "--beta", "-ac", "-q", "--alpha", "@f", "--gamma=3" };
    static const O tab[] = { { 'a', "alpha", 1, OPT }, { 'b', NULL, 2, REQ }, { 'c', "gamma", 3, 0 }, { 0, "beta", 4, REQ }, { 0, "@", 5, CL }, { 'd', "delta", 6, 0 }, { 0 } };
    size_t n = edge_at(eg(), i / NF), k; int form = i % NF, argc; O* o = NULL; char** v; char* own[8]; int nown = 0;
    if(n == 0) return;
    switch(form) {
        case 0: case 1: case 2: case 3:       /* number of arguments */
            argc = (int)n + 1; v = mc_xmalloc(sizeof(char*) * argc); v[0] = "prog";
            for(k = 1; k <= n; k++) v[k] = form == 0 ? (char*)cyc[k % 13] : form == 1 ? "-ab" : form == 2 ? (k & 1 ? "-b" : "--alpha") : k + 3 == n ? "--" : k + 3 > n ? "-a" : "x";
            break;
        default:
            argc = 5; v = mc_xmalloc(sizeof(char*) * argc); v[0] = "prog"; v[1] = "-a"; v[3] = "--gamma"; v[4] = "y";
            switch(form) {
                case 4: own[nown++] = v[2] = rep("-", n, 'a', 1); break;                        /* groups of short options */
                case 5: own[nown++] = v[2] = rep("-a", n, 'a', 1); v[2][n] = 'q'; v[2][n + 1] = 'c'; break;
                case 6: own[nown++] = v[2] = rep("-ac", n, 'c', 2); v[2][n] = 'b'; break;
                case 7: own[nown++] = v[2] = rep("--alpha=", n, '0', 70); break;              /* long arguments */
                case 8: own[nown++] = v[2] = rep("-b", n, '-', 50); break;
                case 9: own[nown++] = v[2] = rep("@", n, '=', 10); break;
                case 10: own[nown++] = v[2] = rep("", n, 'a', 26); break;
                case 11: own[nown++] = v[2] = rep("--gamma", n, 'a', 26); v[2][n + 6] = '='; v[2][7] = 'x'; v[4] = "--gamma=bogus"; break;     /* unknown */
                case 12: v[2] = "--beta"; own[nown++] = v[3] = rep("--beta=", n, 'a', 26); break;
                case 13: case 14:         /* a long option name, and others that are one character shorter, longer or different at the end */
                    o = mc_xcalloc(6, sizeof(O));
                    for(k = 0; k < 4; k++) { char* nm = rep("", n + (k == 1) - (k == 2), 'a', 26); own[nown++] = nm; if(k == 3) nm[n - 1] = '!'; o[k].id = 10 + (int)k; o[k].longname = n == 1 && k == 2 ? "zz" : nm; o[k].flags = form == 13 ? OPT : k & 1 ? REQ : 0; }
                    v[1] = rep("--", n + 3, 'a', 26); own[nown++] = v[1]; v[1][2 + n] = '='; v[1][3 + n] = 'v';
                    v[2] = rep("--", n, 'a', 26); own[nown++] = v[2]; v[3] = rep("--", n - (n > 1), 'a', 26); own[nown++] = v[3]; v[4] = rep("--", n, 'a', 26); own[nown++] = v[4]; v[4][n + 1] = '!';
                    break;
                case 15: {      /* a table of n options */
                    char* names = mc_xmalloc(n * 12); own[nown++] = names;
                    o = mc_xcalloc(n + 1, sizeof(O));
                    for(k = 0; k < n; k++) { char* s = names + k * 12; sprintf(s, "o%u", (unsigned)k); o[k].id = (int)k + 1; o[k].longname = s; o[k].flags = k % 3 == 0 ? OPT : 0; if(k + 1 == n) o[k].shortname = 'k'; if(k + 1 == n / 2) o[k].shortname = 'j'; }
                    { char* a = mc_xmalloc(64); own[nown++] = a; sprintf(a, "--o%u", (unsigned)n - 1); v[1] = a; sprintf(a + 16, "--o%u=v", (unsigned)(n / 3 * 3 < n ? n / 3 * 3 : 0)); v[2] = a + 16; sprintf(a + 40, "--o%u", (unsigned)n); v[4] = a + 40; v[3] = "-kjk"; }
                    break; }
            }
    }
    check(o ? o : tab, argc, v, 1);
    while(nown) mc_xfree(own[--nown]);
    mc_xfree(v); if(o) mc_xfree(o);
}
static void dese(uint64_t i, char* b, size_t z) { snprintf(b, z, "size %zu, form %d", edge_at(eg(), i / NF), (int)(i % NF)); }
MC_SYS mc_systems[] = { { 0 } };
#define B "C33 C34"
/* ---- a nested parsing at each callback of every vector */
static const O nt0[] = { { 'q', "quiet", 31, 0 }, { 'o', "output", 32, REQ }, { 0, "-W", 33, CL }, { 0 } };
static char* nv0[] = { "prog", "-q", "--quiet=bogus", "--unknown-option-with-a-very-long-name=7", "--out=7", "-Wall", "-oq", "-qX", "file", "--", "-q", "-o" }; static const struct { int id; const char* arg; } nw0[] = { { 31, NULL }, { CMDLINE_OPTID_BOGUSARG, "--quiet" }, { CMDLINE_OPTID_UNKNOWN, NULL }, { CMDLINE_OPTID_UNKNOWN, "--out" }, { 33, "all" }, { 32, "q" }, { 31, NULL }, { CMDLINE_OPTID_UNKNOWN, "-X" }, { 0, "file" }, { 0, "-q" }, { 0, "-o" } };
static char* nv1[] = { "prog", "x", "y" }; static const struct { int id; const char* arg; } nw1[] = { { 0, "x" }, { 0, "y" } };
static char* nv2[] = { "prog", "--quiet=z", "--nope=1" }; static const struct { int id; const char* arg; } nw2[] = { { CMDLINE_OPTID_BOGUSARG, "--quiet" }, { CMDLINE_OPTID_UNKNOWN, "--nope" } };
static uint64_t cntnest(void) { return cntv() * 3; }
static void runnest(uint64_t i)
{
    static struct { int id; const char* arg; } w0[11]; int k = i % 3;
    memcpy(w0, nw0, sizeof nw0); in_opts = nt0;
    if(k == 0) { in_argv = nv0; in_argc = 12; w0[2].arg = "--unknown-option-with-a-very-long-name"; in_want = (void*) w0; in_n = 11; }
    else if(k == 1) { in_argv = nv1; in_argc = 3; in_want = (void*) nw1; in_n = 2; } else { in_argv = nv2; in_argc = 3; in_want = (void*) nw2; in_n = 2; }
    runv(i / 3); in_opts = NULL;
}
static void descnest(uint64_t i, char* b, size_t z) { int u = snprintf(b, z, "parsing another command line (%d) from each callback of: ", (int)(i % 3)); descv(i / 3, b + u, z - u); }
/* ---- tokens of gigabytes */
static const O hg_opts[] = { { 'v', NULL, 1, 0 }, { 'o', "opt", 2, REQ }, { 0, "flag", 4, 0 }, { 0, "-D", 5, CL }, { 0 } };
enum { HG_MANY, HG_ARG, HG_NAME };
static const struct { char c; const char *head, *tail; int how, id; const char* name; int off; const char* what; } hg[] = {       /* C33 */
    { 'v', "-v", "", HG_MANY, 1, NULL, 0, "a group of options" }, { 'k', "-o", "", HG_ARG, 2, NULL, 2, "the argument of a short option" }, { 'k', "--opt=", "", HG_ARG, 2, NULL, 6, "the argument of a long option" }, { 'k', "", "", HG_ARG, CMDLINE_OPTID_NONE, NULL, 0, "a non-option argument" }, { 'k', "-D", "", HG_ARG, 5, NULL, 2, "the argument of a compiler-like option" },
    /* C34 */
    { 'v', "-v", "X", HG_MANY, 1, "-X", 0, "a group of options and an unknown one" }, { 'k', "--", "", HG_NAME, CMDLINE_OPTID_UNKNOWN, "--kkkkkkkkkkkkkkkkkkkkkkkk", 0, "an unknown option" }, { 'k', "--", "=x", HG_NAME, CMDLINE_OPTID_UNKNOWN, "--kkkkkkkkkkkkkkkkkkkkkkkk", 0, "an unknown option with an argument" }, { 'k', "--flag=", "", HG_NAME, CMDLINE_OPTID_BOGUSARG, "--flag", 0, "an argument which is not expected" }, { 'v', "-v", "", HG_MANY, 1, NULL, 1, "a group of options, aborted at the last one" } };
static uint64_t hg_n, hg_seen; static int hg_k, hg_more; static char* hg_tok;
static int hg_cb(int id, const char* arg, void* u)
{
    uint64_t k = hg_seen++; const char* w = hg[hg_k].what; MC_ASSERT(u == &udata, "user data is lost");
    if(hg[hg_k].how == HG_MANY) {
        if((k & 0xffffff) == 0) mc_beat();
        if(k <= hg_n) { MC_ASSERT(id == 1 && arg == NULL, "%s: callback %llu reports %d", w, (unsigned long long)k, id); return hg[hg_k].off && k == hg_n ? 77 : 0; }
        k -= hg_n + 1;
        if(hg[hg_k].name && k-- == 0) { MC_ASSERT(id == CMDLINE_OPTID_UNKNOWN && arg && strcmp(arg, hg[hg_k].name) == 0, "%s: %d is reported instead of the unknown one", w, id); return 0; }
    } else if(k-- == 0) {
        MC_ASSERT(id == hg[hg_k].id, "%s: %d is reported instead of %d", w, id, hg[hg_k].id);
        if(hg[hg_k].how == HG_ARG) MC_ASSERT(arg == hg_tok + hg[hg_k].off, "%s: another argument is reported", w);
        else { size_t l; MC_ASSERT(arg != NULL, "%s: no name is reported", w); l = strnlen(arg, 16); MC_ASSERT(l >= strlen(hg[hg_k].name) || l == 16, "%s: the name is reported as %s", w, arg); MC_ASSERT(strncmp(arg, hg[hg_k].name, l) == 0, "%s: another name is reported", w); }
        return 0;
    }
    MC_ASSERT(k == 0 && id == 1 && arg == NULL, "%s: the next option is lost: %d", w, id); hg_more++;
    return 0;
}
static uint64_t cnthg(void) { return mc_thorough ? 10 : 5; }
static void runhg(uint64_t i)
{
    char* av[4]; int r;
    hg_k = (int)(i % 5) + 5 * mc_arg; hg_n = (hg[hg_k].how == HG_MANY) != (i >= 5) ? ((uint64_t)1 << 31) + 1 : ((uint64_t)1 << 32) + 1; hg_seen = 0; hg_more = 0;
    hg_tok = vast(hg[hg_k].c, hg_n, hg[hg_k].head, hg[hg_k].tail); if(hg_tok == NULL) { fprintf(stderr, "harness: no mapping\n"); abort(); }
    av[0] = (char*)"prg"; av[1] = hg_tok; av[2] = (char*)"-v"; av[3] = NULL;
    r = cmdline_read(hg_opts, 3, av, hg_cb, &udata);
    if(hg[hg_k].how == HG_MANY && hg[hg_k].off) MC_ASSERT(r == 77 && hg_seen == hg_n + 1 && !hg_more, "%s: %d is returned after %llu callbacks", hg[hg_k].what, r, (unsigned long long)hg_seen);
    else MC_ASSERT(r == 0 && hg_more == 1, "%s: %d is returned after %llu callbacks", hg[hg_k].what, r, (unsigned long long)hg_seen);
    mc_count_calls(1); mc_count_trace(1); vast_free(hg_tok, hg_n, hg[hg_k].head, hg[hg_k].tail);
}
static void deschg(uint64_t i, char* b, size_t z) { int k = (int)(i % 5) + 5 * mc_arg; snprintf(b, z, "a token of 2^%d+1 bytes: %s", (hg[k].how == HG_MANY) != (i >= 5) ? 31 : 32, hg[k].what); }
__attribute__((constructor)) static void patience(void) { mc_hang_limit = 150; }     /* one call may work through gigabytes */
MC_ENUM mc_enums[] = {
    { B, "cmdline-nested-1", 3, 1, cntnest, runnest, descnest, 64 }, { B, "cmdline-nested-2", 3, 2, cntnest, runnest, descnest, 256 }, { B, "cmdline-nested-3", 2, 3, cntnest, runnest, descnest, 256 },
    { B, "cmdline-vectors-0", 3, 0, cntv, runv, descv, 8 }, { B, "cmdline-vectors-1", 3, 1, cntv, runv, descv, 8 }, { B, "cmdline-vectors-2", 3, 2, cntv, runv, descv, 256 }, { B, "cmdline-vectors-3", 3, 3, cntv, runv, descv, 256 }, { B, "cmdline-vectors-4", 2, 4, cntv, runv, descv, 4096 },
    { B, "cmdline-tables-1x3", 3, 13, cntp, runp, descp, 256 }, { B, "cmdline-tables-2x2", 3, 22, cntp, runp, descp, 256 }, { B, "cmdline-tables-3x1", 3, 31, cntp, runp, descp, 256 },
    { B, "cmdline-tables-1x4", 2, 14, cntp, runp, descp, 4096 }, { B, "cmdline-tables-2x3", 2, 23, cntp, runp, descp, 4096 }, { B, "cmdline-tables-3x2", 2, 32, cntp, runp, descp, 4096 }, { B, "cmdline-tables-4x1", 2, 41, cntp, runp, descp, 4096 },
    { B, "cmdline-names", 3, 0, cntn, runn, descn, 8 }, { B, "cmdline-characters", 3, 0, cntc, runc, descc, 8 }, { B, "edges-cmdline", 3, 0, cnte, rune, dese, 4 },
    { "C33", "cmdline-huge", 3, 0, cnthg, runhg, deschg, 1 }, { "C34", "cmdline-huge-errors", 3, 1, cnthg, runhg, deschg, 1 },
    { 0 }
};
