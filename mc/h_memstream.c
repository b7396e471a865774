/* C36, C37, C40: the memory stream, compiled from the unmodified source against a shim of the Windows headers. */
#define _GNU_SOURCE
#include "mc.h"
#include "memstream.h"
#include "edges.h"
#include <sys/mman.h>
#include <unistd.h>

LONG shim_interlocked_add(volatile LONG* p, LONG d) { return *p += d; }
LONG shim_interlocked_xchg(volatile LONG* p, LONG v) { LONG o = *p; *p = v; return o; }
LONG shim_interlocked_cas(volatile LONG* p, LONG v, LONG c) { LONG o = *p; if(o == c) *p = v; return o; }

/* ---- the data */
static const uint64_t sizes[] = { 0, 1, 2, 5, 300, 0xffffffffu, 0x80000000u, 0x7fffffffu };
static const unsigned char* buf; static uint64_t S; static int isbig;
static unsigned char byte_at(uint64_t i) { i %= 1 << 20; return (unsigned char)(i * 7 + (i >> 8) * 13 + (i >> 15) + 1); }
static const unsigned char* data_of(uint64_t n)
{
    static unsigned char* small[400]; static unsigned char* big; uint64_t k;
    if(n < 400) { if(!small[n]) { small[n] = mc_xmalloc(n + !n); for(k = 0; k < n; k++) small[n][k] = byte_at(k); } return small[n]; }
    if(!big) {
        const size_t W = 1 << 20, total = (size_t)1 << 32; int fd = memfd_create("mc", 0); size_t o; unsigned char* w; char nm[] = "/tmp/mc-ms-XXXXXX";
        if(fd < 0) { fd = mkstemp(nm); if(fd >= 0) unlink(nm); } if(fd < 0 || ftruncate(fd, W)) abort();
        w = mmap(NULL, W, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0); for(k = 0; k < W; k++) w[k] = byte_at(k); munmap(w, W);
        big = mmap(NULL, total, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if(big == MAP_FAILED) abort();
        for(o = 0; o < total; o += W) if(mmap(big + o, W, PROT_READ, MAP_SHARED | MAP_FIXED, fd, 0) == MAP_FAILED) abort();
        close(fd);
    }
    return big;
}
/* ---- model */
typedef struct { IStream* s; int alive; uint64_t pos; int refs; } M;
static M m[2]; static int ns;
static void expect_pos(int k, const char* after)
{
    LARGE_INTEGER z; ULARGE_INTEGER p; HRESULT hr; z.QuadPart = 0; p.QuadPart = 12345;
    hr = IStream_Seek(m[k].s, z, STREAM_SEEK_CUR, &p); mc_count_calls(1);
    MC_ASSERT(hr == S_OK && p.QuadPart == m[k].pos, "%s the position is %llu (%08x) instead of %llu", after, (unsigned long long)p.QuadPart, (unsigned)hr, (unsigned long long)m[k].pos);
}
static void reset(void)
{
    HRESULT hr; IStream* s = (IStream*)1;
    S = sizes[mc_arg % 10]; isbig = S > 1000; buf = data_of(S); memset(m, 0, sizeof m);
    hr = memstream_create(buf, (ULONG)S, &s); MC_ASSERT(hr == S_OK && s != NULL && s != (IStream*)1, "creation of a stream returned %08x", (unsigned)hr);
    m[0].s = s; m[0].alive = 1; m[0].refs = 1; ns = mc_arg / 10 ? 2 : 1;
}
static void check_data(const unsigned char* p, uint64_t off, uint64_t n, const char* what) { uint64_t k; for(k = 0; k < n; k++) MC_ASSERT(p[k] == byte_at(off + k), "%s: byte %llu of %llu at position %llu is wrong", what, (unsigned long long)k, (unsigned long long)n, (unsigned long long)off); }
static const uint64_t rds[] = { 0, 1, 2, 3, 4, 5, 6, 299, 300, 301, 4096, 0x7fffffff, 0x80000000u, 0xfffffffe, 0xffffffffu };
#define NRD 15
static void rd(int k, ULONG n, int count)
{
    ULONG got = 0xDEADBEEF; HRESULT hr; uint64_t avail = m[k].pos < S ? S - m[k].pos : 0, exp = n < avail ? n : avail; size_t cap = n; unsigned char* b;
    if(n > 5000) { if(exp > 5000) { /* do not move gigabytes */ return; } cap = exp; }
    b = mc_xmalloc(cap + !cap); memset(b, 0xEE, cap);
    hr = IStream_Read(m[k].s, b, n, count ? &got : NULL); mc_count_calls(1);
    if(count) MC_ASSERT(got == exp, "reading %u bytes at position %llu of %llu reports %u bytes", n, (unsigned long long)m[k].pos, (unsigned long long)S, got);
    check_data(b, m[k].pos, exp, "Read");
    /* success, or S_FALSE if less than requested */
    if(exp == n && n > 0) MC_ASSERT(hr == S_OK, "a complete read of %u bytes returned %08x", n, (unsigned)hr);
    else if(exp < n && exp == 0) MC_ASSERT(hr == S_FALSE, "a read of %u bytes at the end of the stream returned %08x", n, (unsigned)hr);
    else MC_ASSERT(hr == S_OK || hr == S_FALSE, "a read of %u bytes returned %08x", n, (unsigned)hr);
    m[k].pos += exp;
    mc_xfree(b);
}
static int n_delta(void) { return 31; }
static int64_t delta(int i) { switch(i) { case 0: return 0; case 1: return 1; case 2: return -1; case 3: return (int64_t)S; case 4: return -(int64_t)S; case 5: return (int64_t)S - 1; case 6: return (int64_t)S + 1; case 7: return -(int64_t)S - 1; case 8: return 1 - (int64_t)S; case 9: return 2; case 10: return -2; case 11: return 0x7fffffff; case 12: return 0x80000000ll; case 13: return -0x80000000ll; case 14: return 0xffffffffll; case 15: return 0x100000000ll; case 16: return -0xffffffffll; case 17: return -0x100000000ll; case 18: return INT64_MAX; case 19: return INT64_MIN; case 20: return INT64_MAX - 0xffffffffll; case 21: return INT64_MIN + 1; case 22: return 0x100000001ll; case 23: return -0x80000001ll; case 24: return 0xfffffffell; case 25: return 3; case 26: return -3; case 27: return 0x1ffffffffll; case 28: return -0x1ffffffffll; case 29: return 0x100000000ll - (int64_t)S; default: return 0x0fffffffll; } }
static const DWORD origins[] = { STREAM_SEEK_SET, STREAM_SEEK_CUR, STREAM_SEEK_END, 3, 4, 0xffffffffu, 256 };
#define NORG 7
static void seek(int k, int64_t d, DWORD org, int want)
{
    LARGE_INTEGER l; ULARGE_INTEGER p; HRESULT hr; __int128 t = (org == STREAM_SEEK_SET ? 0 : org == STREAM_SEEK_CUR ? m[k].pos : S); t += d;
    l.QuadPart = d; p.QuadPart = 0xDEADBEEFDEADBEEFull;
    hr = IStream_Seek(m[k].s, l, org, want ? &p : NULL); mc_count_calls(1);
    if(org > STREAM_SEEK_END) MC_ASSERT(FAILED(hr), "seek with the unknown origin %u returned %08x", org, (unsigned)hr);
    else if(t < 0) MC_ASSERT(FAILED(hr), "seek by %lld from origin %u at %llu of %llu to a negative position returned %08x", (long long)d, org, (unsigned long long)m[k].pos, (unsigned long long)S, (unsigned)hr);
    else if(t <= 0xffffffffll) MC_ASSERT(hr == S_OK, "seek by %lld from origin %u at %llu of %llu returned %08x", (long long)d, org, (unsigned long long)m[k].pos, (unsigned long long)S, (unsigned)hr);
    if(SUCCEEDED(hr)) { if(want) MC_ASSERT((__int128)p.QuadPart == t, "seek by %lld from origin %u at %llu of %llu reports position %llu", (long long)d, org, (unsigned long long)m[k].pos, (unsigned long long)S, (unsigned long long)p.QuadPart); m[k].pos = (uint64_t)t; }
    expect_pos(k, "after a seek");
}
/* ---- a recording target stream */
typedef struct { IStream st; uint64_t got, lim, base, calls; HRESULT err; int errcall, bad; } TGT;
static TGT tgt;
static HRESULT t_qi(IStream* s, REFIID r, void** o) { *o = NULL; return E_NOINTERFACE; }
static ULONG t_ref(IStream* s) { return 2; }
static HRESULT t_read(IStream* s, void* b, ULONG n, ULONG* r) { if(r) *r = 0; return E_NOTIMPL; }
static HRESULT t_write(IStream* s, const void* b, ULONG n, ULONG* w)
{
    const unsigned char* p = b; uint64_t k, a = n; tgt.calls++;
    if(tgt.errcall && tgt.calls >= (uint64_t)tgt.errcall) { if(w) *w = 0; return tgt.err; }
    if(tgt.lim && a > tgt.lim) a = tgt.lim;
    if(a <= 5000) { for(k = 0; k < a; k++) if(p[k] != byte_at(tgt.base + tgt.got + k)) tgt.bad = 1; }
    else for(k = 0; k < a; k += 65521) if(p[k] != byte_at(tgt.base + tgt.got + k)) tgt.bad = 1;
    if(a && p[a - 1] != byte_at(tgt.base + tgt.got + a - 1)) tgt.bad = 1;
    tgt.got += a; if(w) *w = (ULONG)a;
    return S_OK;
}
static HRESULT t_seek(IStream* s, LARGE_INTEGER l, DWORD o, ULARGE_INTEGER* p) { return E_NOTIMPL; }
static HRESULT t_size(IStream* s, ULARGE_INTEGER l) { return E_NOTIMPL; }
static HRESULT t_copy(IStream* s, IStream* o, ULARGE_INTEGER n, ULARGE_INTEGER* a, ULARGE_INTEGER* b) { return E_NOTIMPL; }
static HRESULT t_commit(IStream* s, DWORD f) { return S_OK; }
static HRESULT t_revert(IStream* s) { return S_OK; }
static HRESULT t_lock(IStream* s, ULARGE_INTEGER a, ULARGE_INTEGER b, DWORD t) { return E_NOTIMPL; }
static HRESULT t_stat(IStream* s, STATSTG* st, DWORD f) { return E_NOTIMPL; }
static HRESULT t_clone(IStream* s, IStream** o) { *o = NULL; return E_NOTIMPL; }
static IStreamVtbl t_vtbl = { t_qi, t_ref, t_ref, t_read, t_write, t_seek, t_size, t_copy, t_commit, t_revert, t_lock, t_lock, t_stat, t_clone };
static const uint64_t cps[] = { 0, 1, 2, 4, 5, 6, 300, 301, 0x7fffffff, 0x80000000ull, 0xffffffffull, 0x100000000ull, 0x100000001ull, 0x100000005ull, 0x7fffffffffffffffull, 0x8000000000000000ull, 0xffffffffffffffffull, 0xfffffffffffffffeull, 0xffffffff00000000ull, 0xfffffffffffffffbull };
#define NCP 20
static const struct { uint64_t lim; int errcall; HRESULT err; } beh[] = { { 0, 0, 0 }, { 1, 0, 0 }, { 3, 0, 0 }, { 0, 1, STG_E_MEDIUMFULL }, { 0, 1, STG_E_ACCESSDENIED }, { 0, 1, E_FAIL }, { 2, 2, STG_E_MEDIUMFULL } };
#define NBEH 7
static void copy(int k, uint64_t n, int b, int counts)
{
    ULARGE_INTEGER q, r, w; HRESULT hr; uint64_t avail = m[k].pos < S ? S - m[k].pos : 0, exp = n < avail ? n : avail; LARGE_INTEGER l;
    if(exp > 100000 && beh[b].lim) return;       /* a byte at a time through gigabytes */
    tgt.st.lpVtbl = &t_vtbl; tgt.got = tgt.calls = 0; tgt.bad = 0; tgt.lim = beh[b].lim; tgt.errcall = beh[b].errcall; tgt.err = beh[b].err; tgt.base = m[k].pos;
    q.QuadPart = n; r.QuadPart = w.QuadPart = 0xDEADBEEFDEADBEEFull;
    hr = IStream_CopyTo(m[k].s, &tgt.st, q, counts & 1 ? &r : NULL, counts & 2 ? &w : NULL); mc_count_calls(1);
    MC_ASSERT(!tgt.bad, "CopyTo(%llu) at %llu of %llu: the target got wrong bytes", (unsigned long long)n, (unsigned long long)m[k].pos, (unsigned long long)S);
    MC_ASSERT(tgt.got <= exp, "CopyTo(%llu) at %llu of %llu: the target got %llu bytes", (unsigned long long)n, (unsigned long long)m[k].pos, (unsigned long long)S, (unsigned long long)tgt.got);
    if(tgt.errcall && tgt.calls >= (uint64_t)tgt.errcall) {
        MC_ASSERT(hr == tgt.err, "CopyTo: the target failed with %08x but %08x is returned", (unsigned)tgt.err, (unsigned)hr);
        MC_ASSERT(tgt.calls == (uint64_t)tgt.errcall, "CopyTo: the target is written to after it failed");
        l.QuadPart = (int64_t)m[k].pos; hr = IStream_Seek(m[k].s, l, STREAM_SEEK_SET, NULL); MC_ASSERT(hr == S_OK, "seek after a failed copy returned %08x", (unsigned)hr);     /* the position is undefined after a failure */
    } else {
        MC_ASSERT(SUCCEEDED(hr), "CopyTo(%llu) at %llu of %llu returned %08x", (unsigned long long)n, (unsigned long long)m[k].pos, (unsigned long long)S, (unsigned)hr);
        if(!tgt.lim) MC_ASSERT(tgt.got == exp, "CopyTo(%llu) at %llu of %llu: the target got %llu bytes", (unsigned long long)n, (unsigned long long)m[k].pos, (unsigned long long)S, (unsigned long long)tgt.got);
        else MC_ASSERT(tgt.got >= (exp < tgt.lim ? exp : tgt.lim), "CopyTo(%llu): the target got only %llu bytes", (unsigned long long)n, (unsigned long long)tgt.got);
        if(counts & 1) MC_ASSERT(r.QuadPart == tgt.got, "CopyTo(%llu) reports %llu bytes read, the target got %llu", (unsigned long long)n, (unsigned long long)r.QuadPart, (unsigned long long)tgt.got);
        if(counts & 2) MC_ASSERT(w.QuadPart == tgt.got, "CopyTo(%llu) reports %llu bytes written, the target got %llu", (unsigned long long)n, (unsigned long long)w.QuadPart, (unsigned long long)tgt.got);
        m[k].pos += tgt.got;
    }
    expect_pos(k, "after a copy");
}
static void clone(int k, int plan)
{
    IStream* o = (IStream*)1; HRESULT hr; int t = 1 - k;
    mc_fail_plan(plan); hr = IStream_Clone(m[k].s, &o); mc_count_calls(1);
    if(mc_fail_fired()) { mc_fail_plan(0); MC_ASSERT(FAILED(hr), "Clone without memory returned %08x", (unsigned)hr); MC_ASSERT(o == NULL, "Clone without memory returned a stream"); expect_pos(k, "after a failed clone"); return; }
    mc_fail_plan(0);
    MC_ASSERT(hr == S_OK && o != NULL && o != (IStream*)1 && o != m[k].s, "Clone returned %08x and %p", (unsigned)hr, (void*)o);
    m[t].s = o; m[t].alive = 1; m[t].pos = m[k].pos; m[t].refs = 1;
    expect_pos(t, "after cloning"); expect_pos(k, "after cloning");
}
static void stat_(int k)
{
    STATSTG st; HRESULT hr; DWORD f; for(f = 0; f < 2; f++) { memset(&st, 0xA5, sizeof st); hr = IStream_Stat(m[k].s, &st, f); mc_count_calls(1); MC_ASSERT(hr == S_OK && st.type == STGTY_STREAM && st.cbSize.QuadPart == S, "Stat returned %08x, type %u, size %llu", (unsigned)hr, st.type, (unsigned long long)st.cbSize.QuadPart);
        MC_ASSERT(st.pwcsName == NULL && st.grfLocksSupported == 0 && (st.grfMode & 3) == STGM_READ, "Stat reports name %p, locks %x, mode %x", (void*)st.pwcsName, st.grfLocksSupported, st.grfMode); } }
static void refuse(int k)
{
    unsigned char b[8] = "abcdefg"; ULONG w; HRESULT hr; static const ULONG ns_[] = { 0, 1, 7 }; int i; ULARGE_INTEGER u, v; static const uint64_t us[] = { 0, 1, 5, 0xffffffffull, 0x100000000ull, ~0ull };
    for(i = 0; i < 3; i++) { w = 77; hr = IStream_Write(m[k].s, b, ns_[i], &w); MC_ASSERT(FAILED(hr), "Write(%u) returned %08x", ns_[i], (unsigned)hr); MC_ASSERT(w == 0, "the refused write reports %u bytes", w); hr = IStream_Write(m[k].s, b, ns_[i], NULL); MC_ASSERT(FAILED(hr), "Write(%u) returned %08x", ns_[i], (unsigned)hr); }
    for(i = 0; i < 6; i++) { u.QuadPart = us[i]; v.QuadPart = us[5 - i]; hr = IStream_SetSize(m[k].s, u); MC_ASSERT(FAILED(hr), "SetSize(%llu) returned %08x", (unsigned long long)us[i], (unsigned)hr);
        hr = IStream_LockRegion(m[k].s, u, v, 1 << i % 3); MC_ASSERT(FAILED(hr), "LockRegion returned %08x", (unsigned)hr); hr = IStream_UnlockRegion(m[k].s, u, v, 1 << i % 3); MC_ASSERT(FAILED(hr), "UnlockRegion returned %08x", (unsigned)hr); }
    for(i = 0; i < 3; i++) MC_ASSERT(IStream_Commit(m[k].s, i) == S_OK, "Commit failed");
    MC_ASSERT(IStream_Revert(m[k].s) == S_OK, "Revert failed");
    mc_count_calls(28); expect_pos(k, "after refused operations");
}
static const IID* const iids[] = { &IID_IUnknown, &IID_ISequentialStream, &IID_IStream, &IID_IDispatch, &IID_IStorage, &IID_ILockBytes, &IID_IPersist, &IID_IPersistStream, &IID_IMarshal, &IID_IClassFactory, &IID_IAgileObject };
static void query(int k, int which)     /* 0..2: keeps the reference */
{
    void* o = (void*)1; HRESULT hr; int i, b;
    if(which < 3) { hr = IStream_QueryInterface(m[k].s, iids[which], &o); mc_count_calls(1); MC_ASSERT(hr == S_OK && o == (void*)m[k].s, "QueryInterface for supported interface %d returned %08x and %p", which, (unsigned)hr, o); m[k].refs++; return; }
    for(i = 3; i < 11; i++) { o = (void*)1; hr = IStream_QueryInterface(m[k].s, iids[i], &o); mc_count_calls(1); MC_ASSERT(hr == E_NOINTERFACE && o == NULL, "QueryInterface for unsupported interface %d returned %08x and %p", i, (unsigned)hr, o); }
    for(i = 0; i < 3; i++) for(b = 0; b < 128; b++) { GUID g = *iids[i]; int j, known = 0; ((unsigned char*)&g)[b / 8] ^= 1 << b % 8; for(j = 0; j < 3; j++) known |= memcmp(&g, iids[j], sizeof g) == 0; if(known) continue; o = (void*)1; hr = IStream_QueryInterface(m[k].s, &g, &o); mc_count_calls(1); MC_ASSERT(hr == E_NOINTERFACE && o == NULL, "QueryInterface for an unknown interface (bit %d of %d) returned %08x and %p", b, i, (unsigned)hr, o); }
}
static void release(int k)
{
    ULONG r; size_t l = mc_live_blocks();
    r = IStream_Release(m[k].s); mc_count_calls(1); m[k].refs--;
    if(m[k].refs == 0) { MC_ASSERT(r == 0, "releasing the last reference returned %u", r); MC_ASSERT(mc_live_blocks() < l, "releasing the last reference freed nothing"); m[k].alive = 0; m[k].s = NULL; }
    else { MC_ASSERT(r != 0, "Release returned 0 with %d references left", m[k].refs); MC_ASSERT(mc_live_blocks() == l, "a stream with %d references left was freed", m[k].refs); expect_pos(k, "after releasing one of several references"); }
}
/* operations of C36 (one stream) */
static int n_ops36(void) { return NRD * 2 + n_delta() * NORG * 2; }
static int apply36(int op)
{
    if(op < NRD * 2) { rd(0, (ULONG)rds[op / 2], op % 2); expect_pos(0, "after a read"); return 1; }
    op -= NRD * 2; seek(0, delta(op / 2 % n_delta()), origins[op / 2 / n_delta()], op % 2);
    return 1;
}
static void desc36(int op, char* b, size_t z) { if(op < NRD * 2) snprintf(b, z, "Read(%llu)", (unsigned long long)rds[op / 2]); else { op -= NRD * 2; snprintf(b, z, "Seek(%lld, %u)", (long long)delta(op / 2 % n_delta()), origins[op / 2 / n_delta()]); } }
/* operations of C37 (a stream and its clone) */
static const int sk37[] = { 0, 3, 5, 6, 14, 12, 25 };
#define PER (NCP * NBEH + 4 + 2 + 1 + 1 + 4 + 2 + 7 + 3)
static int n_ops37(void) { return PER * ns; }
static int apply37(int op)
{
    int k = op / PER; op %= PER;
    if(!m[k].alive) return 0;
    if(op < NCP * NBEH) { copy(k, cps[op / NBEH], op % NBEH, 3); return 1; } op -= NCP * NBEH;
    if(op < 4) { copy(k, 2, 0, op); return 1; } op -= 4;
    if(op < 2) { if(ns < 2 || m[1 - k].alive) return 0; clone(k, op ? 1 : 0); return 1; } op -= 2;
    if(op < 1) { stat_(k); return 1; } op -= 1;
    if(op < 1) { refuse(k); return 1; } op -= 1;
    if(op < 4) { if(op < 3 && m[k].refs >= 3) return 0; query(k, op); return 1; } op -= 4;
    if(op < 1) { ULONG r; if(m[k].refs >= 3) return 0; r = IStream_AddRef(m[k].s); m[k].refs++; MC_ASSERT(r != 0, "AddRef returned 0"); return 1; } op -= 1;
    if(op < 1) { release(k); return 1; } op -= 1;
    if(op < 7) { seek(k, delta(sk37[op]), STREAM_SEEK_SET, 1); return 1; } op -= 7;
    { static const ULONG r[] = { 1, 3, 300 }; rd(k, r[op], 1); expect_pos(k, "after a read"); }
    return 1;
}
static void desc37(int op, char* b, size_t z)
{
    int k = op / PER; op %= PER; b += snprintf(b, 20, "stream %d: ", k); z -= 12;
    if(op < NCP * NBEH) { snprintf(b, z, "CopyTo(%llu), target %d", (unsigned long long)cps[op / NBEH], op % NBEH); return; } op -= NCP * NBEH;
    if(op < 4) { snprintf(b, z, "CopyTo(2), counts %d", op); return; } op -= 4;
    if(op < 2) { snprintf(b, z, "Clone%s", op ? " without memory" : ""); return; } op -= 2;
    if(op < 1) { snprintf(b, z, "Stat"); return; } op -= 1;
    if(op < 1) { snprintf(b, z, "refused operations"); return; } op -= 1;
    if(op < 4) { snprintf(b, z, "QueryInterface %d", op); return; } op -= 4;
    if(op < 1) { snprintf(b, z, "AddRef"); return; } op -= 1;
    if(op < 1) { snprintf(b, z, "Release"); return; } op -= 1;
    if(op < 7) { snprintf(b, z, "Seek(%lld, 0)", (long long)delta(sk37[op])); return; } op -= 7;
    snprintf(b, z, "Read %d", op);
}
static void canon(MC_HASH* h)
{
    MC_CANON c; MC_REGION r[1]; int k; IStream* p[2]; memset(&c, 0, sizeof c); c.h = h; c.depth_payload = 1;
    r[0].base = buf; r[0].size = S; r[0].label = 1; (void)r;
    for(k = 0; k < 2; k++) { p[k] = m[k].alive ? m[k].s : NULL; mc_hash_u64(h, m[k].alive ? m[k].pos : 0); mc_hash_u64(h, m[k].alive ? m[k].refs : 0); }
    mc_canon(&c, p, sizeof p);
}
static void teardown(void)
{
    int k;
    for(k = 0; k < 2; k++) if(m[k].alive) {
        /* still gives the right bytes and positions to its very end */
        if(mc_is("C37") && ns == 2 && !isbig) { unsigned char b[400]; ULONG g = 99; HRESULT hr; uint64_t a = m[k].pos < S ? S - m[k].pos : 0; hr = IStream_Read(m[k].s, b, 400, &g); MC_ASSERT(SUCCEEDED(hr) && g == a, "reading the rest gives %u bytes instead of %llu", g, (unsigned long long)a); check_data(b, m[k].pos, a, "reading the rest"); m[k].pos += a; }
        while(m[k].alive) release(k);
    }
    MC_ASSERT(mc_live_blocks() == 0, "%zu memory blocks are left after all references were released", mc_live_blocks());
}
/* creation without memory */
static uint64_t cntc(void) { return 8; }
static void runc(uint64_t i) { IStream* s = (IStream*)1; HRESULT hr; mc_alloc_begin(); mc_fail_plan(-1); hr = memstream_create(data_of(5), 5, &s); mc_fail_plan(0); mc_count_calls(1); mc_count_trace(1); MC_ASSERT(FAILED(hr) && s == NULL, "creation without memory returned %08x and %p", (unsigned)hr, (void*)s); MC_ASSERT(mc_live_blocks() == 0, "memory left"); }
static void descc(uint64_t i, char* b, size_t z) { snprintf(b, z, "creation without memory"); }
/* ---- C40: resources. A stand-in for the resource functions which can fail at each step. */
static struct { int fail; DWORD err; uint64_t size; int steps, bad; HMODULE mod; const WCHAR* type; const WCHAR* name; } res; static DWORD last_error;
DWORD GetLastError(void) { return last_error; }
void SetLastError(DWORD e) { last_error = e; }
HRSRC FindResourceW(HMODULE mo, LPCWSTR name, LPCWSTR type) { if(mo != res.mod || name != res.name || type != res.type) res.bad = 1; res.steps |= 1; if(res.fail == 1) { last_error = res.err; return NULL; } return (HRSRC)0x1000; }
DWORD SizeofResource(HMODULE mo, HRSRC r) { if(mo != res.mod || r != (HRSRC)0x1000) res.bad = 2; if(res.fail == 2) { last_error = res.err; return 0; } return (DWORD)res.size; }
HGLOBAL LoadResource(HMODULE mo, HRSRC r) { if(mo != res.mod || r != (HRSRC)0x1000) res.bad = 3; res.steps |= 2; if(res.fail == 3) { last_error = res.err; return NULL; } return (HGLOBAL)0x2000; }
LPVOID LockResource(HGLOBAL g) { if(g != (HGLOBAL)0x2000) res.bad = 4; res.steps |= 4; if(res.fail == 4) { last_error = res.err; return NULL; } return (LPVOID)data_of(res.size); }
BOOL FreeResource(HGLOBAL g) { return FALSE; }
static const DWORD errs[] = { 0, 2, 8, 13, 14, 1812, 1813, 1814, 5, 0xffff, 126 };
static uint64_t cntr(void) { return 8 * 6 * 11 * 2; }
static void decr(uint64_t i, int* sz, int* fl, int* er, int* oom) { *sz = i % 8; *fl = i / 8 % 6; *er = i / 48 % 11; *oom = i / 528; }
static void runr(uint64_t i)
{
    int sz, fl, er, oom; IStream* s = (IStream*)1; HRESULT hr; int fails;
    decr(i, &sz, &fl, &er, &oom); memset(&res, 0, sizeof res);
    res.fail = fl; res.err = errs[er]; res.size = sizes[sz]; res.mod = (HMODULE)0x77; res.type = (const WCHAR*)(uintptr_t)16; res.name = (const WCHAR*)(uintptr_t)(1 + er); last_error = fl ? 0 : errs[er]; S = res.size; isbig = S > 1000; buf = data_of(S);
    if(fl == 5) { last_error = errs[er]; fl = res.fail = 0; }       /* a stale error code from before */
    mc_alloc_begin(); mc_fail_plan(oom ? -1 : 0);
    hr = memstream_create_from_resource(res.mod, res.type, res.name, &s); mc_count_calls(1);
    mc_fail_plan(0);
    MC_ASSERT(!res.bad, "the resource functions got wrong arguments (%d)", res.bad);
    MC_ASSERT(s != (IStream*)1, "the result is not set (%08x)", (unsigned)hr);
    fails = (fl >= 1 && fl <= 4) || oom;
    if(res.size == 0 && !fails) { MC_ASSERT(SUCCEEDED(hr) == (s != NULL), "empty resource: %08x is returned with stream %p", (unsigned)hr, (void*)s); }     /* an empty stream or a failure, but not both */
    else if(fails) MC_ASSERT(FAILED(hr) && s == NULL, "step %d failed with error %u: %08x is returned with stream %p", fl, errs[er], (unsigned)hr, (void*)s);
    else MC_ASSERT(hr == S_OK && s != NULL, "a good resource gives %08x and %p", (unsigned)hr, (void*)s);
    if(fails && fl && errs[er] && !(res.size == 0)) MC_ASSERT(hr == HRESULT_FROM_WIN32(errs[er]) || oom, "step %d failed with error %u: %08x is returned", fl, errs[er], (unsigned)hr);
    if(s) {
        memset(m, 0, sizeof m); m[0].s = s; m[0].alive = m[0].refs = 1; ns = 1; stat_(0); rd(0, 3, 1); rd(0, 400, 1); seek(0, 0, STREAM_SEEK_END, 1); rd(0, 10, 1); seek(0, -2, STREAM_SEEK_END, 1); rd(0, 10, 1); release(0);
    }
    MC_ASSERT(mc_live_blocks() == 0, "memory left"); mc_count_trace(1);
}
static void descr(uint64_t i, char* b, size_t z) { int sz, fl, er, oom; decr(i, &sz, &fl, &er, &oom); snprintf(b, z, "resource of %llu bytes, failing step %d, error %u%s", (unsigned long long)sizes[sz], fl, errs[er], oom ? ", no memory" : ""); }
/* ---- streams of every size around a power of two, read and copied from positions around others */
static const EDGES es_q = { 9, 31, 2, 0 }, es_t = { 9, 31, 3, 1 }, ep_q = { 1, 32, 1, 0 }, ep_t = { 1, 32, 3, 1 };
#define ES (mc_thorough ? &es_t : &es_q)
#define EP (mc_thorough ? &ep_t : &ep_q)
static uint64_t cnte(void) { return edge_count(ES) * edge_count(EP); }
static void rd_large(int k, ULONG n)
{
    ULONG got = 0xDEADBEEF; HRESULT hr; uint64_t avail = m[k].pos < S ? S - m[k].pos : 0, exp = n < avail ? n : avail; unsigned char* b = mc_xmalloc(n + 1);
    hr = IStream_Read(m[k].s, b, n, &got); mc_count_calls(1);
    MC_ASSERT(got == exp && SUCCEEDED(hr), "reading %u bytes at position %llu of %llu gives %u bytes and %08x", n, (unsigned long long)m[k].pos, (unsigned long long)S, got, (unsigned)hr);
    check_data(b, m[k].pos, exp, "Read"); m[k].pos += exp; mc_xfree(b);
}
static void rune(uint64_t c)
{
    static const ULONG ns_[] = { 1, 255, 256, 4095, 4096, 4097, 32768, 65535, 65536, 65537 }; HRESULT hr; uint64_t p = edge_at(EP, c % edge_count(EP)), n; int i, from_end;
    S = edge_at(ES, c / edge_count(EP)); isbig = 1; buf = data_of(S); memset(m, 0, sizeof m); mc_alloc_begin();
    hr = memstream_create(buf, (ULONG)S, &m[0].s); MC_ASSERT(hr == S_OK && m[0].s != NULL, "creation of a stream of %llu bytes returned %08x", (unsigned long long)S, (unsigned)hr);
    m[0].alive = m[0].refs = 1; ns = 1;
    for(from_end = 0; from_end < 2; from_end++) {
        if((from_end && p > S) || p > 0xffffffffu) continue;
        if(mc_is("C36")) for(i = 0; i < 10; i++) {
            seek(0, from_end ? -(int64_t)p : (int64_t)p, from_end ? STREAM_SEEK_END : STREAM_SEEK_SET, 1);
            rd_large(0, ns_[i]); expect_pos(0, "after a read"); seek(0, -1, STREAM_SEEK_CUR, 1); rd_large(0, 2); expect_pos(0, "after a read");
        }
        if(mc_is("C37")) for(i = 0; i < 7; i++) {
            seek(0, from_end ? -(int64_t)p : (int64_t)p, from_end ? STREAM_SEEK_END : STREAM_SEEK_SET, 0);
            n = S > m[0].pos ? S - m[0].pos : 0;
            n = i == 0 ? n : i == 1 ? n + 1 : i == 2 ? n - 1 : i == 3 ? n / 2 : i == 4 ? p : i == 5 ? p + ((uint64_t)1 << 32) : n + ((uint64_t)1 << 32);
            copy(0, n, 0, 3); if(m[0].pos < S) { copy(0, 3, 0, 3); rd_large(0, 3); }
        }
    }
    if(mc_is("C37")) { stat_(0); clone(0, 0); rd_large(1, 5); release(1); }
    expect_pos(0, "at last"); release(0);
    MC_ASSERT(mc_live_blocks() == 0, "memory left"); mc_count_trace(1);
}
static void desce(uint64_t c, char* b, size_t z) { snprintf(b, z, "stream of %llu bytes, distance %llu from either end", (unsigned long long)edge_at(ES, c / edge_count(EP)), (unsigned long long)edge_at(EP, c % edge_count(EP))); }
#define S6(name, tier, arg, depth) { "C36", name, tier, arg, depth, reset, n_ops36, apply36, canon, teardown, desc36, 0, 0 }
#define S7(name, tier, arg, depth) { "C37", name, tier, arg, depth, reset, n_ops37, apply37, canon, teardown, desc37, 0, 0 }
MC_SYS mc_systems[] = {
    S6("stream-0", 1, 0, 5), S6("stream-1", 1, 1, 5), S6("stream-2", 1, 2, 5), S6("stream-5", 1, 3, 5), S6("stream-300", 1, 4, 5), S6("stream-4G", 1, 5, 4), S6("stream-2G", 1, 6, 4), S6("stream-2G-1", 1, 7, 4),
    S6("stream-0-deep", 2, 0, 14), S6("stream-1-deep", 2, 1, 14), S6("stream-2-deep", 2, 2, 14), S6("stream-5-deep", 2, 3, 14), S6("stream-300-deep", 2, 4, 14), S6("stream-4G-deep", 2, 5, 10), S6("stream-2G-deep", 2, 6, 10), S6("stream-2G-1-deep", 2, 7, 10),
    S7("clone-0", 1, 10, 0), S7("clone-1", 1, 11, 0), S7("clone-2", 1, 12, 0), S7("clone-5", 1, 13, 0), S7("clone-300", 1, 14, 5), S7("copy-4G", 1, 5, 2), S7("copy-2G", 1, 16, 2),
    S7("clone-0-deep", 2, 10, 0), S7("clone-1-deep", 2, 11, 0), S7("clone-2-deep", 2, 12, 0), S7("clone-5-deep", 2, 13, 0), S7("clone-300-deep", 2, 14, 0), S7("copy-4G-deep", 2, 5, 5), S7("copy-2G-deep", 2, 16, 5), S7("copy-2G-1-deep", 2, 17, 5),
    { 0 } };
MC_ENUM mc_enums[] = {
    { "C37", "create-without-memory", 3, 0, cntc, runc, descc, 1 },
    { "C36 C37", "edges-stream", 3, 0, cnte, rune, desce, 8 },
    { "C40", "resources", 3, 0, cntr, runr, descr, 64 },
    { 0 } };
