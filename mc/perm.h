/* Named orders of the numbers 0 .. m-1, for large structures. */
enum { P_UP, P_DOWN, P_ZIGZAG, P_BITREV, P_STRIDE, P_INSIDEOUT, P_N };
static int perm(int p, int m, int i)
{
    switch(p) {
    case P_UP: return i;
    case P_DOWN: return m - 1 - i;
    case P_ZIGZAG: return i & 1 ? m - 1 - i / 2 : i / 2;
    case P_INSIDEOUT: return i & 1 ? m / 2 - 1 - i / 2 : m / 2 + i / 2;
    case P_STRIDE: { int s = 619; while(m % s == 0) s++; { int a = s, b = m; while(b) { int t = a % b; a = b; b = t; } while(a != 1) { int x; s++; x = s; b = m; while(b) { int t = x % b; x = b; b = t; } a = x; } } return (int)((long)i * s % m); }
    case P_BITREV: { int bits = 0, k, j, c = -1, r; while((1 << bits) < m) bits++; for(k = 0; k < 1 << bits; k++) { r = 0; for(j = 0; j < bits; j++) if(k >> j & 1) r |= 1 << (bits - 1 - j); if(r < m && ++c == i) return r; } return 0; }
    }
    return 0;
}
static const char* const perm_name[] = { "ascending", "descending", "zigzag", "bit-reversed", "strided", "inside-out" };
/* The whole permutation at once. */
static inline void perm_fill(int p, int m, int* out)
{
    int i;
    if(p == P_BITREV) {
        int bits = 0, k, j, c = 0, r;
        while((1 << bits) < m) bits++;
        for(k = 0; k < 1 << bits; k++) { r = 0; for(j = 0; j < bits; j++) if(k >> j & 1) r |= 1 << (bits - 1 - j); if(r < m) out[c++] = r; }
    } else for(i = 0; i < m; i++) out[i] = perm(p, m, i);
}
