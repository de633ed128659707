/*
 * Independent reference primitives, written from the public standards
 * (RFC 5830/8891 GOST 28147-89 and Magma, RFC 7801 Kuznyechik, RFC 5831
 * GOST R 34.11-94, RFC 6986 Streebog).  They give the uninterpreted symbols
 * of the TLA+ specifications (E, H, MUL, ...) their concrete meaning.  No
 * code of /repo is used; everything stateful (buffering, counters, sections,
 * padding, order of calls) is decided by the specifications, not here.
 */
#include <string.h>
#include <stdint.h>
#include <stdlib.h>
#include "consts.h"

typedef uint8_t u8; typedef uint32_t u32; typedef uint64_t u64;

/* ---------------------------------------------------------------- GOST 28147 */
static u32 TB[8][4][256]; static int tb_ready;
static void tb_init(void)
{
    int s, i, x;
    if (tb_ready) return;
    for (s = 0; s < 8; s++)
        for (i = 0; i < 4; i++)          /* byte i counted from least significant */
            for (x = 0; x < 256; x++) {
                u32 hi = SBOX[s][6 - 2 * i][x >> 4], lo = SBOX[s][7 - 2 * i][x & 15];
                u32 v = (hi << 4 | lo) << (8 * i);
                TB[s][i][x] = v << 11 | v >> 21;
            }
    tb_ready = 1;
}
static u32 gf(int s, u32 x)
{
    return TB[s][0][x & 255] | TB[s][1][x >> 8 & 255] | TB[s][2][x >> 16 & 255] | TB[s][3][x >> 24];
}
static void g_rounds(int s, const u32 k[8], u32 *pa, u32 *pb, int enc, int n)
{
    u32 a = *pa, b = *pb, t; int r;
    for (r = 0; r < n; r++) {
        int ki = enc ? (r < 24 ? r & 7 : 7 - (r & 7)) : (r < 8 ? r & 7 : 7 - (r & 7));
        t = b ^ gf(s, a + k[ki]); b = a; a = t;
    }
    *pa = a; *pb = b;
}
static u32 le(const u8 *p) { return p[0] | p[1] << 8 | p[2] << 16 | (u32)p[3] << 24; }
static void st(u8 *p, u32 v) { p[0] = v; p[1] = v >> 8; p[2] = v >> 16; p[3] = v >> 24; }
static void g_key(const u8 *key, u32 k[8], int be)
{
    int i;
    for (i = 0; i < 8; i++)
        k[i] = be ? ((u32)key[4*i] << 24 | key[4*i+1] << 16 | key[4*i+2] << 8 | key[4*i+3]) : le(key + 4*i);
}
/* alg: 0..7 = GOST 28147 (little endian) with S-box set alg; 8 = Magma; 9 = Kuznyechik */
static void g_block(int s, const u32 k[8], const u8 *in, u8 *out, int enc, int be)
{
    u8 t[8]; u32 a, b; int i;
    for (i = 0; i < 8; i++) t[i] = be ? in[7 - i] : in[i];
    a = le(t); b = le(t + 4);
    g_rounds(s, k, &a, &b, enc, 32);
    st(t, b); st(t + 4, a);            /* no swap in the last round */
    for (i = 0; i < 8; i++) out[i] = be ? t[7 - i] : t[i];
}

/* ---------------------------------------------------------------- Kuznyechik */
static u8 gmul(u8 a, u8 b)
{
    u8 r = 0;
    while (b) { if (b & 1) r ^= a; a = (a << 1) ^ (a & 0x80 ? 0xC3 : 0); b >>= 1; }
    return r;
}
static u8 PINV[256], KT[16][256][16], KTI[16][256][16]; static int k_ready;
static void kL(u8 *w)          /* 16 R steps; byte 0 is the most significant */
{
    int j, i;
    for (j = 0; j < 16; j++) {
        u8 x = 0;
        for (i = 0; i < 16; i++) x ^= gmul(w[i], LVEC[i]);
        memmove(w + 1, w, 15); w[0] = x;
    }
}
static void kLi(u8 *w)
{
    int j, i;
    for (j = 0; j < 16; j++) {
        u8 f = w[0], x = 0; u8 t[16];
        memcpy(t, w + 1, 15); t[15] = f;
        for (i = 0; i < 16; i++) x ^= gmul(t[i], LVEC[i]);
        memcpy(w, t, 15); w[15] = x;
    }
}
static void k_init(void)
{
    int i, x;
    if (k_ready) return;
    for (i = 0; i < 256; i++) PINV[PI[i]] = i;
    for (i = 0; i < 16; i++)
        for (x = 0; x < 256; x++) {
            u8 w[16] = {0}; w[i] = PI[x]; kL(w); memcpy(KT[i][x], w, 16);
            memset(w, 0, 16); w[i] = x; kLi(w); memcpy(KTI[i][x], w, 16);
        }
    k_ready = 1;
}
static void kLS(u8 *w)
{
    u64 r[2] = {0, 0}, t[2]; int i;
    for (i = 0; i < 16; i++) { memcpy(t, KT[i][w[i]], 16); r[0] ^= t[0]; r[1] ^= t[1]; }
    memcpy(w, r, 16);
}
static void kLinv(u8 *w)
{
    u64 r[2] = {0, 0}, t[2]; int i;
    for (i = 0; i < 16; i++) { memcpy(t, KTI[i][w[i]], 16); r[0] ^= t[0]; r[1] ^= t[1]; }
    memcpy(w, r, 16);
}
static void kx(u8 *a, const u8 *b) { int i; for (i = 0; i < 16; i++) a[i] ^= b[i]; }
static void k_sched(const u8 *key, u8 rk[10][16])
{
    u8 a[16], b[16], t[16]; int i, j;
    memcpy(a, key, 16); memcpy(b, key + 16, 16);
    memcpy(rk[0], a, 16); memcpy(rk[1], b, 16);
    for (i = 1; i <= 4; i++) {
        for (j = 1; j <= 8; j++) {
            u8 c[16] = {0}; c[15] = 8 * (i - 1) + j; kL(c);
            memcpy(t, a, 16); kx(t, c); kLS(t); kx(t, b);
            memcpy(b, a, 16); memcpy(a, t, 16);
        }
        memcpy(rk[2 * i], a, 16); memcpy(rk[2 * i + 1], b, 16);
    }
}
static void k_enc(u8 rk[10][16], const u8 *in, u8 *out)
{
    u8 w[16]; int i; memcpy(w, in, 16);
    for (i = 0; i < 9; i++) { kx(w, rk[i]); kLS(w); }
    kx(w, rk[9]); memcpy(out, w, 16);
}
static void k_dec(u8 rk[10][16], const u8 *in, u8 *out)
{
    u8 w[16]; int i, j; memcpy(w, in, 16);
    kx(w, rk[9]);
    for (i = 8; i >= 0; i--) { kLinv(w); for (j = 0; j < 16; j++) w[j] = PINV[w[j]]; kx(w, rk[i]); }
    memcpy(out, w, 16);
}

/* ------------------------------------------------------------ block ciphers */
typedef struct { int alg, bs; u32 k[8]; u8 rk[10][16]; } BC;
static void bc_init(BC *c, int alg, const u8 *key)
{
    tb_init(); k_init();
    c->alg = alg; c->bs = alg == 9 ? 16 : 8;
    if (alg == 9) k_sched(key, c->rk); else g_key(key, c->k, alg == 8);
}
static void bc(BC *c, const u8 *in, u8 *out, int enc)
{
    if (c->alg == 9) { if (enc) k_enc(c->rk, in, out); else k_dec(c->rk, in, out); }
    else if (c->alg == 8) g_block(7, c->k, in, out, enc, 1);
    else g_block(c->alg, c->k, in, out, enc, 0);
}
int ref_bs(int alg) { return alg == 9 ? 16 : 8; }
void ref_ecb(int alg, const u8 *key, const u8 *in, u8 *out, int nblocks, int enc)
{
    BC c; int i; bc_init(&c, alg, key);
    for (i = 0; i < nblocks; i++) bc(&c, in + i * c.bs, out + i * c.bs, enc);
}
/* one CBC segment; iv is updated to the chaining value after the segment */
void ref_cbc(int alg, const u8 *key, u8 *iv, const u8 *in, u8 *out, int nblocks, int enc)
{
    BC c; int i, j; u8 t[16], x[16]; bc_init(&c, alg, key);
    for (i = 0; i < nblocks; i++) {
        memcpy(x, in + i * c.bs, c.bs);
        if (enc) {
            for (j = 0; j < c.bs; j++) t[j] = x[j] ^ iv[j];
            bc(&c, t, out + i * c.bs, 1); memcpy(iv, out + i * c.bs, c.bs);
        } else {
            bc(&c, x, t, 0);
            for (j = 0; j < c.bs; j++) out[i * c.bs + j] = t[j] ^ iv[j];
            memcpy(iv, x, c.bs);
        }
    }
}
/* one full-block CFB segment that starts on a block boundary (last block may be short) */
void ref_cfb(int alg, const u8 *key, u8 *iv, const u8 *in, u8 *out, int len, int enc)
{
    BC c; int i = 0, j; u8 g[16]; bc_init(&c, alg, key);
    while (i < len) {
        int n = len - i < c.bs ? len - i : c.bs;
        bc(&c, iv, g, 1);
        for (j = 0; j < n; j++) {
            u8 x = in[i + j]; out[i + j] = x ^ g[j]; iv[j] = enc ? out[i + j] : x;
        }
        i += n;
    }
}
/* OFB keystream with full-block feedback */
void ref_ofb_ks(int alg, const u8 *key, u8 *iv, u8 *out, int nblocks)
{
    BC c; int i; bc_init(&c, alg, key);
    for (i = 0; i < nblocks; i++) { bc(&c, iv, iv, 1); memcpy(out + i * c.bs, iv, c.bs); }
}
/* keystream blocks E(ctr), E(ctr+1), ...: big-endian counter over the whole block */
void ref_ctr_ks(int alg, const u8 *key, const u8 *ctr0, u8 *out, int nblocks)
{
    BC c; int i, j; u8 ctr[16]; bc_init(&c, alg, key); memcpy(ctr, ctr0, c.bs);
    for (i = 0; i < nblocks; i++) {
        bc(&c, ctr, out + i * c.bs, 1);
        for (j = c.bs - 1; j >= 0; j--) if (++ctr[j]) break;
    }
}
/* GOST 28147 gamma (CNT) steps: reg advances by (C2, C1 mod 2^32-1), gamma = E(reg) */
void ref_cnt_ks(int alg, const u8 *key, u8 *reg, u8 *out, int nblocks)
{
    BC c; int i; bc_init(&c, alg, key);
    for (i = 0; i < nblocks; i++) {
        u32 a = le(reg), b = le(reg + 4); u64 t;
        a += 0x01010101u;
        t = (u64)b + 0x01010104u; if (t > 0xFFFFFFFFu) t = (t & 0xFFFFFFFFu) + 1;
        st(reg, a); st(reg + 4, (u32)t);
        bc(&c, reg, out + i * 8, 1);
    }
}
/* GOST 28147 MAC: 16 rounds per block from a given 8-byte state */
void ref_imit(int alg, const u8 *key, u8 *state, const u8 *in, int nblocks)
{
    BC c; int i, j; bc_init(&c, alg, key);
    for (i = 0; i < nblocks; i++) {
        u32 a, b; for (j = 0; j < 8; j++) state[j] ^= in[8 * i + j];
        a = le(state); b = le(state + 4);
        g_rounds(alg, c.k, &a, &b, 1, 16);
        st(state, a); st(state + 4, b);
    }
}
/* plain CBC-MAC chain */
void ref_cbcmac(int alg, const u8 *key, u8 *state, const u8 *in, int nblocks)
{
    BC c; int i, j; bc_init(&c, alg, key);
    for (i = 0; i < nblocks; i++) {
        for (j = 0; j < c.bs; j++) state[j] ^= in[c.bs * i + j];
        bc(&c, state, state, 1);
    }
}
/* MGM multiplication in GF(2^(8*bs)), big-endian bit order (RFC 9058) */
void ref_mgm_mul(int bs, const u8 *a, const u8 *b, u8 *out)
{
    u8 z[16] = {0}, v[16]; int i, j; memcpy(v, b, bs);
    for (i = bs * 8 - 1; i >= 0; i--) {     /* i-th bit of a, LSB first */
        int byte = i / 8, bit = 7 - i % 8, carry;
        if (a[byte] >> bit & 1) for (j = 0; j < bs; j++) z[j] ^= v[j];
        carry = v[0] >> 7;
        for (j = 0; j < bs - 1; j++) v[j] = v[j] << 1 | v[j + 1] >> 7;
        v[bs - 1] <<= 1;
        if (carry) v[bs - 1] ^= bs == 16 ? 0x87 : 0x1B;
    }
    memcpy(out, z, bs);
}
void ref_meshkey(u8 *out) { memcpy(out, MESHKEY, 32); }

/* ------------------------------------------------------------ GOST R 34.11-94 */
static void h94_A(u8 *y) { u8 t[8]; int i; for (i = 0; i < 8; i++) t[i] = y[i] ^ y[8 + i]; memmove(y, y + 8, 24); memcpy(y + 24, t, 8); }
static void h94_P(const u8 *w, u8 *k) { int i, j; for (i = 0; i < 4; i++) for (j = 0; j < 8; j++) k[i + 4 * j] = w[8 * i + j]; }
static void h94_psi(u8 *y)
{
    static const int idx[6] = {0, 1, 2, 3, 12, 15}; u8 a = 0, b = 0; int i;
    for (i = 0; i < 6; i++) { a ^= y[2 * idx[i]]; b ^= y[2 * idx[i] + 1]; }
    memmove(y, y + 2, 30); y[30] = a; y[31] = b;
}
void ref_h94_step(int sbox, u8 *H, const u8 *M)
{
    /* C3, least significant byte first */
    static const u8 C3[32] = {0,255,0,255,0,255,0,255,255,0,255,0,255,0,255,0,0,255,255,0,255,0,0,255,255,0,0,0,255,255,0,255};
    u8 U[32], V[32], W[32], K[32], S[32]; int i, j; BC c;
    memcpy(U, H, 32); memcpy(V, M, 32);
    for (j = 0; j < 4; j++) {
        if (j) { h94_A(U); if (j == 2) for (i = 0; i < 32; i++) U[i] ^= C3[i]; h94_A(V); h94_A(V); }
        for (i = 0; i < 32; i++) W[i] = U[i] ^ V[i];
        h94_P(W, K); bc_init(&c, sbox, K); bc(&c, H + 8 * j, S + 8 * j, 1);
    }
    for (i = 0; i < 12; i++) h94_psi(S);
    for (i = 0; i < 32; i++) S[i] ^= M[i];
    h94_psi(S);
    for (i = 0; i < 32; i++) S[i] ^= H[i];
    for (i = 0; i < 61; i++) h94_psi(S);
    memcpy(H, S, 32);
}
void ref_h94(int sbox, const u8 *m, long len, u8 *out)
{
    u8 H[32] = {0}, S[32] = {0}, B[32]; long p; u64 bits = (u64)len * 8; int i;
    for (p = 0; p < len || (p == 0 && len == 0); p += 32) {
        int n = len - p < 32 ? (int)(len - p) : 32, cy = 0;
        memset(B, 0, 32); memcpy(B, m + p, n);
        ref_h94_step(sbox, H, B);
        for (i = 0; i < 32; i++) { cy += S[i] + B[i]; S[i] = cy; cy >>= 8; }
    }
    memset(B, 0, 32); for (i = 0; i < 8; i++) B[i] = bits >> (8 * i);
    ref_h94_step(sbox, H, B); ref_h94_step(sbox, H, S); memcpy(out, H, 32);
}

/* ---------------------------------------------------------- GOST R 34.11-2012 */
static u64 SL[8][256]; static int s_ready;
static void s_init(void)
{
    int j, x, b;
    if (s_ready) return;
    for (j = 0; j < 8; j++) for (x = 0; x < 256; x++) {
        u64 r = 0; for (b = 0; b < 8; b++) if (PI[x] >> b & 1) r ^= LBIT[8 * j + b];
        SL[j][x] = r;
    }
    s_ready = 1;
}
static void s_lps(u64 v[8])
{
    u64 r[8]; int i, j;
    for (i = 0; i < 8; i++) { r[i] = 0; for (j = 0; j < 8; j++) r[i] ^= SL[j][v[j] >> (8 * i) & 255]; }
    memcpy(v, r, 64);
}
static void s_g(u64 h[8], const u64 N[8], const u64 m[8])
{
    u64 K[8], t[8]; int i, r;
    for (i = 0; i < 8; i++) K[i] = h[i] ^ N[i];
    s_lps(K); memcpy(t, m, 64);
    for (r = 0; r < 12; r++) {
        for (i = 0; i < 8; i++) t[i] ^= K[i];
        s_lps(t);
        for (i = 0; i < 8; i++) K[i] ^= SC[r][i];
        s_lps(K);
    }
    for (i = 0; i < 8; i++) h[i] ^= t[i] ^ K[i] ^ m[i];
}
static void s_add(u64 a[8], const u64 b[8])
{
    int i; unsigned __int128 c = 0;
    for (i = 0; i < 8; i++) { c += (unsigned __int128)a[i] + b[i]; a[i] = (u64)c; c >>= 64; }
}
void ref_streebog(int bits, const u8 *m, long len, u8 *out)
{
    u64 h[8], N[8] = {0}, S[8] = {0}, Z[8] = {0}, w[8], q[8] = {512}; u8 b[64]; s_init();
    memset(h, bits == 256 ? 1 : 0, 64);
    while (len >= 64) { memcpy(w, m, 64); s_g(h, N, w); s_add(N, q); s_add(S, w); m += 64; len -= 64; }
    memset(b, 0, 64); memcpy(b, m, len); b[len] = 1; memcpy(w, b, 64);
    s_g(h, N, w); q[0] = 8 * len; s_add(N, q); s_add(S, w);
    s_g(h, Z, N); s_g(h, Z, S);
    if (bits == 256) memcpy(out, (u8 *)h + 32, 32); else memcpy(out, h, 64);
}
