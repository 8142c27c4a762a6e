#include "ref.h"
#include <string.h>
#include <stdlib.h>
#include "ref_const.h"
typedef unsigned __int128 u128;
static uint32_t rl(uint32_t x, int n) { n &= 31; return n ? (x << n) | (x >> (32 - n)) : x; }
static uint32_t rr(uint32_t x, int n) { return rl(x, 32 - n); }
static uint64_t rr64(uint64_t x, int n) { return (x >> n) | (x << (64 - n)); }
static uint32_t be32(const uint8_t *p) { return (uint32_t)p[0] << 24 | p[1] << 16 | p[2] << 8 | p[3]; }
static uint32_t le32(const uint8_t *p) { return (uint32_t)p[3] << 24 | p[2] << 16 | p[1] << 8 | p[0]; }
static uint64_t be64(const uint8_t *p) { return (uint64_t)be32(p) << 32 | be32(p + 4); }
static uint64_t le64(const uint8_t *p) { return (uint64_t)le32(p + 4) << 32 | le32(p); }
static void wbe32(uint8_t *p, uint32_t v) { p[0] = v >> 24; p[1] = v >> 16; p[2] = v >> 8; p[3] = v; }
static void wle32(uint8_t *p, uint32_t v) { p[3] = v >> 24; p[2] = v >> 16; p[1] = v >> 8; p[0] = v; }
static void wbe64(uint8_t *p, uint64_t v) { wbe32(p, v >> 32); wbe32(p + 4, (uint32_t)v); }
static void wle64(uint8_t *p, uint64_t v) { wle32(p + 4, v >> 32); wle32(p, (uint32_t)v); }

size_t ref_mdlen(RefMd m) { static const size_t l[] = {16, 20, 28, 32, 48, 64, 28, 32, 48, 64, 16, 32, 32, 32}; return l[m]; }
size_t ref_mdblock(RefMd m) { static const size_t l[] = {64, 64, 64, 64, 128, 128, 144, 136, 104, 72, 168, 136, 64, 64}; return l[m]; }

static void c_md5(uint32_t *h, const uint8_t *p)
{
    static const int s[4][4] = {{7, 12, 17, 22}, {5, 9, 14, 20}, {4, 11, 16, 23}, {6, 10, 15, 21}};
    uint32_t a = h[0], b = h[1], c = h[2], d = h[3];
    for (int i = 0; i < 64; i++) {
        uint32_t f; int g;
        if (i < 16) { f = (b & c) | (~b & d); g = i; } else if (i < 32) { f = (d & b) | (~d & c); g = (5 * i + 1) % 16; }
        else if (i < 48) { f = b ^ c ^ d; g = (3 * i + 5) % 16; } else { f = c ^ (b | ~d); g = (7 * i) % 16; }
        uint32_t t = d; d = c; c = b; b = b + rl(a + f + MD5T[i] + le32(p + 4 * g), s[i / 16][i % 4]); a = t;
    }
    h[0] += a; h[1] += b; h[2] += c; h[3] += d;
}
static void c_sha1(uint32_t *h, const uint8_t *p)
{
    uint32_t w[80], a = h[0], b = h[1], c = h[2], d = h[3], e = h[4];
    for (int i = 0; i < 16; i++) { w[i] = be32(p + 4 * i); }
    for (int i = 16; i < 80; i++) { w[i] = rl(w[i - 3] ^ w[i - 8] ^ w[i - 14] ^ w[i - 16], 1); }
    for (int i = 0; i < 80; i++) {
        uint32_t f, k;
        if (i < 20) { f = (b & c) | (~b & d); k = 0x5a827999; } else if (i < 40) { f = b ^ c ^ d; k = 0x6ed9eba1; }
        else if (i < 60) { f = (b & c) | (b & d) | (c & d); k = 0x8f1bbcdc; } else { f = b ^ c ^ d; k = 0xca62c1d6; }
        uint32_t t = rl(a, 5) + f + e + k + w[i]; e = d; d = c; c = rl(b, 30); b = a; a = t;
    }
    h[0] += a; h[1] += b; h[2] += c; h[3] += d; h[4] += e;
}
static void c_sha256(uint32_t *h, const uint8_t *p)
{
    uint32_t w[64], v[8]; memcpy(v, h, 32);
    for (int i = 0; i < 16; i++) { w[i] = be32(p + 4 * i); }
    for (int i = 16; i < 64; i++) {
        uint32_t s0 = rr(w[i - 15], 7) ^ rr(w[i - 15], 18) ^ (w[i - 15] >> 3), s1 = rr(w[i - 2], 17) ^ rr(w[i - 2], 19) ^ (w[i - 2] >> 10);
        w[i] = w[i - 16] + s0 + w[i - 7] + s1;
    }
    for (int i = 0; i < 64; i++) {
        uint32_t t1 = v[7] + (rr(v[4], 6) ^ rr(v[4], 11) ^ rr(v[4], 25)) + ((v[4] & v[5]) ^ (~v[4] & v[6])) + K256[i] + w[i];
        uint32_t t2 = (rr(v[0], 2) ^ rr(v[0], 13) ^ rr(v[0], 22)) + ((v[0] & v[1]) ^ (v[0] & v[2]) ^ (v[1] & v[2]));
        memmove(v + 1, v, 28); v[4] += t1; v[0] = t1 + t2;
    }
    for (int i = 0; i < 8; i++) { h[i] += v[i]; }
}
static void c_sha512(uint64_t *h, const uint8_t *p)
{
    uint64_t w[80], v[8]; memcpy(v, h, 64);
    for (int i = 0; i < 16; i++) { w[i] = be64(p + 8 * i); }
    for (int i = 16; i < 80; i++) {
        uint64_t s0 = rr64(w[i - 15], 1) ^ rr64(w[i - 15], 8) ^ (w[i - 15] >> 7), s1 = rr64(w[i - 2], 19) ^ rr64(w[i - 2], 61) ^ (w[i - 2] >> 6);
        w[i] = w[i - 16] + s0 + w[i - 7] + s1;
    }
    for (int i = 0; i < 80; i++) {
        uint64_t t1 = v[7] + (rr64(v[4], 14) ^ rr64(v[4], 18) ^ rr64(v[4], 41)) + ((v[4] & v[5]) ^ (~v[4] & v[6])) + K512[i] + w[i];
        uint64_t t2 = (rr64(v[0], 28) ^ rr64(v[0], 34) ^ rr64(v[0], 39)) + ((v[0] & v[1]) ^ (v[0] & v[2]) ^ (v[1] & v[2]));
        memmove(v + 1, v, 56); v[4] += t1; v[0] = t1 + t2;
    }
    for (int i = 0; i < 8; i++) { h[i] += v[i]; }
}
static void c_sm3(uint32_t *h, const uint8_t *p)
{
    uint32_t w[68], v[8]; memcpy(v, h, 32);
    for (int i = 0; i < 16; i++) { w[i] = be32(p + 4 * i); }
    for (int i = 16; i < 68; i++) { uint32_t x = w[i - 16] ^ w[i - 9] ^ rl(w[i - 3], 15); w[i] = x ^ rl(x, 15) ^ rl(x, 23) ^ rl(w[i - 13], 7) ^ w[i - 6]; }
    for (int i = 0; i < 64; i++) {
        uint32_t t = i < 16 ? 0x79cc4519 : 0x7a879d8a;
        uint32_t ss1 = rl(rl(v[0], 12) + v[4] + rl(t, i % 32), 7), ss2 = ss1 ^ rl(v[0], 12);
        uint32_t ff = i < 16 ? v[0] ^ v[1] ^ v[2] : (v[0] & v[1]) | (v[0] & v[2]) | (v[1] & v[2]);
        uint32_t gg = i < 16 ? v[4] ^ v[5] ^ v[6] : (v[4] & v[5]) | (~v[4] & v[6]);
        uint32_t t1 = ff + v[3] + ss2 + (w[i] ^ w[i + 4]), t2 = gg + v[7] + ss1 + w[i];
        v[3] = v[2]; v[2] = rl(v[1], 9); v[1] = v[0]; v[0] = t1; v[7] = v[6]; v[6] = rl(v[5], 19); v[5] = v[4]; v[4] = t2 ^ rl(t2, 9) ^ rl(t2, 17);
    }
    for (int i = 0; i < 8; i++) { h[i] ^= v[i]; }
}
static void keccak(uint64_t a[25])
{
    uint8_t lfsr = 1;
    for (int rnd = 0; rnd < 24; rnd++) {
        uint64_t c[5], d, b[25];
        for (int x = 0; x < 5; x++) { c[x] = a[x] ^ a[x + 5] ^ a[x + 10] ^ a[x + 15] ^ a[x + 20]; }
        for (int x = 0; x < 5; x++) { d = c[(x + 4) % 5] ^ rr64(c[(x + 1) % 5], 63); for (int y = 0; y < 5; y++) { a[x + 5 * y] ^= d; } }
        int x = 1, y = 0; uint64_t cur = a[1]; b[0] = a[0];
        for (int t = 0; t < 24; t++) { int r = ((t + 1) * (t + 2) / 2) % 64; int ny = (2 * x + 3 * y) % 5; x = y; y = ny; uint64_t tmp = a[x + 5 * y]; b[x + 5 * y] = r ? rr64(cur, 64 - r) : cur; cur = tmp; }
        for (y = 0; y < 5; y++) { for (x = 0; x < 5; x++) { a[x + 5 * y] = b[x + 5 * y] ^ (~b[(x + 1) % 5 + 5 * y] & b[(x + 2) % 5 + 5 * y]); } }
        for (int j = 0; j < 7; j++) { if (lfsr & 1) { a[0] ^= 1ULL << ((1 << j) - 1); } lfsr = (lfsr << 1) ^ ((lfsr >> 7) * 0x71); }
    }
}
static void sponge(size_t rate, uint8_t ds, const uint8_t *in, size_t n, uint8_t *out, size_t ol)
{
    uint8_t s[200] = {0}; uint64_t a[25]; size_t i, k = 0;
#define PERM() do { for (int q = 0; q < 25; q++) { a[q] = le64(s + 8 * q); } keccak(a); for (int q = 0; q < 25; q++) { wle64(s + 8 * q, a[q]); } } while (0)
    for (i = 0; i < n; i++) { s[k++] ^= in[i]; if (k == rate) { PERM(); k = 0; } }
    s[k] ^= ds; s[rate - 1] ^= 0x80; PERM(); k = 0;
    for (i = 0; i < ol; i++) { if (k == rate) { PERM(); k = 0; } out[i] = s[k++]; }
}
static void blake2s(const uint8_t *in, size_t n, uint8_t *out)
{
    static const uint32_t iv[8] = {0x6a09e667, 0xbb67ae85, 0x3c6ef372, 0xa54ff53a, 0x510e527f, 0x9b05688c, 0x1f83d9ab, 0x5be0cd19};
    static const uint8_t sg[10][16] = {{0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15},{14,10,4,8,9,15,13,6,1,12,0,2,11,7,5,3},{11,8,12,0,5,2,15,13,10,14,3,6,7,1,9,4},{7,9,3,1,13,12,11,14,2,6,5,10,4,0,15,8},{9,0,5,7,2,4,10,15,14,1,11,12,6,8,3,13},{2,12,6,10,0,11,8,3,4,13,7,5,15,14,1,9},{12,5,1,15,14,13,4,10,0,7,6,3,9,2,8,11},{13,11,7,14,12,1,3,9,5,0,15,4,8,6,2,10},{6,15,14,9,11,3,0,8,12,2,13,7,1,4,10,5},{10,2,8,4,7,6,1,5,15,11,9,14,3,12,13,0}};
    uint32_t h[8]; memcpy(h, iv, 32); h[0] ^= 0x01010020; uint64_t t = 0; size_t off = 0;
    do {
        uint8_t blk[64] = {0}; size_t k = n - off > 64 ? 64 : n - off; memcpy(blk, in + off, k); off += k; t += k; int last = off >= n;
        uint32_t v[16], m[16]; memcpy(v, h, 32); memcpy(v + 8, iv, 32); v[12] ^= (uint32_t)t; v[13] ^= (uint32_t)(t >> 32); if (last) { v[14] = ~v[14]; }
        for (int i = 0; i < 16; i++) { m[i] = le32(blk + 4 * i); }
        for (int r = 0; r < 10; r++) {
#define G(i, a, b, c, d) v[a] += v[b] + m[sg[r][2 * i]]; v[d] = rr(v[d] ^ v[a], 16); v[c] += v[d]; v[b] = rr(v[b] ^ v[c], 12); v[a] += v[b] + m[sg[r][2 * i + 1]]; v[d] = rr(v[d] ^ v[a], 8); v[c] += v[d]; v[b] = rr(v[b] ^ v[c], 7);
            G(0, 0, 4, 8, 12) G(1, 1, 5, 9, 13) G(2, 2, 6, 10, 14) G(3, 3, 7, 11, 15) G(4, 0, 5, 10, 15) G(5, 1, 6, 11, 12) G(6, 2, 7, 8, 13) G(7, 3, 4, 9, 14)
        }
        for (int i = 0; i < 8; i++) { h[i] ^= v[i] ^ v[i + 8]; }
    } while (off < n);
    for (int i = 0; i < 8; i++) { wle32(out + 4 * i, h[i]); }
}
void ref_md(RefMd m, const uint8_t *in, size_t n, uint8_t *out, size_t ol)
{
    if (m >= R_SHA3_224 && m <= R_SHA3_512) { sponge(ref_mdblock(m), 6, in, n, out, ref_mdlen(m)); return; }
    if (m == R_SHAKE128 || m == R_SHAKE256) { sponge(ref_mdblock(m), 0x1f, in, n, out, ol); return; }
    if (m == R_BLAKE2S) { blake2s(in, n, out); return; }
    size_t bs = ref_mdblock(m), pl = bs == 128 ? 16 : 8, full = n / bs * bs;
    uint32_t h[8]; uint64_t H[8]; uint8_t buf[64];
    static const uint32_t i1[5] = {0x67452301, 0xefcdab89, 0x98badcfe, 0x10325476, 0xc3d2e1f0};
    static const uint32_t i224[8] = {0xc1059ed8,0x367cd507,0x3070dd17,0xf70e5939,0xffc00b31,0x68581511,0x64f98fa7,0xbefa4fa4};
    static const uint32_t i256[8] = {0x6a09e667,0xbb67ae85,0x3c6ef372,0xa54ff53a,0x510e527f,0x9b05688c,0x1f83d9ab,0x5be0cd19};
    static const uint32_t ism3[8] = {0x7380166f,0x4914b2b9,0x172442d7,0xda8a0600,0xa96f30bc,0x163138aa,0xe38dee4d,0xb0fb0e4e};
    static const uint64_t i384[8] = {0xcbbb9d5dc1059ed8ULL,0x629a292a367cd507ULL,0x9159015a3070dd17ULL,0x152fecd8f70e5939ULL,0x67332667ffc00b31ULL,0x8eb44a8768581511ULL,0xdb0c2e0d64f98fa7ULL,0x47b5481dbefa4fa4ULL};
    static const uint64_t i512[8] = {0x6a09e667f3bcc908ULL,0xbb67ae8584caa73bULL,0x3c6ef372fe94f82bULL,0xa54ff53a5f1d36f1ULL,0x510e527fade682d1ULL,0x9b05688c2b3e6c1fULL,0x1f83d9abfb41bd6bULL,0x5be0cd19137e2179ULL};
    memcpy(h, m == R_SHA224 ? i224 : m == R_SM3 ? ism3 : i256, 32); if (m == R_MD5 || m == R_SHA1) { memcpy(h, i1, 20); }
    memcpy(H, m == R_SHA384 ? i384 : i512, 64);
    size_t tl = n - full, tot = (tl + 1 + pl + bs - 1) / bs * bs; uint8_t tail[256] = {0};
    memcpy(tail, in + full, tl); tail[tl] = 0x80;
    if (m == R_MD5) { wle64(tail + tot - 8, (uint64_t)n * 8); } else { wbe64(tail + tot - 8, (uint64_t)n * 8); }
    for (size_t o = 0; o < full + tot; o += bs) {
        const uint8_t *p = o < full ? in + o : tail + (o - full);
        if (bs == 128) { c_sha512(H, p); } else if (m == R_MD5) { c_md5(h, p); } else if (m == R_SHA1) { c_sha1(h, p); } else if (m == R_SM3) { c_sm3(h, p); } else { c_sha256(h, p); }
    }
    for (int i = 0; i < 8; i++) { if (bs == 128) { wbe64(buf + 8 * i, H[i]); } else if (m == R_MD5) { wle32(buf + 4 * i, h[i]); } else { wbe32(buf + 4 * i, h[i]); } }
    memcpy(out, buf, ref_mdlen(m));
}
void ref_hmac(RefMd m, const uint8_t *k, size_t kl, const uint8_t *in, size_t n, uint8_t *out)
{
    size_t bs = ref_mdblock(m), hl = ref_mdlen(m); uint8_t kb[200] = {0}, ih[64];
    if (kl > bs) { ref_md(m, k, kl, kb, hl); } else { memcpy(kb, k, kl); }
    uint8_t *b = malloc(bs + n + 64);
    for (size_t i = 0; i < bs; i++) { b[i] = kb[i] ^ 0x36; } memcpy(b + bs, in, n); ref_md(m, b, bs + n, ih, hl);
    for (size_t i = 0; i < bs; i++) { b[i] = kb[i] ^ 0x5c; } memcpy(b + bs, ih, hl); ref_md(m, b, bs + hl, out, hl);
    free(b);
}
void ref_hkdf_extract(RefMd m, const uint8_t *salt, size_t sl, const uint8_t *ikm, size_t il, uint8_t *prk)
{
    uint8_t z[64] = {0}; if (sl == 0) { salt = z; sl = ref_mdlen(m); } ref_hmac(m, salt, sl, ikm, il, prk);
}
void ref_hkdf_expand(RefMd m, const uint8_t *prk, size_t pl, const uint8_t *info, size_t il, uint8_t *out, size_t ol)
{
    size_t hl = ref_mdlen(m), done = 0; uint8_t t[64]; uint8_t *b = malloc(hl + il + 1); int i = 0;
    while (done < ol) { size_t o = 0; if (i > 0) { memcpy(b, t, hl); o = hl; } memcpy(b + o, info, il); b[o + il] = (uint8_t)++i; ref_hmac(m, prk, pl, b, o + il + 1, t); size_t k = ol - done < hl ? ol - done : hl; memcpy(out + done, t, k); done += k; }
    free(b);
}
void ref_pbkdf2(RefMd m, const uint8_t *pw, size_t pl, const uint8_t *salt, size_t sl, uint32_t iter, uint8_t *out, size_t ol)
{
    size_t hl = ref_mdlen(m), done = 0; uint8_t u[64], t[64]; uint8_t *b = malloc(sl + 4); memcpy(b, salt, sl);
    for (uint32_t i = 1; done < ol; i++) { wbe32(b + sl, i); ref_hmac(m, pw, pl, b, sl + 4, u); memcpy(t, u, hl); for (uint32_t j = 1; j < iter; j++) { ref_hmac(m, pw, pl, u, hl, u); for (size_t q = 0; q < hl; q++) { t[q] ^= u[q]; } } size_t k = ol - done < hl ? ol - done : hl; memcpy(out + done, t, k); done += k; }
    free(b);
}
void ref_prf12(RefMd m, const uint8_t *sec, size_t secl, const char *label, const uint8_t *seed, size_t dl, uint8_t *out, size_t ol)
{
    size_t ll = strlen(label), hl = ref_mdlen(m), done = 0; uint8_t *b = malloc(hl + ll + dl); uint8_t a[64];
    memcpy(b + hl, label, ll); memcpy(b + hl + ll, seed, dl); ref_hmac(m, sec, secl, b + hl, ll + dl, a);
    while (done < ol) { uint8_t o[64]; memcpy(b, a, hl); ref_hmac(m, sec, secl, b, hl + ll + dl, o); size_t k = ol - done < hl ? ol - done : hl; memcpy(out + done, o, k); done += k; ref_hmac(m, sec, secl, a, hl, a); }
    free(b);
}
static void salsa8(uint32_t b[16])
{
    uint32_t x[16]; memcpy(x, b, 64);
#define Q(a, bb, c, d) x[bb] ^= rl(x[a] + x[d], 7); x[c] ^= rl(x[bb] + x[a], 9); x[d] ^= rl(x[c] + x[bb], 13); x[a] ^= rl(x[d] + x[c], 18);
    for (int i = 0; i < 4; i++) { Q(0, 4, 8, 12) Q(5, 9, 13, 1) Q(10, 14, 2, 6) Q(15, 3, 7, 11) Q(0, 1, 2, 3) Q(5, 6, 7, 4) Q(10, 11, 8, 9) Q(15, 12, 13, 14) }
    for (int i = 0; i < 16; i++) { b[i] += x[i]; }
}
static void blockmix(uint32_t *B, uint32_t r)
{
    uint32_t x[16]; uint32_t *y = malloc(128 * r); memcpy(x, B + (2 * r - 1) * 16, 64);
    for (uint32_t i = 0; i < 2 * r; i++) { for (int j = 0; j < 16; j++) { x[j] ^= B[16 * i + j]; } salsa8(x); memcpy(y + 16 * ((i & 1) * r + i / 2), x, 64); }
    memcpy(B, y, 128 * r); free(y);
}
void ref_scrypt(const uint8_t *pw, size_t pl, const uint8_t *salt, size_t sl, uint32_t N, uint32_t r, uint32_t p, uint8_t *out, size_t ol)
{
    uint8_t *b = malloc(128 * r * p); ref_pbkdf2(R_SHA256, pw, pl, salt, sl, 1, b, 128 * r * p);
    uint32_t w = 32 * r, *x = malloc(4 * w), *v = malloc((size_t)4 * w * N);
    for (uint32_t i = 0; i < p; i++) {
        for (uint32_t k = 0; k < w; k++) { x[k] = le32(b + 128 * r * i + 4 * k); }
        for (uint32_t k = 0; k < N; k++) { memcpy(v + (size_t)k * w, x, 4 * w); blockmix(x, r); }
        for (uint32_t k = 0; k < N; k++) { uint32_t j = x[(2 * r - 1) * 16] & (N - 1); for (uint32_t q = 0; q < w; q++) { x[q] ^= v[(size_t)j * w + q]; } blockmix(x, r); }
        for (uint32_t k = 0; k < w; k++) { wle32(b + 128 * r * i + 4 * k, x[k]); }
    }
    ref_pbkdf2(R_SHA256, pw, pl, b, 128 * r * p, 1, out, ol); free(b); free(x); free(v);
}
/* ---- block ciphers ---- */
static uint8_t AS[256], AI[256]; static int g_aesInit;
static uint8_t xt(uint8_t a) { return (uint8_t)((a << 1) ^ ((a >> 7) * 0x1b)); }
static uint8_t gm(uint8_t a, uint8_t b) { uint8_t r = 0; while (b) { if (b & 1) { r ^= a; } a = xt(a); b >>= 1; } return r; }
static void aes_tables(void)
{
    if (g_aesInit) { return; }
    for (int x = 0; x < 256; x++) {
        uint8_t inv = 0; for (int y = 1; y < 256 && x; y++) { if (gm((uint8_t)x, (uint8_t)y) == 1) { inv = (uint8_t)y; break; } }
        uint8_t s = inv; for (int i = 1; i < 5; i++) { s ^= (uint8_t)((inv << i) | (inv >> (8 - i))); } s ^= 0x63; AS[x] = s; AI[s] = (uint8_t)x;
    }
    g_aesInit = 1;
}
int ref_keylen(int id) { return id == 4 ? 16 : id / 8; }
static uint32_t sm4t(uint32_t x, int key)
{
    uint32_t y = (uint32_t)SM4S[x >> 24] << 24 | SM4S[(x >> 16) & 255] << 16 | SM4S[(x >> 8) & 255] << 8 | SM4S[x & 255];
    return key ? y ^ rl(y, 13) ^ rl(y, 23) : y ^ rl(y, 2) ^ rl(y, 10) ^ rl(y, 18) ^ rl(y, 24);
}
void ref_blk_init(RefBlk *b, int id, const uint8_t *key)
{
    memset(b, 0, sizeof *b); b->id = id;
    if (id == 4) {
        static const uint32_t fk[4] = {0xa3b1bac6, 0x56aa3350, 0x677d9197, 0xb27022dc}; uint32_t k[36];
        for (int i = 0; i < 4; i++) { k[i] = be32(key + 4 * i) ^ fk[i]; }
        for (int i = 0; i < 32; i++) { uint32_t ck = 0; for (int j = 0; j < 4; j++) { ck = ck << 8 | (uint8_t)((4 * i + j) * 7); } k[i + 4] = k[i] ^ sm4t(k[i + 1] ^ k[i + 2] ^ k[i + 3] ^ ck, 1); b->sk[i] = k[i + 4]; }
        return;
    }
    aes_tables(); int nk = id / 32; b->nr = nk + 6; uint8_t w[60][4]; uint8_t rc = 1;
    for (int i = 0; i < 4 * (b->nr + 1); i++) {
        if (i < nk) { memcpy(w[i], key + 4 * i, 4); continue; }
        uint8_t t[4]; memcpy(t, w[i - 1], 4);
        if (i % nk == 0) { uint8_t q = t[0]; t[0] = AS[t[1]] ^ rc; t[1] = AS[t[2]]; t[2] = AS[t[3]]; t[3] = AS[q]; rc = xt(rc); }
        else if (nk > 6 && i % nk == 4) { for (int j = 0; j < 4; j++) { t[j] = AS[t[j]]; } }
        for (int j = 0; j < 4; j++) { w[i][j] = w[i - nk][j] ^ t[j]; }
    }
    memcpy(b->rk, w, 16 * (b->nr + 1));
}
static void sm4c(const RefBlk *b, const uint8_t *in, uint8_t *out, int dec)
{
    uint32_t x[36]; for (int i = 0; i < 4; i++) { x[i] = be32(in + 4 * i); }
    for (int i = 0; i < 32; i++) { x[i + 4] = x[i] ^ sm4t(x[i + 1] ^ x[i + 2] ^ x[i + 3] ^ b->sk[dec ? 31 - i : i], 0); }
    for (int i = 0; i < 4; i++) { wbe32(out + 4 * i, x[35 - i]); }
}
void ref_blk_enc(const RefBlk *b, const uint8_t in[16], uint8_t out[16])
{
    if (b->id == 4) { sm4c(b, in, out, 0); return; }
    uint8_t s[16], t[16]; for (int i = 0; i < 16; i++) { s[i] = in[i] ^ b->rk[0][i]; }
    for (int r = 1; r <= b->nr; r++) {
        for (int c = 0; c < 4; c++) { for (int j = 0; j < 4; j++) { t[4 * c + j] = AS[s[4 * ((c + j) % 4) + j]]; } }
        for (int c = 0; c < 4; c++) {
            uint8_t *q = t + 4 * c; if (r == b->nr) { memcpy(s + 4 * c, q, 4); continue; }
            for (int j = 0; j < 4; j++) { s[4 * c + j] = xt(q[j]) ^ xt(q[(j + 1) % 4]) ^ q[(j + 1) % 4] ^ q[(j + 2) % 4] ^ q[(j + 3) % 4]; }
        }
        for (int i = 0; i < 16; i++) { s[i] ^= b->rk[r][i]; }
    }
    memcpy(out, s, 16);
}
void ref_blk_dec(const RefBlk *b, const uint8_t in[16], uint8_t out[16])
{
    if (b->id == 4) { sm4c(b, in, out, 1); return; }
    uint8_t s[16], t[16]; memcpy(s, in, 16);
    for (int r = b->nr; r >= 1; r--) {
        for (int i = 0; i < 16; i++) { s[i] ^= b->rk[r][i]; }
        for (int c = 0; c < 4; c++) {
            uint8_t *q = s + 4 * c; if (r == b->nr) { memcpy(t + 4 * c, q, 4); continue; }
            for (int j = 0; j < 4; j++) { t[4 * c + j] = gm(q[j], 14) ^ gm(q[(j + 1) % 4], 11) ^ gm(q[(j + 2) % 4], 13) ^ gm(q[(j + 3) % 4], 9); }
        }
        for (int c = 0; c < 4; c++) { for (int j = 0; j < 4; j++) { s[4 * ((c + j) % 4) + j] = AI[t[4 * c + j]]; } }
    }
    for (int i = 0; i < 16; i++) { out[i] = s[i] ^ b->rk[0][i]; }
}
void ref_ecb(const RefBlk *b, int enc, const uint8_t *in, size_t n, uint8_t *out) { for (size_t i = 0; i + 16 <= n; i += 16) { if (enc) { ref_blk_enc(b, in + i, out + i); } else { ref_blk_dec(b, in + i, out + i); } } }
void ref_cbc(const RefBlk *b, int enc, const uint8_t iv[16], const uint8_t *in, size_t n, uint8_t *out)
{
    uint8_t c[16], t[16]; memcpy(c, iv, 16);
    for (size_t i = 0; i + 16 <= n; i += 16) {
        if (enc) { for (int j = 0; j < 16; j++) { t[j] = in[i + j] ^ c[j]; } ref_blk_enc(b, t, out + i); memcpy(c, out + i, 16); }
        else { uint8_t s[16]; memcpy(s, in + i, 16); ref_blk_dec(b, s, t); for (int j = 0; j < 16; j++) { out[i + j] = t[j] ^ c[j]; } memcpy(c, s, 16); }
    }
}
static void inc128(uint8_t *c, int from) { for (int i = 15; i >= from; i--) { if (++c[i]) { break; } } }
void ref_ctr(const RefBlk *b, const uint8_t iv[16], const uint8_t *in, size_t n, uint8_t *out)
{
    uint8_t c[16], k[16]; memcpy(c, iv, 16); for (size_t i = 0; i < n; i++) { if (i % 16 == 0) { ref_blk_enc(b, c, k); inc128(c, 0); } out[i] = in[i] ^ k[i % 16]; }
}
void ref_ofb(const RefBlk *b, const uint8_t iv[16], const uint8_t *in, size_t n, uint8_t *out)
{
    uint8_t k[16]; memcpy(k, iv, 16); for (size_t i = 0; i < n; i++) { if (i % 16 == 0) { ref_blk_enc(b, k, k); } out[i] = in[i] ^ k[i % 16]; }
}
void ref_cfb(const RefBlk *b, int enc, int bits, const uint8_t iv[16], const uint8_t *in, size_t n, uint8_t *out)
{
    uint8_t r[16], k[16]; memcpy(r, iv, 16);
    if (bits == 1) {
        for (size_t i = 0; i < n * 8; i++) {
            ref_blk_enc(b, r, k); int ib = in[i / 8] >> (7 - i % 8) & 1, ob = ib ^ (k[0] >> 7), cb = enc ? ob : ib;
            uint8_t m = (uint8_t)(1 << (7 - i % 8)); uint8_t prev = i % 8 ? out[i / 8] : 0; out[i / 8] = (uint8_t)((prev & ~m) | (ob ? m : 0));
            for (int j = 0; j < 16; j++) { r[j] = (uint8_t)((r[j] << 1) | (j < 15 ? r[j + 1] >> 7 : cb)); }
        }
        return;
    }
    size_t s = bits / 8;
    for (size_t i = 0; i < n; i += s) {
        ref_blk_enc(b, r, k); size_t m = n - i < s ? n - i : s; uint8_t c[16];
        for (size_t j = 0; j < m; j++) { uint8_t x = in[i + j]; out[i + j] = x ^ k[j]; c[j] = enc ? out[i + j] : x; }
        if (m == s) { memmove(r, r + s, 16 - s); memcpy(r + 16 - s, c, s); }
    }
}
static void xts_mul(uint8_t t[16], int gmb)
{
    if (!gmb) { int c = t[15] >> 7; for (int i = 15; i > 0; i--) { t[i] = (uint8_t)(t[i] << 1 | t[i - 1] >> 7); } t[0] = (uint8_t)(t[0] << 1); if (c) { t[0] ^= 0x87; } }
    else { int c = t[15] & 1; for (int i = 15; i > 0; i--) { t[i] = (uint8_t)(t[i] >> 1 | t[i - 1] << 7); } t[0] >>= 1; if (c) { t[0] ^= 0xe1; } }
}
static void xts_blk(const RefBlk *b, int enc, const uint8_t *t, const uint8_t *in, uint8_t *out) { uint8_t x[16]; for (int j = 0; j < 16; j++) { x[j] = in[j] ^ t[j]; } if (enc) { ref_blk_enc(b, x, x); } else { ref_blk_dec(b, x, x); } for (int j = 0; j < 16; j++) { out[j] = x[j] ^ t[j]; } }
void ref_xts(const RefBlk *b1, const RefBlk *b2, int enc, int gmb, const uint8_t iv[16], const uint8_t *in, size_t n, uint8_t *out)
{
    uint8_t t[16]; ref_blk_enc(b2, iv, t); size_t full = n / 16, rem = n % 16, i;
    size_t plain = rem ? full - 1 : full;
    for (i = 0; i < plain; i++) { xts_blk(b1, enc, t, in + 16 * i, out + 16 * i); xts_mul(t, gmb); }
    if (rem) {
        uint8_t t2[16], cc[16], pp[16]; memcpy(t2, t, 16); xts_mul(t2, gmb);
        xts_blk(b1, enc, enc ? t : t2, in + 16 * i, cc);
        memcpy(pp, in + 16 * (i + 1), rem); memcpy(pp + rem, cc + rem, 16 - rem);
        xts_blk(b1, enc, enc ? t2 : t, pp, out + 16 * i); memcpy(out + 16 * (i + 1), cc, rem);
    }
}
static void gmul(uint8_t x[16], const uint8_t y[16])
{
    uint64_t zh = 0, zl = 0, vh = be64(y), vl = be64(y + 8);
    for (int i = 0; i < 128; i++) { if (x[i / 8] >> (7 - i % 8) & 1) { zh ^= vh; zl ^= vl; } int l = vl & 1; vl = vl >> 1 | vh << 63; vh >>= 1; if (l) { vh ^= 0xe1ULL << 56; } }
    wbe64(x, zh); wbe64(x + 8, zl);
}
static void ghash(uint8_t y[16], const uint8_t h[16], const uint8_t *p, size_t n) { for (size_t i = 0; i < n; i += 16) { for (size_t j = 0; j < 16 && i + j < n; j++) { y[j] ^= p[i + j]; } gmul(y, h); } }
void ref_gcm(const RefBlk *b, int enc, const uint8_t *iv, size_t ivl, const uint8_t *aad, size_t al, const uint8_t *in, size_t n, uint8_t *out, uint8_t tag[16])
{
    uint8_t h[16] = {0}, j0[16] = {0}, c[16], k[16], y[16] = {0}, l[16]; ref_blk_enc(b, h, h);
    if (ivl == 12) { memcpy(j0, iv, 12); j0[15] = 1; } else { ghash(j0, h, iv, ivl); wbe64(l, 0); wbe64(l + 8, (uint64_t)ivl * 8); ghash(j0, h, l, 16); }
    memcpy(c, j0, 16); ghash(y, h, aad, al); if (!enc) { ghash(y, h, in, n); }
    for (size_t i = 0; i < n; i++) { if (i % 16 == 0) { inc128(c, 12); ref_blk_enc(b, c, k); } out[i] = in[i] ^ k[i % 16]; }
    if (enc) { ghash(y, h, out, n); }
    wbe64(l, (uint64_t)al * 8); wbe64(l + 8, (uint64_t)n * 8); ghash(y, h, l, 16); ref_blk_enc(b, j0, k); for (int i = 0; i < 16; i++) { tag[i] = y[i] ^ k[i]; }
}
int ref_ccm(const RefBlk *b, int enc, const uint8_t *iv, size_t ivl, const uint8_t *aad, size_t al, const uint8_t *in, size_t n, uint8_t *out, uint8_t *tag, size_t tl)
{
    size_t L = 15 - ivl; uint8_t x[16] = {0}, c[16] = {0}, k[16], s0[16]; uint8_t *pt = malloc(n + 1);
    c[0] = (uint8_t)(L - 1); memcpy(c + 1, iv, ivl); ref_blk_enc(b, c, s0);
    uint8_t ctr[16]; memcpy(ctr, c, 16); inc128(ctr, 16 - (int)L);
    for (size_t i = 0; i < n; i++) { if (i % 16 == 0) { ref_blk_enc(b, ctr, k); inc128(ctr, 16 - (int)L); } pt[i] = enc ? in[i] : in[i] ^ k[i % 16]; if (1) { out[i] = in[i] ^ k[i % 16]; } }
    x[0] = (uint8_t)((al ? 0x40 : 0) | (((tl - 2) / 2) << 3) | (L - 1)); memcpy(x + 1, iv, ivl); for (size_t i = 0; i < L && i < 8; i++) { x[15 - i] = (uint8_t)((uint64_t)n >> (8 * i)); }
    ref_blk_enc(b, x, x); size_t k2 = 0;
    if (al) { if (al < 0xff00) { x[0] ^= al >> 8; x[1] ^= al & 255; k2 = 2; } else { x[0] ^= 0xff; x[1] ^= 0xfe; x[2] ^= al >> 24; x[3] ^= al >> 16; x[4] ^= al >> 8; x[5] ^= al; k2 = 6; } for (size_t i = 0; i < al; i++) { x[k2++] ^= aad[i]; if (k2 == 16) { ref_blk_enc(b, x, x); k2 = 0; } } if (k2) { ref_blk_enc(b, x, x); } }
    k2 = 0; for (size_t i = 0; i < n; i++) { x[k2++] ^= pt[i]; if (k2 == 16) { ref_blk_enc(b, x, x); k2 = 0; } } if (k2) { ref_blk_enc(b, x, x); }
    for (size_t i = 0; i < tl; i++) { tag[i] = x[i] ^ s0[i]; } free(pt); return 0;
}
static void dbl(uint8_t *x) { int c = x[0] >> 7; for (int i = 0; i < 15; i++) { x[i] = (uint8_t)(x[i] << 1 | x[i + 1] >> 7); } x[15] = (uint8_t)(x[15] << 1); if (c) { x[15] ^= 0x87; } }
void ref_cmac(const RefBlk *b, const uint8_t *in, size_t n, uint8_t tag[16])
{
    uint8_t k[16] = {0}, x[16] = {0}, last[16] = {0}; ref_blk_enc(b, k, k); dbl(k); size_t nb = n ? (n + 15) / 16 : 1, rem = n - (nb - 1) * 16;
    for (size_t i = 0; i + 1 < nb; i++) { for (int j = 0; j < 16; j++) { x[j] ^= in[16 * i + j]; } ref_blk_enc(b, x, x); }
    memcpy(last, in + (nb - 1) * 16, rem); if (rem < 16) { last[rem] = 0x80; dbl(k); }
    for (int j = 0; j < 16; j++) { x[j] ^= last[j] ^ k[j]; } ref_blk_enc(b, x, tag);
}
void ref_chacha(const uint8_t key[32], const uint8_t nonce[12], uint32_t ctr, const uint8_t *in, size_t n, uint8_t *out)
{
    for (size_t o = 0; o < n; o += 64, ctr++) {
        uint32_t s[16] = {0x61707865, 0x3320646e, 0x79622d32, 0x6b206574}, x[16]; uint8_t k[64];
        for (int i = 0; i < 8; i++) { s[4 + i] = le32(key + 4 * i); } s[12] = ctr; for (int i = 0; i < 3; i++) { s[13 + i] = le32(nonce + 4 * i); }
        memcpy(x, s, 64);
#define QR(a, b, c, d) x[a] += x[b]; x[d] = rl(x[d] ^ x[a], 16); x[c] += x[d]; x[b] = rl(x[b] ^ x[c], 12); x[a] += x[b]; x[d] = rl(x[d] ^ x[a], 8); x[c] += x[d]; x[b] = rl(x[b] ^ x[c], 7);
        for (int r = 0; r < 10; r++) { QR(0, 4, 8, 12) QR(1, 5, 9, 13) QR(2, 6, 10, 14) QR(3, 7, 11, 15) QR(0, 5, 10, 15) QR(1, 6, 11, 12) QR(2, 7, 8, 13) QR(3, 4, 9, 14) }
        for (int i = 0; i < 16; i++) { wle32(k + 4 * i, x[i] + s[i]); }
        for (size_t j = 0; j < 64 && o + j < n; j++) { out[o + j] = in[o + j] ^ k[j]; }
    }
}
void ref_poly1305(const uint8_t key[32], const uint8_t *in, size_t n, uint8_t tag[16])
{
    /* five 26-bit limbs, plain schoolbook */
    uint32_t rc[5], h[5] = {0}; uint8_t r[17] = {0}; memcpy(r, key, 16); r[3] &= 15; r[7] &= 15; r[11] &= 15; r[15] &= 15; r[4] &= 252; r[8] &= 252; r[12] &= 252;
    u128 R = (u128)le64(r + 8) << 64 | le64(r); for (int i = 0; i < 5; i++) { rc[i] = (uint32_t)(R >> (26 * i)) & 0x3ffffff; }
    for (size_t o = 0; o < n; o += 16) {
        uint8_t b[17] = {0}; size_t k = n - o < 16 ? n - o : 16; memcpy(b, in + o, k); b[k] = 1; u128 m = (u128)le64(b + 8) << 64 | le64(b);
        for (int i = 0; i < 5; i++) { h[i] += (uint32_t)(m >> (26 * i)) & 0x3ffffff; } h[4] += (uint32_t)b[16] << 24;
        uint64_t d[5] = {0}; for (int i = 0; i < 5; i++) { for (int j = 0; j < 5; j++) { int q = i + j; d[q % 5] += (uint64_t)h[i] * rc[j] * (q >= 5 ? 5 : 1); } }
        uint64_t c = 0; for (int i = 0; i < 5; i++) { d[i] += c; h[i] = d[i] & 0x3ffffff; c = d[i] >> 26; } c *= 5; for (int i = 0; i < 5 && c; i++) { c += h[i]; h[i] = c & 0x3ffffff; c >>= 26; }
    }
    for (int q = 0; q < 2; q++) { uint32_t c = 0; for (int i = 0; i < 5; i++) { h[i] += c; c = h[i] >> 26; h[i] &= 0x3ffffff; } h[0] += c * 5; }
    uint32_t g[5], c = 5; for (int i = 0; i < 5; i++) { g[i] = h[i] + c; c = g[i] >> 26; g[i] &= 0x3ffffff; } if (c) { memcpy(h, g, sizeof h); }
    u128 v = 0; for (int i = 4; i >= 0; i--) { v = (v << 26) | h[i]; }
    v += (u128)le64(key + 24) << 64 | le64(key + 16); wle64(tag, (uint64_t)v); wle64(tag + 8, (uint64_t)(v >> 64));
}
void ref_chachapoly(int enc, const uint8_t key[32], const uint8_t nonce[12], const uint8_t *aad, size_t al, const uint8_t *in, size_t n, uint8_t *out, uint8_t tag[16])
{
    uint8_t z[64] = {0}, pk[64]; ref_chacha(key, nonce, 0, z, 64, pk); size_t ap = (al + 15) / 16 * 16, np = (n + 15) / 16 * 16; uint8_t *b = calloc(1, ap + np + 16);
    uint8_t *ct = malloc(n + 1); if (!enc) { memcpy(ct, in, n); } ref_chacha(key, nonce, 1, in, n, out); if (enc) { memcpy(ct, out, n); }
    memcpy(b, aad, al); memcpy(b + ap, ct, n); wle64(b + ap + np, al); wle64(b + ap + np + 8, n); ref_poly1305(pk, b, ap + np + 16, tag); free(b); free(ct);
}
void ref_siphash(int ol, const uint8_t key[16], const uint8_t *in, size_t n, uint8_t *out)
{
    uint64_t k0 = le64(key), k1 = le64(key + 8), v0 = k0 ^ 0x736f6d6570736575ULL, v1 = k1 ^ 0x646f72616e646f6dULL, v2 = k0 ^ 0x6c7967656e657261ULL, v3 = k1 ^ 0x7465646279746573ULL;
    if (ol == 16) { v1 ^= 0xee; }
#define SR() v0 += v1; v1 = rr64(v1, 51); v1 ^= v0; v0 = rr64(v0, 32); v2 += v3; v3 = rr64(v3, 48); v3 ^= v2; v0 += v3; v3 = rr64(v3, 43); v3 ^= v0; v2 += v1; v1 = rr64(v1, 47); v1 ^= v2; v2 = rr64(v2, 32);
    size_t i; for (i = 0; i + 8 <= n; i += 8) { uint64_t m = le64(in + i); v3 ^= m; SR() SR() v0 ^= m; }
    uint64_t b = (uint64_t)n << 56; for (size_t j = 0; i + j < n; j++) { b |= (uint64_t)in[i + j] << (8 * j); } v3 ^= b; SR() SR() v0 ^= b;
    v2 ^= ol == 16 ? 0xee : 0xff; for (int r = 0; r < 4; r++) { SR() } wle64(out, v0 ^ v1 ^ v2 ^ v3);
    if (ol == 16) { v1 ^= 0xdd; for (int r = 0; r < 4; r++) { SR() } wle64(out + 8, v0 ^ v1 ^ v2 ^ v3); }
}
int ref_wrap(const RefBlk *b, int pad, const uint8_t *iv, const uint8_t *in, size_t n, uint8_t *out)
{
    uint8_t A[8]; size_t pl = (n + 7) / 8 * 8; uint8_t *r = calloc(1, pl + 8); memcpy(r, in, n);
    if (pad) { memcpy(A, iv, 4); wbe32(A + 4, (uint32_t)n); } else { memcpy(A, iv, 8); }
    size_t m = pl / 8;
    if (pad && m == 1) { uint8_t x[16]; memcpy(x, A, 8); memcpy(x + 8, r, 8); ref_blk_enc(b, x, out); free(r); return 16; }
    for (int j = 0; j < 6; j++) { for (size_t i = 1; i <= m; i++) { uint8_t x[16]; memcpy(x, A, 8); memcpy(x + 8, r + 8 * (i - 1), 8); ref_blk_enc(b, x, x); uint64_t t = m * j + i; wbe64(A, be64(x) ^ t); memcpy(r + 8 * (i - 1), x + 8, 8); } }
    memcpy(out, A, 8); memcpy(out + 8, r, pl); free(r); return (int)pl + 8;
}
