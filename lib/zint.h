/* Schoolbook integers on 32-bit digits (the reference arithmetic). */
#ifndef ZINT_H
#define ZINT_H
#include "mc.h"
#pragma GCC diagnostic ignored "-Wunused-function"
#define MAXW 700
typedef struct { int neg, n; uint32_t d[MAXW]; } Z;
static void zn(Z *a) { while (a->n && !a->d[a->n - 1]) { a->n--; } if (!a->n) { a->neg = 0; } }
static int zc(const Z *a, const Z *b) { if (a->n != b->n) { return a->n < b->n ? -1 : 1; } for (int i = a->n; i--;) { if (a->d[i] != b->d[i]) { return a->d[i] < b->d[i] ? -1 : 1; } } return 0; }
static void zcp(Z *r, const Z *a) { r->neg = a->neg; r->n = a->n; memcpy(r->d, a->d, 4 * a->n); }
static void zaddm(Z *r, const Z *a, const Z *b) { uint64_t c = 0; int n = a->n > b->n ? a->n : b->n; uint32_t o[MAXW]; for (int i = 0; i < n; i++) { c += (i < a->n ? a->d[i] : 0) + (uint64_t)(i < b->n ? b->d[i] : 0); o[i] = c; c >>= 32; } o[n] = c; memcpy(r->d, o, 4 * (n + 1)); r->n = n + 1; }
static void zsubm(Z *r, const Z *a, const Z *b) { int64_t c = 0; int n = a->n; uint32_t o[MAXW]; for (int i = 0; i < n; i++) { c += (int64_t)a->d[i] - (i < b->n ? b->d[i] : 0); o[i] = c; c >>= 32; } memcpy(r->d, o, 4 * n); r->n = n; }
static void zaddx(Z *r, const Z *a, const Z *b, int bneg) { int an = a->neg; if (an == bneg) { zaddm(r, a, b); r->neg = an; } else if (zc(a, b) >= 0) { zsubm(r, a, b); r->neg = an; } else { zsubm(r, b, a); r->neg = bneg; } zn(r); }
static void zadd(Z *r, const Z *a, const Z *b) { zaddx(r, a, b, b->neg); }
static void zsub(Z *r, const Z *a, const Z *b) { zaddx(r, a, b, !b->neg); }
static void zmul(Z *r, const Z *a, const Z *b) { static Z t; t.n = a->n + b->n; t.neg = a->neg ^ b->neg; memset(t.d, 0, 4 * t.n); for (int i = 0; i < a->n; i++) { uint64_t c = 0; for (int j = 0; j < b->n; j++) { c += (uint64_t)a->d[i] * b->d[j] + t.d[i + j]; t.d[i + j] = c; c >>= 32; } t.d[i + b->n] = c; } zn(&t); zcp(r, &t); }
static void zshl(Z *r, const Z *a, int k) { Z t; int w = k / 32, b = k % 32; t.neg = a->neg; t.n = a->n + w + 1; memset(t.d, 0, 4 * t.n); for (int i = 0; i < a->n; i++) { uint64_t v = (uint64_t)a->d[i] << b; t.d[i + w] |= v; t.d[i + w + 1] = v >> 32; } zn(&t); zcp(r, &t); }
static void zshr(Z *r, const Z *a, int k) { Z t; int w = k / 32, b = k % 32; t.neg = a->neg; t.n = a->n > w ? a->n - w : 0; for (int i = 0; i < t.n; i++) { uint64_t v = a->d[i + w] | (uint64_t)(i + w + 1 < a->n ? a->d[i + w + 1] : 0) << 32; t.d[i] = v >> b; } zn(&t); zcp(r, &t); }
static int zbits(const Z *a) { return a->n ? a->n * 32 - __builtin_clz(a->d[a->n - 1]) : 0; }
/* Knuth D on magnitudes; the identity is verified by the caller's checks on the library result as well */
static void zdivm(Z *q, Z *r, const Z *x, const Z *y)
{
    if (zc(x, y) < 0) { Z t; zcp(&t, x); if (q) { q->n = 0; q->neg = 0; } zcp(r, &t); return; }
    int s = __builtin_clz(y->d[y->n - 1]), n = y->n; static Z u, v; zshl(&u, x, s); zshl(&v, y, s); while (u.n <= x->n) { u.d[u.n++] = 0; } int m = u.n - n - 1; static Z Q; Q.n = m + 1; Q.neg = 0;
    for (int j = m; j >= 0; j--) {
        if (n == 1) { uint64_t w = (uint64_t)u.d[j + 1] << 32 | u.d[j]; Q.d[j] = w / v.d[0]; u.d[j] = w % v.d[0]; u.d[j + 1] = 0; continue; }
        uint64_t w = (uint64_t)u.d[j + n] << 32 | u.d[j + n - 1], qh = w / v.d[n - 1], rh = w % v.d[n - 1];
        while (qh >> 32 || qh * v.d[n - 2] > (rh << 32 | u.d[j + n - 2])) { qh--; rh += v.d[n - 1]; if (rh >> 32) { break; } }
        int64_t c = 0; uint64_t k = 0; for (int i = 0; i < n; i++) { k += qh * v.d[i]; c += (int64_t)u.d[i + j] - (uint32_t)k; u.d[i + j] = c; c >>= 32; k >>= 32; } c += (int64_t)u.d[j + n] - (int64_t)k; u.d[j + n] = c;
        if (c < 0) { qh--; uint64_t a = 0; for (int i = 0; i < n; i++) { a += (uint64_t)u.d[i + j] + v.d[i]; u.d[i + j] = a; a >>= 32; } u.d[j + n] += a; } Q.d[j] = qh;
    }
    u.n = n; u.neg = 0; zn(&u); zshr(r, &u, s); r->neg = 0; zn(&Q); if (q) { zcp(q, &Q); }
}
static void zmod(Z *r, const Z *a, const Z *m) { Z t; zdivm(NULL, &t, a, m); t.neg = 0; if (a->neg && t.n) { Z s; zcp(&s, m); s.neg = 0; zsubm(&t, &s, &t); t.neg = 0; zn(&t); } zcp(r, &t); }
static void zexp(Z *r, const Z *a, const Z *e, const Z *m) { Z x, y; x.n = 1; x.neg = 0; x.d[0] = 1; zmod(&x, &x, m); zmod(&y, a, m); for (int i = 0; i < zbits(e); i++) { if (e->d[i / 32] >> i % 32 & 1) { zmul(&x, &x, &y); zmod(&x, &x, m); } zmul(&y, &y, &y); zmod(&y, &y, m); } zcp(r, &x); }
static void zgcd(Z *r, const Z *a, const Z *b) { Z x, y, t; zcp(&x, a); zcp(&y, b); x.neg = y.neg = 0; while (y.n) { zdivm(NULL, &t, &x, &y); zcp(&x, &y); zcp(&y, &t); } zcp(r, &x); }
static const char *zs(const Z *a) { static char s[4][220]; static int k; char *o = s[k++ & 3]; int p = sprintf(o, "%s", a->neg ? "-" : ""); if (!a->n) { strcpy(o, "0"); } for (int i = a->n; i-- && p < 190;) { p += sprintf(o + p, "%08x", a->d[i]); } return o; }
static void zset(Z *a, uint32_t v) { a->neg = 0; a->n = 1; a->d[0] = v; zn(a); }
static void zbin(Z *a, const uint8_t *b, int l) { a->neg = 0; a->n = (l + 3) / 4; memset(a->d, 0, 4 * a->n); for (int i = 0; i < l; i++) { a->d[(l - 1 - i) / 4] |= (uint32_t)b[i] << 8 * ((l - 1 - i) % 4); } zn(a); }
static void zout(uint8_t *b, int l, const Z *a) { for (int i = 0; i < l; i++) { int k = l - 1 - i; b[i] = k / 4 < a->n ? a->d[k / 4] >> 8 * (k % 4) : 0; } }
static void zhex(Z *a, const char *h) { uint8_t b[1200]; int n = strlen(h), l = (n + 1) / 2; for (int i = 0; i < l; i++) { char t[3] = {0}; int p = n - 2 * (l - i); if (p >= 0) { t[0] = h[p]; t[1] = h[p + 1]; } else { t[0] = h[0]; } b[i] = strtoul(t, NULL, 16); } zbin(a, b, l); }
static void zinvp(Z *r, const Z *a, const Z *p) { /* inverse modulo a prime (extended Euclid) */ Z x, y, u, v, q, t, w; zmod(&x, a, p); zcp(&y, p); zset(&u, 1); zset(&v, 0); while (x.n) { zdivm(&q, &t, &y, &x); zmul(&w, &q, &u); zsub(&w, &v, &w); zcp(&v, &u); zcp(&u, &w); zcp(&y, &x); zcp(&x, &t); } zmod(r, &v, p); }
static void zmulm(Z *r, const Z *a, const Z *b, const Z *m) { Z t; zmul(&t, a, b); zmod(r, &t, m); }
#endif
