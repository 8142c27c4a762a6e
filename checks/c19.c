/* C19: key agreement, encapsulation, public-key encryption: agreement with reference arithmetic, every alteration, degenerate values. */
#include "pk.h"
#include "zec.h"
static uint8_t A[1 << 21], B[1 << 21], msg[4096];
/* one-octet-string key parameter */
static int32_t set1(CRYPT_EAL_PkeyCtx *k, int id, const uint8_t *b, uint32_t l, bool pub)
{
    BSL_Param p[2] = {{0}, BSL_PARAM_END}; BSL_PARAM_InitValue(&p[0], id, BSL_PARAM_TYPE_OCTETS, (void *)(uintptr_t)b, l);
    return pub ? CRYPT_EAL_PkeySetPubEx(k, p) : CRYPT_EAL_PkeySetPrvEx(k, p);
}
static int32_t get1(CRYPT_EAL_PkeyCtx *k, int id, uint8_t *b, uint32_t *l, bool pub)
{
    BSL_Param p[2] = {{0}, BSL_PARAM_END}; BSL_PARAM_InitValue(&p[0], id, BSL_PARAM_TYPE_OCTETS, b, *l);
    int32_t r = pub ? CRYPT_EAL_PkeyGetPubEx(k, p) : CRYPT_EAL_PkeyGetPrvEx(k, p); *l = p[0].useLen; return r;
}
/* private key given, peer's public key given: the share, or an error from any step */
static int32_t share(const PkAlg *a, const uint8_t *prv, uint32_t pl, const uint8_t *pub, uint32_t ul, uint8_t *out, uint32_t *ol)
{
    CRYPT_EAL_PkeyCtx *k = pk_new(a), *u = pk_new(a); int32_t r = set1(k, a->prvIds[0], prv, pl, false);
    if (!r) { r = set1(u, a->pubIds[0], pub, ul, true); }
    if (!r) { r = CRYPT_EAL_PkeyComputeShareKey(k, u, out, ol); }
    mc_transitions(3); CRYPT_EAL_PkeyFreeCtx(k); CRYPT_EAL_PkeyFreeCtx(u); return r;
}
/* ---- ECDH ---- */
static void enc(uint8_t *o, const ZPt *p, int len) { o[0] = 4; zout(o + 1, len, &p->x); zout(o + 1 + len, len, &p->y); }
static bool onCurve(const ZCv *c, const uint8_t *x, const uint8_t *y)
{
    Z a, b, t, u; zbin(&a, x, c->len); zbin(&b, y, c->len); if (zc(&a, &c->p) >= 0 || zc(&b, &c->p) >= 0) { return false; }
    zmulm(&t, &a, &a, &c->p); zadd(&t, &t, &c->a); zmul(&t, &t, &a); zadd(&t, &t, &c->b); zmod(&t, &t, &c->p); zmulm(&u, &b, &b, &c->p); return zc(&t, &u) == 0;
}
static const PkAlg *ecdh(int id) { for (int i = 0; i < pk_nalgs; i++) { if (pk_algs[i].alg == CRYPT_PKEY_ECDH && pk_algs[i].para == id) { return &pk_algs[i]; } } mc_fatal("no curve %d", id); }
static void one(const ZCurve *zk, const PkAlg *a, const ZCv *c, const Z *d, const uint8_t *peer, const ZPt *want, const char *what)
{
    uint8_t prv[80], out[80]; uint32_t ol = sizeof(out); zout(prv, c->len, d); memset(out, 0xaa, sizeof(out)); int32_t r = share(a, prv, c->len, peer, 2 * c->len + 1, out, &ol); uint8_t w[80];
    if (r) { mc_fail("%s: share with private key %s and %s fails: %x", zk->name, zs(d), what, r); return; }
    zout(w, c->len, &want->x); if (ol != (uint32_t)c->len || memcmp(out, w, ol)) { mc_fail("%s: share with private key %s and %s is %s, should be %s", zk->name, zs(d), what, mc_hex(out, ol), mc_hex(w, c->len)); }
    mc_outcome(out, ol);
}
/* the public key belonging to a private key */
static void pubof(const ZCurve *zk, const PkAlg *a, const ZCv *c, const Z *d, const ZPt *want)
{
    uint8_t prv[80], pub[200], w[200]; uint32_t l = sizeof(pub); zout(prv, c->len, d); enc(w, want, c->len); CRYPT_EAL_PkeyCtx *k = pk_new(a);
    int32_t r = set1(k, a->prvIds[0], prv, c->len, false); if (!r) { r = CRYPT_EAL_PkeyCtrl(k, CRYPT_CTRL_GEN_ECC_PUBLICKEY, NULL, 0); } if (!r) { r = get1(k, a->pubIds[0], pub, &l, true); }
    if (r) { mc_fail("%s: public key of %s: error %x", zk->name, zs(d), r); } else if (l != 2u * c->len + 1 || memcmp(pub, w, l)) { mc_fail("%s: public key of %s is %s, should be %s", zk->name, zs(d), mc_hex(pub, l), mc_hex(w, 2 * c->len + 1)); }
    CRYPT_EAL_PkeyFreeCtx(k);
}
static ZPt w0;
static void ecArith(int ci)
{
    const ZCurve *zk = &ZC[ci]; const PkAlg *a = ecdh(zk->id); static ZCv c; static ZPt g, p, q, g2; zcv(&c, &g, zk); Z d; uint8_t eg[200], e2[200]; enc(eg, &g, c.len); zpadd(&g2, &g, &g, &c); enc(e2, &g2, c.len);
    int N = mc_thorough ? 600 : 64;
    if (mc_case("ecdh %s small scalars", zk->name)) { p.inf = true; q.inf = true; for (int i = 1; i <= N && !mc_failed(); i++) { zpadd(&p, &p, &g, &c); zpadd(&q, &q, &g2, &c); zset(&d, i); one(zk, a, &c, &d, eg, &p, "G"); one(zk, a, &c, &d, e2, &q, "2G"); pubof(zk, a, &c, &d, &p); } }
    if (mc_case("ecdh %s large scalars", zk->name)) { /* n - i: the negative of i */ p.inf = true; for (int i = 1; i <= N && !mc_failed(); i++) { zpadd(&p, &p, &g, &c); if (i == 1 && a->para == CRYPT_ECC_SM2) { continue; } /* GB/T 32918: d <= n - 2 */ Z t; zset(&t, i); zsub(&d, &c.n, &t); one(zk, a, &c, &d, eg, &p, "G"); q = p; zsub(&q.y, &c.p, &p.y); pubof(zk, a, &c, &d, &q); } }
    int bits = zbits(&c.n);
    for (int part = 0; part < 4; part++) {
        if (!mc_case("ecdh %s powers of two part %d", zk->name, part)) { continue; }
        static ZPt w, m, s, ng; ng = g; zsub(&ng.y, &c.p, &g.y); w = g; Z o, one1; zset(&one1, 1); zcp(&o, &one1);
        for (int i = 1; i < bits - 1 && !mc_failed(); i++) { zpadd(&w, &w, &w, &c); zadd(&o, &o, &o); if (i < 2 || i % 4 != part || (!mc_thorough && i % 3 && i % 32 > 1 && i % 32 < 31 && i % 52 > 1)) { continue; } zpadd(&m, &w, &ng, &c); zpadd(&s, &w, &g, &c);
            one(zk, a, &c, &o, eg, &w, "G"); zadd(&d, &o, &one1); one(zk, a, &c, &d, eg, &s, "G"); pubof(zk, a, &c, &d, &s); zsub(&d, &o, &one1); one(zk, a, &c, &d, eg, &m, "G");
            uint8_t ep[200]; enc(ep, &w, c.len); zset(&d, 3); static ZPt w3; zpadd(&w3, &w, &w, &c); zpadd(&w3, &w3, &w, &c); one(zk, a, &c, &d, ep, &w3, "2^i G"); }
    }
    if (mc_case("ecdh %s digit patterns", zk->name)) { static const uint8_t pat[] = {0x11, 0x1f, 0xf1, 0x0f, 0xf0, 0x77, 0x88, 0x80, 0x01, 0x7f, 0xfe, 0xaa, 0x55, 0x21, 0x42, 0x84, 0xdb}; /* scalars of one repeated byte: reference by double-and-add */
        for (unsigned i = 0; i < MC_LEN(pat) && !mc_failed(); i++) { uint8_t b[80]; memset(b, pat[i], c.len); b[0] = 0; if (c.len == 66) { b[1] = 0; } zbin(&d, b, c.len); zpmul(&w0, &g2, &d, &c); one(zk, a, &c, &d, e2, &w0, "2G"); zpmul(&w0, &g, &d, &c); pubof(zk, a, &c, &d, &w0); } }
}
/* values that are not (canonical) points, and private keys out of range */
static void ecBad(int ci)
{
    const ZCurve *zk = &ZC[ci]; const PkAlg *a = ecdh(zk->id); static ZCv c; static ZPt g, p; zcv(&c, &g, zk); int L = c.len; uint8_t e[200], f[400], prv[80], out[80], want[80]; Z d, t; uint32_t ol;
    zset(&d, 5); zpmul(&p, &g, &d, &c); enc(e, &p, L); zset(&d, 7); zout(prv, L, &d); zpmul(&w0, &p, &d, &c); zout(want, L, &w0.x);
#define TRY(len, ...) do { ol = sizeof(out); if (!share(a, prv, L, f, len, out, &ol)) { mc_fail(__VA_ARGS__); } } while (0)
    if (mc_case("ecdh %s altered points", zk->name)) {
        for (int i = 0; i < L * 16 && !mc_failed(); i++) { memcpy(f, e, 2 * L + 1); f[1 + i / 8] ^= 1 << i % 8; if (onCurve(&c, f + 1, f + 1 + L)) { continue; } TRY(2 * L + 1, "%s: a share is computed with a point off the curve (bit %d flipped)", zk->name, i); }
        for (int v = 0; v < 256 && !mc_failed(); v++) { memcpy(f, e, 2 * L + 1); f[0] = v; ol = sizeof(out); bool hyb = (v == 6 || v == 7) && (v & 1) == (e[2 * L] & 1); int32_t r = share(a, prv, L, f, 2 * L + 1, out, &ol); if (!r && v != 4 && !hyb) { mc_fail("%s: point with leading byte %d accepted", zk->name, v); } if (!r && memcmp(out, want, L)) { mc_fail("%s: leading byte %d gives another point", zk->name, v); }
            ol = sizeof(out); r = share(a, prv, L, f, L + 1, out, &ol); if (!r && v != 2 && v != 3) { mc_fail("%s: compressed point with leading byte %d accepted", zk->name, v); } if (!r && memcmp(out, want, L)) { mc_fail("%s: compressed point gives another share", zk->name); } }
        for (int l = 0; l <= 2 * L + 4 && !mc_failed(); l++) { if (l == 2 * L + 1) { continue; } memset(f, 0, sizeof(f)); memcpy(f, e, 2 * L + 1); TRY(l, "%s: point of %d bytes accepted", zk->name, l); }
        memset(f, 0, sizeof(f)); TRY(1, "%s: the point at infinity is accepted", zk->name); f[0] = 4; TRY(2 * L + 1, "%s: (0,0) accepted", zk->name); memset(f + 1, 0xff, 2 * L); TRY(2 * L + 1, "%s: all-ones accepted", zk->name); TRY(0, "%s: empty point accepted", zk->name);
        for (int j = 0; j < 2; j++) { memcpy(f, e, 2 * L + 1); zout(f + 1 + j * L, L, &c.p); if (!onCurve(&c, f + 1, f + 1 + L)) { TRY(2 * L + 1, "%s: coordinate p accepted", zk->name); } memset(f + 1 + j * L, 0, L); if (!onCurve(&c, f + 1, f + 1 + L)) { TRY(2 * L + 1, "%s: coordinate 0 off the curve accepted", zk->name); } }
        /* points with small x: their representative x + p must be refused */
        for (int x = 0, found = 0; x < 400 && found < 6 && zbits(&c.p) % 8 == 0 && !mc_failed(); x++) { /* y by square root when p = 3 mod 4 */ if ((c.p.d[0] & 3) != 3) { break; } Z X, u, y, ex; zset(&X, x); zmulm(&u, &X, &X, &c.p); zadd(&u, &u, &c.a); zmul(&u, &u, &X); zadd(&u, &u, &c.b); zmod(&u, &u, &c.p); zset(&t, 1); zadd(&ex, &c.p, &t); zshr(&ex, &ex, 2); zexp(&y, &u, &ex, &c.p); Z yy; zmulm(&yy, &y, &y, &c.p); if (zc(&yy, &u)) { continue; } found++;
            ZPt s; s.inf = false; zcp(&s.x, &X); zcp(&s.y, &y); enc(f, &s, L); zset(&d, 7); static ZPt m; zpmul(&m, &s, &d, &c); one(zk, a, &c, &d, f, &m, "a point of small x"); Z px; zadd(&px, &X, &c.p); if (zbits(&px) <= 8 * L) { zout(f + 1, L, &px); TRY(2 * L + 1, "%s: coordinate x + p accepted (x = %d)", zk->name, x); } }
    }
    if (mc_case("ecdh %s compressed points", zk->name)) { /* what the library itself encodes in each form decodes to the same point */
        for (int w = 0; w < 12 && !mc_failed(); w++) { static ZPt m; zset(&d, 3 + w); zpmul(&m, &g, &d, &c); uint8_t pub[200]; enc(pub, &m, L); for (int form = 0; form < 3; form++) { CRYPT_EAL_PkeyCtx *k = pk_new(a); uint32_t v = form == 0 ? CRYPT_POINT_COMPRESSED : form == 1 ? CRYPT_POINT_UNCOMPRESSED : CRYPT_POINT_HYBRID, l = sizeof(f); int32_t r = set1(k, a->pubIds[0], pub, 2 * L + 1, true);
            if (r) { mc_fail("%s: point %dG refused %x", zk->name, 3 + w, r); } else { r = CRYPT_EAL_PkeyCtrl(k, CRYPT_CTRL_SET_ECC_POINT_FORMAT, &v, sizeof(v)); if (!r) { r = get1(k, a->pubIds[0], f, &l, true); } if (r) { mc_fail("%s: form %u: %x", zk->name, form, r); }
                else { uint8_t x[200]; int xl = form ? 2 * L + 1 : L + 1; memcpy(x, pub, xl); x[0] = form == 1 ? 4 : (form ? 6 : 2) + (pub[2 * L] & 1); if (l != (uint32_t)xl || memcmp(x, f, xl)) { mc_fail("%s: form %u of %dG is %s, should be %s", zk->name, form, 3 + w, mc_hex(f, l), mc_hex(x, xl)); }
                    ol = sizeof(out); zset(&d, 7); static ZPt s; zpmul(&s, &m, &d, &c); zout(want, L, &s.x); r = share(a, prv, L, f, l, out, &ol); if (r) { mc_fail("%s: own form %u of %dG is not accepted: %x", zk->name, form, 3 + w, r); } else if (memcmp(out, want, L)) { mc_fail("%s: form %u of %dG decodes to another point", zk->name, form, 3 + w); }
                    if (form != 1) { f[0] ^= 1; ol = sizeof(out); r = share(a, prv, L, f, l, out, &ol); if (form == 2 && !r) { mc_fail("%s: hybrid form with the wrong parity accepted", zk->name); } else if (form == 0 && (r || memcmp(out, want, L))) { mc_fail("%s: compressed form of -P: %x", zk->name, r); } } } }
            CRYPT_EAL_PkeyFreeCtx(k); } }
        /* x coordinates that belong to no point */
        for (int x = 0; x < 60 && !mc_failed(); x++) { Z X, u, h; zset(&X, x); zmulm(&u, &X, &X, &c.p); zadd(&u, &u, &c.a); zmul(&u, &u, &X); zadd(&u, &u, &c.b); zmod(&u, &u, &c.p); zset(&t, 1); zsub(&h, &c.p, &t); zshr(&h, &h, 1); zexp(&h, &u, &h, &c.p); bool sq = !u.n || (h.n == 1 && h.d[0] == 1); for (int s = 2; s < 4; s++) { f[0] = s; zout(f + 1, L, &X); ol = sizeof(out); int32_t r = share(a, prv, L, f, L + 1, out, &ol); if (sq && u.n && r) { mc_fail("%s: compressed point x = %d refused %x", zk->name, x, r); } if (!sq && !r) { mc_fail("%s: compressed x = %d belongs to no point but is accepted", zk->name, x); } } }
    }
    if (mc_case("ecdh %s private key range", zk->name)) {
        memcpy(f, e, 2 * L + 1); for (int i = -3; i <= 6; i++) { Z k; zset(&t, abs(i)); if (i < 0) { zsub(&k, &c.n, &t); } else { zadd(&k, &c.n, &t); } if (zbits(&k) > 8 * L) { continue; } zout(prv, L, &k); ol = sizeof(out); int32_t r = share(a, prv, L, f, 2 * L + 1, out, &ol); if (i >= 0 && !r) { mc_fail("%s: private key n+%d accepted", zk->name, i); } if (i < 0 && r && !(i == -1 && a->para == CRYPT_ECC_SM2)) { mc_fail("%s: private key n-%d refused %x", zk->name, -i, r); } }
        memset(prv, 0, L); TRY(2 * L + 1, "%s: private key 0 accepted", zk->name); memset(prv, 0xff, L); TRY(2 * L + 1, "%s: private key of all ones accepted", zk->name);
    }
#undef TRY
}
/* both sides of every agreement, contexts holding generated keys */
static void agree(const PkAlg *a)
{
    for (int v = 0; v < (mc_thorough ? 40 : 6) && !mc_failed(); v++) {
        CRYPT_EAL_PkeyCtx *x = pk_gen(a, 100 + 2 * v), *y = pk_gen(a, 101 + 2 * v), *px = x ? pk_pub(a, x) : NULL, *py = y ? pk_pub(a, y) : NULL; uint32_t l1 = sizeof(A), l2 = sizeof(B), l3; uint8_t C[2048];
        if (!px || !py) { mc_fail("%s: key generation", a->name); }
        else { int32_t r = CRYPT_EAL_PkeyComputeShareKey(x, py, A, &l1), s = CRYPT_EAL_PkeyComputeShareKey(y, px, B, &l2); mc_transitions(2); if (r || s || l1 != l2 || memcmp(A, B, l1)) { mc_fail("%s: the parties compute %x %s and %x %s", a->name, r, mc_hex(A, l1), s, mc_hex(B, l2)); }
            mc_outcome(A, l1); l3 = sizeof(C); r = CRYPT_EAL_PkeyComputeShareKey(x, y, C, &l3); if (r || l3 != l1 || memcmp(A, C, l1)) { mc_fail("%s: peer context with private key gives another secret (%x)", a->name, r); }
            l3 = sizeof(C); r = CRYPT_EAL_PkeyComputeShareKey(x, px, C, &l3); if (!r && l3 == l1 && !memcmp(A, C, l1)) { mc_fail("%s: other peer, same secret", a->name); }
            l3 = sizeof(C); if (!CRYPT_EAL_PkeyComputeShareKey(px, py, C, &l3)) { mc_fail("%s: secret computed without a private key", a->name); } if (!CRYPT_EAL_PkeyComputeShareKey(x, NULL, C, &l3)) { mc_fail("%s: no peer", a->name); }
            CRYPT_EAL_PkeyCtx *e = pk_new(a); l3 = sizeof(C); if (!CRYPT_EAL_PkeyComputeShareKey(x, e, C, &l3)) { mc_fail("%s: peer without a public key accepted", a->name); } l3 = sizeof(C); if (!CRYPT_EAL_PkeyComputeShareKey(e, py, C, &l3)) { mc_fail("%s: no own key", a->name); } CRYPT_EAL_PkeyFreeCtx(e);
            for (uint32_t c = 0; c < l1; c += c < 4 || c + 4 > l1 ? 1 : 7) { l3 = c; memset(C, 0x5a, sizeof(C)); r = CRYPT_EAL_PkeyComputeShareKey(x, py, C, &l3); if (!r && l3 > c) { mc_fail("%s: %u bytes reported for a buffer of %u", a->name, l3, c); } for (uint32_t i = c; i < c + 64; i++) { if (C[i] != 0x5a) { mc_fail("%s: writes past a buffer of %u", a->name, c); break; } } if (!r && c < l1) { mc_fail("%s: short secret of %u bytes", a->name, c); } }
            for (int i = 0; i < pk_nalgs && v == 0; i++) { const PkAlg *o = &pk_algs[i]; if (!(o->op & CRYPT_EAL_PKEY_EXCH_OPERATE) || o->alg == a->alg) { continue; } l3 = sizeof(C); if (!CRYPT_EAL_PkeyComputeShareKey(x, pk_key(o, 0), C, &l3)) { mc_fail("%s: a peer key of %s is accepted", a->name, o->name); } }
            if (a->kind == PK_EC) { for (int i = 0; i < pk_nalgs && v == 0; i++) { const PkAlg *o = &pk_algs[i]; l3 = sizeof(C); if (o->alg == a->alg && o != a && !CRYPT_EAL_PkeyComputeShareKey(x, pk_key(o, 0), C, &l3)) { mc_fail("%s: a peer key of curve %s is accepted", a->name, o->name); } } } }
        CRYPT_EAL_PkeyFreeCtx(x); CRYPT_EAL_PkeyFreeCtx(y); CRYPT_EAL_PkeyFreeCtx(px); CRYPT_EAL_PkeyFreeCtx(py);
    }
}
/* ---- X25519 (RFC 7748 ladder on schoolbook integers) ---- */
static Z P25;
static void x25519(uint8_t out[32], const uint8_t k[32], const uint8_t u[32])
{
    uint8_t e[32], r[32]; memcpy(e, k, 32); e[0] &= 248; e[31] = (e[31] & 127) | 64; for (int i = 0; i < 32; i++) { r[i] = u[31 - i]; } r[0] &= 127; Z x1, x2, z2, x3, z3, t, q, a, b, c, d, aa, bb, ee, k24; zbin(&x1, r, 32); zmod(&x1, &x1, &P25);
    zset(&x2, 1); zset(&z2, 0); zcp(&x3, &x1); zset(&z3, 1); zset(&k24, 121665); int sw = 0;
    for (int i = 254; i >= 0; i--) { int bit = e[i / 8] >> i % 8 & 1; if (sw ^ bit) { zcp(&t, &x2); zcp(&x2, &x3); zcp(&x3, &t); zcp(&t, &z2); zcp(&z2, &z3); zcp(&z3, &t); } sw = bit;
        zadd(&a, &x2, &z2); zmulm(&aa, &a, &a, &P25); zsub(&b, &x2, &z2); zmod(&b, &b, &P25); zmulm(&bb, &b, &b, &P25); zsub(&ee, &aa, &bb); zmod(&ee, &ee, &P25); zadd(&c, &x3, &z3); zsub(&d, &x3, &z3); zmod(&d, &d, &P25); zmulm(&t, &d, &a, &P25); zmulm(&q, &c, &b, &P25);
        zadd(&x3, &t, &q); zmulm(&x3, &x3, &x3, &P25); zsub(&z3, &t, &q); zmod(&z3, &z3, &P25); zmulm(&z3, &z3, &z3, &P25); zmulm(&z3, &z3, &x1, &P25); zmulm(&x2, &aa, &bb, &P25); zmulm(&t, &ee, &k24, &P25); zadd(&t, &t, &aa); zmulm(&z2, &ee, &t, &P25); }
    if (sw) { zcp(&x2, &x3); zcp(&z2, &z3); }
    if (z2.n) { zinvp(&t, &z2, &P25); zmulm(&x2, &x2, &t, &P25); } else { zset(&x2, 0); }
    zout(r, 32, &x2); for (int i = 0; i < 32; i++) { out[i] = r[31 - i]; }
}
static void xone(const uint8_t k[32], const uint8_t u[32])
{
    static const uint8_t zero[32]; uint8_t w[32], o[32]; uint32_t ol = 32; const PkAlg *a = pk_find("x25519"); x25519(w, k, u); int32_t r = share(a, k, 32, u, 32, o, &ol);
    if (!memcmp(w, zero, 32)) { if (!r) { mc_fail("x25519: low-order peer value %s accepted, secret %s", mc_hex(u, 32), mc_hex(o, 32)); } return; }
    if (r || ol != 32 || memcmp(o, w, 32)) { mc_fail("x25519(%s, %s): %x %s, should be %s", mc_hex(k, 32), mc_hex(u, 32), r, mc_hex(o, 32), mc_hex(w, 32)); } mc_outcome(o, 32);
}
static void x25519Cases(void)
{
    zhex(&P25, "7fffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffed"); uint8_t k[32], u[32], le[32]; uint8_t base[32] = {9}; const PkAlg *a = pk_find("x25519");
    static const char *low[] = {"00", "01", "ecffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff7f", "e0eb7a7c3b41b8ae1656e3faf19fc46ada098deb9c32b1fd866205165f49b800", "5f9c95bca3508c24b1d0b1559c83ef5b04445cc4581c8e86d8224eddd09f1157", "edffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff7f", "eeffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff7f", "cdeb7a7c3b41b8ae1656e3faf19fc46ada098deb9c32b1fd866205165f49b880", "4c9c95bca3508c24b1d0b1559c83ef5b04445cc4581c8e86d8224eddd09f11d7"};
    if (mc_case("x25519 small-order values")) { for (unsigned i = 0; i < MC_LEN(low); i++) { for (int hi = 0; hi < 2; hi++) { for (int s = 0; s < 8; s++) { memset(u, 0, 32); for (int j = 0; low[i][2 * j]; j++) { char t[3] = {low[i][2 * j], low[i][2 * j + 1]}; u[j] = strtoul(t, NULL, 16); } u[31] ^= hi << 7; mc_fill(k, 32, s); xone(k, u); } } } }
    if (mc_case("x25519 values near p")) { for (int i = -4; i < 24; i++) { memset(u, 0xff, 32); u[31] = 0x7f; int v = 0xed + i; if (v > 255) { memset(u, 0, 32); u[0] = v - 256; } else { u[0] = v; } for (int s = 0; s < 3; s++) { mc_fill(k, 32, 50 + s); xone(k, u); u[31] ^= 0x80; } } }
    for (int part = 0; part < 8; part++) { if (!mc_case("x25519 peer values part %d", part)) { continue; } for (int i = part; i < 256 && !mc_failed(); i += 8) { memset(u, 0, 32); u[i / 8] = 1 << i % 8; mc_fill(k, 32, 70); xone(k, u); for (int j = 0; j < 32; j++) { u[j] = ~u[j]; } xone(k, u); mc_fill(u, 32, 900 + i); xone(k, u); } }
    for (int part = 0; part < 8; part++) { if (!mc_case("x25519 private keys part %d", part)) { continue; } for (int i = part; i < 256 && !mc_failed(); i += 8) { memset(k, 0, 32); k[i / 8] = 1 << i % 8; mc_fill(u, 32, 71); xone(k, u); xone(k, base); for (int j = 0; j < 32; j++) { k[j] = ~k[j]; } xone(k, base); mc_fill(k, 32, 1200 + i); xone(k, base);
            /* the public key the library derives */ CRYPT_EAL_PkeyCtx *c = pk_new(a); uint32_t l = 32; x25519(le, k, base); int32_t r = set1(c, a->prvIds[0], k, 32, false); if (!r) { r = CRYPT_EAL_PkeyCtrl(c, CRYPT_CTRL_GEN_X25519_PUBLICKEY, NULL, 0); } if (!r) { r = get1(c, a->pubIds[0], u, &l, true); } if (r || memcmp(u, le, 32)) { mc_fail("x25519: public key of %s: %x %s should be %s", mc_hex(k, 32), r, mc_hex(u, 32), mc_hex(le, 32)); } CRYPT_EAL_PkeyFreeCtx(c); } }
    if (mc_case("x25519 lengths")) { mc_fill(k, 32, 1); uint8_t v[64]; memset(v, 9, 64); for (int l = 0; l < 64; l++) { uint32_t ol = 32; if (l == 32) { continue; } if (!share(a, k, 32, v, l, u, &ol)) { mc_fail("x25519: public key of %d bytes accepted", l); } ol = 32; if (!share(a, v, l, base, 32, u, &ol)) { mc_fail("x25519: private key of %d bytes accepted", l); } } }
}
/* ---- finite-field Diffie-Hellman ---- */
static void dh(const PkAlg *a)
{
    static CRYPT_EAL_PkeyPara pa; static Z p, q, g, y, x, s, t; CRYPT_EAL_PkeyCtx *k = pk_new(a); static uint8_t bp[1100], bq[1100], bg[1100], pub[1100], prv[1100], out[1100], w[1100]; memset(&pa, 0, sizeof(pa)); pa.id = CRYPT_PKEY_DH; pa.para.dhPara.p = bp; pa.para.dhPara.q = bq; pa.para.dhPara.g = bg; pa.para.dhPara.pLen = pa.para.dhPara.qLen = pa.para.dhPara.gLen = sizeof(bp);
    int32_t r = CRYPT_EAL_PkeyGetPara(k, &pa); CRYPT_EAL_PkeyFreeCtx(k); if (r) { mc_fatal("%s parameters %x", a->name, r); } zbin(&p, bp, pa.para.dhPara.pLen); zbin(&q, bq, pa.para.dhPara.qLen); zbin(&g, bg, pa.para.dhPara.gLen); int L = (zbits(&p) + 7) / 8; uint32_t ol, xl = 32; mc_note("%s p %d bits q %d bits g %s", a->name, zbits(&p), zbits(&q), zs(&g));
    Z one1; zset(&one1, 1);
#define BADPUB(z, what) do { zout(pub, L, z); ol = sizeof(out); mc_fill(prv, xl, 3); prv[0] &= 0x3f; if (!share(a, prv, xl, pub, L, out, &ol)) { mc_fail("%s: peer value %s accepted", a->name, what); } } while (0)
    zset(&t, 0); BADPUB(&t, "0"); BADPUB(&one1, "1"); zsub(&t, &p, &one1); BADPUB(&t, "p-1"); BADPUB(&p, "p"); zadd(&t, &p, &one1); BADPUB(&t, "p+1"); zset(&t, 2); zadd(&t, &t, &p); BADPUB(&t, "p+2"); memset(pub, 0xff, sizeof(pub)); ol = sizeof(out); if (!share(a, prv, xl, pub, L, out, &ol)) { mc_fail("%s: all-ones peer value accepted", a->name); } ol = sizeof(out); if (!share(a, prv, xl, pub, 0, out, &ol)) { mc_fail("%s: empty peer value accepted", a->name); }
    zout(pub + 1, L, &g); pub[0] = 1; ol = sizeof(out); if (!share(a, prv, xl, pub, L + 1, out, &ol)) { mc_fail("%s: peer value longer than p accepted", a->name); }
    /* reference exponentiation; including shares with leading zero bytes: y = small value ^ (1/x) is unavailable, so enumerate peers until they occur */
    int zeros = 0, lim = L <= 96 ? 900 : L <= 128 ? 300 : 20; if (mc_thorough) { lim *= 4; }
    zset(&x, 2); zexp(&y, &g, &x, &p);
    for (int i = 0; i < lim && !mc_failed(); i++) { /* exponents 2, 3, 4, ...: own value is fixed; the peer value is g^i computed by repeated multiplication */
        mc_fill(prv, xl, 1000 + i / 300); prv[0] &= 0x3f; zbin(&x, prv, xl); zout(pub, L, &y); ol = sizeof(out); r = share(a, prv, xl, pub, L, out, &ol); if (r) { mc_fail("%s: peer g^%d refused: %x", a->name, i + 2, r); break; }
        if (i < 12 || (ol == (uint32_t)L && out[0] == 0) || ol != (uint32_t)L) { zexp(&s, &y, &x, &p); zout(w, L, &s); if (!w[0]) { zeros++; } if (ol != (uint32_t)L || memcmp(out, w, L)) { mc_fail("%s: share of %u bytes %s, should be %s", a->name, ol, mc_hex(out, ol), mc_hex(w, L)); } } mc_outcome(out, ol); zmulm(&y, &y, &g, &p); }
    if (mc_failed()) { return; }
    mc_note("%s: %d shares with a leading zero", a->name, zeros);
    static const int ex[] = {1, 2, 3, 4, 5, 16, 17, 255, 256, 65535}; mc_fill(w, L, 77); w[0] = 0; zbin(&t, w, L); zmulm(&y, &t, &t, &p); zout(pub, L, &y); /* a square: member of the prime-order subgroup of a safe prime */
    for (unsigned i = 0; i < MC_LEN(ex); i++) { zset(&x, ex[i]); memset(prv, 0, xl); zout(prv, xl, &x); ol = sizeof(out); r = share(a, prv, xl, pub, L, out, &ol); if (r) { mc_note("%s: private key %d refused %x", a->name, ex[i], r); continue; } zexp(&s, &y, &x, &p); zout(w, L, &s); if (memcmp(out, w, L)) { mc_fail("%s: share with private key %d is wrong", a->name, ex[i]); } }
    for (int i = 0; i < 6; i++) { /* private keys around q and p */ Z v; zset(&t, i % 3); if (i < 3) { zsub(&v, &p, &t); } else { zadd(&v, &p, &t); } if (zbits(&v) > 8 * L) { continue; } zout(prv, L, &v); ol = sizeof(out); r = share(a, prv, L, pub, L, out, &ol); if (!r) { mc_fail("%s: private key p%+d accepted", a->name, i < 3 ? -i : i - 3); } }
    memset(prv, 0, L); ol = sizeof(out); if (!share(a, prv, xl, pub, L, out, &ol)) { mc_fail("%s: private key 0 accepted", a->name); }
}
/* ---- key encapsulation ---- */
static bool mce(const PkAlg *a) { return a->alg == CRYPT_PKEY_MCELIECE; }
static int32_t encaps(CRYPT_EAL_PkeyCtx *p, uint8_t *c, uint32_t *cl, uint8_t *s, uint32_t *sl) { int32_t r = CRYPT_EAL_PkeyEncapsInit(p, NULL); mc_transitions(2); return r ? r : CRYPT_EAL_PkeyEncaps(p, c, cl, s, sl); }
static int32_t decaps(CRYPT_EAL_PkeyCtx *k, uint8_t *c, uint32_t cl, uint8_t *s, uint32_t *sl) { int32_t r = CRYPT_EAL_PkeyDecapsInit(k, NULL); mc_transitions(2); return r ? r : CRYPT_EAL_PkeyDecaps(k, c, cl, s, sl); }
static uint32_t kemLen(CRYPT_EAL_PkeyCtx *k, int ctl) { uint32_t v = 0; int32_t r = CRYPT_EAL_PkeyCtrl(k, ctl, &v, sizeof(v)); if (r) { mc_fatal("kem length %x", r); } return v; }
static uint8_t ct[40000], c2[40000];
static void kemBasics(const PkAlg *a)
{
    CRYPT_EAL_PkeyCtx *k = pk_key(a, 0), *o = pk_key(a, 1), *pub = pk_pub(a, k), *prv = pk_prv(a, k); uint8_t s1[256], s2[256]; if (!pub || !prv) { mc_fail("%s: key copies", a->name); return; }
    uint32_t cl = kemLen(k, CRYPT_CTRL_GET_CIPHERTEXT_LEN), sl = kemLen(k, CRYPT_CTRL_GET_SHARED_KEY_LEN); mc_note("%s ciphertext %u secret %u", a->name, cl, sl);
    int n = mc_thorough ? 600 : mce(a) ? 6 : a->alg == CRYPT_PKEY_ML_KEM ? 300 : 20;
    for (int i = 0; i < n && !mc_failed(); i++) {
        mc_rand_reseed(5000 + i); uint32_t x = sizeof(ct), y = sizeof(s1), z = sizeof(s2); int32_t r = encaps(pub, ct, &x, s1, &y); if (r) { mc_fail("%s: encapsulation %d: %x", a->name, i, r); break; }
        r = decaps(i & 1 ? prv : k, ct, x, s2, &z); if (r || x != cl || y != sl || z != sl || memcmp(s1, s2, sl)) { mc_fail("%s: encapsulated secret %d is %s (%u), decapsulated %x %s (%u)", a->name, i, mc_hex(s1, y), y, r, mc_hex(s2, z), z); break; } mc_outcome(s1, sl);
        if (i < 3) { z = sizeof(s2); r = decaps(o, ct, x, s2, &z); if (!r && z == sl && !memcmp(s1, s2, sl)) { mc_fail("%s: another key decapsulates the same secret", a->name); } x = sizeof(ct); y = sizeof(s2); memcpy(c2, ct, cl); r = encaps(pub, ct, &x, s2, &y); if (r || !memcmp(s1, s2, sl) || !memcmp(ct, c2, cl)) { mc_fail("%s: two encapsulations give the same result (%x)", a->name, r); } }
        /* encapsulation in the context with the private key */
        if (i == 3) { x = sizeof(ct); y = sizeof(s1); z = sizeof(s2); r = encaps(k, ct, &x, s1, &y); if (!r) { r = decaps(k, ct, x, s2, &z); } if (r || memcmp(s1, s2, sl)) { mc_fail("%s: own key: %x", a->name, r); } }
    }
    if (mc_failed()) { return; }
    uint32_t x = sizeof(ct), y = sizeof(s1), z; mc_rand_reseed(1); if (encaps(pub, ct, &x, s1, &y)) { mc_fail("%s: encapsulation", a->name); return; }
    for (uint32_t l = 0; l < cl + 12 && !mc_failed(); l += l < 40 || l + 40 > cl ? 1 : 101) { if (l == cl) { continue; } memcpy(c2, ct, cl); memset(c2 + cl, 0, 16); z = sizeof(s2); if (!decaps(k, c2, l, s2, &z)) { mc_fail("%s: ciphertext of %u bytes instead of %u accepted", a->name, l, cl); } }
    for (uint32_t l = 0; l < sl && !mc_failed(); l++) { memset(s2, 0x5a, sizeof(s2)); z = l; int32_t r = decaps(k, ct, cl, s2, &z); if (!r) { mc_fail("%s: secret buffer of %u bytes accepted", a->name, l); } for (uint32_t j = l; j < sizeof(s2); j++) { if (s2[j] != 0x5a) { mc_fail("%s: writes past a secret buffer of %u bytes", a->name, l); break; } } x = cl; y = l; memset(s2, 0x5a, sizeof(s2)); if (!encaps(pub, c2, &x, s2, &y)) { mc_fail("%s: secret buffer of %u accepted by encapsulation", a->name, l); } for (uint32_t j = l; j < sizeof(s2); j++) { if (s2[j] != 0x5a) { mc_fail("%s: encapsulation writes past %u bytes", a->name, l); break; } } }
    x = cl - 1; y = sizeof(s2); if (!encaps(pub, c2, &x, s2, &y)) { mc_fail("%s: ciphertext buffer of %u bytes accepted", a->name, cl - 1); }
    z = sizeof(s2); if (!decaps(pub, ct, cl, s2, &z)) { mc_fail("%s: decapsulation without a private key", a->name); }
    z = sl; if (decaps(k, ct, cl, s2, &z) || memcmp(s1, s2, sl)) { mc_fail("%s: decapsulation does not repeat", a->name); }
    CRYPT_EAL_PkeyFreeCtx(pub); CRYPT_EAL_PkeyFreeCtx(prv);
}
/* which byte holds the ignored top bit of an X25519 value in ciphertext and public key: the hybrid secrets concatenate */
static bool ignored(const PkAlg *a, uint32_t i, uint32_t len, uint32_t ml) { return a->alg == CRYPT_PKEY_HYBRID_KEM && strstr(a->name, "x25519") && (i == len - 1 || i == len - ml - 1 || i == 31); }
static void kemAlter(const PkAlg *a, int part, int parts)
{
    CRYPT_EAL_PkeyCtx *k = pk_key(a, 0); uint8_t s1[256], s2[256], w[64]; uint32_t x = sizeof(ct), y = sizeof(s1), z; mc_rand_reseed(2); CRYPT_EAL_PkeyCtx *pub = pk_pub(a, k); if (encaps(pub, ct, &x, s1, &y)) { mc_fail("%s: encapsulation", a->name); return; } memcpy(c2, ct, x);
    static uint8_t prv[4000]; uint32_t pl = sizeof(prv); if (a->alg == CRYPT_PKEY_ML_KEM && get1(k, a->prvIds[0], prv, &pl, false)) { mc_fatal("%s private key", a->name); }
    uint32_t step = mc_thorough ? 1 : a->alg == CRYPT_PKEY_FRODOKEM ? (strstr(a->name, "1344") ? 149 : strstr(a->name, "976") ? 67 : 17) : mce(a) ? 7 : 1;
    for (uint32_t i = part; i < x && !mc_failed(); i += parts) {
        if (i % step && i > 3 && i + 8 < x) { continue; }
        for (int b = 0; b < 8; b++) {
            if (b != (int)(i & 7) && !(a->alg == CRYPT_PKEY_ML_KEM && mc_thorough) && !(mce(a) && mc_thorough)) { continue; }
            c2[i] = ct[i] ^ 1 << b; if (b == 7 && ignored(a, i, x, kemLen(k, CRYPT_CTRL_GET_CIPHERTEXT_LEN))) { c2[i] = ct[i]; continue; }
            z = sizeof(s2); int32_t r = decaps(k, c2, x, s2, &z); if (!r && z == y && !memcmp(s1, s2, y)) { mc_fail("%s: byte %u bit %d of the ciphertext altered, same secret", a->name, i, b); }
            if (a->alg == CRYPT_PKEY_ML_KEM) { static uint8_t in[4000]; memcpy(in, prv + pl - 32, 32); memcpy(in + 32, c2, x); ref_md(R_SHAKE256, in, 32 + x, w, 32); if (r || z != 32 || memcmp(w, s2, 32)) { mc_fail("%s: byte %u altered: decapsulation gives %x %s, implicit rejection prescribes %s", a->name, i, r, mc_hex(s2, z), mc_hex(w, 32)); } }
            else if (a->alg != CRYPT_PKEY_HYBRID_KEM && a->alg != CRYPT_PKEY_MCELIECE && r) { mc_fail("%s: byte %u altered: error %x instead of implicit rejection", a->name, i, r); }
            else if (!r) { uint8_t s3[256]; uint32_t v = sizeof(s3); if (i % 64 == 0 && (decaps(k, c2, x, s3, &v) || v != z || memcmp(s2, s3, z))) { mc_fail("%s: implicit rejection is not deterministic", a->name); } }
            c2[i] = ct[i];
        }
    }
    memset(c2, part & 1 ? 0xff : 0, x); z = sizeof(s2); if (!decaps(k, c2, x, s2, &z) && !memcmp(s1, s2, y)) { mc_fail("%s: constant ciphertext, same secret", a->name); }
    CRYPT_EAL_PkeyFreeCtx(pub);
}
static void kemPub(const PkAlg *a, int part, int parts)
{
    CRYPT_EAL_PkeyCtx *k = pk_key(a, 0); uint8_t s1[256], s2[256]; uint32_t l = sizeof(A), x, y, z; int32_t r = get1(k, a->pubIds[0], A, &l, true); if (r) { mc_fatal("%s public key %x", a->name, r); } uint32_t step = a->alg == CRYPT_PKEY_FRODOKEM && !mc_thorough ? (strstr(a->name, "1344") ? 397 : 131) : a->alg == CRYPT_PKEY_HYBRID_KEM && !mc_thorough ? 3 : 1;
    for (uint32_t i = part; i < l && !mc_failed(); i += parts) {
        if (i % step && i > 20 && i + 20 < l) { continue; } int b = ignored(a, i, l, l) ? i % 7 : i % 8; A[i] ^= 1 << b; CRYPT_EAL_PkeyCtx *p = pk_new(a); r = set1(p, a->pubIds[0], A, l, true);
        if (!r) { x = sizeof(ct); y = sizeof(s1); z = sizeof(s2); r = encaps(p, ct, &x, s1, &y); if (!r && !decaps(k, ct, x, s2, &z) && z == y && !memcmp(s1, s2, y)) { mc_fail("%s: byte %u of the public key altered, both sides share a secret", a->name, i); } } A[i] ^= 1 << b; CRYPT_EAL_PkeyFreeCtx(p);
    }
    if (a->alg == CRYPT_PKEY_ML_KEM) { /* encodings of coefficients not below q = 3329 */
        uint32_t n = (l - 32) * 2 / 3; static const int v[] = {3329, 3330, 3583, 4095};
        for (uint32_t i = part; i < n && !mc_failed(); i += parts) { for (unsigned j = 0; j < MC_LEN(v); j++) { uint8_t *q = A + i / 2 * 3, sv[3]; memcpy(sv, q, 3); if (i & 1) { q[1] = (q[1] & 15) | (v[j] & 15) << 4; q[2] = v[j] >> 4; } else { q[0] = v[j]; q[1] = (q[1] & 0xf0) | v[j] >> 8; } CRYPT_EAL_PkeyCtx *p = pk_new(a); r = set1(p, a->pubIds[0], A, l, true); if (!r) { x = sizeof(ct); y = sizeof(s1); r = encaps(p, ct, &x, s1, &y); } if (!r) { mc_fail("%s: coefficient %u = %d of the encapsulation key accepted", a->name, i, v[j]); } CRYPT_EAL_PkeyFreeCtx(p); memcpy(q, sv, 3); } }
        /* the stored hash of the encapsulation key must match (FIPS 203, 7.3) */
        uint32_t dl = sizeof(B); if (get1(k, a->prvIds[0], B, &dl, false)) { mc_fatal("private key"); } CRYPT_EAL_PkeyCtx *pb = pk_pub(a, k); x = sizeof(ct); y = sizeof(s1); if (encaps(pb, ct, &x, s1, &y)) { mc_fatal("encaps"); } CRYPT_EAL_PkeyFreeCtx(pb);
        for (uint32_t i = part; i < dl - 32 && !mc_failed(); i += parts) { B[i] ^= 1 << i % 8; CRYPT_EAL_PkeyCtx *p = pk_new(a); r = set1(p, a->prvIds[0], B, dl, false); z = sizeof(s2); if (!r) { r = decaps(p, ct, x, s2, &z); } if (!r && !memcmp(s1, s2, y)) { mc_note("dk byte %u", i); mc_fail("%s: byte %u of the decapsulation key altered, same secret", a->name, i); } B[i] ^= 1 << i % 8; CRYPT_EAL_PkeyFreeCtx(p); }
    }
    if (part == 0) { for (uint32_t c = 0; c < l + 9; c += c < 40 || c + 40 > l ? 1 : 211) { if (c == l) { continue; } memset(A + l, 0, 16); CRYPT_EAL_PkeyCtx *p = pk_new(a); r = set1(p, a->pubIds[0], A, c, true); x = sizeof(ct); y = sizeof(s1); if (!r) { r = encaps(p, ct, &x, s1, &y); } if (!r) { mc_fail("%s: public key of %u bytes instead of %u accepted", a->name, c, l); } CRYPT_EAL_PkeyFreeCtx(p); } }
}
/* ---- public-key encryption ---- */
#define ENC(k, m, ml, c, cl) (mc_transitions(1), CRYPT_EAL_PkeyEncrypt(k, m, ml, c, cl))
#define DEC(k, c, cl, m, ml) (mc_transitions(1), CRYPT_EAL_PkeyDecrypt(k, c, cl, m, ml))
static uint8_t pt[5000], em[600];
static Z rn, re, rd; static int rk;
static void rsaKey(CRYPT_EAL_PkeyCtx *k) { static PkVal v; static const int pb[] = {CRYPT_PARAM_RSA_N, CRYPT_PARAM_RSA_E, 0}, pr[] = {CRYPT_PARAM_RSA_N, CRYPT_PARAM_RSA_D, 0}; if (pk_get(k, pb, &v, true)) { mc_fatal("rsa key"); } zbin(&rn, v.buf[0], v.p[0].valueLen); zbin(&re, v.buf[1], v.p[1].valueLen); if (pk_get(k, pr, &v, false)) { mc_fatal("rsa key"); } zbin(&rd, v.buf[1], v.p[1].valueLen); rk = (zbits(&rn) + 7) / 8; }
/* ciphertext of a chosen encoded message; false when it is not below the modulus */
static bool rawEnc(const uint8_t *e, uint8_t *c) { static Z m, r; zbin(&m, e, rk); if (zc(&m, &rn) >= 0) { return false; } zexp(&r, &m, &re, &rn); zout(c, rk, &r); return true; }
static void rawDec(const uint8_t *c, uint8_t *e) { static Z m, r; zbin(&m, c, rk); zexp(&r, &m, &rd, &rn); zout(e, rk, &r); }
static int32_t pad15(CRYPT_EAL_PkeyCtx *k) { int32_t md = CRYPT_MD_SHA256; return CRYPT_EAL_PkeyCtrl(k, CRYPT_CTRL_SET_RSA_RSAES_PKCSV15, &md, sizeof(md)); }
static int32_t padOaep(CRYPT_EAL_PkeyCtx *k, int md, int mgf, const uint8_t *lab, uint32_t ll)
{
    int32_t a = md, b = mgf; BSL_Param p[3] = {{CRYPT_PARAM_RSA_MD_ID, BSL_PARAM_TYPE_INT32, &a, 4, 0}, {CRYPT_PARAM_RSA_MGF1_ID, BSL_PARAM_TYPE_INT32, &b, 4, 0}, BSL_PARAM_END}; int32_t r = CRYPT_EAL_PkeyCtrl(k, CRYPT_CTRL_SET_RSA_RSAES_OAEP, p, 0);
    return r || !lab ? r : CRYPT_EAL_PkeyCtrl(k, CRYPT_CTRL_SET_RSA_OAEP_LABEL, (void *)(uintptr_t)lab, ll);
}
static void mustNot(const PkAlg *a, CRYPT_EAL_PkeyCtx *k, const uint8_t *c, uint32_t cl, const char *what, int x) { uint32_t l = sizeof(pt); if (!DEC(k, c, cl, pt, &l)) { mc_fail("%s: %s (%d) decrypts to %u bytes %s", a->name, what, x, l, mc_hex(pt, l)); } }
static void rsa15(const PkAlg *a, int part)
{
    CRYPT_EAL_PkeyCtx *k = CRYPT_EAL_PkeyDupCtx(pk_key(a, 0)), *p = pk_pub(a, k); rsaKey(k); if (pad15(k) || pad15(p)) { mc_fatal("padding"); } uint32_t cl, l; int32_t r;
    if (part == 0) { for (int n = 0; n <= rk - 8 && !mc_failed(); n++) { cl = sizeof(ct); r = ENC(p, msg, n, ct, &cl); if (n > rk - 11) { if (!r) { mc_fail("%s: %d bytes encrypted under a %d-byte modulus", a->name, n, rk); } continue; } if (r) { if (n) { mc_fail("%s: encrypting %d bytes: %x", a->name, n, r); } continue; }
            l = sizeof(pt); r = DEC(k, ct, cl, pt, &l); if (r || l != (uint32_t)n || memcmp(pt, msg, n)) { mc_fail("%s: %d bytes come back as %x, %u bytes %s", a->name, n, r, l, mc_hex(pt, l)); }
            if (n % 16 == 3) { rawDec(ct, em); bool ok = em[0] == 0 && em[1] == 2 && em[rk - n - 1] == 0 && !memcmp(em + rk - n, msg, n); for (int i = 2; i < rk - n - 1; i++) { ok = ok && em[i]; } if (!ok) { mc_fail("%s: encoded message of %d bytes is malformed: %s", a->name, n, mc_hex(em, rk)); } }
            for (uint32_t c = 0; c < (uint32_t)n && n % 9 == 0; c += c < 8 ? 1 : 5) { memset(pt, 0x5a, sizeof(pt)); l = c; if (!DEC(k, ct, cl, pt, &l)) { mc_fail("%s: %d bytes decrypted into %u", a->name, n, c); } for (uint32_t j = c; j < c + 300; j++) { if (pt[j] != 0x5a) { mc_fail("%s: writes past a plaintext buffer of %u", a->name, c); break; } } } } }
    if (part == 1) { int n = 5; /* crafted encoded messages: separator at every position, every second byte, first byte */
        for (int z = 2; z <= rk && !mc_failed(); z++) { memset(em, 0x5c, rk); em[0] = 0; em[1] = 2; if (z < rk) { em[z] = 0; } if (!rawEnc(em, ct)) { continue; } l = sizeof(pt); r = DEC(k, ct, rk, pt, &l); bool ok = z >= 10 && z < rk; if (ok && z < rk - 1 && (r || l != (uint32_t)(rk - z - 1) || memcmp(pt, em + z + 1, l))) { mc_fail("%s: separator at %d: %x, %u bytes", a->name, z, r, l); } if (!ok && !r) { mc_fail("%s: block with separator at %d decrypts", a->name, z); } }
        for (int v = 0; v < 256 && !mc_failed(); v++) { memset(em, 0x5c, rk); em[0] = 0; em[1] = v; em[rk - n - 1] = 0; if (v != 2 && rawEnc(em, ct)) { mustNot(a, k, ct, rk, "block type", v); } em[1] = 2; em[0] = v; if (v && rawEnc(em, ct)) { mustNot(a, k, ct, rk, "first byte", v); } }
        for (int i = 2; i < 10 && !mc_failed(); i++) { memset(em, 0x5c, rk); em[0] = 0; em[1] = 2; em[i] = 0; em[40] = 0; if (rawEnc(em, ct)) { mustNot(a, k, ct, rk, "zero inside the first eight padding bytes", i); } } }
    if (part == 2) { cl = sizeof(ct); if (ENC(p, msg, 32, ct, &cl)) { mc_fatal("encrypt"); } for (int i = 0; i < rk * 8 && !mc_failed(); i += mc_thorough ? 1 : 2) { ct[i / 8] ^= 1 << i % 8; l = sizeof(pt); if (!DEC(k, ct, cl, pt, &l) && l == 32 && !memcmp(pt, msg, 32)) { mc_fail("%s: bit %d of the ciphertext altered, same plaintext", a->name, i); } ct[i / 8] ^= 1 << i % 8; }
        for (int c = 0; c < rk + 8; c++) { if (c == rk) { continue; } memcpy(c2, ct, rk); memset(c2 + rk, 0, 16); mustNot(a, k, c2, c, "ciphertext of wrong length", c); if (c > rk) { memset(c2, 0, 16); memcpy(c2 + c - rk, ct, rk); mustNot(a, k, c2, c, "ciphertext with leading zeros", c); } }
        for (int i = 0; i < 2000; i++) { cl = sizeof(c2); ENC(p, msg, 32, c2, &cl); if (c2[0] == 0) { mustNot(a, k, c2 + 1, rk - 1, "ciphertext without its leading zero", i); break; } }
        static Z z; zbin(&z, ct, rk); zadd(&z, &z, &rn); if (zbits(&z) <= 8 * rk) { zout(c2, rk, &z); mustNot(a, k, c2, rk, "ciphertext plus modulus", 0); } zout(c2, rk, &rn); mustNot(a, k, c2, rk, "ciphertext equal to the modulus", 0); memset(c2, 0, rk); mustNot(a, k, c2, rk, "ciphertext 0", 0); c2[rk - 1] = 1; mustNot(a, k, c2, rk, "ciphertext 1", 0); memset(c2, 0xff, rk); mustNot(a, k, c2, rk, "ciphertext all ones", 0);
        CRYPT_EAL_PkeyCtx *o = CRYPT_EAL_PkeyDupCtx(pk_key(a, 1)); pad15(o); l = sizeof(pt); if (!DEC(o, ct, rk, pt, &l) && l == 32 && !memcmp(pt, msg, 32)) { mc_fail("%s: another key decrypts", a->name); } CRYPT_EAL_PkeyFreeCtx(o); l = sizeof(pt); if (!DEC(p, ct, rk, pt, &l)) { mc_fail("%s: decryption without a private key", a->name); } }
    if (part == 3) { /* no padding */ int32_t np = CRYPT_RSA_NO_PAD; if (CRYPT_EAL_PkeyCtrl(k, CRYPT_CTRL_SET_RSA_PADDING, &np, sizeof(np)) || CRYPT_EAL_PkeyCtrl(p, CRYPT_CTRL_SET_RSA_PADDING, &np, sizeof(np))) { mc_fatal("padding"); } static Z t, w, one1; zset(&one1, 1);
        for (int i = 0; i < 40 && !mc_failed(); i++) { if (i < 4) { zset(&t, i); } else if (i < 8) { zset(&w, i - 3); zsub(&t, &rn, &w); } else { mc_fill(em, rk, i); em[0] &= 0x3f; if (i % 4 == 0) { memset(em, 0, rk / 2); } zbin(&t, em, rk); } zout(em, rk, &t); zexp(&w, &t, &re, &rn); zout(c2, rk, &w); cl = sizeof(ct); r = ENC(p, em, rk, ct, &cl); if (r && i < 2) { continue; } if (r || cl != (uint32_t)rk || memcmp(ct, c2, rk)) { mc_fail("%s: %s^e: %x %s, should be %s", a->name, zs(&t), r, mc_hex(ct, cl), mc_hex(c2, rk)); continue; } l = sizeof(pt); r = DEC(k, ct, cl, pt, &l); if (r || l != (uint32_t)rk || memcmp(pt, em, rk)) { mc_fail("%s: raw decryption of %s: %x %u bytes %s", a->name, zs(&w), r, l, mc_hex(pt, l)); } mc_outcome(ct, cl); }
        for (int i = 0; i < 4; i++) { zset(&w, i); zadd(&t, &rn, &w); zout(em, rk, &t); cl = sizeof(ct); if (i != 3 || zbits(&t) <= rk * 8) { if (!ENC(p, em, rk, ct, &cl)) { mc_fail("%s: n+%d encrypted", a->name, i); } mustNot(a, k, em, rk, "n + i", i); } } memset(em, 0xff, rk); if (zbits(&rn) % 8 == 0) { mustNot(a, k, em, rk, "all ones", 0); } for (int c = 0; c < rk; c++) { cl = sizeof(ct); if (!ENC(p, msg, c, ct, &cl)) { mc_fail("%s: raw block of %d bytes encrypted", a->name, c); } } }
    CRYPT_EAL_PkeyFreeCtx(k); CRYPT_EAL_PkeyFreeCtx(p);
}
static void mgf1(RefMd h, const uint8_t *seed, int sl, uint8_t *x, int n) { uint8_t b[700], d[64]; int hl = ref_mdlen(h); memcpy(b, seed, sl); for (int c = 0, o = 0; o < n; c++, o += hl) { b[sl] = 0; b[sl + 1] = 0; b[sl + 2] = c >> 8; b[sl + 3] = c; ref_md(h, b, sl + 4, d, hl); for (int i = 0; i < hl && o + i < n; i++) { x[o + i] ^= d[i]; } } }
static void oaepMask(RefMd h, RefMd g, bool encode) { int hl = ref_mdlen(h), dl = rk - hl - 1; if (encode) { mgf1(g, em + 1, hl, em + 1 + hl, dl); mgf1(g, em + 1 + hl, dl, em + 1, hl); } else { mgf1(g, em + 1 + hl, dl, em + 1, hl); mgf1(g, em + 1, hl, em + 1 + hl, dl); } }
static const struct { int id; RefMd r; } OM[] = {{CRYPT_MD_SHA1, R_SHA1}, {CRYPT_MD_SHA224, R_SHA224}, {CRYPT_MD_SHA256, R_SHA256}, {CRYPT_MD_SHA384, R_SHA384}, {CRYPT_MD_SHA512, R_SHA512}};
static void oaepDb(RefMd h, const uint8_t *lab, int ll, int n) { int hl = ref_mdlen(h); em[0] = 0; mc_fill(em + 1, hl, 17 + n); ref_md(h, lab, ll, em + 1 + hl, hl); memset(em + 1 + 2 * hl, 0, rk - 1 - 2 * hl); em[rk - n - 1] = 1; memset(em + rk - n, 0x3c, n); }
static void oaep(const PkAlg *a, int hi, int gi, int ll)
{
    RefMd h = OM[hi].r, g = OM[gi].r; int hl = ref_mdlen(h); const uint8_t *lab = msg + 1000; CRYPT_EAL_PkeyCtx *k = CRYPT_EAL_PkeyDupCtx(pk_key(a, 0)), *p = pk_pub(a, k); rsaKey(k); int max = rk - 2 * hl - 2; uint32_t cl, l; int32_t r = padOaep(k, OM[hi].id, OM[gi].id, ll < 0 ? NULL : lab, ll), r2 = padOaep(p, OM[hi].id, OM[gi].id, ll < 0 ? NULL : lab, ll);
    if (ll < 0) { ll = 0; } if (r || r2) { mc_fail("%s OAEP %d/%d label %d cannot be set: %x", a->name, OM[hi].id, OM[gi].id, ll, r); goto END; }
    for (int n = 0; n <= max + 4 && !mc_failed(); n++) { if (n > 6 && n + 6 < max && n % 11) { continue; } cl = sizeof(ct); r = ENC(p, msg, n, ct, &cl); if (n > max) { if (!r) { mc_fail("%s OAEP: %d bytes fit in %d", a->name, n, max); } continue; } if (r) { if (n) { mc_fail("%s OAEP %d: encrypting %d: %x", a->name, OM[hi].id, n, r); } continue; } l = sizeof(pt); r = DEC(k, ct, cl, pt, &l); if (r || l != (uint32_t)n || memcmp(pt, msg, n)) { mc_fail("%s OAEP %d/%d label %d: %d bytes come back as %x, %u bytes", a->name, OM[hi].id, OM[gi].id, ll, n, r, l); }
        if (n == 1 || n == max) { rawDec(ct, em); oaepMask(h, g, false); uint8_t lh[64]; ref_md(h, lab, ll, lh, hl); bool ok = em[0] == 0 && !memcmp(em + 1 + hl, lh, hl) && em[rk - n - 1] == 1 && !memcmp(em + rk - n, msg, n); for (int i = 1 + 2 * hl; i < rk - n - 1; i++) { ok = ok && !em[i]; } if (!ok) { mc_fail("%s OAEP %d/%d: encoded message of %d bytes malformed %s", a->name, OM[hi].id, OM[gi].id, n, mc_hex(em, rk)); } } }
    if (max < 2 || mc_failed()) { goto END; }
    int n = max / 2; oaepDb(h, lab, ll, n); oaepMask(h, g, true); if (rawEnc(em, ct)) { l = sizeof(pt); r = DEC(k, ct, rk, pt, &l); if (r || l != (uint32_t)n || pt[0] != 0x3c) { mc_fail("%s OAEP %d/%d: reference encoding rejected: %x", a->name, OM[hi].id, OM[gi].id, r); goto END; } }
    for (int i = 0; i < rk && !mc_failed(); i++) { if (i > 0 && i <= hl) { continue; } static const uint8_t xs[] = {1, 0x80, 0xff, 2}; for (int v = 0; v < (i < rk - n ? 4 : 0); v++) { oaepDb(h, lab, ll, n); uint8_t old = em[i]; em[i] ^= xs[v]; if (i > 2 * hl && em[i] == 1) { continue; } if (i == rk - n - 1) { em[i] = v == 0 ? 0 : xs[v] + 1; } (void)old; if (i == 0) { uint8_t y = em[0]; em[0] = 0; oaepMask(h, g, true); em[0] = y; } else { oaepMask(h, g, true); } if (rawEnc(em, ct)) { mustNot(a, k, ct, rk, "OAEP block altered at", i); } } }
    oaepDb(h, lab, ll, 0); em[rk - 1] = 0; oaepMask(h, g, true); if (rawEnc(em, ct)) { mustNot(a, k, ct, rk, "OAEP block without separator", 0); }
    /* other label, other hash */
    cl = sizeof(ct); if (ENC(p, msg, n, ct, &cl)) { mc_fatal("oaep"); }
    for (int i = 0; i < rk; i++) { ct[i] ^= 1 << i % 8; mustNot(a, k, ct, rk, "OAEP ciphertext altered at", i); ct[i] ^= 1 << i % 8; }
    for (int o = 1; o < 4; o++) { padOaep(k, OM[hi].id, OM[gi].id, lab, ll + o); mustNot(a, k, ct, rk, "OAEP with another label", o); if (ll) { uint8_t lb[80]; memcpy(lb, lab, ll); lb[ll - 1] ^= o; padOaep(k, OM[hi].id, OM[gi].id, lb, ll); mustNot(a, k, ct, rk, "OAEP with an altered label", o); } }
    for (unsigned j = 0; j < MC_LEN(OM); j++) { if ((int)j != hi && !padOaep(k, OM[j].id, OM[gi].id, lab, ll)) { mustNot(a, k, ct, rk, "OAEP with another hash", j); } if ((int)j != gi && !padOaep(k, OM[hi].id, OM[j].id, lab, ll)) { mustNot(a, k, ct, rk, "OAEP with another mask hash", j); } }
    pad15(k); mustNot(a, k, ct, rk, "OAEP ciphertext as PKCS#1 v1.5", 0);
END: CRYPT_EAL_PkeyFreeCtx(k); CRYPT_EAL_PkeyFreeCtx(p);
}
/* generic: every plaintext length, every alteration, wrong key */
static bool same(int32_t r, uint32_t l, const uint8_t *m, uint32_t ml, bool num) { if (r) { return false; } if (!num) { return l == ml && !memcmp(pt, m, ml); } Z a, b; zbin(&a, pt, l); zbin(&b, m, ml); return zc(&a, &b) == 0; }
static void pke(const PkAlg *a, int part, int parts, uint32_t max, bool num, int step)
{
    CRYPT_EAL_PkeyCtx *k = pk_key(a, 0), *p = a->kind == PK_SM9 ? k : pk_pub(a, k); uint32_t cl = 0, l; int32_t r;
    for (uint32_t n = 1 + part; n <= max && !mc_failed(); n += parts) { if (step > 1 && n > 40 && n % step && n + 3 < max) { continue; } cl = sizeof(ct); r = ENC(p, msg, n, ct, &cl); if (r) { mc_fail("%s: encrypting %u bytes: %x", a->name, n, r); break; } l = sizeof(pt); r = DEC(k, ct, cl, pt, &l); if (!same(r, l, msg, n, num)) { mc_fail("%s: %u bytes come back as %x, %u bytes %s", a->name, n, r, l, mc_hex(pt, l)); } mc_outcome(ct, cl); }
    uint32_t n = max < 37 ? max : 37; cl = sizeof(ct); if (mc_failed() || ENC(p, msg, n, ct, &cl)) { return; }
    for (uint32_t i = part; i < cl && !mc_failed(); i += parts) { if (step > 1 && i % step && i > 12) { continue; } for (int b = 0; b < 8 && !mc_failed(); b++) { if (step > 1 && b != (int)(i / step % 8)) { continue; } ct[i] ^= 1 << b; l = sizeof(pt); r = DEC(k, ct, cl, pt, &l); if (same(r, l, msg, n, num)) { mc_fail("%s: byte %u bit %d of the ciphertext altered, same plaintext", a->name, i, b); } else if (!r && !num) { mc_fail("%s: byte %u bit %d of the ciphertext altered, decryption succeeds", a->name, i, b); } ct[i] ^= 1 << b; } }
    if (part == 0) { for (uint32_t c = 0; c < cl + 10 && !mc_failed(); c++) { if (c == cl || (step > 1 && c > 8 && c + 8 < cl && c % 13)) { continue; } for (int f = 0; f < 3; f++) { memcpy(c2, ct, cl); memset(c2 + cl, f == 1 ? 0xff : 0, 16); if (f == 2) { if (c <= cl) { continue; } memset(c2, 0, 16); memcpy(c2 + c - cl, ct, cl); } l = sizeof(pt); r = DEC(k, c2, c, pt, &l); if (!r) { mc_fail("%s: ciphertext of %u bytes instead of %u decrypts", a->name, c, cl); break; } } }
        for (int w = 1; w < 3 && !mc_failed(); w++) { l = sizeof(pt); r = DEC(pk_key(a, w), ct, cl, pt, &l); if (same(r, l, msg, n, num)) { mc_fail("%s: key %d decrypts", a->name, w); } } if (p != k) { l = sizeof(pt); if (!DEC(p, ct, cl, pt, &l)) { mc_fail("%s: decryption without a private key", a->name); } }
        memset(c2, 0, cl); l = sizeof(pt); if (!DEC(k, c2, cl, pt, &l)) { mc_fail("%s: zero ciphertext decrypts", a->name); } memset(c2, 0xff, cl); l = sizeof(pt); if (!DEC(k, c2, cl, pt, &l)) { mc_fail("%s: all-ones ciphertext decrypts", a->name); }
        for (uint32_t c = 0; c < n; c++) { memset(pt, 0x5a, sizeof(pt)); l = c; r = DEC(k, ct, cl, pt, &l); if (!r && !num) { mc_fail("%s: %u bytes into a buffer of %u", a->name, n, c); } for (uint32_t j = c; j < c + 600; j++) { if (pt[j] != 0x5a) { mc_fail("%s: writes past a plaintext buffer of %u", a->name, c); break; } } }
        l = sizeof(pt); r = DEC(k, ct, cl, pt, &l); if (!same(r, l, msg, n, num)) { mc_fail("%s: decryption does not repeat", a->name); } }
    if (p != k) { CRYPT_EAL_PkeyFreeCtx(p); }
}
/* multiplicative schemes: components out of range, leading zeros, homomorphism */
static void numbers(const PkAlg *a)
{
    CRYPT_EAL_PkeyCtx *k = pk_key(a, 0), *p = pk_pub(a, k); static PkVal v; static Z n, m, t, one1; zset(&one1, 1); if (pk_get(k, a->pubIds, &v, true)) { mc_fatal("%s public key", a->name); } zbin(&n, v.buf[0], v.p[0].valueLen); bool pai = a->alg == CRYPT_PKEY_PAILLIER; if (pai) { zmul(&m, &n, &n); } else { zcp(&m, &n); } int L = (zbits(&n) + 7) / 8; uint32_t cl, l, c1; int32_t r;
    /* many nonces: components and plaintexts with leading zero bytes occur */
    for (int i = 0; i < (mc_thorough ? 4000 : pai ? 120 : 900) && !mc_failed(); i++) { uint8_t x[256] = {0}; zset(&t, i % 40 < 20 ? i % 40 : 1u << i % 31); if (i % 7 == 0) { zset(&n, 0); zbin(&n, v.buf[0], v.p[0].valueLen); Z q; zset(&q, 1 + i); zsub(&t, &n, &q); } zout(x, L, &t); cl = sizeof(ct); r = ENC(p, x, L, ct, &cl); if (r) { if (t.n) { mc_fail("%s: encrypting %s: %x", a->name, zs(&t), r); } continue; } if (!pai && !t.n) { continue; } /* 0 is outside the group */ l = sizeof(pt); r = DEC(k, ct, cl, pt, &l); if (!same(r, l, x, L, true)) { mc_fail("%s: encryption %d of %s decrypts to %x %s", a->name, i, zs(&t), r, mc_hex(pt, l)); } mc_outcome(ct, cl); }
    zbin(&n, v.buf[0], v.p[0].valueLen); for (int i = 0; i < 4; i++) { uint8_t x[256]; Z q; zset(&q, i); zadd(&t, &n, &q); if (zbits(&t) > 8 * L) { continue; } zout(x, L, &t); cl = sizeof(ct); if (!ENC(p, x, L, ct, &cl)) { mc_fail("%s: plaintext modulus+%d accepted", a->name, i); } }
    cl = sizeof(ct); if (mc_failed() || ENC(p, msg, 16, ct, &cl)) { return; }
    int parts = pai ? 1 : 2, PL = cl / parts; for (int c = 0; c < parts; c++) { Z z; zbin(&z, ct + c * PL, PL); for (int w = 0; w < 6; w++) { memcpy(c2, ct, cl); if (w == 0) { zset(&t, 0); } else if (w == 1) { zcp(&t, &m); } else if (w == 2) { zadd(&t, &m, &one1); } else if (w == 3) { zadd(&t, &z, &m); } else if (w == 4) { memset(t.d, 0xff, PL); t.n = PL / 4; t.neg = 0; } else { if (!pai) { continue; } zcp(&t, &n); } if (zbits(&t) > 8 * PL) { continue; } zout(c2 + c * PL, PL, &t); l = sizeof(pt); if (!DEC(k, c2, cl, pt, &l)) { mc_fail("%s: component %d out of range (%d) decrypts", a->name, c, w); } } }
    if (pai) { for (int i = 0; i < 30 && !mc_failed(); i++) { uint8_t x[256] = {0}, y[256] = {0}; Z q, s; zset(&t, i * i * i); zset(&q, 77 * i + 1); if (i & 1) { zsub(&t, &n, &t); if (i == 1) { zsub(&t, &n, &one1); } } zout(x, L, &t); zout(y, L, &q); cl = sizeof(ct); c1 = sizeof(c2); static uint8_t c3[4000]; uint32_t c3l = sizeof(c3); if (ENC(p, x, L, ct, &cl)) { continue; } if (ENC(p, y, L, c2, &c1)) { continue; } BSL_Param hp[3] = {{0}, {0}, BSL_PARAM_END}; BSL_PARAM_InitValue(&hp[0], CRYPT_PARAM_PKEY_HE_CIPHERTEXT1, BSL_PARAM_TYPE_OCTETS, ct, cl); BSL_PARAM_InitValue(&hp[1], CRYPT_PARAM_PKEY_HE_CIPHERTEXT2, BSL_PARAM_TYPE_OCTETS, c2, c1);
        r = CRYPT_EAL_PkeyHEAdd(p, hp, c3, &c3l); if (r) { mc_fail("paillier: homomorphic addition: %x", r); break; } l = sizeof(pt); r = DEC(k, c3, c3l, pt, &l); zadd(&s, &t, &q); zmod(&s, &s, &n); zout(x, L, &s); if (!same(r, l, x, L, true)) { mc_fail("paillier: sum of %s and %s decrypts to %x %s", zs(&t), zs(&q), r, mc_hex(pt, l)); } } }
    CRYPT_EAL_PkeyFreeCtx(p);
}
/* SM2: the library's ciphertext opened by the reference; crafted ciphertexts */
static const uint8_t *der(const uint8_t *p, int tag, uint32_t *l) { if (*p++ != tag) { return NULL; } *l = *p++; if (*l & 0x80) { int n = *l & 0x7f; *l = 0; while (n--) { *l = *l << 8 | *p++; } } return p; }
static uint8_t *derp(uint8_t *o, int tag, const uint8_t *v, uint32_t l) { *o++ = tag; if (l > 255) { *o++ = 0x82; *o++ = l >> 8; } else if (l > 127) { *o++ = 0x81; } *o++ = l; memmove(o, v, l); return o + l; }
static uint8_t *deri(uint8_t *o, const uint8_t *v) { uint8_t t[33] = {0}; memcpy(t + 1, v, 32); int i = 0; while (i < 32 && !t[i] && !(t[i + 1] & 0x80)) { i++; } return derp(o, 2, t + i, 33 - i); }
static void kdf(const uint8_t *xy, uint8_t *t, uint32_t n) { uint8_t b[68], d[32]; memcpy(b, xy, 64); for (uint32_t c = 1, o = 0; o < n; c++, o += 32) { b[64] = b[65] = 0; b[66] = c >> 8; b[67] = c; ref_md(R_SM3, b, 68, d, 32); for (uint32_t i = 0; i < 32 && o + i < n; i++) { t[o + i] = d[i]; } } }
static uint32_t sm2ct(const uint8_t *x, const uint8_t *y, const uint8_t *c3, const uint8_t *c2v, uint32_t n) { static uint8_t b[4000]; uint8_t *o = deri(b, x); o = deri(o, y); o = derp(o, 4, c3, 32); o = derp(o, 4, c2v, n); return derp(c2, 0x30, b, o - b) - c2; }
static void sm2ref(int part)
{
    const PkAlg *a = pk_find("sm2"); CRYPT_EAL_PkeyCtx *k = pk_key(a, 0), *p = pk_pub(a, k); static ZCv c; static ZPt g, pp, kg, kp; zcv(&c, &g, &ZC[8]); Z d, t; uint8_t xy[64], ks[2000], c3[32], b[3000], prv[32], pub[65]; uint32_t l = 32, cl, n, vl; if (get1(k, CRYPT_PARAM_EC_PRVKEY, prv, &l, false)) { mc_fatal("sm2 key"); } l = 65; if (get1(k, CRYPT_PARAM_EC_PUBKEY, pub, &l, true)) { mc_fatal("sm2 key"); } zbin(&d, prv, 32); pp.inf = false; zbin(&pp.x, pub + 1, 32); zbin(&pp.y, pub + 33, 32);
    if (part == 0) { zpmul(&kg, &g, &d, &c); if (zc(&kg.x, &pp.x) || zc(&kg.y, &pp.y)) { mc_fail("sm2: generated public key does not belong to the private key"); } }
    for (int i = part; i < (mc_thorough ? 600 : 48) && !mc_failed(); i += 4) { n = i < 20 ? 1 : i * 5; cl = sizeof(ct); int32_t r = ENC(p, msg, n, ct, &cl); if (r) { mc_fail("sm2: encrypting %u bytes: %x", n, r); break; } const uint8_t *q = der(ct, 0x30, &vl), *x, *y, *h, *e; uint32_t xl, yl, hl, el; bool ok = q && q + vl == ct + cl && (x = der(q, 2, &xl)) && (y = der(x + xl, 2, &yl)) && (h = der(y + yl, 4, &hl)) && hl == 32 && (e = der(h + hl, 4, &el)) && el == n && e + el == ct + cl; if (!ok) { mc_fail("sm2: ciphertext %s", mc_hex(ct, cl)); break; }
        kp.inf = false; zbin(&kp.x, x, xl); zbin(&kp.y, y, yl); zpmul(&kp, &kp, &d, &c); zout(xy, 32, &kp.x); zout(xy + 32, 32, &kp.y); kdf(xy, ks, n); memcpy(b, xy, 32); for (uint32_t j = 0; j < n; j++) { b[32 + j] = ks[j] ^ e[j]; } memcpy(b + 32 + n, xy + 32, 32); ref_md(R_SM3, b, 64 + n, c3, 32); if (memcmp(b + 32, msg, n) || memcmp(c3, h, 32)) { mc_fail("sm2: ciphertext of %u bytes does not open under the standard's formulas", n); } }
    for (int w = part; w < 120 && !mc_failed(); w += 4) { /* reference-made ciphertexts; one-byte messages whose key stream is zero must be refused */ n = w < 100 ? 1 : 40; zset(&t, 3 + w); zpmul(&kg, &g, &t, &c); zpmul(&kp, &pp, &t, &c); uint8_t X[32], Y[32]; zout(X, 32, &kg.x); zout(Y, 32, &kg.y); zout(xy, 32, &kp.x); zout(xy + 32, 32, &kp.y); kdf(xy, ks, n); uint8_t e[64]; memcpy(b, xy, 32); memcpy(b + 32, msg, n); memcpy(b + 32 + n, xy + 32, 32); ref_md(R_SM3, b, 64 + n, c3, 32); for (uint32_t j = 0; j < n; j++) { e[j] = ks[j] ^ msg[j]; } cl = sm2ct(X, Y, c3, e, n); l = sizeof(pt); int32_t r = DEC(k, c2, cl, pt, &l); bool zero = n == 1 && ks[0] == 0; if (zero) { mc_note("zero key stream at %d: %x", w, r); } if (!zero && (r || l != n || memcmp(pt, msg, n))) { mc_fail("sm2: reference ciphertext (nonce %d) refused: %x", 3 + w, r); }
        if (w >= 100) { uint8_t Y2[32]; zout(Y2, 32, &c.p); for (int j = 31, br = 0; j >= 0; j--) { int v = Y2[j] - Y[j] - br; br = v < 0; Y2[j] = v; } cl = sm2ct(X, Y2, c3, e, n); mustNot(a, k, c2, cl, "C1 negated", w); memcpy(Y2, Y, 32); Y2[31] ^= 1; cl = sm2ct(X, Y2, c3, e, n); mustNot(a, k, c2, cl, "C1 off the curve", w); cl = sm2ct(Y, X, c3, e, n); mustNot(a, k, c2, cl, "C1 swapped", w); memset(Y2, 0, 32); cl = sm2ct(Y2, Y2, c3, e, n); mustNot(a, k, c2, cl, "C1 zero", w); } }
    CRYPT_EAL_PkeyFreeCtx(p);
}
/* SM2 key exchange: one run of the protocol; the ephemeral values are used up by it */
static int32_t sm2side(CRYPT_EAL_PkeyCtx *k, int server, const char *id) { int32_t v = server, r = CRYPT_EAL_PkeyCtrl(k, CRYPT_CTRL_SET_SM2_SERVER, &v, sizeof(v)); return r ? r : CRYPT_EAL_PkeyCtrl(k, CRYPT_CTRL_SET_SM2_USER_ID, (void *)(uintptr_t)id, strlen(id)); }
typedef struct { int x, y, pubx, puby; const char *idx, *idy, *pidx, *pidy; int rolex, roley; const uint8_t *rx; int flip; uint32_t n; int seed; } Ex;
/* returns the result of each side in r[0] (initiator x with y's public data) and r[1] */
static void sm2run(const Ex *e, int32_t r[2], uint8_t k1[300], uint8_t k2[300])
{
    const PkAlg *a = pk_find("sm2"); CRYPT_EAL_PkeyCtx *x = CRYPT_EAL_PkeyDupCtx(pk_key(a, e->x)), *y = CRYPT_EAL_PkeyDupCtx(pk_key(a, e->y)), *px = pk_pub(a, pk_key(a, e->pubx)), *py = pk_pub(a, pk_key(a, e->puby)); uint8_t rx[65], ry[65]; mc_rand_reseed(800 + e->seed);
    int32_t s = sm2side(x, e->rolex, e->idx); if (!s) { s = sm2side(y, e->roley, e->idy); } if (!s) { s = sm2side(px, e->rolex, e->pidx); } if (!s) { s = sm2side(py, e->roley, e->pidy); } if (!s) { s = CRYPT_EAL_PkeyCtrl(x, CRYPT_CTRL_GENE_SM2_R, rx, 65); } if (!s) { s = CRYPT_EAL_PkeyCtrl(y, CRYPT_CTRL_GENE_SM2_R, ry, 65); } if (s) { mc_fatal("sm2 exchange set-up %x", s); }
    if (e->flip >= 0) { rx[e->flip / 8] ^= 1 << e->flip % 8; } if (e->rx) { memcpy(rx, e->rx, 65); }
    r[0] = CRYPT_EAL_PkeyCtrl(py, CRYPT_CTRL_SET_SM2_R, ry, 65); uint32_t l = e->n; if (!r[0]) { r[0] = CRYPT_EAL_PkeyComputeShareKey(x, py, k1, &l); if (!r[0] && l != e->n) { mc_fail("sm2 exchange: %u bytes instead of %u", l, e->n); } }
    r[1] = CRYPT_EAL_PkeyCtrl(px, CRYPT_CTRL_SET_SM2_R, rx, 65); l = e->n; if (!r[1]) { r[1] = CRYPT_EAL_PkeyComputeShareKey(y, px, k2, &l); if (!r[1] && l != e->n) { mc_fail("sm2 exchange: %u bytes instead of %u", l, e->n); } } mc_transitions(6);
    CRYPT_EAL_PkeyFreeCtx(x); CRYPT_EAL_PkeyFreeCtx(y); CRYPT_EAL_PkeyFreeCtx(px); CRYPT_EAL_PkeyFreeCtx(py);
}
static void sm2ex(int v)
{
    int32_t r[2]; uint8_t k1[300], k2[300], ref[300], z[65] = {4}; Ex b = {v % 3, (v + 1) % 3, v % 3, (v + 1) % 3, "Alice", "Bob", "Alice", "Bob", v & 1, !(v & 1), NULL, -1, 32, v};
    for (uint32_t n = 1; n <= 200 && !mc_failed(); n += v == 0 ? 1 : 31) { Ex e = b; e.n = n; sm2run(&e, r, k1, k2); if (r[0] || r[1] || memcmp(k1, k2, n)) { mc_fail("sm2 exchange of %u bytes: %x %s and %x %s", n, r[0], mc_hex(k1, n), r[1], mc_hex(k2, n)); } if (n > 1 && memcmp(k1, ref, n - 1 < 31 ? n - 1 : 31) && v == 0) { mc_fail("sm2 exchange: output of %u bytes is not an extension of the shorter one", n); } memcpy(ref, k1, n); }
    sm2run(&b, r, ref, k2); mc_outcome(ref, 32); Ex e;
#define DIFF(what, i) do { sm2run(&e, r, k1, k2); if (!r[0] && !r[1] && !memcmp(k1, k2, 32)) { mc_fail("sm2 exchange: %s (%d), yet both sides agree", what, i); } } while (0)
    for (int i = 0; i < 65 * 8 && !mc_failed(); i += v ? 7 : 1) { e = b; e.flip = i; sm2run(&e, r, k1, k2); if (i >= 8 && !r[1]) { mc_fail("sm2 exchange: bit %d of the peer's value altered, not refused", i); } if (i < 8 && !r[1] && i != 1 && i != 0) { mc_fail("sm2 exchange: first byte bit %d altered, accepted", i); } }
    static const char *ids[] = {"alice", "Alic", "Alice1", "Bob", "A"}; for (int i = 0; i < 5; i++) { e = b; e.pidx = ids[i]; DIFF("peer identity differs", i); e = b; e.idx = ids[i]; DIFF("own identity differs", i); e = b; e.idy = i == 3 ? "Alice" : ids[i]; DIFF("other identity differs", i); }
    e = b; e.pubx = (v + 2) % 3; DIFF("peer static key differs", 0); e = b; e.puby = (v + 2) % 3; DIFF("peer static key differs", 1); e = b; e.rolex = e.roley; DIFF("both in the same role", 0); e = b; e.idx = e.pidx = "Bob"; e.idy = e.pidy = "Alice"; sm2run(&e, r, k1, k2); if (r[0] || r[1] || memcmp(k1, k2, 32)) { mc_fail("sm2 exchange with swapped names: %x %x", r[0], r[1]); } if (!memcmp(k1, ref, 32)) { mc_fail("sm2 exchange: identities do not enter the key"); }
    e = b; e.rx = z; sm2run(&e, r, k1, k2); if (!r[1]) { mc_fail("sm2 exchange: peer value (0,0) accepted"); }
}
void mc_explore(void)
{
    hx_init(); mc_fill(msg, sizeof(msg), 5); mc_case_cost(60);
    mc_space("ecdh"); for (unsigned i = 0; i < MC_LEN(ZC); i++) { ecArith(i); ecBad(i); }
    mc_space("x25519"); x25519Cases();
    mc_space("agreement"); for (int i = 0; i < pk_nalgs; i++) { if ((pk_algs[i].op & CRYPT_EAL_PKEY_EXCH_OPERATE) && mc_case("agree %s", pk_algs[i].name)) { agree(&pk_algs[i]); } }
    for (int i = 0; i < pk_nalgs; i++) { if (pk_algs[i].alg == CRYPT_PKEY_DH && mc_case("dh %s", pk_algs[i].name)) { dh(&pk_algs[i]); } }
    mc_space("kem"); for (int i = 0; i < pk_nalgs; i++) { const PkAlg *a = &pk_algs[i]; if (!(a->op & CRYPT_EAL_PKEY_KEM_OPERATE) || (mce(a) && !mc_thorough && strcmp(a->name, "mceliece6688f"))) { continue; }
        if (mc_case("kem %s", a->name)) { kemBasics(a); } int parts = a->alg == CRYPT_PKEY_ML_KEM ? 2 : 4;
        for (int p = 0; p < (mce(a) ? 1 : parts); p++) { if (mc_case("kem %s altered ciphertext part %d", a->name, p)) { kemAlter(a, p, mce(a) ? 1 : parts); } }
        for (int p = 0; p < (mce(a) ? 0 : parts); p++) { if (mc_case("kem %s altered public key part %d", a->name, p)) { kemPub(a, p, parts); } } }
    mc_space("rsa encryption"); for (int v = 0; v < (mc_thorough ? 3 : 2); v++) { const PkAlg *a = pk_find(v == 0 ? "rsa1024" : v == 1 ? "rsa1031" : "rsa2048"); for (int p = 0; p < 4; p++) { if (mc_case("%s pkcs1 part %d", a->name, p)) { rsa15(a, p); } }
        for (unsigned h = 0; h < MC_LEN(OM); h++) { for (unsigned g = 0; g < MC_LEN(OM); g++) { if (h != g && h != 2 && g != 2 && !mc_thorough) { continue; } for (int l = -1; l < 3; l++) { if (l == 0) { continue; } if (l != 1 && h != g) { continue; } if (h == 4 && v < 2) { continue; } if (mc_case("%s oaep %d %d label %d", a->name, h, g, l)) { oaep(a, h, g, l < 0 ? -1 : l == 2 ? 70 : l); } } } } }
    mc_space("other encryption"); for (int p = 0; p < 4; p++) { if (mc_case("sm2 part %d", p)) { pke(pk_find("sm2"), p, 4, 300, false, 1); } if (mc_case("sm2 reference part %d", p)) { sm2ref(p); } if (mc_case("sm9 part %d", p)) { pke(pk_find("sm9-enc"), p, 4, 200, false, mc_thorough ? 1 : 9); } if (mc_case("elgamal part %d", p)) { pke(pk_find("elgamal"), p, 4, 127, true, 1); } if (mc_case("paillier part %d", p)) { pke(pk_find("paillier"), p, 4, 127, true, mc_thorough ? 1 : 7); } }
    if (mc_case("elgamal values")) { numbers(pk_find("elgamal")); } if (mc_case("paillier values")) { numbers(pk_find("paillier")); }
    for (int v = 0; v < 6; v++) { if (mc_case("sm2 exchange %d", v)) { sm2ex(v); } }
}
