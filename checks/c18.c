/* C18: signatures. Every scheme: round trips, every alteration of message, signature, key, hash and context; degenerate values; crafted encodings. */
#include <stdarg.h>
#include "pk.h"
#include "zec.h"
#define VER(k, md, m, ml, s, sl) (mc_transitions(1), CRYPT_EAL_PkeyVerify(k, md, m, ml, s, sl))
static uint8_t sig[70000], alt[70000], msg[4096];
static PkSig S[600]; static int nS;
static int bigsig(const PkAlg *a) { return a->alg == CRYPT_PKEY_SLH_DSA ? 2 : a->alg == CRYPT_PKEY_ML_DSA || a->alg == CRYPT_PKEY_COMPOSITE || a->alg == CRYPT_PKEY_XMSS || a->alg == CRYPT_PKEY_XMSSMT || a->alg == CRYPT_PKEY_SM9 ? 1 : 0; }
static bool slow(const PkAlg *a) { size_t l = strlen(a->name); return (a->alg == CRYPT_PKEY_SLH_DSA && (a->name[l - 1] == 's' || strstr(a->name, "192") || strstr(a->name, "256"))) || (a->alg == CRYPT_PKEY_XMSS && strcmp(a->name, "xmss-sha2-10-192")) || !strcmp(a->name, "xmssmt-sha2-20-2-256") || !strcmp(a->name, "rsa3072"); }
/* public-only context with the scheme's settings, cached for the last scheme */
static CRYPT_EAL_PkeyCtx *pubOf(const PkSig *s, int w) { static CRYPT_EAL_PkeyCtx *c[2]; static const PkSig *l[2]; if (l[w] != s) { CRYPT_EAL_PkeyFreeCtx(c[w]); c[w] = pk_pub(s->a, pk_key(s->a, w)); if (!c[w]) { mc_fatal("public key of %s", s->name); } if (pk_pad(c[w], s)) { mc_fatal("padding %s", s->name); } l[w] = s; } return c[w]; }
static uint32_t mksig(const PkSig *s, int w, const uint8_t *m, uint32_t ml)
{
    CRYPT_EAL_PkeyCtx *k = pk_key(s->a, w); uint32_t l = sizeof(sig); if (pk_pad(k, s)) { mc_fatal("padding %s", s->name); }
    int32_t r = CRYPT_EAL_PkeySign(k, s->md, m, ml, sig, &l); mc_transitions(1);
    if (r) { mc_fail("%s md %d pad %d salt %d: signing %u bytes failed with %x", s->name, s->md, s->pad, s->saltLen, ml, r); return 0; }
    return l;
}
static void must(const PkSig *s, int32_t r, const char *fmt, ...) { if (!r) { char b[200]; va_list v; va_start(v, fmt); vsnprintf(b, sizeof(b), fmt, v); va_end(v); mc_fail("%s md %d pad %d salt %d verifies: %s", s->name, s->md, s->pad, s->saltLen, b); } }
/* round trip over message lengths, and wrong message, key, hash */
static void basics(const PkSig *s)
{
    static const int ml[] = {0, 1, 2, 31, 32, 33, 55, 56, 63, 64, 65, 111, 112, 127, 128, 129, 200, 1000}; CRYPT_EAL_PkeyCtx *p = pubOf(s, 0);
    for (unsigned i = 0; i < MC_LEN(ml) && !mc_failed(); i++) {
        if (bigsig(s->a) && i % 6 != 1) { continue; }
        uint32_t n = ml[i], l = mksig(s, 0, msg, n); if (!l) { return; }
        int32_t r = VER(p, s->md, msg, n, sig, l); if (r) { mc_fail("%s md %d pad %d salt %d: own signature over %u bytes rejected %x", s->name, s->md, s->pad, s->saltLen, n, r); return; }
        must(s, VER(p, s->md, msg, n + 1, sig, l), "message of %u bytes extended", n); if (n) { must(s, VER(p, s->md, msg, n - 1, sig, l), "message of %u bytes shortened", n); }
        for (uint32_t b = 0; b < (n < 64 ? n * 8 : 0) && !mc_failed(); b += bigsig(s->a) || n > 32 ? 37 : (s->a->kind == PK_EC || s->a->kind == PK_DSA) && n > 2 ? 7 : 1) { msg[b / 8] ^= 1 << b % 8; must(s, VER(p, s->md, msg, n, sig, l), "bit %u of message altered", b); msg[b / 8] ^= 1 << b % 8; }
        for (uint32_t b = 0; b < n; b += 61) { msg[b] ^= 0x80; must(s, VER(p, s->md, msg, n, sig, l), "byte %u of message altered", b); msg[b] ^= 0x80; }
        if (VER(p, s->md, msg, n, sig, l)) { mc_fail("%s: verification does not repeat", s->name); return; }
        mc_outcome(sig, l);
        if (i == 1 || i == 7) { CRYPT_EAL_PkeyCtx *o = pubOf(s, 1); must(s, VER(o, s->md, msg, n, sig, l), "other key"); if (s->a->kind == PK_DSA || s->a->kind == PK_EC) { static const int mds[] = {CRYPT_MD_SHA1, CRYPT_MD_SHA224, CRYPT_MD_SHA256, CRYPT_MD_SHA384, CRYPT_MD_SHA512, CRYPT_MD_SM3}; for (unsigned m = 0; m < MC_LEN(mds); m++) { if (mds[m] != s->md) { must(s, VER(p, mds[m], msg, n, sig, l), "other hash %d", mds[m]); } } } 
            if (s->a->alg == CRYPT_PKEY_RSA) { for (int j = 0; j < nS; j++) { const PkSig *t = &S[j]; if (t->a != s->a || t == s || (t->md == s->md && t->pad == s->pad && (t->saltLen == s->saltLen || t->saltLen == -2 || s->saltLen == -2 || (t->saltLen < 0 && s->saltLen < 0) || (t->saltLen == 20 && s->md == CRYPT_MD_SHA1) || (s->saltLen == 20 && s->md == CRYPT_MD_SHA1)))) { continue; } if (pk_pad(p, t)) { mc_fatal("pad md %d pad %d salt %d", t->md, t->pad, t->saltLen); } int32_t v = VER(p, t->md, msg, n, sig, l); if (!v) { mc_fail("%s: signature with md %d pad %d salt %d accepted for md %d pad %d salt %d", s->name, s->md, s->pad, s->saltLen, t->md, t->pad, t->saltLen); } } pk_pad(p, s); } }
        /* hash computed by the caller */
        if (s->a->kind == PK_RSA || s->a->kind == PK_DSA || s->a->kind == PK_EC) { uint8_t d[64]; uint32_t dl = 64; if (CRYPT_EAL_Md(s->md, msg, n, d, &dl)) { mc_fatal("md"); } r = CRYPT_EAL_PkeyVerifyData(p, d, dl, sig, l); if (r) { mc_fail("%s: VerifyData rejects the signature of Sign: %x", s->name, r); } uint32_t q = n % (s->a->kind == PK_RSA ? dl : dl < 20 ? dl : 20); d[q] ^= 4; must(s, CRYPT_EAL_PkeyVerifyData(p, d, dl, sig, l), "altered digest"); d[q] ^= 4; for (uint32_t c = 0; c < dl; c += 5) { if (s->a->kind == PK_RSA) { must(s, CRYPT_EAL_PkeyVerifyData(p, d, c, sig, l), "digest of %u bytes", c); } }
            uint32_t l2 = sizeof(alt); r = CRYPT_EAL_PkeySignData(pk_key(s->a, 0), d, dl, alt, &l2); if (r || VER(p, s->md, msg, n, alt, l2)) { mc_fail("%s: Verify rejects the signature of SignData: %x", s->name, r); } }
    }
}
/* every alteration of a signature */
static void alter(const PkSig *s, int part, int parts)
{
    uint64_t st = mc_rand_state(); uint32_t n = 37, l; static uint8_t keep[70000]; static const PkSig *have; static uint32_t hl;
    if (have != s) { mc_rand_reseed(99); l = mksig(s, 0, msg, n); mc_rand_reseed(st); if (!l) { return; } memcpy(keep, sig, l); hl = l; have = s; }
    l = hl; memcpy(sig, keep, l); CRYPT_EAL_PkeyCtx *p = pubOf(s, 0); int b = bigsig(s->a); if (VER(p, s->md, msg, n, sig, l)) { mc_fail("%s: own signature rejected", s->name); return; }
    uint32_t step = b == 2 ? (mc_thorough ? 1 : strcmp(s->name, "slh-sha2-128f") ? 31 : 7) : b == 1 && !mc_thorough && s->a->alg == CRYPT_PKEY_XMSSMT ? 11 : b == 1 && !mc_thorough && (s->a->alg == CRYPT_PKEY_XMSS || s->a->alg == CRYPT_PKEY_COMPOSITE) ? 3 : 1;
    for (uint32_t i = part; i < l && !mc_failed(); i += parts) {
        if (i % step && i > 40 && i + 40 < l) { continue; }
        if (!b) { for (int v = 0; v < 8 && !mc_failed(); v++) { sig[i] = keep[i] ^ 1 << v; must(s, VER(p, s->md, msg, n, sig, l), "bit %u of signature altered", i * 8 + v); } }
        else { sig[i] = keep[i] ^ 1 << i % 8; must(s, VER(p, s->md, msg, n, sig, l), "byte %u of signature altered", i); }
        sig[i] = keep[i];
        if (!b && mc_thorough) { for (int v = 1; v < 256 && !mc_failed(); v++) { sig[i] = keep[i] + v; must(s, VER(p, s->md, msg, n, sig, l), "byte %u of signature altered by %d", i, v); } sig[i] = keep[i]; }
    }
    if (part == 0) {
        for (uint32_t c = 0; c < l && !mc_failed(); c += b && c > 50 && c + 50 < l ? 97 : 1) { memcpy(alt, sig, c); must(s, VER(p, s->md, msg, n, alt, c), "signature cut to %u of %u", c, l); }
        for (uint32_t c = 1; c <= 9 && !mc_failed(); c++) { for (int f = 0; f < 3; f++) { memcpy(alt, sig, l); memset(alt + l, f == 2 ? 0xff : f, c); must(s, VER(p, s->md, msg, n, alt, l + c), "signature extended by %u", c); memset(alt, 0, c); memcpy(alt + c, sig, l); must(s, VER(p, s->md, msg, n, alt, l + c), "signature preceded by %u zeros", c); } }
        memset(alt, 0, l); must(s, VER(p, s->md, msg, n, alt, l), "zero signature"); memset(alt, 0xff, l); must(s, VER(p, s->md, msg, n, alt, l), "all-ones signature");
        if (VER(p, s->md, msg, n, sig, l)) { mc_fail("%s: verification does not repeat after rejections", s->name); }
    }
}
/* ---- DER (r, s) ---- */
static uint32_t derint(uint8_t *o, const Z *z, int pad) { uint8_t t[600]; int l = (zbits(z) + 8) / 8 + pad; if (!l) { l = 1; } zout(t, l, z); if (z->neg) { int c = 1; for (int i = l; i--;) { c += (uint8_t)~t[i]; t[i] = c; c >>= 8; } } o[0] = 2; int h = 2; if (l < 128) { o[1] = l; } else { o[1] = 0x81; o[2] = l; h = 3; } memcpy(o + h, t, l); return h + l; }
static uint32_t derrs(uint8_t *o, const Z *r, const Z *s, int padr, int pads) { uint8_t t[1300]; uint32_t n = derint(t, r, padr); n += derint(t + n, s, pads); uint32_t h = 2; o[0] = 0x30; if (n < 128) { o[1] = n; } else { o[1] = 0x81; o[2] = n; h = 3; } memcpy(o + h, t, n); return n + h; }
static void unrs(const uint8_t *b, Z *r, Z *s) { int h = b[1] & 0x80 ? 2 + (b[1] & 0x7f) : 2; const uint8_t *p = b + h; int l = p[1], q = 2; if (l == 0x81) { l = p[2]; q = 3; } zbin(r, p + q, l); p += q + l; l = p[1]; q = 2; if (l == 0x81) { l = p[2]; q = 3; } zbin(s, p + q, l); }
static void order(const PkSig *s, Z *n, ZCv *cv, ZPt *g) { if (s->a->kind == PK_DSA) { PkVal *v = calloc(1, sizeof(*v)); (void)v; free(v); CRYPT_EAL_PkeyPara pa; memset(&pa, 0, sizeof(pa)); static uint8_t b[3][512]; pa.id = CRYPT_PKEY_DSA; pa.para.dsaPara = (CRYPT_DsaPara){b[0], b[1], b[2], 512, 512, 512}; if (CRYPT_EAL_PkeyGetPara(pk_key(s->a, 0), &pa)) { mc_fatal("dsa para"); } zbin(n, b[1], pa.para.dsaPara.qLen); return; }
    int id = s->a->alg == CRYPT_PKEY_SM2 ? CRYPT_ECC_SM2 : s->a->para; for (unsigned i = 0; i < MC_LEN(ZC); i++) { if (ZC[i].id == id) { zcv(cv, g, &ZC[i]); zcp(n, &cv->n); return; } } mc_fatal("curve"); }
static void degenerate(const PkSig *s)
{
    static Z n, r, q, c[24], t; ZCv cv; ZPt g; order(s, &n, &cv, &g); uint32_t l = mksig(s, 0, msg, 20); if (!l) { return; } unrs(sig, &r, &q); CRYPT_EAL_PkeyCtx *p = pubOf(s, 0);
    uint32_t e = derrs(alt, &r, &q, 0, 0); if (e != l || memcmp(alt, sig, l)) { mc_fail("%s: signature is not minimal DER", s->name); return; }
    int m = 0; zset(&c[m++], 0); zset(&c[m++], 1); zset(&c[m++], 2); zset(&t, 1); zsub(&c[m++], &n, &t); zcp(&c[m++], &n); zadd(&c[m++], &n, &t); zcp(&c[m++], &r); zcp(&c[m++], &q); zadd(&c[m++], &r, &n); zadd(&c[m++], &q, &n); zsub(&c[m++], &n, &r); zsub(&c[m++], &n, &q); zset(&t, 0); zsub(&c[m++], &t, &r); zsub(&c[m++], &t, &q); zset(&c[m], 1); zshl(&c[m], &c[m], zbits(&n)); zset(&t, 1); zsub(&c[m], &c[m], &t); m++; zset(&c[m], 1); zshl(&c[m], &c[m], zbits(&n)); m++; zadd(&c[m], &n, &n); m++; zset(&t, 0); zset(&c[m], 1); zsub(&c[m], &t, &c[m]); m++; zadd(&c[m], &n, &n); zadd(&c[m], &c[m], &r); m++; zadd(&c[m], &n, &n); zadd(&c[m], &c[m], &q); m++;
    for (int i = 0; i < m; i++) { for (int j = 0; j < m && !mc_failed(); j++) {
        bool same = zc(&c[i], &r) == 0 && c[i].neg == r.neg && ((zc(&c[j], &q) == 0 && c[j].neg == q.neg) || j == 11); /* (r, n - s) verifies too in (EC)DSA */
        uint32_t k = derrs(alt, &c[i], &c[j], 0, 0); int32_t v = VER(p, s->md, msg, 20, alt, k); if (same) { if (j != 11 && v) { mc_fail("%s: rebuilt signature rejected", s->name); } continue; } must(s, v, "r = choice %d, s = choice %d", i, j); } }
    for (int i = 1; i < 4; i++) { uint32_t k = derrs(alt, &r, &q, i, 0); must(s, VER(p, s->md, msg, 20, alt, k), "r with %d needless zero bytes", i); k = derrs(alt, &r, &q, 0, i); must(s, VER(p, s->md, msg, 20, alt, k), "s with %d needless zero bytes", i); }
    memcpy(alt, sig, l); alt[0] = 0x31; must(s, VER(p, s->md, msg, 20, alt, l), "SET instead of SEQUENCE"); 
    if (s->a->kind == PK_DSA || s->a->alg == CRYPT_PKEY_SM2) { return; }
    /* ECDSA: chosen digests where the two products of verification coincide or cancel, digests 0 and n, nonces at the edges */
    static Z d, k, x, ee, w, u; PkVal *pv = calloc(1, sizeof(*pv)); if (pk_get(pk_key(s->a, 0), s->a->prvIds, pv, false)) { mc_fatal("prv"); } zbin(&d, pv->p[0].value, pv->p[0].valueLen); free(pv); int nb = (zbits(&n) + 7) / 8, sh = nb * 8 - zbits(&n); uint8_t dg[80];
    for (int kk = 0; kk < 12 && !mc_failed(); kk++) { ZPt P; if (kk < 6) { zset(&k, kk + 1); } else { zset(&t, kk - 5); zsub(&k, &n, &t); } zpmul(&P, &g, &k, &cv); zmod(&x, &P.x, &n);
        for (int v = 0; v < 8 && !mc_failed(); v++) { zmulm(&w, &x, &d, &n); if (v == 0) { zcp(&ee, &w); } else if (v == 1) { zsub(&ee, &n, &w); } else if (v == 2) { zset(&ee, 0); } else if (v == 3) { zset(&ee, 1); } else if (v == 4) { zset(&t, 1); zsub(&ee, &n, &t); } else if (v == 5) { zset(&t, 1); zsub(&t, &n, &t); zmulm(&ee, &t, &k, &n); } else if (v == 6) { zmulm(&u, &w, &k, &n); zcp(&ee, &u); } else { zadd(&ee, &w, &w); zmod(&ee, &ee, &n); }
            zadd(&u, &ee, &w); zmod(&u, &u, &n); Z ki, sv; zinvp(&ki, &k, &n); zmulm(&sv, &u, &ki, &n); Z es; zshl(&es, &ee, sh); zout(dg, nb, &es); uint32_t L = derrs(alt, &x, &sv, 0, 0); int32_t rr = CRYPT_EAL_PkeyVerifyData(p, dg, nb, alt, L); mc_transitions(1);
            if (sv.n == 0) { must(s, rr, "s = 0 (nonce %d)", kk); for (int f = 1; f < 4; f++) { zset(&sv, f); L = derrs(alt, &x, &sv, 0, 0); must(s, CRYPT_EAL_PkeyVerifyData(p, dg, nb, alt, L), "u1 G + u2 Q at infinity"); } } else if (rr) { mc_fail("%s: valid signature rejected (nonce choice %d, digest choice %d): %x", s->name, kk, v, rr); }
            else { dg[nb - 1] ^= 1 << sh; must(s, CRYPT_EAL_PkeyVerifyData(p, dg, nb, alt, L), "altered chosen digest %d", v); } } }
}
/* ---- RSA: crafted encoded messages through the raw private operation ---- */
static int32_t rawsign(CRYPT_EAL_PkeyCtx *k, const uint8_t *em, uint32_t n, uint8_t *o) { uint32_t l = n; return CRYPT_EAL_PkeyDecrypt(k, em, n, o, &l); }
static void crafted(const PkSig *s, int part, int parts)
{
    static CRYPT_EAL_PkeyCtx *raw; if (!raw) { raw = CRYPT_EAL_PkeyDupCtx(pk_key(s->a, 0)); int32_t no = CRYPT_RSA_NO_PAD; if (CRYPT_EAL_PkeyCtrl(raw, CRYPT_CTRL_SET_RSA_PADDING, &no, sizeof(no))) { mc_fatal("no padding"); } }
    uint8_t em[512], e2[512], o[512]; uint32_t nl = 128, ol; int32_t r; uint64_t st = mc_rand_state(); mc_rand_reseed(5); uint32_t l = mksig(s, 0, msg, 9); mc_rand_reseed(st); if (!l) { return; } nl = l; CRYPT_EAL_PkeyCtx *p = pubOf(s, 0);
    static CRYPT_EAL_PkeyCtx *rp; if (!rp) { rp = pk_pub(s->a, pk_key(s->a, 0)); int32_t no = CRYPT_RSA_NO_PAD; CRYPT_EAL_PkeyCtrl(rp, CRYPT_CTRL_SET_RSA_PADDING, &no, sizeof(no)); } ol = sizeof(em); r = CRYPT_EAL_PkeyEncrypt(rp, sig, l, em, &ol); if (r || ol != nl) { mc_fatal("raw public operation %x", r); }
    r = rawsign(raw, em, nl, o); if (r || memcmp(o, sig, nl)) { mc_fatal("raw private operation %x", r); }
    for (uint32_t i = part; i < nl && !mc_failed(); i += parts) { static const uint8_t xs[] = {1, 2, 0x80, 0xff, 0x10}; for (unsigned v = 0; v < (mc_thorough ? 255 : MC_LEN(xs)) && !mc_failed(); v++) { memcpy(e2, em, nl); e2[i] ^= mc_thorough ? v + 1 : xs[v]; if (rawsign(raw, e2, nl, o)) { continue; } must(s, VER(p, s->md, msg, 9, o, nl), "encoded message with byte %u altered by %02x", i, mc_thorough ? v + 1 : xs[v]); } }
    if (part == 0 && s->pad == 1) { uint32_t z = 2; while (em[z] == 0xff) { z++; } uint32_t tl = nl - z - 1; /* DigestInfo of tl bytes */
        for (uint32_t ps = 0; ps < z - 2 && !mc_failed(); ps++) { for (int f = 0; f < 3; f++) { memset(e2, f == 0 ? 0 : f == 1 ? 0xff : 0x55, nl); e2[0] = 0; e2[1] = 1; memset(e2 + 2, 0xff, ps); e2[2 + ps] = 0; memcpy(e2 + 3 + ps, em + z + 1, tl); if (!rawsign(raw, e2, nl, o)) { must(s, VER(p, s->md, msg, 9, o, nl), "padding of %u bytes, rubbish behind the digest", ps); } } }
        for (uint32_t c = 0; c < tl && !mc_failed(); c++) { memset(e2, 0xff, nl); e2[0] = 0; e2[1] = 1; e2[nl - c - 1] = 0; memcpy(e2 + nl - c, em + nl - c, c); if (!rawsign(raw, e2, nl, o)) { must(s, VER(p, s->md, msg, 9, o, nl), "last %u bytes of the DigestInfo only", c); } memcpy(e2 + nl - c, em + z + 1, c); if (!rawsign(raw, e2, nl, o)) { must(s, VER(p, s->md, msg, 9, o, nl), "first %u bytes of the DigestInfo only", c); } }
        for (int bt = 0; bt < 3; bt++) { memcpy(e2, em, nl); e2[1] = bt == 0 ? 0 : bt == 1 ? 2 : 3; if (!rawsign(raw, e2, nl, o)) { must(s, VER(p, s->md, msg, 9, o, nl), "block type %d", e2[1]); } if (bt == 0) { memset(e2 + 2, 0, z - 2); if (!rawsign(raw, e2, nl, o)) { must(s, VER(p, s->md, msg, 9, o, nl), "block type 0 with zeros"); } } } }
    if (part == 0) { /* signature values outside the range, and equal residues */
        PkVal *v = calloc(1, sizeof(*v)); if (pk_get(pk_key(s->a, 0), s->a->pubIds, v, true)) { mc_fatal("pub"); } static Z n, z, t; zbin(&n, v->p[0].value, v->p[0].valueLen); free(v); Z c[6]; zset(&c[0], 0); zset(&c[1], 1); zset(&t, 1); zsub(&c[2], &n, &t); zcp(&c[3], &n); zadd(&c[4], &n, &t); zbin(&z, sig, l); zadd(&c[5], &z, &n);
        for (int i = 0; i < 6; i++) { if (zbits(&c[i]) > (int)nl * 8) { continue; } zout(alt, nl, &c[i]); must(s, VER(p, s->md, msg, 9, alt, nl), "signature value choice %d", i); } zout(alt, nl + 1, &c[5]); must(s, VER(p, s->md, msg, 9, alt, nl + 1), "signature plus modulus, longer"); }
}
/* contexts, user identities, pre-hash */
static void contexts(const PkAlg *a)
{
    CRYPT_EAL_PkeyCtx *k = CRYPT_EAL_PkeyDupCtx(pk_key(a, 0)), *p = pk_pub(a, pk_key(a, 0)); if (!k || !p) { mc_fatal("keys"); } static uint8_t cx[260]; for (int i = 0; i < 260; i++) { cx[i] = i * 7 + 1; } int det = 1; bool sm2 = a->alg == CRYPT_PKEY_SM2;
    int cmd = sm2 ? CRYPT_CTRL_SET_SM2_USER_ID : CRYPT_CTRL_SET_CTX_INFO, md = sm2 ? CRYPT_MD_SM3 : a->alg == CRYPT_PKEY_COMPOSITE && !strstr(a->name, "-44-p") ? CRYPT_MD_SHA512 : CRYPT_MD_SHA256; static const int L[] = {0, 1, 2, 15, 16, 17, 64, 127, 128, 200, 254, 255}; if (a->alg == CRYPT_PKEY_ML_DSA) { CRYPT_EAL_PkeyCtrl(k, CRYPT_CTRL_SET_DETERMINISTIC_FLAG, &det, sizeof(det)); }
    for (unsigned i = 0; i < MC_LEN(L) && !mc_failed(); i++) { if (a->alg == CRYPT_PKEY_SLH_DSA && i % 5) { continue; } uint32_t l = sizeof(sig); if (sm2 && !L[i]) { continue; } if (CRYPT_EAL_PkeyCtrl(k, cmd, L[i] ? cx : NULL, L[i]) || CRYPT_EAL_PkeySign(k, md, msg, 30, sig, &l)) { mc_fail("%s: signing with a context of %d bytes failed", a->name, L[i]); break; }
        for (unsigned j = 0; j < MC_LEN(L) && !mc_failed(); j++) { if (sm2 && !L[j]) { continue; } if (CRYPT_EAL_PkeyCtrl(p, cmd, L[j] ? cx : NULL, L[j])) { mc_fail("%s: context of %d bytes refused", a->name, L[j]); break; } int32_t r = VER(p, md, msg, 30, sig, l); if ((r == 0) != (i == j)) { mc_fail("%s: context of %d bytes, verified with %d bytes: %x", a->name, L[i], L[j], r); } }
        for (int b = 0; b < L[i] && !mc_failed(); b += 1 + (L[i] > 20) * 13) { cx[b] ^= 1; if (!CRYPT_EAL_PkeyCtrl(p, cmd, cx, L[i]) && !VER(p, md, msg, 30, sig, l)) { mc_fail("%s: context altered at byte %d still verifies", a->name, b); } cx[b] ^= 1; } }
    if (!sm2 && a->alg != CRYPT_PKEY_COMPOSITE) { if (CRYPT_EAL_PkeyCtrl(k, cmd, cx, 256) == 0) { mc_fail("%s: context of 256 bytes accepted", a->name); } 
        for (int ph = 0; ph < 2; ph++) { for (int pv = 0; pv < 2; pv++) { for (int mv = 0; mv < 2; mv++) { CRYPT_EAL_PkeyCtrl(k, cmd, cx, 3); CRYPT_EAL_PkeyCtrl(p, cmd, cx, 3); if (CRYPT_EAL_PkeyCtrl(k, CRYPT_CTRL_SET_PREHASH_MODE, &ph, sizeof(ph)) || CRYPT_EAL_PkeyCtrl(p, CRYPT_CTRL_SET_PREHASH_MODE, &pv, sizeof(pv))) { mc_fail("%s: pre-hash mode refused", a->name); continue; } uint32_t l = sizeof(sig); int32_t r = CRYPT_EAL_PkeySign(k, CRYPT_MD_SHA256, msg, 30, sig, &l); if (r) { mc_fail("%s: prehash %d signing failed %x", a->name, ph, r); continue; } r = VER(p, mv ? CRYPT_MD_SHA512 : CRYPT_MD_SHA256, msg, 30, sig, l); bool ok = ph == pv && (!mv || !ph); if ((r == 0) != ok) { mc_fail("%s: signed with pre-hash %d, verified with pre-hash %d, hash %d: %x", a->name, ph, pv, mv, r); } } } } }
    if (a->alg == CRYPT_PKEY_ML_DSA) { int z = 0; uint32_t l = sizeof(sig), l2 = sizeof(alt); CRYPT_EAL_PkeyCtrl(k, CRYPT_CTRL_SET_PREHASH_MODE, &z, sizeof(z)); CRYPT_EAL_PkeySign(k, md, msg, 30, sig, &l); CRYPT_EAL_PkeySign(k, md, msg, 30, alt, &l2); if (l != l2 || memcmp(sig, alt, l)) { mc_fail("%s: deterministic signatures differ", a->name); } }
    CRYPT_EAL_PkeyFreeCtx(k); CRYPT_EAL_PkeyFreeCtx(p);
}
/* many messages, so that short components occur */
static void many(const PkSig *s, int from, int to)
{
    CRYPT_EAL_PkeyCtx *p = pubOf(s, 0); for (int i = from; i < to && !mc_failed(); i++) { uint8_t m[2] = {i >> 8, i}; mc_rand_reseed(i * 2654435761u + 17); uint32_t l = mksig(s, 0, m, 2); if (!l) { return; } int32_t r = VER(p, s->md, m, 2, sig, l); if (r) { mc_fail("%s: signature over %04x rejected: %x", s->name, i, r); } mc_state(l); if (i % 16 == 0) { m[1] ^= 1; must(s, VER(p, s->md, m, 2, sig, l), "other message"); } }
}
/* keys at the edges of the range */
static void edgekeys(int c)
{
    ZCv cv; ZPt g, P; zcv(&cv, &g, &ZC[c]); bool sm = ZC[c].id == CRYPT_ECC_SM2; PkAlg a = *pk_find(sm ? "sm2" : "ecdsa-p256"); if (!sm) { a.para = ZC[c].id; } Z d, t; uint8_t b[80], pt[170]; int nb = (zbits(&cv.n) + 7) / 8;
    for (int i = 0; i < 12 && !mc_failed(); i++) { if (i < 6) { zset(&d, i + 1); } else { zset(&t, i - 4); zsub(&d, &cv.n, &t); } zpmul(&P, &g, &d, &cv); zout(b, nb, &d); pt[0] = 4; zout(pt + 1, cv.len, &P.x); zout(pt + 1 + cv.len, cv.len, &P.y);
        CRYPT_EAL_PkeyCtx *k = pk_new(&a), *p = pk_new(&a); CRYPT_EAL_PkeyPrv pr = {.id = a.alg, .key.eccPrv = {b, nb}}; CRYPT_EAL_PkeyPub pu = {.id = a.alg, .key.eccPub = {pt, 1 + 2 * cv.len}}; int md = sm ? CRYPT_MD_SM3 : CRYPT_MD_SHA256;
        if (CRYPT_EAL_PkeySetPrv(k, &pr) || CRYPT_EAL_PkeySetPub(p, &pu)) { mc_fail("%s: key choice %d refused", ZC[c].name, i); } else { if (sm) { CRYPT_EAL_PkeySetPub(k, &pu); PkSig s = {&a, md, 0, 0, "sm2"}; pk_pad(k, &s); pk_pad(p, &s); } for (int m = 0; m < 6; m++) { uint32_t l = sizeof(sig); int32_t r = CRYPT_EAL_PkeySign(k, md, msg + m, 11, sig, &l); if (r || VER(p, md, msg + m, 11, sig, l)) { mc_fail("%s: private key choice %d: signing %x or verification fails", ZC[c].name, i, r); } else if (!VER(p, md, msg + m + 1, 11, sig, l)) { mc_fail("%s: key choice %d: other message verifies", ZC[c].name, i); } } }
        CRYPT_EAL_PkeyFreeCtx(k); CRYPT_EAL_PkeyFreeCtx(p); }
}
/* Ed25519: s + L and s >= L, every single alteration is in alter(); small-order R */
static void ed(void)
{
    PkSig s = {pk_find("ed25519"), CRYPT_MD_SHA512, 0, 0, "ed25519"}; static const PkSig *keep; static PkSig st; st = s; keep = &st; Z L, t, v; zhex(&L, "1000000000000000000000000000000014def9dea2f79cd65812631a5cf5d3ed"); CRYPT_EAL_PkeyCtx *p = pubOf(keep, 0);
    for (int i = 0; i < 200 && !mc_failed(); i++) { uint32_t l = mksig(keep, 0, msg, i); if (!l) { return; } uint8_t be[32]; for (int j = 0; j < 32; j++) { be[j] = sig[63 - j]; } zbin(&t, be, 32); if (zc(&t, &L) >= 0) { mc_fail("ed25519: s is not reduced"); } zcp(&v, &t); for (int m = 1; m < 16; m++) { zadd(&v, &v, &L); if (zbits(&v) > 256) { break; } zout(be, 32, &v); memcpy(alt, sig, 64); for (int j = 0; j < 32; j++) { alt[63 - j] = be[j]; } must(keep, VER(p, s.md, msg, i, alt, 64), "s plus %d times the order", m); }
        for (int f = 0; f < 8; f++) { memcpy(alt, sig, 64); memset(alt + (f & 1 ? 32 : 0), f & 4 ? 0xff : 0, 32); if (f & 2) { alt[f & 1 ? 32 : 0] = 1; } must(keep, VER(p, s.md, msg, i, alt, 64), "degenerate half %d", f); } }
}
/* ---- LMS / HSS: an independent signer, because the library only verifies ---- */
static void h256(uint8_t *o, const uint8_t *d, uint32_t n) { ref_md(R_SHA256, d, n, o, 32); }
typedef struct { int h, w, p, ls; uint8_t I[16], seed[32]; uint32_t lt, ot; uint8_t T[2048][32]; } Lms;
static void be32(uint8_t *o, uint32_t v) { o[0] = v >> 24; o[1] = v >> 16; o[2] = v >> 8; o[3] = v; }
static int coef(const uint8_t *s, int i, int w) { int per = 8 / w; return s[i / per] >> (8 - w * (i % per + 1)) & ((1 << w) - 1); }
static void chain(const Lms *k, uint32_t q, int i, int from, int to, uint8_t *x) { uint8_t b[55]; memcpy(b, k->I, 16); be32(b + 16, q); b[20] = i >> 8; b[21] = i; for (int j = from; j < to; j++) { b[22] = j; memcpy(b + 23, x, 32); h256(x, b, 55); } }
static void otskey(const Lms *k, uint32_t q, int i, uint8_t *x) { uint8_t b[55]; memcpy(b, k->I, 16); be32(b + 16, q); b[20] = i >> 8; b[21] = i; b[22] = 0xff; memcpy(b + 23, k->seed, 32); h256(x, b, 55); }
static void lmsgen(Lms *k, int lt, int ot, int salt) { static const int W[] = {0, 1, 2, 4, 8}, PP[] = {0, 265, 133, 67, 34}, LS[] = {0, 7, 6, 4, 0}; k->lt = lt; k->ot = ot; k->h = lt == 5 ? 5 : 10; k->w = W[ot]; k->p = PP[ot]; k->ls = LS[ot]; for (int i = 0; i < 16; i++) { k->I[i] = i * 3 + salt; } for (int i = 0; i < 32; i++) { k->seed[i] = i * 5 + salt; } static uint8_t b[22 + 265 * 32]; for (int q = 0; q < 1 << k->h; q++) { memcpy(b, k->I, 16); be32(b + 16, q); b[20] = 0x80; b[21] = 0x80; for (int i = 0; i < k->p; i++) { otskey(k, q, i, b + 22 + 32 * i); chain(k, q, i, 0, (1 << k->w) - 1, b + 22 + 32 * i); } uint8_t o[32], n[54]; h256(o, b, 22 + 32 * k->p); memcpy(n, k->I, 16); be32(n + 16, (1 << k->h) + q); n[20] = 0x82; n[21] = 0x82; memcpy(n + 22, o, 32); h256(k->T[(1 << k->h) + q], n, 54); } for (int r = (1 << k->h) - 1; r; r--) { uint8_t n[86]; memcpy(n, k->I, 16); be32(n + 16, r); n[20] = 0x83; n[21] = 0x83; memcpy(n + 22, k->T[2 * r], 64); h256(k->T[r], n, 86); } }
static uint32_t lmspub(const Lms *k, uint8_t *o) { be32(o, k->lt); be32(o + 4, k->ot); memcpy(o + 8, k->I, 16); memcpy(o + 24, k->T[1], 32); return 56; }
static uint32_t lmssign(const Lms *k, uint32_t q, const uint8_t *m, uint32_t ml, uint8_t *o) { uint8_t *s = o; be32(o, q); be32(o + 4, k->ot); o += 8; uint8_t *C = o; for (int i = 0; i < 32; i++) { C[i] = q * 31 + i; } o += 32; static uint8_t b[8192]; memcpy(b, k->I, 16); be32(b + 16, q); b[20] = 0x81; b[21] = 0x81; memcpy(b + 22, C, 32); memcpy(b + 54, m, ml); uint8_t Q[34]; h256(Q, b, 54 + ml); uint32_t sum = 0; for (int i = 0; i < 256 / k->w; i++) { sum += (1 << k->w) - 1 - coef(Q, i, k->w); } sum <<= k->ls; Q[32] = sum >> 8; Q[33] = sum; for (int i = 0; i < k->p; i++) { otskey(k, q, i, o); chain(k, q, i, 0, coef(Q, i, k->w), o); o += 32; } be32(o, k->lt); o += 4; for (uint32_t r = (1 << k->h) + q; r > 1; r /= 2) { memcpy(o, k->T[r ^ 1], 32); o += 32; } return o - s; }
static void hss(int lev, int lt, int ot, uint32_t q)
{
    static Lms K[3]; static int have; uint8_t pub[60], mm[3000]; if (have != (lev << 8 | lt << 4 | ot)) { for (int i = 0; i < lev; i++) { lmsgen(&K[i], lt, ot, 11 * i + ot); } have = lev << 8 | lt << 4 | ot; } uint32_t ml = 21; memcpy(mm, msg, ml);
    be32(pub, lev); lmspub(&K[0], pub + 4); uint32_t n = 0; be32(sig, lev - 1); n = 4; for (int i = 0; i < lev; i++) { if (i + 1 < lev) { uint8_t pk[56]; lmspub(&K[i + 1], pk); n += lmssign(&K[i], (q + i) % (1 << K[i].h), pk, 56, sig + n); memcpy(sig + n, pk, 56); n += 56; } else { n += lmssign(&K[i], (q * 5 + 1) % (1 << K[i].h), mm, ml, sig + n); } }
    CRYPT_EAL_PkeyCtx *k = CRYPT_EAL_PkeyNewCtx(CRYPT_PKEY_HSS_LMS); uint32_t lv = lev, l32 = lt, o32 = ot; int c = 0; BSL_Param p[8]; BSL_PARAM_InitValue(&p[c++], CRYPT_PARAM_HSS_LEVEL, BSL_PARAM_TYPE_UINT32, &lv, 4); const int li[] = {CRYPT_PARAM_HSS_LEVEL1_LMS_TYPE, CRYPT_PARAM_HSS_LEVEL2_LMS_TYPE, CRYPT_PARAM_HSS_LEVEL3_LMS_TYPE}, oi[] = {CRYPT_PARAM_HSS_LEVEL1_OTS_TYPE, CRYPT_PARAM_HSS_LEVEL2_OTS_TYPE, CRYPT_PARAM_HSS_LEVEL3_OTS_TYPE}; for (int i = 0; i < lev; i++) { BSL_PARAM_InitValue(&p[c++], li[i], BSL_PARAM_TYPE_UINT32, &l32, 4); BSL_PARAM_InitValue(&p[c++], oi[i], BSL_PARAM_TYPE_UINT32, &o32, 4); } p[c] = (BSL_Param)BSL_PARAM_END;
    int32_t r = CRYPT_EAL_PkeyCtrl(k, CRYPT_CTRL_HSS_SET_PARAM, p, 0); BSL_Param pp[2] = {{CRYPT_PARAM_HSS_PUBKEY, BSL_PARAM_TYPE_OCTETS, pub, 60, 0}, BSL_PARAM_END}; int32_t r2 = CRYPT_EAL_PkeySetPubEx(k, pp); if (r || r2) { mc_fail("hss set-up %x %x", r, r2); CRYPT_EAL_PkeyFreeCtx(k); return; }
    PkSig s = {pk_find("ed25519"), CRYPT_MD_SHA256, lev, 0, "hss"}; r = VER(k, CRYPT_MD_SHA256, mm, ml, sig, n); if (r) { mc_fail("hss levels %d lms %d ots %d q %u: valid signature of %u bytes rejected: %x", lev, lt, ot, q, n, r); } mc_outcome(sig, 64);
    uint32_t st = q < 2 ? 1 : 41; if (n > 4000) { st = q == 1 ? 7 : 101; } for (uint32_t i = 0; i < n && !mc_failed(); i += i < 50 ? 1 : st) { for (int v = 0; v < 2; v++) { uint8_t b = sig[i]; sig[i] ^= v ? 0x80 : 1; must(&s, VER(k, CRYPT_MD_SHA256, mm, ml, sig, n), "byte %u altered", i); sig[i] = b; } }
    for (uint32_t i = 0; i < ml; i++) { mm[i] ^= 2; must(&s, VER(k, CRYPT_MD_SHA256, mm, ml, sig, n), "message byte %u altered", i); mm[i] ^= 2; } must(&s, VER(k, CRYPT_MD_SHA256, mm, ml - 1, sig, n), "message cut"); for (uint32_t i = 1; i < 40; i++) { must(&s, VER(k, CRYPT_MD_SHA256, mm, ml, sig, n - i), "signature cut by %u", i); must(&s, VER(k, CRYPT_MD_SHA256, mm, ml, sig, n + i), "signature extended by %u", i); }
    for (int i = 0; i < 60 && !mc_failed() && q < 3; i++) { pub[i] ^= 1; CRYPT_EAL_PkeyCtx *w = CRYPT_EAL_PkeyNewCtx(CRYPT_PKEY_HSS_LMS); CRYPT_EAL_PkeyCtrl(w, CRYPT_CTRL_HSS_SET_PARAM, p, 0); if (!CRYPT_EAL_PkeySetPubEx(w, pp)) { must(&s, VER(w, CRYPT_MD_SHA256, mm, ml, sig, n), "public key byte %d altered", i); } CRYPT_EAL_PkeyFreeCtx(w); pub[i] ^= 1; } CRYPT_EAL_PkeyFreeCtx(k);
}
void mc_explore(void)
{
    hx_init(); for (unsigned i = 0; i < sizeof(msg); i++) { msg[i] = mc_hash2(i, 3); } pk_sigs(S, 600, &nS);
    mc_space("schemes"); for (int i = 0; i < nS; i++) { if (slow(S[i].a) && !mc_thorough) { continue; } if (mc_case("scheme %d %s md %d pad %d salt %d", i, S[i].name, S[i].md, S[i].pad, S[i].saltLen)) { basics(&S[i]); } }
    mc_space("alterations"); for (int i = 0; i < nS; i++) { const PkSig *s = &S[i]; if (slow(s->a) && !mc_thorough) { continue; } bool first = i == 0 || S[i - 1].a != s->a; if (!first && !mc_thorough && s->md != CRYPT_MD_SHA256) { continue; } int parts = bigsig(s->a) ? 16 : 2; if (s->a->alg == CRYPT_PKEY_XMSS) { parts = 2; } for (int q = 0; q < parts; q++) { if (mc_case("alter %d %s md %d pad %d salt %d, %d/%d", i, s->name, s->md, s->pad, s->saltLen, q, parts)) { alter(s, q, parts); } } }
    mc_space("degenerate values"); for (int i = 0; i < nS; i++) { const PkSig *s = &S[i]; if ((s->a->kind == PK_DSA || s->a->kind == PK_EC || s->a->alg == CRYPT_PKEY_SM2) && (s->md == CRYPT_MD_SHA256 || s->md == CRYPT_MD_SM3) && mc_case("degenerate %s md %d", s->name, s->md)) { degenerate(s); } }
    mc_space("crafted RSA"); for (int i = 0; i < nS; i++) { const PkSig *s = &S[i]; if (s->a->alg == CRYPT_PKEY_RSA && !strcmp(s->name, "rsa1024") && s->md != CRYPT_MD_MD5) { for (int q = 0; q < 4; q++) { if (mc_case("crafted rsa1024 md %d pad %d salt %d, %d/4", s->md, s->pad, s->saltLen, q)) { crafted(s, q, 4); } } } }
    mc_space("contexts"); static const char *cx[] = {"mldsa44", "mldsa65", "mldsa87", "slh-sha2-128f", "slh-shake-128f", "sm2"}; for (unsigned i = 0; i < MC_LEN(cx); i++) { if (mc_case("context %s", cx[i])) { contexts(pk_find(cx[i])); } }
    mc_space("many messages"); for (int i = 0; i < nS; i++) { const PkSig *s = &S[i]; int n = s->a->alg == CRYPT_PKEY_ECDSA ? (strstr(s->name, "bp") ? 512 : 2048) : s->a->alg == CRYPT_PKEY_SM2 || s->a->alg == CRYPT_PKEY_ED25519 ? 4096 : s->a->alg == CRYPT_PKEY_DSA ? 512 : s->a->alg == CRYPT_PKEY_RSA ? (s->a->para == 1024 ? 1024 : 0) : s->a->alg == CRYPT_PKEY_ML_DSA ? 1024 : 0; if (mc_thorough) { n *= 8; } if (s->md != CRYPT_MD_SHA256 && s->a->kind != PK_CV) { continue; } for (int f = 0; f < n; f += 128) { if (mc_case("messages %d %s pad %d salt %d from %d", i, s->name, s->pad, s->saltLen, f)) { many(s, f, f + 128); } } }
    mc_space("edge keys"); for (unsigned c = 0; c < MC_LEN(ZC); c++) { if (mc_case("edge keys %s", ZC[c].name)) { edgekeys(c); } } if (mc_case("ed25519 scalars")) { ed(); }
    mc_space("hss"); for (int lev = 1; lev <= 3; lev++) { for (int lt = 5; lt <= (mc_thorough ? 6 : 5); lt++) { for (int ot = 1; ot <= 4; ot++) { for (uint32_t q = 0; q < 32; q += lev == 1 ? 1 : 8) { if (!mc_thorough && ((lev == 3 && ot != 2) || (ot == 4 && (lev > 1 || q % 4)))) { continue; } if (mc_case("hss levels %d lms %d ots %d leaf %u", lev, lt, ot, q)) { hss(lev, lt, ot, q); } } } } }
}
