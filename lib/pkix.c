#include "pkix.h"
#include "crypt_params_key.h"
#include <time.h>
void buf_put(Buf *b, const void *p, size_t n) { if (b->n + n > b->cap) { b->cap = (b->n + n) * 2 + 64; b->p = realloc(b->p, b->cap); } if (n) { memcpy(b->p + b->n, p, n); } b->n += n; }
void buf_u8(Buf *b, uint8_t v) { buf_put(b, &v, 1); }
void buf_u16(Buf *b, uint16_t v) { uint8_t x[2] = {v >> 8, v}; buf_put(b, x, 2); }
void buf_u24(Buf *b, uint32_t v) { uint8_t x[3] = {v >> 16, v >> 8, v}; buf_put(b, x, 3); }
void buf_u32(Buf *b, uint32_t v) { uint8_t x[4] = {v >> 24, v >> 16, v >> 8, v}; buf_put(b, x, 4); }
void buf_buf(Buf *b, const Buf *x) { buf_put(b, x->p, x->n); }
void buf_set(Buf *b, const void *p, size_t n) { b->n = 0; buf_put(b, p, n); }
void buf_clear(Buf *b) { b->n = 0; }
void buf_free(Buf *b) { free(b->p); memset(b, 0, sizeof *b); }
void der_tlv(Buf *b, int tag, const void *p, size_t n)
{
    buf_u8(b, tag);
    if (n < 128) { buf_u8(b, n); } else if (n < 256) { buf_u8(b, 0x81); buf_u8(b, n); } else if (n < 65536) { buf_u8(b, 0x82); buf_u16(b, n); } else { buf_u8(b, 0x83); buf_u24(b, n); }
    buf_put(b, p, n);
}
void der_wrap(Buf *b, int tag, Buf *in) { der_tlv(b, tag, in->p, in->n); buf_free(in); }
void der_oid(Buf *b, const char *s)
{
    uint64_t v[32]; int n = 0;
    while (*s && n < 32) { v[n++] = strtoull(s, (char **)&s, 10); if (*s == '.') { s++; } }
    Buf o = {0}; v[1] += v[0] * 40;
    for (int i = 1; i < n; i++) { uint8_t t[10]; int k = 0; uint64_t x = v[i]; do { t[k++] = x & 127; x >>= 7; } while (x); while (k-- > 0) { buf_u8(&o, t[k] | (k ? 128 : 0)); } }
    der_wrap(b, 6, &o);
}
void der_uint(Buf *b, uint64_t v) { uint8_t t[9]; int n = 0; t[0] = 0; for (int i = 7; i >= 0; i--) { uint8_t c = v >> (8 * i); if (n || c || i == 0) { if (!n && (c & 128)) { t[n++] = 0; } t[n++] = c; } } der_tlv(b, 2, t, n); }
void der_time(Buf *b, int64_t t)
{
    time_t tt = t; struct tm m; gmtime_r(&tt, &m); char s[32];
    if (m.tm_year + 1900 < 2050 && m.tm_year + 1900 >= 1950) { sprintf(s, "%02d%02d%02d%02d%02d%02dZ", m.tm_year % 100, m.tm_mon + 1, m.tm_mday, m.tm_hour, m.tm_min, m.tm_sec); der_tlv(b, 0x17, s, 13); }
    else { sprintf(s, "%04d%02d%02d%02d%02d%02dZ", m.tm_year + 1900, m.tm_mon + 1, m.tm_mday, m.tm_hour, m.tm_min, m.tm_sec); der_tlv(b, 0x18, s, 15); }
}
const char *px_kindname(PxKind k) { static const char *n[] = {"ec256", "ec384", "sm2", "rsa", "ed25519", "ec521"}; return n[k]; }
static void mkspki(PxKey *k)
{
    Buf alg = {0}, bits = {0}, s = {0}, a = {0}; uint8_t pub[600]; CRYPT_EAL_PkeyPub p = {0};
    p.id = CRYPT_EAL_PkeyGetId(k->k); int32_t r;
    buf_u8(&bits, 0);
    if (k->kind == PK_RSA2048) {
        uint8_t n[300], e[16]; p.key.rsaPub.n = n; p.key.rsaPub.nLen = sizeof n; p.key.rsaPub.e = e; p.key.rsaPub.eLen = sizeof e;
        r = CRYPT_EAL_PkeyGetPub(k->k, &p); if (r) { mc_fatal("getpub rsa %x", r); }
        Buf q = {0}, nn = {0}; if (n[0] & 128) { buf_u8(&nn, 0); } buf_put(&nn, n, p.key.rsaPub.nLen); der_wrap(&q, 2, &nn);
        Buf ee = {0}; if (e[0] & 128) { buf_u8(&ee, 0); } buf_put(&ee, e, p.key.rsaPub.eLen); der_wrap(&q, 2, &ee); der_wrap(&bits, 0x30, &q);
        der_oid(&alg, "1.2.840.113549.1.1.1"); der_tlv(&alg, 5, "", 0);
    } else {
        p.key.eccPub.data = pub; p.key.eccPub.len = sizeof pub; r = CRYPT_EAL_PkeyGetPub(k->k, &p); if (r) { mc_fatal("getpub %x", r); }
        buf_put(&bits, pub, p.key.eccPub.len);
        if (k->kind == PK_ED25519) { der_oid(&alg, "1.3.101.112"); }
        else { der_oid(&alg, "1.2.840.10045.2.1"); der_oid(&alg, k->kind == PK_EC256 ? "1.2.840.10045.3.1.7" : k->kind == PK_EC384 ? "1.3.132.0.34" : k->kind == PK_EC521 ? "1.3.132.0.35" : "1.2.156.10197.1.301"); }
    }
    buf_put(&k->pub, bits.p + 1, bits.n - 1);
    ref_md(R_SHA1, k->pub.p, k->pub.n, k->skid, 0);
    der_wrap(&s, 0x30, &alg); der_wrap(&s, 3, &bits); der_wrap(&k->spki, 0x30, &s); buf_free(&a);
}
PxKey *px_key(PxKind kind, int idx)
{
    static PxKey cache[PK_KMAX][16]; PxKey *k = &cache[kind][idx];
    if (k->k) { return k; }
    k->kind = kind;
    extern uint64_t mc_rand_state(void); uint64_t save = mc_rand_state();
    mc_rand_reseed(0x70780000 + kind * 64 + idx);
    int id = kind == PK_RSA2048 ? CRYPT_PKEY_RSA : kind == PK_SM2 ? CRYPT_PKEY_SM2 : kind == PK_ED25519 ? CRYPT_PKEY_ED25519 : CRYPT_PKEY_ECDSA;
    k->k = CRYPT_EAL_PkeyNewCtx(id); int32_t r = 0;
    if (kind == PK_RSA2048) { uint8_t e[] = {1, 0, 1}; CRYPT_EAL_PkeyPara pa = {.id = id}; pa.para.rsaPara.e = e; pa.para.rsaPara.eLen = 3; pa.para.rsaPara.bits = 2048; r = CRYPT_EAL_PkeySetPara(k->k, &pa); }
    else if (id == CRYPT_PKEY_ECDSA) { r = CRYPT_EAL_PkeySetParaById(k->k, kind == PK_EC256 ? CRYPT_ECC_NISTP256 : kind == PK_EC384 ? CRYPT_ECC_NISTP384 : CRYPT_ECC_NISTP521); }
    if (!r) { r = CRYPT_EAL_PkeyGen(k->k); }
    if (r) { mc_fatal("key generation %d: %x", kind, r); }
    mc_rand_reseed(save);
    mkspki(k);
    return k;
}
void px_sigalg(Buf *b, PxKey *k, int md)
{
    Buf a = {0};
    switch (k->kind) {
        case PK_RSA2048: der_oid(&a, md == CRYPT_MD_SHA384 ? "1.2.840.113549.1.1.12" : md == CRYPT_MD_SHA1 ? "1.2.840.113549.1.1.5" : md == CRYPT_MD_MD5 ? "1.2.840.113549.1.1.4" : "1.2.840.113549.1.1.11"); der_tlv(&a, 5, "", 0); break;
        case PK_SM2: der_oid(&a, "1.2.156.10197.1.501"); break;
        case PK_ED25519: der_oid(&a, "1.3.101.112"); break;
        default: der_oid(&a, md == CRYPT_MD_SHA384 ? "1.2.840.10045.4.3.3" : md == CRYPT_MD_SHA1 ? "1.2.840.10045.4.1" : "1.2.840.10045.4.3.2");
    }
    der_wrap(b, 0x30, &a);
}
void px_sign(PxKey *k, int md, const Buf *tbs, Buf *sig)
{
    uint8_t s[1024]; uint32_t n = sizeof s; int32_t r = 0;
    if (!md) { md = CRYPT_MD_SHA256; }
    CRYPT_EAL_PkeyCtx *c = CRYPT_EAL_PkeyDupCtx(k->k);
    if (k->kind == PK_RSA2048) { int32_t m = md; r = CRYPT_EAL_PkeyCtrl(c, CRYPT_CTRL_SET_RSA_EMSA_PKCSV15, &m, sizeof m); }
    if (k->kind == PK_SM2) { r = CRYPT_EAL_PkeyCtrl(c, CRYPT_CTRL_SET_SM2_USER_ID, "1234567812345678", 16); md = CRYPT_MD_SM3; }
    if (k->kind == PK_ED25519) { md = CRYPT_MD_SHA512; }
    if (!r) { r = CRYPT_EAL_PkeySign(c, md, tbs->p, tbs->n, s, &n); }
    if (r) { mc_fatal("px_sign %x", r); }
    CRYPT_EAL_PkeyFreeCtx(c);
    buf_set(sig, s, n);
}
void px_name(Buf *b, const char *cn)
{
    Buf atv = {0}, set = {0}, rdn = {0};
    if (cn && *cn) { der_oid(&atv, "2.5.4.3"); der_tlv(&atv, 0x0c, cn, strlen(cn)); der_wrap(&set, 0x30, &atv); der_wrap(&rdn, 0x31, &set); }
    der_wrap(b, 0x30, &rdn);
}
static void ext(Buf *b, const char *oid, int crit, Buf *val) { Buf e = {0}; der_oid(&e, oid); if (crit) { der_tlv(&e, 1, "\xff", 1); } der_wrap(&e, 4, val); der_wrap(b, 0x30, &e); }
static void finish(Buf *tbsIn, PxKey *signer, int md, int badSig, Buf *out)
{
    Buf tbs = {0}, all = {0}, sig = {0}, bits = {0};
    der_wrap(&tbs, 0x30, tbsIn);
    px_sign(signer, md, &tbs, &sig);
    if (badSig) { sig.p[sig.n - 3] ^= 1; }
    buf_buf(&all, &tbs); px_sigalg(&all, signer, md); buf_u8(&bits, 0); buf_buf(&bits, &sig); der_wrap(&all, 3, &bits);
    out->n = 0; der_wrap(out, 0x30, &all); buf_free(&tbs); buf_free(&sig);
}
void px_cert(const PxCert *c, Buf *out)
{
    Buf t = {0}, v = {0}, ex = {0};
    int ver = c->version ? c->version : 3;
    if (ver > 1) { der_uint(&v, ver - 1); der_wrap(&t, 0xa0, &v); }
    der_uint(&t, c->serial); px_sigalg(&t, c->signer, c->md); px_name(&t, c->issuer);
    { Buf d = {0}; der_time(&d, c->from); der_time(&d, c->to); der_wrap(&t, 0x30, &d); }
    if (c->rawSubject) { buf_buf(&t, c->rawSubject); } else { px_name(&t, c->subject); }
    buf_buf(&t, &c->pub->spki);
    if (c->bcons >= 0) { Buf x = {0}, y = {0}; if (c->bcons) { der_tlv(&y, 1, "\xff", 1); } if (c->pathlen >= 0) { der_uint(&y, c->pathlen); } der_wrap(&x, 0x30, &y); ext(&ex, "2.5.29.19", !c->noBconsCrit, &x); }
    if (c->ku) { Buf x = {0}; uint8_t k[2] = {0, c->ku & 0xff}; if (c->ku & 0xff) { while (!((k[1] >> k[0]) & 1)) { k[0]++; } der_tlv(&x, 3, k, 2); } else { der_tlv(&x, 3, k, 1); } ext(&ex, "2.5.29.15", 1, &x); }
    if (c->eku) { Buf x = {0}, y = {0}; if (c->eku & EKU_SERVER) { der_oid(&y, "1.3.6.1.5.5.7.3.1"); } if (c->eku & EKU_CLIENT) { der_oid(&y, "1.3.6.1.5.5.7.3.2"); } if (c->eku & EKU_OTHER) { der_oid(&y, "1.3.6.1.5.5.7.3.8"); } if (c->eku & EKU_ANY) { der_oid(&y, "2.5.29.37.0"); } der_wrap(&x, 0x30, &y); ext(&ex, "2.5.29.37", c->ekuCrit, &x); }
    if (c->ski) { Buf x = {0}; uint8_t id[20]; memcpy(id, c->pub->skid, 20); if (c->ski == 2) { id[0] ^= 1; } der_tlv(&x, 4, id, 20); ext(&ex, "2.5.29.14", 0, &x); }
    if (c->aki) { Buf x = {0}, y = {0}; uint8_t id[20]; memcpy(id, c->signer->skid, 20); if (c->aki == 2) { id[0] ^= 1; } der_tlv(&y, 0x80, id, 20); der_wrap(&x, 0x30, &y); ext(&ex, "2.5.29.35", 0, &x); }
    if (c->dns[0] || c->ip[0]) { Buf x = {0}, y = {0}; for (int i = 0; i < 4 && c->dns[i]; i++) { der_tlv(&y, 0x82, c->dns[i], strlen(c->dns[i])); } for (int i = 0; i < 2 && c->ip[i]; i++) { der_tlv(&y, 0x87, c->ip[i], c->ipLen[i]); } der_wrap(&x, 0x30, &y); ext(&ex, "2.5.29.17", 0, &x); }
    if (c->unknownExt) { Buf x = {0}; der_tlv(&x, 4, "zz", 2); ext(&ex, "1.3.6.1.4.1.99999.7", c->unknownExt == 2, &x); }
    if (c->rawExt) { buf_buf(&ex, c->rawExt); }
    if (ex.n) { Buf s = {0}; der_wrap(&s, 0x30, &ex); der_wrap(&t, 0xa3, &s); }
    finish(&t, c->signer, c->md, c->badSig, out);
}
void px_crl(const PxCrl *c, Buf *out)
{
    Buf t = {0}, ex = {0}, rv = {0};
    if (c->version != 1) { der_uint(&t, 1); }
    px_sigalg(&t, c->signer, 0); px_name(&t, c->issuer); der_time(&t, c->thisUpd); if (!c->noNext) { der_time(&t, c->nextUpd); }
    for (int i = 0; i < c->nrev; i++) { Buf e = {0}; der_uint(&e, c->revoked[i]); der_time(&e, c->thisUpd - 100); if (c->removeFromCrl) { Buf x = {0}, l = {0}; der_tlv(&x, 0x0a, "\x08", 1); ext(&l, "2.5.29.21", 0, &x); der_wrap(&e, 0x30, &l); } der_wrap(&rv, 0x30, &e); }
    if (rv.n) { der_wrap(&t, 0x30, &rv); }
    if (c->aki) { Buf x = {0}, y = {0}; uint8_t id[20]; memcpy(id, c->signer->skid, 20); if (c->aki == 2) { id[0] ^= 1; } der_tlv(&y, 0x80, id, 20); der_wrap(&x, 0x30, &y); ext(&ex, "2.5.29.35", 0, &x); }
    if (c->crlNumber) { Buf x = {0}; der_uint(&x, c->crlNumber); ext(&ex, "2.5.29.20", 0, &x); }
    if (c->unknownCrit) { Buf x = {0}; der_tlv(&x, 4, "zz", 2); ext(&ex, "1.3.6.1.4.1.99999.8", 1, &x); }
    if (c->rawExt) { buf_buf(&ex, c->rawExt); }
    if (ex.n) { Buf s = {0}; der_wrap(&s, 0x30, &ex); der_wrap(&t, 0xa0, &s); }
    finish(&t, c->signer, 0, c->badSig, out);
}
