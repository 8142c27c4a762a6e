#include "objs.h"
#define TX_EPOCH 1700000000LL
int32_t HITLS_CMS_GenBuff(int32_t format, HITLS_CMS *cms, const BSL_Param *optionalParam, BSL_Buffer *encode);
Obj *objs; int nobjs; static int cap;
static void nofree(void *p) { (void)p; }
static Obj *add(ObKind k, int fmt, const char *name)
{
    if (nobjs == cap) { cap = cap ? cap * 2 : 64; objs = realloc(objs, cap * sizeof(Obj)); }
    Obj *o = &objs[nobjs++]; memset(o, 0, sizeof *o); o->kind = k; o->fmt = fmt; snprintf(o->name, sizeof o->name, "%s%s", name, fmt == BSL_FORMAT_PEM ? ".pem" : ""); return o;
}
Obj *obj_find(const char *n) { for (int i = 0; i < nobjs; i++) { if (!strcmp(objs[i].name, n)) { return &objs[i]; } } return NULL; }
void pem_wrap(Buf *out, const char *label, const Buf *d)
{
    static const char A[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
    char l[128]; int k = snprintf(l, sizeof l, "-----BEGIN %s-----\n", label); buf_put(out, l, k);
    int col = 0;
    for (size_t i = 0; i < d->n; i += 3) {
        uint32_t v = d->p[i] << 16 | (i + 1 < d->n ? d->p[i + 1] << 8 : 0) | (i + 2 < d->n ? d->p[i + 2] : 0);
        char q[4] = {A[v >> 18], A[v >> 12 & 63], i + 1 < d->n ? A[v >> 6 & 63] : '=', i + 2 < d->n ? A[v & 63] : '='};
        buf_put(out, q, 4); if ((col += 4) == 64) { buf_u8(out, '\n'); col = 0; }
    }
    if (col) { buf_u8(out, '\n'); }
    k = snprintf(l, sizeof l, "-----END %s-----\n", label); buf_put(out, l, k);
}
void ext_add(Buf *b, const char *oid, int crit, Buf *val) { Buf e = {0}; der_oid(&e, oid); if (crit) { der_tlv(&e, 1, "\xff", 1); } der_wrap(&e, 4, val); der_wrap(b, 0x30, &e); }
PxKey *obj_ca(void) { return px_key(PK_EC256, 10); }
static void rdn(Buf *b, const char *oid, int tag, const char *v) { Buf a = {0}, s = {0}; der_oid(&a, oid); der_tlv(&a, tag, v, strlen(v)); der_wrap(&s, 0x30, &a); der_wrap(b, 0x31, &s); }
static void richName(Buf *out)
{
    Buf n = {0};
    rdn(&n, "2.5.4.6", 0x13, "CN"); rdn(&n, "2.5.4.8", 0x0c, "Some Province"); rdn(&n, "2.5.4.10", 0x0c, "An Org, Inc"); rdn(&n, "2.5.4.11", 0x13, "unit+1");
    rdn(&n, "2.5.4.3", 0x0c, "rich.example"); rdn(&n, "0.9.2342.19200300.100.1.25", 0x16, "example"); rdn(&n, "1.2.840.113549.1.9.1", 0x16, "a@b.example");
    { Buf a = {0}, b = {0}, s = {0}; der_oid(&a, "2.5.4.4"); der_tlv(&a, 0x0c, "Sur", 3); der_wrap(&s, 0x30, &a); der_oid(&b, "2.5.4.5"); der_tlv(&b, 0x13, "0042", 4); der_wrap(&s, 0x30, &b); der_wrap(&n, 0x31, &s); }
    der_wrap(out, 0x30, &n);
}
static void gnames(Buf *y)
{
    der_tlv(y, 0x82, "www.example.com", 15); der_tlv(y, 0x87, "\x7f\0\0\1", 4); der_tlv(y, 0x81, "joe@example.com", 15); der_tlv(y, 0x86, "http://e.com/x", 14);
    Buf d = {0}, n = {0}; rdn(&d, "2.5.4.3", 0x0c, "dir"); der_wrap(&n, 0x30, &d); der_wrap(y, 0xa4, &n);
    Buf o = {0}, v = {0}; der_oid(&o, "1.3.6.1.5.5.7.8.7"); der_tlv(&v, 0x16, "_svc.example.com", 16); der_wrap(&o, 0xa0, &v); der_wrap(y, 0xa0, &o);
    der_tlv(y, 0x88, "\x2a\x03\x04", 3);
}
static void distName(Buf *b) { Buf f = {0}, n = {0}; der_tlv(&f, 0x86, "http://crl.e.com/a.crl", 22); der_wrap(&n, 0xa0, &f); der_wrap(b, 0xa0, &n); }
static void richExts(Buf *ex)
{
    Buf x = {0}, y = {0}; gnames(&y); der_wrap(&x, 0x30, &y); ext_add(ex, "2.5.29.17", 0, &x);
    { Buf p = {0}, s = {0}, q = {0}; distName(&p); der_tlv(&p, 0x81, "\x01\x7e", 2); Buf ci = {0}; der_tlv(&ci, 0x82, "issuer", 6); der_wrap(&p, 0xa2, &ci); der_wrap(&s, 0x30, &p); distName(&p); der_wrap(&s, 0x30, &p); der_wrap(&q, 0x30, &s); ext_add(ex, "2.5.29.31", 0, &q); }
    { Buf v = {0}; der_tlv(&v, 0x0c, "custom", 6); ext_add(ex, "1.2.3.4.5.6", 0, &v); }
}
static void certs(void)
{
    static const PxKind K[] = {PK_EC256, PK_RSA2048, PK_SM2, PK_ED25519}; static const char *N[] = {"cert-ec", "cert-rsa", "cert-sm2", "cert-ed"};
    Buf ex = {0}, nm = {0}; richExts(&ex); richName(&nm); Buf first = {0};
    for (int i = 0; i < 4; i++) {
        PxCert c = {.serial = 0x81234567, .issuer = "the ca", .subject = "a subject", .from = TX_EPOCH - 1000, .to = 2600000000LL, .pub = px_key(K[i], 11), .signer = px_key(K[i], 10), .bcons = 1, .pathlen = 3, .ku = 0x86, .eku = EKU_SERVER | EKU_CLIENT, .ski = 1, .aki = 1, .rawExt = i == 0 ? &ex : NULL, .rawSubject = i == 0 ? &nm : NULL};
        Obj *o = add(OB_CERT, BSL_FORMAT_ASN1, N[i]); o->sigKind = K[i]; px_cert(&c, &o->enc);
        if (!i) { buf_set(&first, o->enc.p, o->enc.n); Obj *p = add(OB_CERT, BSL_FORMAT_PEM, N[i]); p->sigKind = K[i]; pem_wrap(&p->enc, "CERTIFICATE", &first); }
    }
    { PxCert c = {.version = 1, .serial = 5, .issuer = "v1", .subject = "v1", .from = 0, .to = 2600000000LL, .pub = px_key(PK_EC256, 10), .signer = px_key(PK_EC256, 10), .bcons = -1, .pathlen = -1}; Obj *o = add(OB_CERT, BSL_FORMAT_ASN1, "cert-v1"); o->sigKind = PK_EC256; px_cert(&c, &o->enc);
      Obj *b = add(OB_CERTS, BSL_FORMAT_PEM, "bundle"); pem_wrap(&b->enc, "CERTIFICATE", &first); pem_wrap(&b->enc, "CERTIFICATE", &objs[nobjs - 2].enc);
      b = add(OB_CERTS, BSL_FORMAT_ASN1, "bundle"); buf_buf(&b->enc, &first); buf_buf(&b->enc, &objs[nobjs - 3].enc); }
    buf_free(&ex); buf_free(&nm); buf_free(&first);
}
static void crls(void)
{
    static const PxKind K[] = {PK_EC256, PK_RSA2048, PK_SM2}; static const char *N[] = {"crl-ec", "crl-rsa", "crl-sm2"};
    Buf first = {0};
    for (int i = 0; i < 3; i++) {
        Buf ex = {0};
        if (!i) {
            Buf v = {0}; der_uint(&v, 7); ext_add(&ex, "2.5.29.27", 1, &v);
            Buf p = {0}, s = {0}; distName(&p); der_tlv(&p, 0x81, "\xff", 1); der_tlv(&p, 0x83, "\x01\x7e", 2); der_tlv(&p, 0x84, "\xff", 1); der_wrap(&s, 0x30, &p); ext_add(&ex, "2.5.29.28", 1, &s);
        }
        PxCrl c = {.issuer = "the ca", .signer = px_key(K[i], 10), .thisUpd = TX_EPOCH, .nextUpd = 2600000000LL, .revoked = {17, 18, 19}, .nrev = 3, .crlNumber = 9, .aki = 1, .rawExt = i ? NULL : &ex};
        Obj *o = add(OB_CRL, BSL_FORMAT_ASN1, N[i]); o->sigKind = K[i]; px_crl(&c, &o->enc);
        if (!i) { buf_set(&first, o->enc.p, o->enc.n); o = add(OB_CRL, BSL_FORMAT_PEM, N[i]); o->sigKind = K[i]; pem_wrap(&o->enc, "X509 CRL", &first); o = add(OB_CRLS, BSL_FORMAT_PEM, "crlbundle"); pem_wrap(&o->enc, "X509 CRL", &first); pem_wrap(&o->enc, "X509 CRL", &first); }
        buf_free(&ex);
    }
    /* entry extensions: reason, invalidity date, certificate issuer */
    Buf t = {0}, rv = {0}; PxKey *k = px_key(PK_EC256, 10);
    der_uint(&t, 1); px_sigalg(&t, k, 0); px_name(&t, "the ca"); der_time(&t, TX_EPOCH); der_time(&t, 2600000000LL);
    for (int i = 0; i < 2; i++) {
        Buf e = {0}, x = {0}, l = {0}; der_uint(&e, 77 + i); der_time(&e, TX_EPOCH - 5); der_tlv(&x, 10, "\x01", 1); ext_add(&l, "2.5.29.21", 0, &x); der_tlv(&x, 0x18, "20230101000000Z", 15); ext_add(&l, "2.5.29.24", 0, &x);
        Buf g = {0}, dn = {0}; px_name(&dn, "other ca"); der_wrap(&g, 0xa4, &dn); der_wrap(&x, 0x30, &g); ext_add(&l, "2.5.29.29", 1, &x); der_wrap(&e, 0x30, &l); der_wrap(&rv, 0x30, &e);
    }
    der_wrap(&t, 0x30, &rv); { Buf x = {0}, l = {0}, s = {0}; der_uint(&x, 3); ext_add(&l, "2.5.29.20", 0, &x); der_wrap(&s, 0x30, &l); der_wrap(&t, 0xa0, &s); }
    Buf tbs = {0}, sig = {0}, all = {0}, bits = {0}; der_wrap(&tbs, 0x30, &t); px_sign(k, 0, &tbs, &sig); buf_buf(&all, &tbs); px_sigalg(&all, k, 0); buf_u8(&bits, 0); buf_buf(&bits, &sig); der_wrap(&all, 3, &bits);
    Obj *o = add(OB_CRL, BSL_FORMAT_ASN1, "crl-entries"); o->sigKind = PK_EC256; der_wrap(&o->enc, 0x30, &all); buf_free(&tbs); buf_free(&sig); buf_free(&first);
}
static void csrs(void)
{
    static const PxKind K[] = {PK_EC256, PK_RSA2048, PK_SM2, PK_ED25519}; static const char *N[] = {"csr-ec", "csr-rsa", "csr-sm2", "csr-ed"};
    Buf first = {0};
    for (int i = 0; i < 4; i++) {
        PxKey *k = px_key(K[i], 12); Buf t = {0}, at = {0};
        der_tlv(&t, 2, "\0", 1); if (i) { px_name(&t, "requester"); } else { richName(&t); }
        buf_buf(&t, &k->spki);
        { Buf a = {0}, ex = {0}, s = {0}, u = {0}, b = {0}; der_oid(&a, "1.2.840.113549.1.9.14"); Buf x = {0}, y = {0}; der_tlv(&x, 1, "\xff", 1); der_uint(&x, 2); der_wrap(&y, 0x30, &x); ext_add(&ex, "2.5.29.19", 1, &y); der_tlv(&y, 3, "\x01\x06", 2); ext_add(&ex, "2.5.29.15", 1, &y); if (!i) { richExts(&ex); } der_wrap(&s, 0x30, &ex); der_wrap(&u, 0x31, &s); buf_buf(&a, &u); der_wrap(&b, 0x30, &a); buf_buf(&at, &b); buf_free(&u); buf_free(&b); }
        der_wrap(&t, 0xa0, &at);
        Buf tbs = {0}, sig = {0}, all = {0}, bits = {0}; der_wrap(&tbs, 0x30, &t); px_sign(k, 0, &tbs, &sig); buf_buf(&all, &tbs); px_sigalg(&all, k, 0); buf_u8(&bits, 0); buf_buf(&bits, &sig); der_wrap(&all, 3, &bits);
        Obj *o = add(OB_CSR, BSL_FORMAT_ASN1, N[i]); o->sigKind = K[i]; der_wrap(&o->enc, 0x30, &all); buf_free(&tbs); buf_free(&sig);
        if (!i) { buf_set(&first, o->enc.p, o->enc.n); o = add(OB_CSR, BSL_FORMAT_PEM, N[i]); o->sigKind = K[i]; pem_wrap(&o->enc, "CERTIFICATE REQUEST", &first); }
    }
    buf_free(&first);
}
static HITLS_X509_Cert *signerCert(PxKey *k)
{
    static Buf d[PK_KMAX]; Buf *b = &d[k->kind]; HITLS_X509_Cert *c = NULL;
    if (!b->n) { PxCert pc = {.serial = 99, .issuer = "signer", .subject = "signer", .from = TX_EPOCH - 1000, .to = 4000000000LL, .pub = k, .signer = k, .bcons = 1, .pathlen = -1, .ku = 0x86, .ski = 1}; px_cert(&pc, b); }
    BSL_Buffer e = {b->p, b->n};
    if (HITLS_X509_CertParseBuff(BSL_FORMAT_ASN1, &e, &c)) { mc_fatal("signer certificate"); }
    return c;
}
static void cmss(void)
{
    static const struct { const char *n; PxKind k; int ver, noattr, det; } M[] = {{"cms-ec-v1", PK_EC256, 0, 0, 0}, {"cms-ec-v3-det", PK_EC256, 1, 0, 1}, {"cms-rsa-noattr", PK_RSA2048, 0, 1, 0}, {"cms-sm2", PK_SM2, 0, 0, 0}};
    for (int i = 0; i < (int)MC_LEN(M); i++) {
        PxKey *k = px_key(M[i].k, 13); HITLS_X509_Cert *c = signerCert(k); HITLS_CMS *s = HITLS_CMS_ProviderNew(NULL, NULL, BSL_CID_PKCS7_SIGNEDDATA);
        int32_t ver = M[i].ver ? 3 : 1, md = M[i].k == PK_SM2 ? BSL_CID_SM3 : BSL_CID_SHA256; bool na = M[i].noattr, det = M[i].det;
        BslList *l = BSL_LIST_New(sizeof(void *)); BSL_LIST_AddElement(l, c, BSL_LIST_POS_END);
        BSL_Param p[] = {{HITLS_CMS_PARAM_SIGNERINFO_VERSION, BSL_PARAM_TYPE_INT32, &ver, sizeof ver, 0}, {HITLS_CMS_PARAM_DIGEST, BSL_PARAM_TYPE_INT32, &md, sizeof md, 0}, {HITLS_CMS_PARAM_CERT_LISTS, BSL_PARAM_TYPE_CTX_PTR, l, sizeof(void *), 0}, {HITLS_CMS_PARAM_DETACHED, BSL_PARAM_TYPE_BOOL, &det, sizeof det, 0}, {HITLS_CMS_PARAM_NO_SIGNED_ATTRS, BSL_PARAM_TYPE_BOOL, &na, sizeof na, 0}, BSL_PARAM_END};
        BSL_Buffer m = {(uint8_t *)OB_MSG, strlen(OB_MSG)}, out = {0};
        CRYPT_EAL_PkeyCtx *sk = CRYPT_EAL_PkeyDupCtx(k->k); if (M[i].k == PK_RSA2048) { int32_t mm = CRYPT_MD_SHA256; CRYPT_EAL_PkeyCtrl(sk, CRYPT_CTRL_SET_RSA_EMSA_PKCSV15, &mm, sizeof mm); }
        int32_t r = HITLS_CMS_DataSign(s, sk, c, &m, p); CRYPT_EAL_PkeyFreeCtx(sk); if (!r) { r = HITLS_CMS_GenBuff(BSL_FORMAT_ASN1, s, NULL, &out); }
        if (r) { mc_fatal("cms sign %s: %x", M[i].n, r); }
        Obj *o = add(OB_CMS, BSL_FORMAT_ASN1, M[i].n); o->sigKind = M[i].k; o->type = det; buf_set(&o->enc, out.data, out.dataLen);
        BSL_SAL_Free(out.data); BSL_LIST_FREE(l, nofree); HITLS_CMS_Free(s); HITLS_X509_CertFree(c);
    }
}
static void bmp(Buf *b, const char *s) { Buf v = {0}; for (; *s; s++) { buf_u8(&v, 0); buf_u8(&v, *s); } der_wrap(b, 0x1e, &v); }
static void p12attrs(Buf *bag) { Buf a = {0}, l = {0}, v = {0}, s = {0}; bmp(&v, "friendly"); der_oid(&a, "1.2.840.113549.1.9.20"); der_wrap(&a, 0x31, &v); der_wrap(&s, 0x30, &a); der_tlv(&v, 4, "\1\2\3\4", 4); der_oid(&l, "1.2.840.113549.1.9.21"); der_wrap(&l, 0x31, &v); der_wrap(&s, 0x30, &l); der_wrap(bag, 0x31, &s); }
static void wrapData(Buf *out, Buf *inner) { Buf c = {0}, o = {0}; der_oid(&c, "1.2.840.113549.1.7.1"); der_wrap(&o, 4, inner); der_wrap(&c, 0xa0, &o); der_wrap(out, 0x30, &c); }
static CRYPT_Pbkdf2Param pb = {BSL_CID_PBES2, BSL_CID_PBKDF2, CRYPT_MAC_HMAC_SHA256, CRYPT_CIPHER_AES256_CBC, 16, (uint8_t *)OB_PWD, sizeof(OB_PWD) - 1, 1024};
static void p12s(void)
{
    Obj *kobj = obj_find("p8-ecdsa-p256"), *cobj = obj_find("cert-ec"), *lobj = obj_find("crl-ec");
    if (kobj) { /* everything in the clear, no MAC */
        Buf sc = {0}, bag = {0}, x = {0};
        der_oid(&bag, "1.2.840.113549.1.12.10.1.1"); buf_set(&x, kobj->enc.p, kobj->enc.n); der_wrap(&bag, 0xa0, &x); p12attrs(&bag); der_wrap(&sc, 0x30, &bag);
        { Buf cb = {0}, os = {0}, q = {0}; der_oid(&cb, "1.2.840.113549.1.9.22.1"); buf_set(&os, cobj->enc.p, cobj->enc.n); der_wrap(&q, 4, &os); der_wrap(&cb, 0xa0, &q); der_wrap(&x, 0x30, &cb); der_oid(&bag, "1.2.840.113549.1.12.10.1.3"); der_wrap(&bag, 0xa0, &x); p12attrs(&bag); der_wrap(&sc, 0x30, &bag); }
        { Buf cb = {0}, os = {0}, q = {0}; der_oid(&cb, "1.2.840.113549.1.9.23.1"); buf_set(&os, lobj->enc.p, lobj->enc.n); der_wrap(&q, 4, &os); der_wrap(&cb, 0xa0, &q); der_wrap(&x, 0x30, &cb); der_oid(&bag, "1.2.840.113549.1.12.10.1.4"); der_wrap(&bag, 0xa0, &x); der_wrap(&sc, 0x30, &bag); }
        { Buf cb = {0}, os = {0}, q = {0}; der_oid(&cb, "1.2.840.113549.1.7.1"); buf_set(&os, "secret", 6); der_wrap(&q, 4, &os); der_wrap(&cb, 0xa0, &q); der_wrap(&x, 0x30, &cb); der_oid(&bag, "1.2.840.113549.1.12.10.1.5"); der_wrap(&bag, 0xa0, &x); der_wrap(&sc, 0x30, &bag); }
        Buf sc2 = {0}, as = {0}, ci = {0}, pfx = {0}; der_wrap(&sc2, 0x30, &sc); wrapData(&as, &sc2); der_wrap(&ci, 0x30, &as);
        der_uint(&pfx, 3); wrapData(&pfx, &ci);
        Obj *o = add(OB_P12, BSL_FORMAT_ASN1, "p12-plain"); o->type = 0; der_wrap(&o->enc, 0x30, &pfx);
    }
    Obj *ek = obj_find("p8e-ecdsa-p256"); cobj = obj_find("cert-v1");
    if (ek) {
        Buf sc = {0}, bag = {0}, x = {0}, sc2 = {0}, as = {0}, ci = {0}, pfx = {0}; der_oid(&bag, "1.2.840.113549.1.12.10.1.2"); buf_set(&x, ek->enc.p, ek->enc.n); der_wrap(&bag, 0xa0, &x); p12attrs(&bag); der_wrap(&sc, 0x30, &bag);
        { Buf cb = {0}, os = {0}, q = {0}; der_oid(&cb, "1.2.840.113549.1.9.22.1"); buf_set(&os, cobj->enc.p, cobj->enc.n); der_wrap(&q, 4, &os); der_wrap(&cb, 0xa0, &q); der_wrap(&x, 0x30, &cb); der_oid(&bag, "1.2.840.113549.1.12.10.1.3"); der_wrap(&bag, 0xa0, &x); p12attrs(&bag); der_wrap(&sc, 0x30, &bag); }
        der_wrap(&sc2, 0x30, &sc); wrapData(&as, &sc2); der_wrap(&ci, 0x30, &as); der_uint(&pfx, 3); wrapData(&pfx, &ci);
        Obj *o = add(OB_P12, BSL_FORMAT_ASN1, "p12-shrouded"); o->type = 0; o->pwd = OB_PWD; der_wrap(&o->enc, 0x30, &pfx);
    }
    HITLS_PKCS12 *p = HITLS_PKCS12_New(); PxKey *k = px_key(PK_EC256, 13); HITLS_X509_Cert *c = signerCert(k);
    HITLS_PKCS12_Bag *kb = HITLS_PKCS12_BagNew(BSL_CID_PKCS8SHROUDEDKEYBAG, 0, k->k), *cb = HITLS_PKCS12_BagNew(BSL_CID_CERTBAG, BSL_CID_X509CERTIFICATE, c);
    int32_t r = HITLS_PKCS12_Ctrl(p, HITLS_PKCS12_SET_ENTITY_KEYBAG, kb, 0); if (!r) { r = HITLS_PKCS12_Ctrl(p, HITLS_PKCS12_SET_ENTITY_CERTBAG, cb, 0); }
    HITLS_PKCS12_KdfParam mp = {8, 1024, BSL_CID_SHA256, (uint8_t *)OB_PWD, sizeof(OB_PWD) - 1}; HITLS_PKCS12_EncodeParam ep = {{CRYPT_DERIVE_PBKDF2, &pb}, {&mp, BSL_CID_PKCS12KDF}}; BSL_Buffer out = {0};
    if (!r) { r = HITLS_PKCS12_GenBuff(BSL_FORMAT_ASN1, p, &ep, true, &out); }
    if (r) { mc_fatal("p12 %x", r); }
    Obj *o = add(OB_P12, BSL_FORMAT_ASN1, "p12-enc"); o->type = 1; o->pwd = OB_PWD; buf_set(&o->enc, out.data, out.dataLen); BSL_SAL_Free(out.data);
    HITLS_PKCS12_BagFree(kb); HITLS_PKCS12_BagFree(cb); HITLS_X509_CertFree(c); HITLS_PKCS12_Free(p);
}
static void keys(void)
{
    static const struct { int t; const char *n; } T[] = {{CRYPT_PRIKEY_PKCS8_UNENCRYPT, "p8"}, {CRYPT_PRIKEY_PKCS8_ENCRYPT, "p8e"}, {CRYPT_PRIKEY_RSA, "prsa"}, {CRYPT_PRIKEY_ECC, "pec"}, {CRYPT_PUBKEY_SUBKEY, "pub"}, {CRYPT_PUBKEY_RSA, "pubrsa"}, {CRYPT_PUBKEY_SUBKEY_WITHOUT_SEQ, "pubns"}};
    static const char *L[] = {"rsa1024", "ecdsa-p256", "ecdsa-p521", "sm2", "ed25519", "x25519", "mldsa44", "mlkem512", "slh-sha2-128f", "dsa1024", "dh2048", "elgamal", "paillier", "comp-44-ed25519", "hyb-x25519-512", "xmss-sha2-10-256", "sm9-sign"};
    for (int a = 0; a < (int)MC_LEN(L); a++) {
        const PkAlg *al = pk_find(L[a]); if (!al) { continue; }
        CRYPT_EAL_PkeyCtx *k = pk_key(al, 0); if (!k) { continue; }
        for (int t = 0; t < (int)MC_LEN(T); t++) {
            for (int f = 0; f < 2; f++) {
                int fmt = f ? BSL_FORMAT_PEM : BSL_FORMAT_ASN1; BSL_Buffer e = {0}; CRYPT_EncodeParam ep = {CRYPT_DERIVE_PBKDF2, &pb};
                if (f && a > 1 && a != 6) { continue; }
                int32_t r = CRYPT_EAL_EncodeBuffKey(k, T[t].t == CRYPT_PRIKEY_PKCS8_ENCRYPT ? &ep : NULL, fmt, T[t].t, &e);
                if (r || !e.dataLen) { mc_note("no encoding %s-%s: %x", T[t].n, L[a], r); BSL_SAL_Free(e.data); continue; }
                char nm[64]; snprintf(nm, sizeof nm, "%s-%s", T[t].n, L[a]);
                Obj *o = add(OB_KEY, fmt, nm); o->type = T[t].t; o->alg = al; if (T[t].t == CRYPT_PRIKEY_PKCS8_ENCRYPT) { o->pwd = OB_PWD; }
                buf_set(&o->enc, e.data, e.dataLen); BSL_SAL_Free(e.data);
            }
        }
    }
}
void objs_init(void)
{
    bool m = mc_mute; mc_mute = true; uint64_t save = mc_rand_state(); mc_rand_reseed(0x6f626a73);
    keys(); certs(); crls(); csrs(); cmss(); p12s();
    mc_rand_reseed(save); mc_mute = m; BSL_ERR_ClearError();
}
int32_t obj_parse(const Obj *o, const uint8_t *p, size_t n, void **h)
{
    BSL_Buffer b = {(uint8_t *)p, (uint32_t)n}; *h = NULL;
    switch (o->kind) {
        case OB_KEY: return CRYPT_EAL_DecodeBuffKey(o->fmt, o->type, &b, (const uint8_t *)o->pwd, o->pwd ? strlen(o->pwd) : 0, (CRYPT_EAL_PkeyCtx **)h);
        case OB_CERT: return HITLS_X509_CertParseBuff(o->fmt, &b, (HITLS_X509_Cert **)h);
        case OB_CRL: return HITLS_X509_CrlParseBuff(o->fmt, &b, (HITLS_X509_Crl **)h);
        case OB_CSR: return HITLS_X509_CsrParseBuff(o->fmt, &b, (HITLS_X509_Csr **)h);
        case OB_CERTS: return HITLS_X509_CertParseBundleBuff(o->fmt, &b, (HITLS_X509_List **)h);
        case OB_CRLS: return HITLS_X509_CrlParseBundleBuff(o->fmt, &b, (HITLS_X509_List **)h);
        case OB_CMS: return HITLS_CMS_ProviderParseBuff(NULL, NULL, NULL, &b, (HITLS_CMS **)h);
        case OB_P12: { BSL_Buffer w = {(uint8_t *)OB_PWD, sizeof(OB_PWD) - 1}; HITLS_PKCS12_PwdParam pw = {&w, &w}; return HITLS_PKCS12_ParseBuff(o->fmt, &b, &pw, (HITLS_PKCS12 **)h, o->type != 0); }
    }
    return -1;
}
void obj_free(const Obj *o, void *h)
{
    if (!h) { return; }
    switch (o->kind) {
        case OB_KEY: CRYPT_EAL_PkeyFreeCtx(h); break;
        case OB_CERT: HITLS_X509_CertFree(h); break;
        case OB_CRL: HITLS_X509_CrlFree(h); break;
        case OB_CSR: HITLS_X509_CsrFree(h); break;
        case OB_CERTS: { BslList *l = h; BSL_LIST_FREE(l, (BSL_LIST_PFUNC_FREE)HITLS_X509_CertFree); break; }
        case OB_CRLS: { BslList *l = h; BSL_LIST_FREE(l, (BSL_LIST_PFUNC_FREE)HITLS_X509_CrlFree); break; }
        case OB_CMS: HITLS_CMS_Free(h); break;
        case OB_P12: HITLS_PKCS12_Free(h); break;
    }
}
int32_t obj_encode(const Obj *o, void *h, Buf *out)
{
    BSL_Buffer e = {0}; int32_t r = -1;
    switch (o->kind) {
        case OB_KEY: { CRYPT_EncodeParam ep = {CRYPT_DERIVE_PBKDF2, &pb}; r = CRYPT_EAL_EncodeBuffKey(h, o->type == CRYPT_PRIKEY_PKCS8_ENCRYPT ? &ep : NULL, o->fmt, o->type, &e); break; }
        case OB_CERT: r = HITLS_X509_CertGenBuff(o->fmt, h, &e); break;
        case OB_CRL: r = HITLS_X509_CrlGenBuff(o->fmt, h, &e); break;
        case OB_CSR: r = HITLS_X509_CsrGenBuff(o->fmt, h, &e); break;
        case OB_CMS: r = HITLS_CMS_GenBuff(o->fmt, h, NULL, &e); break;
        case OB_P12: { HITLS_PKCS12_KdfParam mp = {8, 1024, BSL_CID_SHA256, (uint8_t *)OB_PWD, sizeof(OB_PWD) - 1}; HITLS_PKCS12_EncodeParam ep = {{CRYPT_DERIVE_PBKDF2, &pb}, {&mp, BSL_CID_PKCS12KDF}}; r = HITLS_PKCS12_GenBuff(o->fmt, h, &ep, true, &e); break; }
        default: return -1;
    }
    if (!r && out) { buf_set(out, e.data, e.dataLen); }
    BSL_SAL_Free(e.data); return r;
}
static void print(int cmd, void *v, uint32_t n) { BSL_UIO *u = BSL_UIO_New(BSL_UIO_MemMethod()); if (u) { HITLS_PKI_PrintCtrl(cmd, v, n, u); BSL_UIO_Free(u); } }
static void str(int32_t (*f)(void *, int32_t, void *, uint32_t), void *h, int cmd) { BSL_Buffer b = {0}; if (f(h, cmd, &b, sizeof b) == 0) { volatile uint8_t x = 0; for (uint32_t i = 0; i < b.dataLen; i++) { x ^= b.data[i]; } (void)x; BSL_SAL_Free(b.data); } }
static void shallow(int32_t (*f)(void *, int32_t, void *, uint32_t), void *h, int cmd) { BSL_Buffer b = {0}; if (f(h, cmd, &b, sizeof b) == 0) { volatile uint8_t x = 0; for (uint32_t i = 0; i < b.dataLen; i++) { x ^= b.data[i]; } (void)x; } }
static void usePub(CRYPT_EAL_PkeyCtx *k)
{
    uint8_t s[600]; memset(s, 0x31, sizeof s); int id = CRYPT_EAL_PkeyGetId(k);
    if (id == CRYPT_PKEY_RSA) { int32_t m = CRYPT_MD_SHA256; CRYPT_EAL_PkeyCtrl(k, CRYPT_CTRL_SET_RSA_EMSA_PKCSV15, &m, sizeof m); }
    static const uint8_t es[] = {0x30, 6, 2, 1, 5, 2, 1, 7}; uint32_t n = id == CRYPT_PKEY_RSA ? CRYPT_EAL_PkeyGetSignLen(k) : id == CRYPT_PKEY_ED25519 ? 64 : 8;
    if (id == CRYPT_PKEY_ECDSA || id == CRYPT_PKEY_SM2) { memcpy(s, es, 8); }
    if (id == CRYPT_PKEY_RSA || id == CRYPT_PKEY_ECDSA || id == CRYPT_PKEY_SM2 || id == CRYPT_PKEY_ED25519 || id == CRYPT_PKEY_DSA) { CRYPT_EAL_PkeyVerify(k, id == CRYPT_PKEY_SM2 ? CRYPT_MD_SM3 : id == CRYPT_PKEY_ED25519 ? CRYPT_MD_SHA512 : CRYPT_MD_SHA256, s, 20, s, n < sizeof s ? n : sizeof s); }
}
void obj_use(const Obj *o, void *h)
{
    if (!h) { return; }
    int32_t (*f)(void *, int32_t, void *, uint32_t) = NULL;
    switch (o->kind) {
        case OB_KEY:
            if (o->type == CRYPT_PUBKEY_SUBKEY || o->type == CRYPT_PUBKEY_RSA || o->type == CRYPT_PUBKEY_SUBKEY_WITHOUT_SEQ) { usePub(h); }
            else { uint8_t s[600]; uint32_t n = sizeof s; int id = CRYPT_EAL_PkeyGetId(h); if (id == CRYPT_PKEY_ECDSA || id == CRYPT_PKEY_ED25519) { CRYPT_EAL_PkeySign(h, id == CRYPT_PKEY_ED25519 ? CRYPT_MD_SHA512 : CRYPT_MD_SHA256, (const uint8_t *)"abc", 3, s, &n); } }
            break;
        case OB_CERTS: for (void *c = BSL_LIST_GET_FIRST((BslList *)h); c; c = BSL_LIST_GET_NEXT((BslList *)h)) { Obj t = *o; t.kind = OB_CERT; obj_use(&t, c); } return;
        case OB_CRLS: for (void *c = BSL_LIST_GET_FIRST((BslList *)h); c; c = BSL_LIST_GET_NEXT((BslList *)h)) { Obj t = *o; t.kind = OB_CRL; obj_use(&t, c); } return;
        case OB_CERT: f = (void *)HITLS_X509_CertCtrl; print(HITLS_PKI_PRINT_CERT, h, sizeof h); break;
        case OB_CSR: f = (void *)HITLS_X509_CsrCtrl; print(HITLS_PKI_PRINT_CSR, h, sizeof h); HITLS_X509_CsrVerify(h); break;
        case OB_CRL: f = (void *)HITLS_X509_CrlCtrl; print(HITLS_PKI_PRINT_CRL, h, sizeof h); HITLS_X509_CrlVerify(obj_ca()->k, h); break;
        case OB_CMS: { HITLS_X509_Cert *c = signerCert(px_key(o->sigKind, 13)); BslList *l = BSL_LIST_New(sizeof(void *)); BSL_LIST_AddElement(l, c, BSL_LIST_POS_END); BSL_Param p[] = {{HITLS_CMS_PARAM_CA_CERT_LISTS, BSL_PARAM_TYPE_CTX_PTR, l, 0, 0}, BSL_PARAM_END}; BSL_Buffer m = {(uint8_t *)OB_MSG, strlen(OB_MSG)}, out = {0}; HITLS_CMS_DataVerify(h, o->type ? &m : NULL, p, &out); BSL_SAL_Free(out.data); BSL_LIST_FREE(l, nofree); HITLS_X509_CertFree(c); break; }
        case OB_P12: { void *x = NULL; if (!HITLS_PKCS12_Ctrl(h, HITLS_PKCS12_GET_ENTITY_CERT, &x, 0)) { HITLS_X509_CertFree(x); } x = NULL; if (!HITLS_PKCS12_Ctrl(h, HITLS_PKCS12_GET_ENTITY_KEY, &x, 0)) { CRYPT_EAL_PkeyFreeCtx(x); } x = NULL; HITLS_PKCS12_Ctrl(h, HITLS_PKCS12_GET_CERTBAGS, &x, 0); x = NULL; HITLS_PKCS12_Ctrl(h, HITLS_PKCS12_GET_SECRETBAGS, &x, 0); break; }
    }
    if (f) {
        static const int S[] = {HITLS_X509_GET_SUBJECT_DN_STR, HITLS_X509_GET_ISSUER_DN_STR, HITLS_X509_GET_SERIALNUM_STR, HITLS_X509_GET_BEFORE_TIME_STR, HITLS_X509_GET_AFTER_TIME_STR, HITLS_X509_GET_SUBJECT_CN_STR};
        static const int I[] = {HITLS_X509_GET_VERSION, HITLS_X509_GET_SIGNALG, HITLS_X509_GET_SIGN_MDALG, HITLS_X509_GET_ENCODELEN};
        for (int i = 0; i < 6; i++) { str(f, h, S[i]); }
        for (int i = 0; i < 4; i++) { int32_t v = 0; f(h, I[i], &v, sizeof v); }
        if (o->kind == OB_CERT) { shallow(f, h, HITLS_X509_GET_SERIALNUM); }
        void *pk = NULL; if (o->kind != OB_CRL && f(h, HITLS_X509_GET_PUBKEY, &pk, sizeof pk) == 0 && pk) { usePub(pk); CRYPT_EAL_PkeyFreeCtx(pk); }
        HITLS_X509_ExtKeyUsage dummy; (void)dummy; uint32_t ku = 0; f(h, HITLS_X509_EXT_GET_KUSAGE, &ku, sizeof ku);
        HITLS_X509_ExtAki aki = {0}; f(h, HITLS_X509_EXT_GET_AKI, &aki, sizeof aki); HITLS_X509_ExtSki ski = {0}; f(h, HITLS_X509_EXT_GET_SKI, &ski, sizeof ski);
        HITLS_X509_ExtBCons bc = {0}; f(h, HITLS_X509_EXT_GET_BCONS, &bc, sizeof bc);
        HITLS_X509_ExtSan san = {0}; if (f(h, HITLS_X509_EXT_GET_SAN, &san, sizeof san) == 0) { HITLS_X509_ClearSubjectAltName(&san); }
        HITLS_X509_ExtCrlNumber cn = {0}; if (o->kind == OB_CRL) { f(h, HITLS_X509_EXT_GET_CRLNUMBER, &cn, sizeof cn); }
        if (o->kind == OB_CERT) { HITLS_X509_CertVerifyByPubKey(h, obj_ca()->k); uint8_t d[64]; uint32_t n = 64; HITLS_X509_CertDigest(h, CRYPT_MD_SHA256, d, &n); }
        if (o->kind == OB_CRL) {
            BslList *l = NULL; if (f(h, HITLS_X509_GET_REVOKELIST, &l, sizeof l) == 0 && l) {
                for (void *e = BSL_LIST_GET_FIRST(l); e; e = BSL_LIST_GET_NEXT(l)) { BSL_Buffer s = {0}; HITLS_X509_CrlEntryCtrl(e, HITLS_X509_CRL_GET_REVOKED_SERIALNUM, &s, sizeof s); HITLS_X509_RevokeExtReason re; HITLS_X509_CrlEntryCtrl(e, HITLS_X509_CRL_GET_REVOKED_REASON, &re, sizeof re); HITLS_X509_RevokeExtTime ti; HITLS_X509_CrlEntryCtrl(e, HITLS_X509_CRL_GET_REVOKED_INVALID_TIME, &ti, sizeof ti); BSL_TIME bt; HITLS_X509_CrlEntryCtrl(e, HITLS_X509_CRL_GET_REVOKED_REVOKE_TIME, &bt, sizeof bt); }
            }
        }
    }
    if (o->kind != OB_P12 && !o->pwd) { Buf e = {0}; obj_encode(o, h, &e); buf_free(&e); }
}
/* ---- DER trees */
static size_t hdr(const uint8_t *p, size_t n, size_t *len)
{
    if (n < 2 || (p[0] & 31) == 31) { return 0; }
    size_t h = 2, l = p[1];
    if (l & 0x80) { int k = l & 127; if (!k || k > 3 || n < 2u + k) { return 0; } l = 0; for (int i = 0; i < k; i++) { l = l << 8 | p[2 + i]; } h += k; if (l < 128) { return 0; } }
    if (h + l > n) { return 0; }
    *len = l; return h;
}
static bool whole(const uint8_t *p, size_t n, int *cnt) { int k = 0; while (n) { size_t l, h = hdr(p, n, &l); if (!h || ++k > 64) { return false; } p += h + l; n -= h + l; } *cnt = k; return k > 0; }
static Node *mk(const uint8_t *p, size_t n, int *id, bool deep)
{
    Node *t = calloc(1, sizeof *t); size_t l, h = hdr(p, n, &l); t->raw = p; t->rawn = h + l; t->tag = p[0]; t->p = p + h; t->n = l; t->id = (*id)++;
    const uint8_t *q = t->p; size_t m = t->n; int c;
    bool go = (t->tag & 0x20) != 0;
    if (!go && deep && t->tag == 4) { go = m >= 4 && (q[0] == 0x30 || q[0] == 4 || q[0] == 3 || q[0] == 2); }
    if (!go && deep && t->tag == 3 && m > 4 && q[0] == 0 && q[1] == 0x30) { t->prefix = 1; q++; m--; go = true; }
    if (go && whole(q, m, &c)) { while (m) { size_t l2, h2 = hdr(q, m, &l2); t->ch[t->nch++] = mk(q, h2 + l2, id, deep); q += h2 + l2; m -= h2 + l2; } }
    else { t->prefix = 0; }
    return t;
}
Node *der_tree(const uint8_t *p, size_t n, int *count, bool deep) { size_t l, h = hdr(p, n, &l); *count = 0; if (!h || h + l != n) { return NULL; } return mk(p, n, count, deep); }
void der_tree_free(Node *t) { for (int i = 0; i < t->nch; i++) { der_tree_free(t->ch[i]); } free(t); }
static const uint8_t TAGS[] = {1, 2, 3, 4, 5, 6, 10, 0x0c, 0x13, 0x16, 0x17, 0x18, 0x1e, 0x30, 0x31, 0x80, 0x81, 0x82, 0x86, 0xa0, 0xa1, 0xa2, 0xa3, 0};
static const char *LENS[] = {"\x80", "\x81\x00", "\x81\x7f", "\x81\xff", "\x82\xff\xff", "\x83\xff\xff\xff", "\x84\x00\x00\x00\x01", "\x84\x7f\xff\xff\xff", "\x84\x80\x00\x00\x00", "\x84\xff\xff\xff\xff", "\x84\xff\xff\xff\xf0", "\x85\x01\x00\x00\x00\x00", "\x88\xff\xff\xff\xff\xff\xff\xff\xff", "\xff", "\x7f", "\x00"};
static const uint8_t LENN[] = {1, 2, 2, 2, 3, 4, 5, 5, 5, 5, 5, 6, 9, 1, 1, 1};
int der_mu_args(int mu) { return mu == MU_TAG ? (int)sizeof TAGS : mu == MU_LEN ? (int)sizeof LENN : mu == MU_NTH ? 8 : mu == MU_NONE ? 0 : 1; }
static bool emit(const Node *t, int id, int mu, int arg, Buf *out, bool *hit)
{
    Buf c = {0};
    if (t->nch) {
        if (t->prefix) { buf_u8(&c, 0); }
        for (int i = 0; i < t->nch; i++) {
            const Node *k = t->ch[i];
            if (mu == MU_SWAP && k->id == id && i + 1 < t->nch) { buf_put(&c, t->ch[i + 1]->raw, t->ch[i + 1]->rawn); buf_put(&c, k->raw, k->rawn); *hit = true; i++; continue; }
            if (mu == MU_DEL && k->id == id) { *hit = true; continue; }
            if (mu == MU_DUP && k->id == id) { buf_put(&c, k->raw, k->rawn); *hit = true; }
            emit(k, id, mu, arg, &c, hit);
        }
    } else { buf_put(&c, t->p, t->n); }
    int tag = t->tag;
    if (t->id == id) {
        size_t n = c.n;
        switch (mu) {
            case MU_EMPTY: if (n) { c.n = 0; *hit = true; } break;
            case MU_ZERO: c.n = 0; buf_u8(&c, 0); *hit = true; break;
            case MU_FF: if (n) { memset(c.p, 0xff, n); *hit = true; } break;
            case MU_SHORT: if (n) { c.n--; *hit = true; } break;
            case MU_LONG: buf_u8(&c, 0); *hit = true; break;
            case MU_FRONT: if (n > 1) { memmove(c.p, c.p + 1, n - 1); c.n--; *hit = true; } break;
            case MU_TAG: if (TAGS[arg] != tag) { tag = TAGS[arg]; *hit = true; } break;
            case MU_BIG: { Buf b = {0}; for (int i = 0; i < 1200; i++) { buf_u8(&b, n ? c.p[i % n] : 0x30); } c.n = 0; buf_buf(&c, &b); buf_free(&b); *hit = true; break; }
            case MU_NTH: { static const uint8_t V[8] = {0, 1, 0x7f, 0x80, 0x81, 0xfe, 0xff, 0x30}; if (n && c.p[0] != V[arg]) { c.p[0] = V[arg]; *hit = true; } break; }
            case MU_LEN: { buf_u8(out, tag); buf_put(out, LENS[arg], LENN[arg]); buf_buf(out, &c); buf_free(&c); *hit = true; return true; }
            case MU_BYTE: break;
        }
    }
    der_wrap(out, tag, &c);
    return true;
}
bool der_emit(const Node *t, int id, int mu, int arg, Buf *out) { bool hit = false; out->n = 0; emit(t, id, mu, arg, out, &hit); return hit; }
