/* C15: what the library encodes it decodes back to the same thing (keys, certificates, requests, CRLs, PKCS#12, CMS).
 * Every object is built through the API from a field assignment out of the enumerated set; its encoding is compared with
 * the one an independent writer makes of the same fields, decoded again, read field by field, and encoded again. */
#include "objs.h"
#include "hitls_pki_utils.h"
typedef struct { int cid; const char *v; uint32_t n; const char *oid; } Ava;
typedef struct { const Ava *a[3]; int n; } Rdn;
typedef struct { Rdn r[8]; int n; } Dn;
enum { X_SKI = 1, X_AKI = 2, X_KU = 4, X_SAN = 8, X_BC = 16, X_EKU = 32, X_GEN = 64, X_CDP = 128, X_ALL = 127 };
typedef struct { HITLS_X509_GeneralNameType t; const char *v; uint32_t n; } Gn;
typedef struct {
    int ver; uint8_t sn[32]; int snn; BSL_TIME from, to; Dn is, su; PxKind pub, sig; int md; int ext, crit; uint32_t ku; int isCa, path; int eku; int kidn; Gn gn[8]; int ngn; int genn;
} Spec;
static const Ava CN1 = {BSL_CID_AT_COMMONNAME, "a", 1, "2.5.4.3"}, CN2 = {BSL_CID_AT_COMMONNAME, "example name", 12, "2.5.4.3"}, O1 = {BSL_CID_AT_ORGANIZATIONNAME, "Org", 3, "2.5.4.10"}, C1 = {BSL_CID_AT_COUNTRYNAME, "CN", 2, "2.5.4.6"};
static const Ava AV[] = {
    {BSL_CID_AT_COMMONNAME, "x", 1, "2.5.4.3"}, {BSL_CID_AT_SURNAME, "Sur", 3, "2.5.4.4"}, {BSL_CID_AT_SERIALNUMBER, "12345", 5, "2.5.4.5"}, {BSL_CID_AT_COUNTRYNAME, "DE", 2, "2.5.4.6"}, {BSL_CID_AT_LOCALITYNAME, "Loc", 3, "2.5.4.7"},
    {BSL_CID_AT_STATEORPROVINCENAME, "State", 5, "2.5.4.8"}, {BSL_CID_AT_STREETADDRESS, "Street 1", 8, "2.5.4.9"}, {BSL_CID_AT_ORGANIZATIONNAME, "Org", 3, "2.5.4.10"}, {BSL_CID_AT_ORGANIZATIONALUNITNAME, "Unit", 4, "2.5.4.11"},
    {BSL_CID_AT_TITLE, "Dr", 2, "2.5.4.12"}, {BSL_CID_AT_GIVENNAME, "Given", 5, "2.5.4.42"}, {BSL_CID_AT_INITIALS, "G.S.", 4, "2.5.4.43"}, {BSL_CID_AT_GENERATIONQUALIFIER, "III", 3, "2.5.4.44"}, {BSL_CID_AT_DNQUALIFIER, "q1", 2, "2.5.4.46"},
    {BSL_CID_AT_PSEUDONYM, "pseu", 4, "2.5.4.65"}, {BSL_CID_DOMAINCOMPONENT, "com", 3, "0.9.2342.19200300.100.1.25"}, {BSL_CID_AT_USERID, "uid7", 4, "0.9.2342.19200300.100.1.1"},
};
#define NAV ((int)(sizeof AV / sizeof *AV))
static int dnTag(int cid) { return cid == BSL_CID_DOMAINCOMPONENT ? 0x16 : cid == BSL_CID_AT_SERIALNUMBER || cid == BSL_CID_AT_COUNTRYNAME || cid == BSL_CID_AT_DNQUALIFIER ? 0x13 : 0x0c; }
static int cmpBuf(const void *x, const void *y) { const Buf *a = x, *b = y; size_t n = a->n < b->n ? a->n : b->n; int r = memcmp(a->p, b->p, n); return r ? r : a->n < b->n ? -1 : a->n > b->n; }
static void expDn(Buf *o, const Dn *d)
{
    Buf all = {0};
    for (int i = 0; i < d->n; i++) {
        Buf v[3] = {{0}}, set = {0};
        for (int k = 0; k < d->r[i].n; k++) { const Ava *a = d->r[i].a[k]; Buf s = {0}; der_oid(&s, a->oid); der_tlv(&s, dnTag(a->cid), a->v, a->n); der_wrap(&v[k], 0x30, &s); }
        qsort(v, d->r[i].n, sizeof(Buf), cmpBuf); for (int k = 0; k < d->r[i].n; k++) { buf_buf(&set, &v[k]); buf_free(&v[k]); } der_wrap(&all, 0x31, &set);
    }
    der_wrap(o, 0x30, &all);
}
static BslList *libDn(const Dn *d, int32_t *ret)
{
    BslList *l = HITLS_X509_DnListNew(); *ret = 0;
    for (int i = 0; i < d->n && !*ret; i++) { HITLS_X509_DN x[3]; for (int k = 0; k < d->r[i].n; k++) { x[k] = (HITLS_X509_DN){d->r[i].a[k]->cid, (uint8_t *)d->r[i].a[k]->v, d->r[i].a[k]->n}; } *ret = HITLS_X509_AddDnName(l, x, d->r[i].n); }
    return l;
}
static void expTime(Buf *o, const BSL_TIME *t)
{
    char s[40]; if (t->year >= 1950 && t->year < 2050) { sprintf(s, "%02d%02d%02d%02d%02d%02dZ", t->year % 100, t->month, t->day, t->hour, t->minute, t->second); der_tlv(o, 0x17, s, 13); }
    else { sprintf(s, "%04d%02d%02d%02d%02d%02dZ", t->year, t->month, t->day, t->hour, t->minute, t->second); der_tlv(o, 0x18, s, strlen(s)); }
}
static void expInt(Buf *o, const uint8_t *p, int n) { while (n > 1 && !*p) { p++; n--; } Buf b = {0}; if (*p & 0x80) { buf_u8(&b, 0); } buf_put(&b, p, n); der_wrap(o, 2, &b); }
static const uint8_t KID[64] = {0x80, 1, 2, 3, 4, 0, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 0xff};
static const struct { int cid; const char *oid; } EK[] = {{BSL_CID_KP_SERVERAUTH, "1.3.6.1.5.5.7.3.1"}, {BSL_CID_KP_CLIENTAUTH, "1.3.6.1.5.5.7.3.2"}, {BSL_CID_KP_CODESIGNING, "1.3.6.1.5.5.7.3.3"}, {BSL_CID_KP_EMAILPROTECTION, "1.3.6.1.5.5.7.3.4"}, {BSL_CID_KP_TIMESTAMPING, "1.3.6.1.5.5.7.3.8"}, {BSL_CID_KP_OCSPSIGNING, "1.3.6.1.5.5.7.3.9"}};
static const char *GENV = "\x04\x05hello-and-some-more-octets-to-make-it-long-enough-for-two-length-octets-0123456789-0123456789-0123456789-0123456789-0123456789";
static const Dn GNDN = {{{{&CN2}, 1}, {{&O1}, 1}}, 2};
static void expGns(Buf *v, const Gn *g, int n)
{
    for (int i = 0; i < n; i++) {
        switch (g[i].t) {
            case HITLS_X509_GN_EMAIL: der_tlv(v, 0x81, g[i].v, g[i].n); break;
            case HITLS_X509_GN_DNS: der_tlv(v, 0x82, g[i].v, g[i].n); break;
            case HITLS_X509_GN_URI: der_tlv(v, 0x86, g[i].v, g[i].n); break;
            case HITLS_X509_GN_IP: der_tlv(v, 0x87, g[i].v, g[i].n); break;
            case HITLS_X509_GN_DNNAME: { Buf d = {0}; expDn(&d, &GNDN); der_wrap(v, 0xa4, &d); break; }
            case HITLS_X509_GN_SRV: { Buf d = {0}, e = {0}; der_oid(&d, "1.3.6.1.5.5.7.8.7"); der_tlv(&e, 0x16, g[i].v, g[i].n); der_wrap(&d, 0xa0, &e); der_wrap(v, 0xa0, &d); break; }
            default: break;
        }
    }
}
static int expExts(const Spec *s, Buf *out)
{
    int n = 0; Buf v = {0};
#define EXT(oid, bit) do { Buf t = {0}; ext_add(&t, oid, (s->crit & (bit)) != 0, &v); out[n++] = t; v = (Buf){0}; } while (0)
    if (s->ext & X_SKI) { der_tlv(&v, 4, KID, s->kidn); EXT("2.5.29.14", X_SKI); }
    if (s->ext & X_AKI) { Buf q = {0}; der_tlv(&q, 0x80, KID, s->kidn); der_wrap(&v, 0x30, &q); EXT("2.5.29.35", X_AKI); }
    if (s->ext & X_KU) { uint8_t b[3] = {0, (uint8_t)s->ku, (uint8_t)(s->ku >> 8)}; int L = b[2] ? 3 : 2, u = 0; while (!((b[L - 1] >> u) & 1)) { u++; } b[0] = u; der_tlv(&v, 3, b, L); EXT("2.5.29.15", X_KU); }
    if (s->ext & X_BC) { Buf q = {0}; if (s->isCa) { der_tlv(&q, 1, "\xff", 1); } if (s->path >= 0) { der_uint(&q, s->path); } der_wrap(&v, 0x30, &q); EXT("2.5.29.19", X_BC); }
    if (s->ext & X_EKU) { Buf q = {0}; for (int i = 0; i < 6; i++) { if (s->eku >> i & 1) { der_oid(&q, EK[i].oid); } } der_wrap(&v, 0x30, &q); EXT("2.5.29.37", X_EKU); }
    if (s->ext & X_SAN) { Buf q = {0}; expGns(&q, s->gn, s->ngn); der_wrap(&v, 0x30, &q); EXT("2.5.29.17", X_SAN); }
    if (s->ext & X_GEN) { buf_put(&v, GENV, s->genn); EXT("1.2.3.4.5.6.7", X_GEN); }
    if (s->ext & X_CDP) { Buf g = {0}, a = {0}, b = {0}, c = {0}, d = {0}; Gn u = {HITLS_X509_GN_URI, "http://c/x.crl", 14}; expGns(&g, &u, 1); der_wrap(&a, 0xa0, &g); der_wrap(&b, 0xa0, &a); der_wrap(&c, 0x30, &b); buf_buf(&d, &c); buf_free(&c); der_wrap(&v, 0x30, &d); EXT("2.5.29.31", X_CDP); }
    qsort(out, n, sizeof(Buf), cmpBuf); return n;
}
static void freeNothing(void *p) { (void)p; }
static BslList *libGns(const Gn *g, int n)
{
    BslList *l = BSL_LIST_New(sizeof(HITLS_X509_GeneralName));
    for (int i = 0; i < n; i++) {
        HITLS_X509_GeneralName *x = BSL_SAL_Calloc(1, sizeof *x); x->type = g[i].t;
        if (g[i].t == HITLS_X509_GN_DNNAME) { int32_t r; x->value.data = (uint8_t *)libDn(&GNDN, &r); x->value.dataLen = sizeof(BslList *); } else { x->value.data = BSL_SAL_Dump(g[i].v, g[i].n); x->value.dataLen = g[i].n; }
        BSL_LIST_AddElement(l, x, BSL_LIST_POS_END);
    }
    return l;
}
typedef int32_t (*Ctl)(void *, int32_t, void *, uint32_t);
static const char *where; static int32_t at(int32_t r, const char *w) { if (r) { where = w; } return r; }
static int32_t libExts(const Spec *s, Ctl f, void *h)
{
    int32_t r = 0;
    if (s->ext & X_SKI) { HITLS_X509_ExtSki x = {(s->crit & X_SKI) != 0, {(uint8_t *)KID, s->kidn}}; r = r ? r : at(f(h, HITLS_X509_EXT_SET_SKI, &x, sizeof x), "ski"); }
    if (s->ext & X_AKI) { HITLS_X509_ExtAki x = {(s->crit & X_AKI) != 0, {(uint8_t *)KID, s->kidn}, NULL, {0}}; r = r ? r : at(f(h, HITLS_X509_EXT_SET_AKI, &x, sizeof x), "aki"); }
    if (s->ext & X_KU) { HITLS_X509_ExtKeyUsage x = {(s->crit & X_KU) != 0, s->ku}; r = r ? r : at(f(h, HITLS_X509_EXT_SET_KUSAGE, &x, sizeof x), "ku"); }
    if (s->ext & X_BC) { HITLS_X509_ExtBCons x = {(s->crit & X_BC) != 0, s->isCa, s->path}; r = r ? r : at(f(h, HITLS_X509_EXT_SET_BCONS, &x, sizeof x), "bcons"); }
    if (s->ext & X_EKU) {
        BslList *l = BSL_LIST_New(sizeof(BSL_Buffer)); static BSL_Buffer b[6]; for (int i = 0; i < 6; i++) { if (s->eku >> i & 1) { BslOidString *o = BSL_OBJ_GetOID(EK[i].cid); b[i].data = (uint8_t *)o->octs; b[i].dataLen = o->octetLen; BSL_LIST_AddElement(l, &b[i], BSL_LIST_POS_END); } }
        HITLS_X509_ExtExKeyUsage x = {(s->crit & X_EKU) != 0, l}; r = r ? r : at(f(h, HITLS_X509_EXT_SET_EXKUSAGE, &x, sizeof x), "eku"); BSL_LIST_FREE(l, freeNothing);
    }
    if (s->ext & X_SAN) { BslList *l = libGns(s->gn, s->ngn); HITLS_X509_ExtSan x = {(s->crit & X_SAN) != 0, l}; r = r ? r : at(f(h, HITLS_X509_EXT_SET_SAN, &x, sizeof x), "san"); BSL_LIST_FREE(l, (BSL_LIST_PFUNC_FREE)HITLS_X509_FreeGeneralName); }
    if (s->ext & X_GEN) { Buf o = {0}; der_oid(&o, "1.2.3.4.5.6.7"); HITLS_X509_ExtGeneric x = {(s->crit & X_GEN) != 0, {o.p + 2, o.n - 2}, {(uint8_t *)GENV, s->genn}}; r = r ? r : at(f(h, HITLS_X509_EXT_SET_GENERIC, &x, sizeof x), "generic"); buf_free(&o); }
    return r;
}
static bool sameTime(const BSL_TIME *a, const BSL_TIME *b) { return a->year == b->year && a->month == b->month && a->day == b->day && a->hour == b->hour && a->minute == b->minute && a->second == b->second; }
static void checkExts(const Spec *s, Ctl f, void *h)
{
    HITLS_X509_ExtSki k = {0}; int32_t r = f(h, HITLS_X509_EXT_GET_SKI, &k, sizeof k);
    MC_CHECK((r == 0) == ((s->ext & X_SKI) != 0), "key identifier presence (%x)", r); if (!r) { MC_CHECK(k.critical == ((s->crit & X_SKI) != 0) && k.kid.dataLen == (uint32_t)s->kidn && !memcmp(k.kid.data, KID, s->kidn), "key identifier differs"); }
    HITLS_X509_ExtAki a = {0}; r = f(h, HITLS_X509_EXT_GET_AKI, &a, sizeof a);
    MC_CHECK((r == 0) == ((s->ext & X_AKI) != 0), "authority key identifier presence (%x)", r); if (!r) { MC_CHECK(a.critical == ((s->crit & X_AKI) != 0) && a.kid.dataLen == (uint32_t)s->kidn && !memcmp(a.kid.data, KID, s->kidn), "authority key identifier differs"); }
    uint32_t ku = 0; r = f(h, HITLS_X509_EXT_GET_KUSAGE, &ku, sizeof ku); MC_CHECK((s->ext & X_KU) ? r == 0 && ku == s->ku : r != 0 || ku == 0xffff, "key usage %x for %x (%x)", ku, s->ku, r);
    HITLS_X509_ExtBCons b = {0}; r = f(h, HITLS_X509_EXT_GET_BCONS, &b, sizeof b);
    if (s->ext & X_BC) { MC_CHECK(r == 0 && b.isCa == (s->isCa != 0) && b.maxPathLen == s->path && b.critical == ((s->crit & X_BC) != 0), "basic constraints %d %d %d for %d %d (%x)", b.isCa, b.maxPathLen, b.critical, s->isCa, s->path, r); }
    HITLS_X509_ExtSan n = {0}; r = f(h, HITLS_X509_EXT_GET_SAN, &n, sizeof n);
    if (s->ext & X_SAN) {
        MC_CHECK(r == 0, "alternative names unreadable %x", r); if (r) { return; }
        MC_CHECK(n.critical == ((s->crit & X_SAN) != 0) && BSL_LIST_COUNT(n.names) == s->ngn, "%d alternative names for %d", BSL_LIST_COUNT(n.names), s->ngn); int i = 0;
        for (HITLS_X509_GeneralName *g = BSL_LIST_GET_FIRST(n.names); g && i < s->ngn; g = BSL_LIST_GET_NEXT(n.names), i++) { MC_CHECK(g->type == s->gn[i].t && (g->type == HITLS_X509_GN_DNNAME || (g->value.dataLen == s->gn[i].n && !memcmp(g->value.data, s->gn[i].v, s->gn[i].n))), "alternative name %d differs (type %d for %d)", i, g->type, s->gn[i].t); }
        HITLS_X509_ClearSubjectAltName(&n);
    } else { MC_CHECK(r != 0, "alternative names appear"); }
    Buf o = {0}; der_oid(&o, "1.2.3.4.5.6.7"); HITLS_X509_ExtGeneric g = {0, {o.p + 2, o.n - 2}, {0}}; r = f(h, HITLS_X509_EXT_GET_GENERIC, &g, sizeof g);
    MC_CHECK((r == 0) == ((s->ext & X_GEN) != 0), "custom extension presence (%x)", r); if (!r) { MC_CHECK(g.critical == ((s->crit & X_GEN) != 0) && g.value.dataLen == (uint32_t)s->genn && !memcmp(g.value.data, GENV, s->genn), "custom extension differs"); BSL_SAL_Free(g.value.data); }
    buf_free(&o); BSL_ERR_ClearError();
}
static void checkDn(const Dn *d, Ctl f, void *h, int cmd, const char *what)
{
    BslList *l = NULL; int32_t r = f(h, cmd, &l, sizeof l); MC_CHECK(r == 0 && l, "%s name unreadable %x", what, r); (void)d;
}
static bool sameDer(const Node *a, const Buf *e) { return a && a->rawn == e->n && !memcmp(a->raw, e->p, e->n); }
static void hexs(char *o, const uint8_t *p, size_t n) { for (size_t i = 0; i < n && i < 60; i++) { sprintf(o + 2 * i, "%02x", p[i]); } if (!n) { *o = 0; } }
/* parsed again from every format, dup'd: fields and bytes */
static void again(ObKind kind, const Spec *s, const BSL_Buffer *der, void *h, void (*fields)(const Spec *, void *))
{
    Obj o = {.kind = kind}; 
    for (int fmt = 0; fmt < 2 && !mc_failed(); fmt++) {
        Buf e = {0}, e2 = {0}; o.fmt = fmt ? BSL_FORMAT_PEM : BSL_FORMAT_ASN1; void *p = NULL;
        MC_CHECK(!obj_encode(&o, h, &e), "not encoded as %s", fmt ? "PEM" : "DER"); if (!fmt) { MC_CHECK(e.n == der->dataLen && !memcmp(e.p, der->data, e.n), "a second encoding differs"); }
        int32_t r = obj_parse(&o, e.p, e.n, &p); MC_CHECK(r == 0, "what was encoded is not decoded: %x (%s)", r, fmt ? "PEM" : "DER");
        if (!r) {
            fields(s, p); MC_CHECK(!obj_encode(&o, p, &e2) && e2.n == e.n && !memcmp(e2.p, e.p, e.n), "encoded again differently (%s)", fmt ? "PEM" : "DER"); e2.n = 0;
            Obj d = o; d.fmt = BSL_FORMAT_ASN1; MC_CHECK(!obj_encode(&d, p, &e2) && e2.n == der->dataLen && !memcmp(e2.p, der->data, e2.n), "DER differs after %s", fmt ? "PEM" : "DER");
            if (kind == OB_CERT) { void *q = HITLS_X509_CertDup(p); MC_CHECK(q != NULL, "not duplicated"); if (q) { fields(s, q); e2.n = 0; MC_CHECK(!obj_encode(&o, q, &e2) && e2.n == e.n && !memcmp(e2.p, e.p, e.n), "the duplicate is encoded differently"); obj_free(&o, q); } }
        }
        obj_free(&o, p); buf_free(&e); buf_free(&e2);
    }
}
static void certFields(const Spec *s, void *h)
{
    Ctl f = (Ctl)HITLS_X509_CertCtrl; int32_t v = -1; MC_CHECK(!f(h, HITLS_X509_GET_VERSION, &v, sizeof v) && v == s->ver, "version %d for %d", v, s->ver);
    BSL_Buffer b = {0}; char x[80], y[80]; Buf e = {0}; expInt(&e, s->sn, s->snn); MC_CHECK(!f(h, HITLS_X509_GET_SERIALNUM, &b, sizeof b), "serial unreadable");
    const uint8_t *sp = b.data; size_t sl = b.dataLen, el = e.n - 2; const uint8_t *ep = e.p + 2; while (sl > 1 && !*sp) { sp++; sl--; } while (el > 1 && !*ep) { ep++; el--; }
    hexs(x, sp, sl); hexs(y, ep, el); MC_CHECK(sl == el && !memcmp(sp, ep, el), "serial number %s for %s", x, y);
    BSL_TIME t = {0}; MC_CHECK(!f(h, HITLS_X509_GET_BEFORE_TIME, &t, sizeof t) && sameTime(&t, &s->from), "start %d-%d-%d %d:%d:%d", t.year, t.month, t.day, t.hour, t.minute, t.second);
    MC_CHECK(!f(h, HITLS_X509_GET_AFTER_TIME, &t, sizeof t) && sameTime(&t, &s->to), "end %d-%d-%d %d:%d:%d", t.year, t.month, t.day, t.hour, t.minute, t.second);
    e.n = 0; expDn(&e, &s->su); memset(&b, 0, sizeof b); if (s->su.n) { MC_CHECK(!f(h, HITLS_X509_GET_ENCODE_SUBJECT_DN, &b, sizeof(void *)) && b.dataLen == e.n && !memcmp(b.data, e.p, e.n), "subject differs"); BSL_SAL_Free(b.data); }
    checkDn(&s->is, f, h, HITLS_X509_GET_ISSUER_DN, "issuer"); checkDn(&s->su, f, h, HITLS_X509_GET_SUBJECT_DN, "subject");
    void *k = NULL; MC_CHECK(!f(h, HITLS_X509_GET_PUBKEY, &k, sizeof k) && k, "no public key"); if (k) { BSL_Buffer o = {0}; PxKey *pk = px_key(s->pub, 14); MC_CHECK(!CRYPT_EAL_EncodeBuffKey(k, NULL, BSL_FORMAT_ASN1, CRYPT_PUBKEY_SUBKEY, &o) && o.dataLen == pk->spki.n && !memcmp(o.data, pk->spki.p, o.dataLen), "public key differs"); BSL_SAL_Free(o.data); CRYPT_EAL_PkeyFreeCtx(k); }
    if (s->ver == 2) { checkExts(s, f, h); }
    if (s->sig != PK_SM2) { CRYPT_EAL_PkeyCtx *vk = px_key(s->sig, 13)->k; MC_CHECK(!HITLS_X509_CertVerifyByPubKey(h, vk), "the signature does not verify"); }
    buf_free(&e);
}
static int cnum;
static int32_t sign(const Spec *s, int32_t (*f)(int32_t, const CRYPT_EAL_PkeyCtx *, const HITLS_X509_SignAlgParam *, void *), void *h)
{
    PxKey *k = px_key(s->sig, 13); CRYPT_EAL_PkeyCtx *d = CRYPT_EAL_PkeyDupCtx(k->k); HITLS_X509_SignAlgParam p = {0}; const HITLS_X509_SignAlgParam *pp = NULL; int32_t md = s->md;
    if (s->sig == PK_RSA2048) { int32_t m = md; CRYPT_EAL_PkeyCtrl(d, CRYPT_CTRL_SET_RSA_EMSA_PKCSV15, &m, sizeof m); }
    if (s->sig == PK_SM2) { p.algId = BSL_CID_SM2DSAWITHSM3; p.sm2UserId.data = (uint8_t *)"1234567812345678"; p.sm2UserId.dataLen = 16; pp = &p; }
    int32_t r = f(md, d, pp, h); CRYPT_EAL_PkeyFreeCtx(d); return r;
}
/* legal: must be accepted and come back; otherwise it may be refused at any step, but if encoded must come back too */
static void cert(const char *name, const Spec *s, bool legal)
{
    if (!mc_case("cert %s", name)) { return; }
    HITLS_X509_Cert *c = HITLS_X509_CertNew(); Ctl f = (Ctl)HITLS_X509_CertCtrl; int32_t r = 0, rs; int32_t ver = s->ver; where = "";
    BslList *is = libDn(&s->is, &r), *su = libDn(&s->su, &rs); if (!r) { r = rs; } if (r) { where = "name"; }
    if (!r) { r = at(f(c, HITLS_X509_SET_VERSION, &ver, sizeof ver), "version"); } if (!r) { r = at(f(c, HITLS_X509_SET_SERIALNUM, (void *)s->sn, s->snn), "serial"); }
    if (!r) { r = at(f(c, HITLS_X509_SET_BEFORE_TIME, (void *)&s->from, sizeof(BSL_TIME)), "from"); } if (!r) { r = at(f(c, HITLS_X509_SET_AFTER_TIME, (void *)&s->to, sizeof(BSL_TIME)), "to"); }
    if (!r) { r = at(f(c, HITLS_X509_SET_PUBKEY, px_key(s->pub, 14)->k, 0), "key"); } if (!r) { r = at(f(c, HITLS_X509_SET_ISSUER_DN, is, sizeof(BslList)), "issuer"); } if (!r) { r = at(f(c, HITLS_X509_SET_SUBJECT_DN, su, sizeof(BslList)), "subject"); }
    if (!r && s->ver == 2) { r = libExts(s, f, c); }
    if (!r) { r = at(sign(s, (void *)HITLS_X509_CertSign, c), "sign"); }
    BSL_Buffer e = {0}; if (!r) { r = at(HITLS_X509_CertGenBuff(BSL_FORMAT_ASN1, c, &e), "encode"); }
    mc_transitions(1); mc_outcome(&r, sizeof r);
    if (legal) { MC_CHECK(r == 0, "refused at %s: %x", where, r); }
    if (!r) {
        mc_outcome(e.data, e.dataLen); cnum++;
        int n; Node *t = der_tree(e.data, e.dataLen, &n, false); MC_CHECK(t && t->nch == 3, "not DER");
        if (t && t->nch == 3) {
            const Node *tb = t->ch[0]; int i = 0; Buf x = {0};
            if (s->ver) { Buf v = {0}; der_uint(&v, s->ver); der_wrap(&x, 0xa0, &v); MC_CHECK(sameDer(tb->ch[i++], &x), "version octets"); x.n = 0; }
            expInt(&x, s->sn, s->snn); MC_CHECK(sameDer(tb->ch[i++], &x), "serial number octets"); x.n = 0;
            px_sigalg(&x, px_key(s->sig, 13), s->md); MC_CHECK(sameDer(tb->ch[i++], &x) && sameDer(t->ch[1], &x), "signature algorithm octets"); x.n = 0;
            expDn(&x, &s->is); MC_CHECK(sameDer(tb->ch[i++], &x), "issuer octets"); x.n = 0;
            { Buf v = {0}; expTime(&v, &s->from); expTime(&v, &s->to); der_wrap(&x, 0x30, &v); MC_CHECK(sameDer(tb->ch[i++], &x), "validity octets"); x.n = 0; }
            expDn(&x, &s->su); MC_CHECK(sameDer(tb->ch[i++], &x), "subject octets"); x.n = 0;
            MC_CHECK(sameDer(tb->ch[i++], &px_key(s->pub, 14)->spki), "public key octets");
            if (s->ver == 2 && s->ext) {
                Buf ex[10], lib[10] = {{0}}; int k = expExts(s, ex), m = 0; MC_CHECK(tb->nch == i + 1 && tb->ch[i]->tag == 0xa3, "no extensions encoded");
                if (tb->nch == i + 1) { const Node *l = tb->ch[i]->ch[0]; for (int q = 0; q < l->nch && q < 10; q++) { buf_put(&lib[m++], l->ch[q]->raw, l->ch[q]->rawn); } qsort(lib, m, sizeof(Buf), cmpBuf); }
                MC_CHECK(m == k, "%d extensions for %d", m, k); for (int q = 0; q < k; q++) { MC_CHECK(q < m && !cmpBuf(&ex[q], &lib[q]), "extension %d octets", q); buf_free(&ex[q]); } for (int q = 0; q < m; q++) { buf_free(&lib[q]); }
            } else { MC_CHECK(tb->nch == i, "unexpected element"); }
            buf_free(&x);
        }
        der_tree_free(t);
        certFields(s, c); again(OB_CERT, s, &e, c, certFields);
    }
    BSL_SAL_Free(e.data); HITLS_X509_DnListFree(is); HITLS_X509_DnListFree(su); HITLS_X509_CertFree(c); BSL_ERR_ClearError();
}
static const BSL_TIME T0 = {2024, 1, 2, 3, 4, 0, 5, 0}, T1 = {2044, 11, 12, 13, 14, 0, 15, 0};
static Spec dflt(void)
{
    Spec s = {.ver = 2, .sn = {0x12, 0x34}, .snn = 2, .from = T0, .to = T1, .is = {{{{&O1}, 1}, {{&CN1}, 1}}, 2}, .su = {{{{&CN2}, 1}}, 1}, .pub = PK_EC256, .sig = PK_EC256, .md = CRYPT_MD_SHA256, .ku = 0x86, .isCa = 1, .path = -1, .eku = 3, .kidn = 20, .gn = {{HITLS_X509_GN_DNS, "a.example", 9}}, .ngn = 1, .genn = 7};
    return s;
}
static void certs(void)
{
    char nm[120]; mc_space("certificates");
    { Spec s = dflt(); cert("plain", &s, true); s.ver = 0; cert("v1", &s, true); s.ver = 1; cert("v2", &s, true); }
    /* serial numbers: every length x boundary first/last octets */
    static const uint8_t B[] = {0, 1, 0x7f, 0x80, 0x81, 0xff};
    for (int L = 1; L <= (mc_thorough ? 24 : 22); L++) { for (int a = 0; a < 6; a++) { for (int b = 0; b < 6; b++) { if (L == 1 && b) { continue; } Spec s = dflt(); memset(s.sn, b & 1 ? 0xff : 0, sizeof s.sn); s.snn = L; s.sn[0] = B[a]; if (L > 1) { s.sn[L - 1] = B[b]; } sprintf(nm, "serial %d %02x..%02x", L, B[a], B[b]); cert(nm, &s, L <= 20 && B[a] > 0 && B[a] < 0x80); } } }
    if (mc_thorough) { for (int v = 0; v < 65536; v += 7) { Spec s = dflt(); s.sn[0] = v >> 8; s.sn[1] = v; sprintf(nm, "serial %04x", v); cert(nm, &s, s.sn[0] && s.sn[0] < 0x80); } }
    /* times */
    static const uint16_t Y[] = {1949, 1950, 1951, 1969, 1970, 1999, 2000, 2023, 2024, 2037, 2038, 2049, 2050, 2051, 2100, 2400, 9998, 9999}; static const uint8_t MD[][2] = {{1, 1}, {1, 31}, {2, 28}, {2, 29}, {3, 1}, {6, 30}, {10, 10}, {12, 31}}; static const uint8_t HMS[][3] = {{0, 0, 0}, {23, 59, 59}, {9, 10, 11}};
    for (int y = 0; y < 18; y++) { for (int m = 0; m < 8; m++) { for (int h = 0; h < 3; h++) { for (int w = 0; w < 2; w++) {
        bool leap = (Y[y] % 4 == 0 && Y[y] % 100) || Y[y] % 400 == 0; if (MD[m][0] == 2 && MD[m][1] == 29 && !leap) { continue; }
        BSL_TIME t = {Y[y], MD[m][0], MD[m][1], HMS[h][0], HMS[h][1], 0, HMS[h][2], 0}; Spec s = dflt(); BSL_TIME lo = {1949, 1, 1, 0, 0, 0, 0, 0}, hi = {9999, 12, 31, 23, 59, 0, 59, 0}; (void)lo; if (w) { s.to = t; s.from = (BSL_TIME){2000, 1, 1, 0, 0, 0, 0, 0}; } else { s.from = t; s.to = hi; }
        sprintf(nm, "%s %d-%d-%d %d:%d:%d", w ? "until" : "from", t.year, t.month, t.day, t.hour, t.minute, t.second); cert(nm, &s, Y[y] >= 2000);
    } } } }
    /* names: every attribute alone, every ordered pair as two RDNs and as one RDN, lengths at the bounds */
    static char longv[400]; memset(longv, 'n', 399);
    for (int w = 0; w < 2; w++) { for (int i = 0; i < NAV; i++) {
        Spec s = dflt(); Dn *d = w ? &s.su : &s.is; *d = (Dn){{{{&AV[i]}, 1}}, 1}; sprintf(nm, "name%d %s", w, AV[i].oid); cert(nm, &s, true);
        if (w) { for (int j = 0; j < NAV; j++) { *d = (Dn){{{{&AV[i]}, 1}, {{&AV[j]}, 1}}, 2}; sprintf(nm, "name2 %d,%d", i, j); cert(nm, &s, true); if (i < j) { *d = (Dn){{{{&AV[j], &AV[i]}, 2}, {{&CN1}, 1}}, 2}; sprintf(nm, "name2+ %d+%d", j, i); cert(nm, &s, true); } } }
    } }
    static const int NL[] = {1, 2, 39, 40, 63, 64, 65, 127, 128, 129, 200, 255, 256, 257, 300};
    for (int i = 0; i < NAV; i++) { for (int k = 0; k < 15; k++) { Ava a = AV[i]; a.v = longv; a.n = NL[k]; Spec s = dflt(); s.su = (Dn){{{{&a}, 1}}, 1}; sprintf(nm, "name %d length %d", i, NL[k]); cert(nm, &s, false); } }
    { Spec s = dflt(); for (int n = 1; n <= 8; n++) { s.su.n = n; for (int i = 0; i < n; i++) { s.su.r[i] = (Rdn){{&AV[(i * 5) % NAV]}, 1}; } sprintf(nm, "name of %d", n); cert(nm, &s, true); } Ava u = {BSL_CID_AT_COMMONNAME, "\xc3\xa4\xe4\xb8\xad", 5, "2.5.4.3"}; s.su = (Dn){{{{&u}, 1}}, 1}; cert("name utf8", &s, true); static const Ava tri[3] = {{BSL_CID_AT_COMMONNAME, "b", 1, "2.5.4.3"}, {BSL_CID_AT_COMMONNAME, "a", 1, "2.5.4.3"}, {BSL_CID_AT_COMMONNAME, "ab", 2, "2.5.4.3"}}; s.su = (Dn){{{{&tri[0], &tri[1], &tri[2]}, 3}}, 1}; cert("name three values", &s, true); }
    /* extensions: every subset x criticality */
    for (int x = 0; x <= X_ALL; x++) { for (int c = x; ; c = (c - 1) & x) { if (__builtin_popcount(x) <= 3 || c == 0 || c == x || __builtin_popcount(c) == 1 || mc_thorough) { Spec s = dflt(); s.ext = x; s.crit = c; sprintf(nm, "extensions %02x critical %02x", x, c); cert(nm, &s, true); } if (!c) { break; } } }
    for (uint32_t u = 1; u < 512; u++) { Spec s = dflt(); s.ext = X_KU; s.crit = X_KU; s.ku = (u & 255) | (u >> 8 << 15); sprintf(nm, "key usage %x", s.ku); cert(nm, &s, true); }
    static const int PL[] = {-1, 0, 1, 2, 126, 127, 128, 129, 254, 255, 256, 257, 32767, 32768, 65535, 65536, 0x7fffff, 0x800000, 0x7fffffff};
    for (int ca = 0; ca < 2; ca++) { for (int i = 0; i < 19; i++) { for (int c = 0; c < 2; c++) { Spec s = dflt(); s.ext = X_BC; s.crit = c ? X_BC : 0; s.isCa = ca; s.path = PL[i]; sprintf(nm, "basic constraints %d %d crit %d", ca, PL[i], c); cert(nm, &s, PL[i] < 0 || (ca && PL[i] < 128)); } } }
    for (int e = 1; e < 64; e++) { Spec s = dflt(); s.ext = X_EKU; s.eku = e; sprintf(nm, "extended key usage %x", e); cert(nm, &s, true); }
    for (int n = 1; n <= 64; n++) { Spec s = dflt(); s.ext = X_SKI | X_AKI; s.kidn = n; sprintf(nm, "key identifiers of %d", n); cert(nm, &s, n == 20); }
    for (int n = 2; n <= 130; n++) { Spec s = dflt(); s.ext = X_GEN; s.genn = n; sprintf(nm, "custom extension of %d", n); cert(nm, &s, n == 7); }
    static const Gn G[] = {{HITLS_X509_GN_EMAIL, "a@b.example", 11}, {HITLS_X509_GN_DNS, "*.example.org", 13}, {HITLS_X509_GN_DNNAME, NULL, 0}, {HITLS_X509_GN_URI, "http://x/", 9}, {HITLS_X509_GN_IP, "\x7f\0\0\x01", 4}, {HITLS_X509_GN_IP, "\x20\x01\x0d\xb8\0\0\0\0\0\0\0\0\0\0\0\x01", 16}, {HITLS_X509_GN_SRV, "_x.example", 10}};
    for (int i = 0; i < 7; i++) { for (int j = -1; j < 7; j++) { for (int k = -1; k < (j < 0 ? 0 : 7); k++) { Spec s = dflt(); s.ext = X_SAN; s.gn[0] = G[i]; s.ngn = 1; if (j >= 0) { s.gn[s.ngn++] = G[j]; } if (k >= 0) { s.gn[s.ngn++] = G[k]; } sprintf(nm, "alternative names %d %d %d", i, j, k); cert(nm, &s, true); } } }
    for (int L = 1; L <= 300; L += L < 130 ? 1 : 17) { Spec s = dflt(); s.ext = X_SAN; s.gn[0] = (Gn){HITLS_X509_GN_DNS, longv, L}; sprintf(nm, "alternative name of %d", L); cert(nm, &s, false); }
    /* keys and hashes */
    static const int MD_[] = {CRYPT_MD_SHA1, CRYPT_MD_SHA224, CRYPT_MD_SHA256, CRYPT_MD_SHA384, CRYPT_MD_SHA512, CRYPT_MD_SM3};
    for (int p = 0; p < PK_KMAX; p++) { for (int q = 0; q < PK_KMAX; q++) { Spec s = dflt(); s.pub = p; s.sig = q; s.md = q == PK_SM2 ? CRYPT_MD_SM3 : q == PK_ED25519 ? CRYPT_MD_SHA512 : CRYPT_MD_SHA256; sprintf(nm, "key %s signed by %s", px_kindname(p), px_kindname(q)); cert(nm, &s, true); } }
    (void)MD_;
}
void mc_explore(void)
{
    hx_init(); objs_init();
    for (int i = 0; i < PK_KMAX; i++) { px_key(i, 13); px_key(i, 14); }
    certs();
}
