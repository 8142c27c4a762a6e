/* C15: certificate requests, revocation lists and TLS sessions come back as they were written. */
#include "hx.h"
#include "pkix.h"
#include "tlsflow.h"
#include "hitls_pki_crl.h"
#include "hitls_pki_csr.h"
#include "hitls_pki_utils.h"
#include "hitls_pki_errno.h"
#include "hitls.h"
#include "hitls_session.h"
#include "crypt_errno.h"
#include "bsl_obj.h"
#include "bsl_list.h"
#include "bsl_err.h"
static void nofree(void *p) { (void)p; }
static const uint8_t SB[] = {0x01, 0x7f, 0x80, 0xff};
static BslList *name(int n)
{
    static const int CID[] = {BSL_CID_AT_COUNTRYNAME, BSL_CID_AT_ORGANIZATIONNAME, BSL_CID_AT_COMMONNAME}; static const char *V[] = {"DE", "Some Org", "an issuer"};
    BslList *l = HITLS_X509_DnListNew(); for (int i = 0; i < n; i++) { HITLS_X509_DN d = {CID[i], (uint8_t *)V[i], strlen(V[i])}; if (HITLS_X509_AddDnName(l, &d, 1)) { mc_fatal("dn"); } } return l;
}
static bool tmEq(const BSL_TIME *a, const BSL_TIME *b) { return a->year == b->year && a->month == b->month && a->day == b->day && a->hour == b->hour && a->minute == b->minute && a->second == b->second; }
/* the same number: a leading zero octet carries only the sign */
static bool same(const BSL_Buffer *b, const uint8_t *v, int n) { const uint8_t *p = b->data; int k = b->dataLen; if (k > 1 && !p[0]) { p++; k--; } return k == n && !memcmp(p, v, n); }
typedef struct { uint8_t sn[24]; int snn; BSL_TIME when, inv; int reason; bool hasInv, rCrit, iCrit; } Ent;
typedef struct { int ver; BSL_TIME a, b; int nn; Ent e[40]; int ne; uint8_t num[24]; int numn; bool numCrit; uint8_t delta[24]; int deltan; uint8_t aki[40]; int akin; int idp; uint16_t reasons; PxKind sig; int md; } Crl;
static const BSL_TIME T0 = {2024, 1, 2, 3, 4, 0, 5, 0}, T1 = {2044, 11, 12, 13, 14, 0, 15, 0};
static Crl dflt(void) { Crl c = {.ver = 1, .a = T0, .b = T1, .nn = 2, .numn = 1, .num = {7}, .sig = PK_EC256, .md = CRYPT_MD_SHA256}; return c; }
static Ent ent(int i) { Ent e = {.sn = {1 + i, 2, i}, .snn = 3, .when = T0, .reason = -1}; return e; }
static void setPk(PxKey *k, PxKind kind, CRYPT_EAL_PkeyCtx **o) { *o = CRYPT_EAL_PkeyDupCtx(k->k); if (kind == PK_RSA2048) { int pad = CRYPT_EMSA_PKCSV15, md = CRYPT_MD_SHA256; (void)pad; CRYPT_EAL_PkeyCtrl(*o, CRYPT_CTRL_SET_RSA_EMSA_PKCSV15, &md, sizeof md); } }
/* everything the getters say about a list */
static int32_t check(HITLS_X509_Crl *h, const Crl *c, const char *w)
{
    int32_t v = -1; MC_CHECK(HITLS_X509_CrlCtrl(h, HITLS_X509_GET_VERSION, &v, sizeof v) == 0 && v == c->ver, "%s: version %d for %d", w, v, c->ver);
    BSL_TIME t; memset(&t, 0, sizeof t); MC_CHECK(HITLS_X509_CrlCtrl(h, HITLS_X509_GET_BEFORE_TIME, &t, sizeof t) == 0 && tmEq(&t, &c->a), "%s: this update %d-%d-%d", w, t.year, t.month, t.day);
    memset(&t, 0, sizeof t); MC_CHECK(HITLS_X509_CrlCtrl(h, HITLS_X509_GET_AFTER_TIME, &t, sizeof t) == 0 && tmEq(&t, &c->b), "%s: next update %d-%d-%d", w, t.year, t.month, t.day);
    if (c->numn) { HITLS_X509_ExtCrlNumber n; memset(&n, 0, sizeof n); int32_t r = HITLS_X509_CrlCtrl(h, HITLS_X509_EXT_GET_CRLNUMBER, &n, sizeof n); MC_CHECK(r == 0 && same(&n.crlNumber, c->num, c->numn) && n.critical == c->numCrit, "%s: CRL number (%x, %u octets)", w, r, n.crlNumber.dataLen); }
    if (c->deltan) { HITLS_X509_ExtDeltaCrl n; memset(&n, 0, sizeof n); int32_t r = HITLS_X509_CrlCtrl(h, HITLS_X509_EXT_GET_DELTA_CRL, &n, sizeof n); MC_CHECK(r == 0 && same(&n.crlNumber, c->delta, c->deltan) && n.critical, "%s: delta CRL indicator (%x)", w, r); }
    if (c->akin) { HITLS_X509_ExtAki k; memset(&k, 0, sizeof k); int32_t r = HITLS_X509_CrlCtrl(h, HITLS_X509_EXT_GET_AKI, &k, sizeof k); MC_CHECK(r == 0 && k.kid.dataLen == (uint32_t)c->akin && !memcmp(k.kid.data, c->aki, c->akin), "%s: key identifier (%x)", w, r); }
    if (c->idp) { HITLS_X509_ExtIdp p; memset(&p, 0, sizeof p); int32_t r = HITLS_X509_CrlCtrl(h, HITLS_X509_EXT_GET_IDP, &p, sizeof p); MC_CHECK(r == 0, "%s: distribution point %x", w, r);
        if (!r) { int g = 16 | p.onlyContainsUserCerts | p.onlyContainsCACerts << 1 | p.onlyContainsAttributeCerts << 2 | p.indirectCrl << 3 | p.hasReasons << 5; MC_CHECK(g == (c->idp & 63) && (!(g & 32) || p.onlySomeReasons == c->reasons) && p.critical, "%s: distribution point %x/%x for %x/%x", w, g, p.onlySomeReasons, c->idp, c->reasons); HITLS_X509_ClearIdp(&p); } }
    BslList *l = NULL; int32_t r = HITLS_X509_CrlCtrl(h, HITLS_X509_GET_REVOKELIST, &l, sizeof(BslList *)); int n = r || !l ? 0 : BSL_LIST_COUNT(l); MC_CHECK(n == c->ne, "%s: %d entries for %d", w, n, c->ne);
    int i = 0; if (n == c->ne && n) { for (HITLS_X509_CrlEntry *e = BSL_LIST_GET_FIRST(l); e && i < n; e = BSL_LIST_GET_NEXT(l), i++) {
        const Ent *x = &c->e[i]; BSL_Buffer s = {0}; MC_CHECK(HITLS_X509_CrlEntryCtrl(e, HITLS_X509_CRL_GET_REVOKED_SERIALNUM, &s, sizeof s) == 0 && s.dataLen == (uint32_t)x->snn && !memcmp(s.data, x->sn, x->snn), "%s: serial of entry %d (%u octets for %d)", w, i, s.dataLen, x->snn);
        memset(&t, 0, sizeof t); MC_CHECK(HITLS_X509_CrlEntryCtrl(e, HITLS_X509_CRL_GET_REVOKED_REVOKE_TIME, &t, sizeof t) == 0 && tmEq(&t, &x->when), "%s: time of entry %d: %d-%d-%d", w, i, t.year, t.month, t.day);
        int32_t q = -1; r = HITLS_X509_CrlEntryCtrl(e, HITLS_X509_CRL_GET_REVOKED_REASON, &q, sizeof q); if (x->reason >= 0) { MC_CHECK(r == 0 && q == x->reason, "%s: reason of entry %d: %d for %d (%x)", w, i, q, x->reason, r); } else { MC_CHECK(r != 0, "%s: entry %d has got a reason", w, i); }
        memset(&t, 0, sizeof t); r = HITLS_X509_CrlEntryCtrl(e, HITLS_X509_CRL_GET_REVOKED_INVALID_TIME, &t, sizeof t); if (x->hasInv) { MC_CHECK(r == 0 && tmEq(&t, &x->inv), "%s: invalidity time of entry %d: %d-%d-%d (%x)", w, i, t.year, t.month, t.day, r); } else { MC_CHECK(r != 0, "%s: entry %d has got an invalidity time", w, i); }
    } }
    BSL_ERR_ClearError(); return 0;
}
static void crl(const char *nm, const Crl *c, bool must)
{
    if (!mc_case("crl %s", nm)) { return; }
    mc_case_cost(20); mc_rand_reseed(3); HITLS_X509_Crl *h = HITLS_X509_CrlNew(); int32_t r = 0; BslList *dn = name(c->nn); BSL_Buffer e = {0};
#define S(x) do { if (!r) { r = (x); } } while (0)
    S(HITLS_X509_CrlCtrl(h, HITLS_X509_SET_VERSION, (void *)&c->ver, sizeof c->ver)); S(HITLS_X509_CrlCtrl(h, HITLS_X509_SET_ISSUER_DN, dn, sizeof(BslList)));
    S(HITLS_X509_CrlCtrl(h, HITLS_X509_SET_BEFORE_TIME, (void *)&c->a, sizeof c->a)); S(HITLS_X509_CrlCtrl(h, HITLS_X509_SET_AFTER_TIME, (void *)&c->b, sizeof c->b));
    for (int i = 0; i < c->ne; i++) {
        HITLS_X509_CrlEntry *x = HITLS_X509_CrlEntryNew(); const Ent *s = &c->e[i];
        S(HITLS_X509_CrlEntryCtrl(x, HITLS_X509_CRL_SET_REVOKED_SERIALNUM, (void *)s->sn, s->snn)); S(HITLS_X509_CrlEntryCtrl(x, HITLS_X509_CRL_SET_REVOKED_REVOKE_TIME, (void *)&s->when, sizeof s->when));
        HITLS_X509_RevokeExtReason er = {s->rCrit, s->reason}; if (s->reason >= 0) { S(HITLS_X509_CrlEntryCtrl(x, HITLS_X509_CRL_SET_REVOKED_REASON, &er, sizeof er)); }
        HITLS_X509_RevokeExtTime et = {s->iCrit, s->inv}; if (s->hasInv) { S(HITLS_X509_CrlEntryCtrl(x, HITLS_X509_CRL_SET_REVOKED_INVALID_TIME, &et, sizeof et)); }
        S(HITLS_X509_CrlCtrl(h, HITLS_X509_CRL_ADD_REVOKED_CERT, x, sizeof(void *))); HITLS_X509_CrlEntryFree(x);
    }
    HITLS_X509_ExtCrlNumber num = {c->numCrit, {(uint8_t *)c->num, c->numn}}; if (c->numn) { S(HITLS_X509_CrlCtrl(h, HITLS_X509_EXT_SET_CRLNUMBER, &num, sizeof num)); }
    HITLS_X509_ExtDeltaCrl dl = {true, {(uint8_t *)c->delta, c->deltan}}; if (c->deltan) { S(HITLS_X509_CrlCtrl(h, HITLS_X509_EXT_SET_DELTA_CRL, &dl, sizeof dl)); }
    HITLS_X509_ExtAki aki = {0}; aki.kid = (BSL_Buffer){(uint8_t *)c->aki, c->akin}; if (c->akin) { S(HITLS_X509_CrlCtrl(h, HITLS_X509_EXT_SET_AKI, &aki, sizeof aki)); }
    HITLS_X509_ExtIdp idp = {.critical = true, .onlyContainsUserCerts = c->idp & 1, .onlyContainsCACerts = c->idp >> 1 & 1, .onlyContainsAttributeCerts = c->idp >> 2 & 1, .indirectCrl = c->idp >> 3 & 1, .hasReasons = c->idp >> 5 & 1, .onlySomeReasons = c->reasons}; if (c->idp) { S(HITLS_X509_CrlCtrl(h, HITLS_X509_EXT_SET_IDP, &idp, sizeof idp)); }
    CRYPT_EAL_PkeyCtx *k; setPk(px_key(c->sig, 13), c->sig, &k); HITLS_X509_SignAlgParam ap = {0}, *pap = NULL; static const uint8_t ID[] = "1234567812345678"; if (c->sig == PK_SM2) { ap.algId = BSL_CID_SM2DSAWITHSM3; ap.sm2UserId = (BSL_Buffer){(uint8_t *)ID, 16}; pap = &ap; }
    S(HITLS_X509_CrlSign(c->md, k, pap, h)); S(HITLS_X509_CrlGenBuff(BSL_FORMAT_ASN1, h, &e));
    mc_outcome(&r, sizeof r); mc_transitions(1); MC_CHECK(r == 0 || !must, "not written: %x", r);
    if (!r) {
        mc_outcome(e.data, e.dataLen);
        HITLS_X509_Crl *d = NULL, *d2 = NULL; r = HITLS_X509_CrlParseBuff(BSL_FORMAT_ASN1, &e, &d); MC_CHECK(r == 0, "does not decode: %x", r);
        if (!r) {
            check(d, c, "decoded"); BSL_Buffer e2 = {0}, pem = {0}, e3 = {0}; r = HITLS_X509_CrlGenBuff(BSL_FORMAT_ASN1, d, &e2); MC_CHECK(r == 0 && e2.dataLen == e.dataLen && !memcmp(e2.data, e.data, e.dataLen), "encoded again differently (%x)", r);
            r = HITLS_X509_CrlGenBuff(BSL_FORMAT_PEM, h, &pem); MC_CHECK(r == 0, "PEM %x", r);
            if (!r) { r = HITLS_X509_CrlParseBuff(BSL_FORMAT_PEM, &pem, &d2); MC_CHECK(r == 0, "PEM does not decode: %x", r); if (!r) { check(d2, c, "PEM"); r = HITLS_X509_CrlGenBuff(BSL_FORMAT_ASN1, d2, &e3); MC_CHECK(r == 0 && e3.dataLen == e.dataLen && !memcmp(e3.data, e.data, e.dataLen), "differs by way of PEM"); } }
            if (c->sig == PK_SM2) { HITLS_X509_CrlCtrl(d, HITLS_X509_SET_VFY_SM2_USER_ID, (void *)ID, 16); } r = HITLS_X509_CrlVerify(k, d); MC_CHECK(r == 0, "own signature: %x", r);
            BSL_SAL_Free(e2.data); BSL_SAL_Free(pem.data); BSL_SAL_Free(e3.data); HITLS_X509_CrlFree(d2);
        }
        HITLS_X509_CrlFree(d);
    }
    BSL_SAL_Free(e.data); HITLS_X509_CrlFree(h); HITLS_X509_DnListFree(dn); CRYPT_EAL_PkeyFreeCtx(k); BSL_ERR_ClearError();
}
static const uint16_t Y[] = {2000, 2001, 2024, 2037, 2038, 2049, 2050, 2051, 2100, 2400, 9998}; static const uint8_t MDY[][2] = {{1, 1}, {2, 28}, {2, 29}, {3, 1}, {12, 31}};
static void crls(void)
{
    char nm[120]; mc_space("revocation lists");
    { Crl c = dflt(); crl("plain", &c, true); c.numn = 0; c.ver = 0; crl("v1", &c, true); c.ne = 1; c.e[0] = ent(0); crl("v1 entry", &c, true); }
    for (int p = 0; p < PK_KMAX; p++) { for (int m = 0; m < 4; m++) { static const int M[] = {CRYPT_MD_SHA256, CRYPT_MD_SHA384, CRYPT_MD_SHA512, CRYPT_MD_SHA1}; Crl c = dflt(); c.sig = p; c.md = p == PK_SM2 ? CRYPT_MD_SM3 : p == PK_ED25519 ? CRYPT_MD_SHA512 : M[m]; if ((p == PK_SM2 || p == PK_ED25519) && m) { continue; } c.ne = 2; c.e[0] = ent(0); c.e[1] = ent(1); sprintf(nm, "key %s md %d", px_kindname(p), m); crl(nm, &c, m < 3); } }
    for (int L = 1; L <= 22; L++) { for (int b = 0; b < 4; b++) {
        Crl c = dflt(); c.numn = L; memset(c.num, SB[b], L); sprintf(nm, "number of %d by %02x", L, SB[b]); crl(nm, &c, L <= 20 && SB[b] < 0x80);
        c = dflt(); c.ne = 1; c.e[0] = ent(0); c.e[0].snn = L; memset(c.e[0].sn, SB[b], L); sprintf(nm, "serial of %d by %02x", L, SB[b]); crl(nm, &c, L <= 20 && SB[b] < 0x80);
        c = dflt(); c.deltan = L; memset(c.delta, SB[b], L); sprintf(nm, "delta of %d by %02x", L, SB[b]); crl(nm, &c, false);  /* not in the default build */
        c = dflt(); c.akin = L; memset(c.aki, SB[b], L); sprintf(nm, "key identifier of %d by %02x", L, SB[b]); crl(nm, &c, L == 20);
    } }
    for (int y = 0; y < 11; y++) { for (int m = 0; m < 5; m++) { for (int w = 0; w < 4; w++) {
        bool leap = (Y[y] % 4 == 0 && Y[y] % 100) || Y[y] % 400 == 0; if (MDY[m][0] == 2 && MDY[m][1] == 29 && !leap) { continue; }
        for (int h = 0; h < 2; h++) { BSL_TIME t = {Y[y], MDY[m][0], MDY[m][1], h ? 23 : 0, h ? 59 : 0, 0, h ? 59 : 0, 0}; Crl c = dflt(); c.ne = 1; c.e[0] = ent(0); if (w == 0) { c.a = t; c.b = (BSL_TIME){9999, 12, 31, 23, 59, 0, 59, 0}; } else if (w == 1) { c.a = (BSL_TIME){2000, 1, 1, 0, 0, 0, 0, 0}; if (tmEq(&c.a, &t)) { continue; } c.b = t; } else if (w == 2) { c.e[0].when = t; } else { c.e[0].hasInv = true; c.e[0].inv = t; } sprintf(nm, "time %d %d-%d-%d %d", w, t.year, t.month, t.day, h); crl(nm, &c, true); }
    } } }
    static const int R[] = {-1, 0, 1, 2, 3, 4, 5, 6, 8, 9, 10, 7, 11};
    for (int i = 0; i < 13; i++) { for (int v = 0; v < 2; v++) { for (int k = 0; k < 4; k++) { Crl c = dflt(); c.ne = 1; c.e[0] = ent(0); c.e[0].reason = R[i]; c.e[0].hasInv = v; c.e[0].inv = T1; c.e[0].rCrit = k & 1; c.e[0].iCrit = k >> 1; sprintf(nm, "reason %d invalidity %d critical %d", R[i], v, k); crl(nm, &c, R[i] != 7 && R[i] != 11 && !k); } } }
    for (int n = 0; n <= 36; n++) { for (int z = 0; z < 3; z++) { Crl c = dflt(); c.ne = n; for (int i = 0; i < n; i++) { c.e[i] = ent(i); if (z) { c.e[i].reason = R[1 + i % 10]; } if (z == 2) { c.e[i].hasInv = i & 1; c.e[i].inv = T1; } } sprintf(nm, "%d entries kind %d", n, z); crl(nm, &c, true); } }
    for (int f = 0; f < 32; f++) { static const uint16_t RS[] = {0, 1, 2, 4, 8, 0x10, 0x20, 0x40, 0x80, 0x8000, 0x8001, 0x807f, 0x807e, 0x60}; for (int i = 0; i < (f >> 4 ? 14 : 1); i++) { Crl c = dflt(); c.idp = 16 | (f & 15) | (f >> 4) << 5; c.reasons = RS[i]; sprintf(nm, "distribution point %x reasons %x", c.idp, c.reasons); crl(nm, &c, false); } }
}
/* requests: subject lists, keys, requested extensions */
typedef struct { int nn, len; PxKind k; int md; int ext, crit; uint32_t ku; int path; } Csr;
static int32_t fill(const Csr *c, void *h, int32_t (*f)(void *, int32_t, void *, uint32_t))
{
    int32_t r = 0; static uint8_t kid[20] = {1, 2, 3};
    HITLS_X509_ExtKeyUsage ku = {c->crit & 1, c->ku}; HITLS_X509_ExtBCons bc = {c->crit >> 1 & 1, true, c->path}; HITLS_X509_ExtSki sk = {c->crit >> 2 & 1, {kid, 20}};
    HITLS_X509_GeneralName gn = {HITLS_X509_GN_DNS, {(uint8_t *)"host.example", 12}}; BslList *l = BSL_LIST_New(sizeof gn); BSL_LIST_AddElement(l, &gn, BSL_LIST_POS_END); HITLS_X509_ExtSan san = {c->crit >> 3 & 1, l};
    if (c->ext & 1) { S(f(h, HITLS_X509_EXT_SET_KUSAGE, &ku, sizeof ku)); } if (c->ext & 2) { S(f(h, HITLS_X509_EXT_SET_BCONS, &bc, sizeof bc)); }
    if (c->ext & 4) { S(f(h, HITLS_X509_EXT_SET_SKI, &sk, sizeof sk)); } if (c->ext & 8) { S(f(h, HITLS_X509_EXT_SET_SAN, &san, sizeof san)); }
    BSL_LIST_DeleteAll(l, (BSL_LIST_PFUNC_FREE)nofree); BSL_SAL_Free(l); return r;
}
static void csr(const char *nm, const Csr *c, bool must)
{
    if (!mc_case("csr %s", nm)) { return; }
    mc_case_cost(20); mc_rand_reseed(3); HITLS_X509_Csr *h = HITLS_X509_CsrNew(); int32_t r = 0; BSL_Buffer e = {0}; static char lv[300]; memset(lv, 'y', 299); CRYPT_EAL_PkeyCtx *k; setPk(px_key(c->k, 13), c->k, &k);
    S(HITLS_X509_CsrCtrl(h, HITLS_X509_SET_PUBKEY, k, 0));
    static const int CID[] = {BSL_CID_AT_COUNTRYNAME, BSL_CID_AT_ORGANIZATIONNAME, BSL_CID_AT_ORGANIZATIONALUNITNAME, BSL_CID_AT_COMMONNAME};
    for (int i = 0; i < c->nn; i++) { HITLS_X509_DN d = {CID[i & 3], (uint8_t *)((i & 3) == 0 ? "DE" : lv), (i & 3) == 0 ? 2 : c->len}; S(HITLS_X509_CsrCtrl(h, HITLS_X509_ADD_SUBJECT_NAME, &d, 1)); }
    HITLS_X509_Ext *x = NULL; if (c->ext) { x = HITLS_X509_ExtNew(HITLS_X509_EXT_TYPE_CSR); S(fill(c, x, (void *)HITLS_X509_ExtCtrl)); HITLS_X509_Attrs *at = NULL; S(HITLS_X509_CsrCtrl(h, HITLS_X509_CSR_GET_ATTRIBUTES, &at, sizeof at)); S(HITLS_X509_AttrCtrl(at, HITLS_X509_ATTR_SET_REQUESTED_EXTENSIONS, x, 0)); }
    HITLS_X509_SignAlgParam ap = {0}, *pap = NULL; static const uint8_t ID[] = "1234567812345678"; if (c->k == PK_SM2) { ap.algId = BSL_CID_SM2DSAWITHSM3; ap.sm2UserId = (BSL_Buffer){(uint8_t *)ID, 16}; pap = &ap; }
    S(HITLS_X509_CsrSign(c->md, k, pap, h)); S(HITLS_X509_CsrGenBuff(BSL_FORMAT_ASN1, h, &e)); mc_outcome(&r, sizeof r); mc_transitions(1); MC_CHECK(r == 0 || !must, "not written: %x", r);
    if (!r) {
        mc_outcome(e.data, e.dataLen); BSL_Buffer pem = {0}; MC_CHECK(HITLS_X509_CsrGenBuff(BSL_FORMAT_PEM, h, &pem) == 0, "no PEM");
        for (int w = 0; w < 2; w++) {
            HITLS_X509_Csr *d = NULL; r = HITLS_X509_CsrParseBuff(w ? BSL_FORMAT_PEM : BSL_FORMAT_ASN1, w ? &pem : &e, &d); MC_CHECK(r == 0, "does not decode: %x", r); if (r) { continue; }
            BSL_Buffer e2 = {0}, s1 = {0}, s2 = {0}; r = HITLS_X509_CsrGenBuff(BSL_FORMAT_ASN1, d, &e2); MC_CHECK(r == 0 && e2.dataLen == e.dataLen && !memcmp(e2.data, e.data, e.dataLen), "encoded again differently (%x)", r); BSL_SAL_Free(e2.data);
            if (c->k == PK_SM2) { HITLS_X509_CsrCtrl(d, HITLS_X509_SET_VFY_SM2_USER_ID, (void *)ID, 16); } r = HITLS_X509_CsrVerify(d); MC_CHECK(r == 0, "own signature: %x", r);
            CRYPT_EAL_PkeyCtx *p = NULL; r = HITLS_X509_CsrCtrl(d, HITLS_X509_GET_PUBKEY, &p, sizeof p); MC_CHECK(r == 0 && CRYPT_EAL_PkeyCmp(p, px_key(c->k, 13)->k) == 0, "public key"); CRYPT_EAL_PkeyFreeCtx(p); (void)s1; (void)s2;
            BslList *l = NULL; r = HITLS_X509_CsrCtrl(d, HITLS_X509_GET_SUBJECT_DN, &l, sizeof l); int n = 0; if (!r && l) { for (HITLS_X509_DN *q = NULL; !q; ) { n = BSL_LIST_COUNT(l); break; } } mc_outcome(&n, sizeof n);
            HITLS_X509_Attrs *at = NULL; r = HITLS_X509_CsrCtrl(d, HITLS_X509_CSR_GET_ATTRIBUTES, &at, sizeof at); HITLS_X509_Ext *g = NULL; if (!r) { r = HITLS_X509_AttrCtrl(at, HITLS_X509_ATTR_GET_REQUESTED_EXTENSIONS, &g, sizeof g); }
            if (!c->ext) { MC_CHECK(r != 0 || !g, "extensions out of nowhere"); }
            else if (r) { mc_fail("no extensions: %x", r); }
            else {
                uint32_t ku = 0; r = HITLS_X509_ExtCtrl(g, HITLS_X509_EXT_GET_KUSAGE, &ku, sizeof ku); if (c->ext & 1) { MC_CHECK(r == 0 && ku == c->ku, "key usage %x for %x (%x)", ku, c->ku, r); }
                HITLS_X509_ExtBCons bc = {0}; r = HITLS_X509_ExtCtrl(g, HITLS_X509_EXT_GET_BCONS, &bc, sizeof bc); if (c->ext & 2) { MC_CHECK(r == 0 && bc.isCa && bc.maxPathLen == c->path && bc.critical == (c->crit >> 1 & 1), "basic constraints %d %d (%x)", bc.isCa, bc.maxPathLen, r); }
                HITLS_X509_ExtSki sk = {0}; r = HITLS_X509_ExtCtrl(g, HITLS_X509_EXT_GET_SKI, &sk, sizeof sk); if (c->ext & 4) { MC_CHECK(r == 0 && sk.kid.dataLen == 20 && sk.kid.data[1] == 2 && sk.critical == (c->crit >> 2 & 1), "key identifier (%x)", r); } else { MC_CHECK(r != 0, "key identifier out of nowhere"); }
                HITLS_X509_ExtSan sn = {0}; r = HITLS_X509_ExtCtrl(g, HITLS_X509_EXT_GET_SAN, &sn, sizeof sn); if (c->ext & 8) { MC_CHECK(r == 0 && BSL_LIST_COUNT(sn.names) == 1 && sn.critical == (c->crit >> 3 & 1), "alternative name (%x)", r); } if (!r) { HITLS_X509_ClearSubjectAltName(&sn); }
                HITLS_X509_ExtFree(g);
            }
            HITLS_X509_CsrFree(d);
        }
        BSL_SAL_Free(pem.data);
    }
    BSL_SAL_Free(e.data); HITLS_X509_CsrFree(h); HITLS_X509_ExtFree(x); CRYPT_EAL_PkeyFreeCtx(k); BSL_ERR_ClearError();
}
static void csrs(void)
{
    char nm[100]; mc_space("requests"); Csr z = {.nn = 2, .len = 5, .k = PK_EC256, .md = CRYPT_MD_SHA256, .ku = 3, .path = -1};
    for (int p = 0; p < PK_KMAX; p++) { for (int m = 0; m < 3; m++) { static const int M[] = {CRYPT_MD_SHA256, CRYPT_MD_SHA384, CRYPT_MD_SHA512}; Csr c = z; c.k = p; c.md = p == PK_SM2 ? CRYPT_MD_SM3 : p == PK_ED25519 ? CRYPT_MD_SHA512 : M[m]; if ((p == PK_SM2 || p == PK_ED25519) && m) { continue; } sprintf(nm, "key %s md %d", px_kindname(p), m); csr(nm, &c, true); c.ext = 15; strcat(nm, " ext"); csr(nm, &c, true); } }
    for (int n = 1; n <= 12; n++) { for (int l = 1; l <= 66; l += l < 4 || l > 61 ? 1 : 29) { Csr c = z; c.nn = n; c.len = l; sprintf(nm, "subject %d of %d", n, l); csr(nm, &c, l <= 64); } }
    for (int x = 1; x < 16; x++) { for (int k = x; ; k = (k - 1) & x) { Csr c = z; c.ext = x; c.crit = k; sprintf(nm, "extensions %x critical %x", x, k); csr(nm, &c, true); if (!k) { break; } } }
    for (uint32_t u = 1; u < 512; u++) { Csr c = z; c.ext = 1; c.crit = u & 1; c.ku = (u & 255) | (u >> 8 << 15); sprintf(nm, "key usage %x", c.ku); csr(nm, &c, true); }
    static const int PL[] = {-1, 0, 1, 127, 128, 255, 256, 32767, 32768, 65536}; for (int i = 0; i < 10; i++) { Csr c = z; c.ext = 2; c.path = PL[i]; sprintf(nm, "path length %d", c.path); csr(nm, &c, true); }
}
/* sessions of every connection set-up: encode, decode, encode; short buffers; time-outs and identifiers at the bounds */
static void sessions(void)
{
    mc_space("sessions");
    for (int i = 0; i < tx_nflows; i++) {
        const Flow *f = &tx_flows[i]; mc_mute = true; mc_rand_reseed(5); FlowRun r; if (!flow_open(f, &r)) { mc_mute = false; continue; } tx_handshake(&r.l); tx_drain(r.l.c);
        HITLS_Session *s[2] = {HITLS_GetDupSession(r.l.c->ctx), HITLS_GetDupSession(r.l.s->ctx)}; flow_close(&r); BSL_ERR_ClearError(); mc_mute = false;
        for (int w = 0; w < 2; w++) { static const uint64_t TO[] = {0, 1, 127, 128, 255, 256, 7200, 65535, 65536, 604800, 0x7fffffff, 0x80000000ull, 0xffffffffull, 0x100000000ull, 0x7fffffffffffffffull, 0xffffffffffffffffull}; static const int IL[] = {-1, 1, 2, 16, 31, 32, 0, 24};
            for (int t = 0; s[w] && t < 16; t++) { for (int q = 0; q < 8; q++) {
                if ((t && q) || !mc_case("session %s %s timeout %llx id %d", f->name, w ? "server" : "client", (unsigned long long)TO[t], IL[q])) { continue; }
                HITLS_Session *c = HITLS_SESS_Dup(s[w]), *d = NULL; uint8_t e[8192], e2[8192], id[32] = {0}, i1[64], i2[64], m1[64], m2[64]; uint32_t n = 0, n2 = 0, l1 = 64, l2 = 64, k1 = 64, k2 = 64; int32_t rr;
                if (t) { HITLS_SESS_SetTimeout(c, TO[t]); } if (IL[q] >= 0) { memset(id, 0xc3, 32); HITLS_SESS_SetSessionId(c, id, IL[q]); }
                rr = HITLS_SESS_Encode(c, e, sizeof e, &n); mc_outcome(&rr, sizeof rr); mc_transitions(1);
                if (!rr) {
                    mc_outcome(e, n); rr = HITLS_SESS_Decode(&d, e, n); MC_CHECK(rr == 0, "does not decode: %x", rr);
                    if (!rr) {
                        rr = HITLS_SESS_Encode(d, e2, sizeof e2, &n2); MC_CHECK(rr == 0 && n == n2 && !memcmp(e, e2, n), "encoded again differently (%x)", rr);
                        uint16_t v1 = 0, v2 = 0, c1 = 0, c2 = 0; bool x1 = 0, x2 = 0; HITLS_SESS_GetProtocolVersion(c, &v1); HITLS_SESS_GetProtocolVersion(d, &v2); HITLS_SESS_GetCipherSuite(c, &c1); HITLS_SESS_GetCipherSuite(d, &c2); MC_CHECK(v1 == v2 && c1 == c2, "version or suite differ: %x/%x %x/%x", v1, c1, v2, c2);
                        HITLS_SESS_GetMasterKey(c, m1, &k1); HITLS_SESS_GetMasterKey(d, m2, &k2); MC_CHECK(k1 == k2 && !memcmp(m1, m2, k1), "secret differs"); HITLS_SESS_GetSessionId(c, i1, &l1); HITLS_SESS_GetSessionId(d, i2, &l2); MC_CHECK(l1 == l2 && !memcmp(i1, i2, l1), "identifier differs");
                        HITLS_SESS_GetHaveExtMasterSecret(c, &x1); HITLS_SESS_GetHaveExtMasterSecret(d, &x2); MC_CHECK(x1 == x2, "extended master secret mark differs"); MC_CHECK(HITLS_SESS_GetTimeout(c) == HITLS_SESS_GetTimeout(d), "lifetime %llx for %llx", (unsigned long long)HITLS_SESS_GetTimeout(d), (unsigned long long)HITLS_SESS_GetTimeout(c));
                    }
                }
                HITLS_SESS_Free(c); HITLS_SESS_Free(d); BSL_ERR_ClearError();
            } }
            HITLS_SESS_Free(s[w]);
        }
    }
}
void mc_explore(void)
{
    hx_init(); for (int i = 0; i < PK_KMAX; i++) { px_key(i, 13); px_key(i, 14); } tx_init();
    crls(); csrs(); sessions();
}
