/* C13: signed and MACed objects are tamper-evident.  Every byte position of every seed object gets every enumerated other value
 * and every element every structural alteration; an altered object must not verify (or open), unless what it yields is
 * unchanged.  The signed part is located by an independent DER walk.  Wrong keys, passwords and contents must fail. */
#include "objs.h"
static size_t tbsLo, tbsHi;            /* signed region of the current object */
static PxKey *signerOf(const Obj *o) { return px_key(o->sigKind, o->kind == OB_CSR ? 12 : 10); }
static bool isSelf(const Obj *o) { return o->kind == OB_CSR; }
static HITLS_X509_Cert *cmsCert(const Obj *o)
{
    static Buf d[PK_KMAX]; Buf *b = &d[o->sigKind]; HITLS_X509_Cert *c = NULL; PxKey *k = px_key(o->sigKind, 13);
    if (!b->n) { PxCert pc = {.serial = 99, .issuer = "signer", .subject = "signer", .from = 1700000000LL - 1000, .to = 4000000000LL, .pub = k, .signer = k, .bcons = 1, .pathlen = -1, .ku = 0x86, .ski = 1}; px_cert(&pc, b); }
    BSL_Buffer e = {b->p, b->n}; if (HITLS_X509_CertParseBuff(BSL_FORMAT_ASN1, &e, &c)) { mc_fatal("cms cert"); } return c;
}
static void nofree(void *p) { (void)p; }
static bool supply;  /* hand in the content although the object carries it */
/* 0 = verified/opened; *out = what it yields */
static int32_t verify(const Obj *o, void *h, CRYPT_EAL_PkeyCtx *key, const char *msg, size_t mlen, Buf *out)
{
    int32_t r = -1; out->n = 0; static const char ID[] = "1234567812345678";
    if (o->sigKind == PK_SM2) { if (o->kind == OB_CERT) { CRYPT_EAL_PkeyCtrl(key, CRYPT_CTRL_SET_SM2_USER_ID, (void *)ID, 16); } if (o->kind == OB_CRL) { HITLS_X509_CrlCtrl(h, HITLS_X509_SET_VFY_SM2_USER_ID, (void *)ID, 16); } if (o->kind == OB_CSR) { HITLS_X509_CsrCtrl(h, HITLS_X509_SET_VFY_SM2_USER_ID, (void *)ID, 16); } }
    switch (o->kind) {
        case OB_CERT: r = HITLS_X509_CertVerifyByPubKey(h, key); break;
        case OB_CRL: r = HITLS_X509_CrlVerify(key, h); break;
        case OB_CSR: r = HITLS_X509_CsrVerify(h); break;
        case OB_CMS: {
            HITLS_X509_Cert *c = cmsCert(o); BslList *l = BSL_LIST_New(sizeof(void *)); BSL_LIST_AddElement(l, c, BSL_LIST_POS_END); BSL_Param p[] = {{HITLS_CMS_PARAM_CA_CERT_LISTS, BSL_PARAM_TYPE_CTX_PTR, l, 0, 0}, BSL_PARAM_END};
            BSL_Buffer m = {(uint8_t *)msg, mlen}, ob = {0}; r = HITLS_CMS_DataVerify(h, o->type || supply ? &m : NULL, p, &ob);
            if (!r) { if (o->type) { buf_set(out, msg, mlen); } else { buf_set(out, ob.data, ob.dataLen); } } BSL_SAL_Free(ob.data); BSL_LIST_FREE(l, nofree); HITLS_X509_CertFree(c); return r;
        }
        case OB_P12: {
            void *c = NULL, *k = NULL; r = 0; if (!HITLS_PKCS12_Ctrl(h, HITLS_PKCS12_GET_ENTITY_CERT, &c, 0) && c) { BSL_Buffer e = {0}; if (!HITLS_X509_CertGenBuff(BSL_FORMAT_ASN1, c, &e)) { buf_put(out, e.data, e.dataLen); } BSL_SAL_Free(e.data); HITLS_X509_CertFree(c); }
            if (!HITLS_PKCS12_Ctrl(h, HITLS_PKCS12_GET_ENTITY_KEY, &k, 0) && k) { BSL_Buffer e = {0}; if (!CRYPT_EAL_EncodeBuffKey(k, NULL, BSL_FORMAT_ASN1, CRYPT_PRIKEY_PKCS8_UNENCRYPT, &e)) { buf_put(out, e.data, e.dataLen); } BSL_SAL_Free(e.data); CRYPT_EAL_PkeyFreeCtx(k); }
            return r;
        }
        default: return -1;
    }
    if (!r) {   /* everything the object says */
        int32_t (*f)(void *, int32_t, void *, uint32_t) = o->kind == OB_CERT ? (void *)HITLS_X509_CertCtrl : o->kind == OB_CRL ? (void *)HITLS_X509_CrlCtrl : (void *)HITLS_X509_CsrCtrl;
        static const int S[] = {HITLS_X509_GET_SUBJECT_DN_STR, HITLS_X509_GET_ISSUER_DN_STR, HITLS_X509_GET_SERIALNUM_STR, HITLS_X509_GET_BEFORE_TIME_STR, HITLS_X509_GET_AFTER_TIME_STR};
        for (int i = 0; i < 5; i++) { BSL_Buffer b = {0}; if (!f(h, S[i], &b, sizeof b)) { buf_put(out, b.data, b.dataLen); BSL_SAL_Free(b.data); } }
        void *pk = NULL; if (o->kind != OB_CRL && !f(h, HITLS_X509_GET_PUBKEY, &pk, sizeof pk) && pk) { BSL_Buffer e = {0}; if (!CRYPT_EAL_EncodeBuffKey(pk, NULL, BSL_FORMAT_ASN1, CRYPT_PUBKEY_SUBKEY, &e)) { buf_put(out, e.data, e.dataLen); } BSL_SAL_Free(e.data); CRYPT_EAL_PkeyFreeCtx(pk); }
        BslList *l = NULL; if (o->kind == OB_CRL && !f(h, HITLS_X509_GET_REVOKELIST, &l, sizeof l) && l) { for (void *e = BSL_LIST_GET_FIRST(l); e; e = BSL_LIST_GET_NEXT(l)) { BSL_Buffer s = {0}; if (!HITLS_X509_CrlEntryCtrl(e, HITLS_X509_CRL_GET_REVOKED_SERIALNUM, &s, sizeof s)) { buf_put(out, s.data, s.dataLen); } } }
        uint32_t ku = 0; if (o->kind == OB_CERT) { f(h, HITLS_X509_EXT_GET_KUSAGE, &ku, sizeof ku); buf_u32(out, ku); HITLS_X509_ExtBCons bc = {0}; if (!f(h, HITLS_X509_EXT_GET_BCONS, &bc, sizeof bc)) { buf_u8(out, bc.isCa); buf_u32(out, bc.maxPathLen); } }
    }
    return r;
}
static Buf base; static uint64_t accepted;
static int32_t tryit(const Obj *o, const uint8_t *p, size_t n, Buf *out) { void *h = NULL; int32_t r = obj_parse(o, p, n, &h); if (!r) { r = verify(o, h, signerOf(o)->k, OB_MSG, strlen(OB_MSG), out); } obj_free(o, h); BSL_ERR_ClearError(); mc_transitions(1); return r; }
static void judge(const Obj *o, const uint8_t *p, size_t n, bool signedPart, const char *what, int a, int b)
{
    Buf out = {0}; int32_t r = tryit(o, p, n, &out); mc_outcome(&r, sizeof r);
    if (r == 0) {
        accepted++;
        if (signedPart) { mc_fail("%s %d (%d): verified although the protected part differs", what, a, b); }
        else if (out.n != base.n || memcmp(out.p, base.p, out.n)) { mc_fail("%s %d (%d): verified and yields something else", what, a, b); }
    }
    buf_free(&out);
}
/* further octets that any alteration of must be noticed: signature values, MAC, its salt and iteration count, signed attributes */
static struct { size_t lo, hi; } prot[8]; static int nprot;
static void protect(const Obj *o, const uint8_t *p, size_t n) { if (nprot < 8) { prot[nprot].lo = p - o->enc.p; prot[nprot++].hi = p - o->enc.p + n; } }
static bool isProt(size_t k) { if (k >= tbsLo && k < tbsHi) { return true; } for (int i = 0; i < nprot; i++) { if (k >= prot[i].lo && k < prot[i].hi) { return true; } } return false; }
static void seek(const Obj *o)
{
    nprot = 0;
    tbsLo = tbsHi = 0; int n; Node *t = der_tree(o->enc.p, o->enc.n, &n, false); if (!t) { return; }
    if (o->kind == OB_CERT || o->kind == OB_CRL || o->kind == OB_CSR) { tbsLo = t->ch[0]->raw - o->enc.p; tbsHi = tbsLo + t->ch[0]->rawn; protect(o, t->ch[2]->p + 1, t->ch[2]->n - 1); }
    if (o->kind == OB_P12 && t->nch == 3) { const Node *c = t->ch[1]->ch[1]->ch[0]; tbsLo = c->p - o->enc.p; tbsHi = tbsLo + c->n; const Node *m = t->ch[2]; protect(o, m->ch[0]->ch[1]->p, m->ch[0]->ch[1]->n); protect(o, m->ch[1]->p, m->ch[1]->n); if (m->nch > 2) { protect(o, m->ch[2]->p, m->ch[2]->n); } }
    if (o->kind == OB_CMS) {
        const Node *sd = t->ch[1]->ch[0], *si = sd->ch[sd->nch - 1]->ch[0];
        for (int i = 0; i < si->nch; i++) { if (si->ch[i]->tag == 4) { protect(o, si->ch[i]->p, si->ch[i]->n); } if (si->ch[i]->tag == 0xa0) { protect(o, si->ch[i]->p, si->ch[i]->n); } }
        const Node *ec = sd->ch[2]; if (ec->nch > 1) { protect(o, ec->ch[1]->ch[0]->p, ec->ch[1]->ch[0]->n); }
    }
    der_tree_free(t);
}
static bool inSigned(const Node *t, int id, const Obj *o) { if (t->id == id) { size_t off = t->raw - o->enc.p; return off >= tbsLo && off < tbsHi; } for (int i = 0; i < t->nch; i++) { if (inSigned(t->ch[i], id, o)) { return true; } } return false; }
static void object(const Obj *o)
{
    seek(o); base.n = 0; mc_mute = true; int32_t r = tryit(o, o->enc.p, o->enc.n, &base); mc_mute = false;
    if (mc_case("genuine %s", o->name)) { MC_CHECK(r == 0, "the genuine object is refused: %x", r); if (o->kind == OB_CMS) { MC_CHECK(base.n == strlen(OB_MSG) && !memcmp(base.p, OB_MSG, base.n), "the content differs from what was signed"); } mc_sample("%s: %zu bytes, protected %zu..%zu", o->name, o->enc.n, tbsLo, tbsHi); }
    uint8_t *c = malloc(o->enc.n); int step = 1, nv = mc_thorough ? 12 : o->kind == OB_P12 ? 2 : o->sigKind == PK_SM2 ? 5 : 10;
    mc_space("bytes");
    for (size_t i = 0; i < o->enc.n; i += 16) {
        if (!mc_case("byte %s %zu", o->name, i)) { continue; }
        mc_case_cost(60);
        for (size_t k = i; k < i + 16 && k < o->enc.n && !mc_failed(); k += step) {
            for (int v = 0; v < nv && !mc_failed(); v++) {
                uint8_t x = v < 8 ? o->enc.p[k] ^ 1 << (v * 5 % 8) : v == 8 ? 0 : v == 9 ? 0xff : v == 10 ? o->enc.p[k] + 1 : o->enc.p[k] - 1; if (x == o->enc.p[k]) { continue; }
                memcpy(c, o->enc.p, o->enc.n); c[k] = x; judge(o, c, o->enc.n, isProt(k), "byte", k, x);
            }
        }
    }
    free(c);
    int n; Node *t = o->fmt == BSL_FORMAT_ASN1 ? der_tree(o->enc.p, o->enc.n, &n, true) : NULL; Buf b = {0};
    if (t) {
        mc_space("elements");
        for (int id = 1; id < n; id++) {
            if (!mc_case("node %s %d", o->name, id)) { continue; }
            mc_case_cost(60); bool sp = inSigned(t, id, o);
            for (int mu = 1; mu < MU_MAX && !mc_failed(); mu++) { if (o->kind == OB_P12 && mu != MU_DEL && mu != MU_DUP && mu != MU_NTH) { continue; } for (int a = 0; a < der_mu_args(mu) && !mc_failed(); a++) { if (der_emit(t, id, mu, a, &b) && (b.n != o->enc.n || memcmp(b.p, o->enc.p, b.n))) { judge(o, b.p, b.n, sp, "element", mu, a); } } }
        }
        der_tree_free(t);
    }
    mc_space("wrong");
    if (o->kind == OB_CERT || o->kind == OB_CRL) {
        if (mc_case("wrong keys %s", o->name)) { for (int k = 0; k < PK_KMAX; k++) { for (int i = 10; i < 14; i++) { if (k == (int)o->sigKind && i == 10) { continue; } void *h = NULL; Buf out = {0}; if (!obj_parse(o, o->enc.p, o->enc.n, &h)) { int32_t q = verify(o, h, px_key(k, i)->k, NULL, 0, &out); MC_CHECK(q != 0, "verifies with the key %s-%d of someone else", px_kindname(k), i); } obj_free(o, h); buf_free(&out); BSL_ERR_ClearError(); mc_transitions(1); } } }
    }
    if (o->kind == OB_CMS) {
        supply = true;
        if (mc_case("wrong content %s", o->name)) {
            size_t L = strlen(OB_MSG); char m[80]; void *h = NULL; Buf out = {0}; MC_CHECK(!obj_parse(o, o->enc.p, o->enc.n, &h), "parse");
            for (size_t k = 0; k < L; k++) { for (int v = 0; v < 8; v++) { strcpy(m, OB_MSG); m[k] ^= 1 << v; MC_CHECK(verify(o, h, NULL, m, L, &out) != 0, "verifies content altered at %zu", k); mc_transitions(1); } }
            for (size_t k = o->type ? 0 : 1; k < L; k++) { MC_CHECK(verify(o, h, NULL, OB_MSG, k, &out) != 0, "verifies content cut to %zu", k); }
            for (size_t k = 1; k < 5; k++) { memset(m, 0, sizeof m); strcpy(m, OB_MSG); MC_CHECK(verify(o, h, NULL, m, L + k, &out) != 0, "verifies content extended by %zu", k); }
            MC_CHECK(verify(o, h, NULL, OB_MSG, L, &out) == 0, "genuine content refused after failures"); obj_free(o, h); buf_free(&out); BSL_ERR_ClearError();
        }
        supply = false;
    }
    buf_free(&b);
}
/* a genuine statement transplanted: inner part of one object with the signature of another, every pair of same-kind objects */
static void transplant(void)
{
    mc_space("transplant");
    for (int i = 0; i < nobjs; i++) { for (int j = 0; j < nobjs; j++) {
        const Obj *a = &objs[i], *b = &objs[j]; if (i == j || a->fmt != BSL_FORMAT_ASN1 || b->fmt != BSL_FORMAT_ASN1) { continue; }
        if ((a->kind != OB_CERT && a->kind != OB_CRL && a->kind != OB_CSR) || (b->kind != OB_CERT && b->kind != OB_CRL && b->kind != OB_CSR)) { continue; }
        if (!mc_case("transplant %s with the signature of %s", a->name, b->name)) { continue; }
        int n; Node *t = der_tree(a->enc.p, a->enc.n, &n, false), *u = der_tree(b->enc.p, b->enc.n, &n, false);
        for (int alg = 0; alg < 2; alg++) { Buf x = {0}, y = {0}; buf_put(&x, t->ch[0]->raw, t->ch[0]->rawn); const Node *al = (alg ? u : t)->ch[1]; buf_put(&x, al->raw, al->rawn); buf_put(&x, u->ch[2]->raw, u->ch[2]->rawn); der_wrap(&y, 0x30, &x); Buf out = {0}; int32_t r = tryit(a, y.p, y.n, &out); MC_CHECK(r != 0, "verifies with a signature made for something else"); buf_free(&out); buf_free(&y); }
        der_tree_free(t); der_tree_free(u);
    } }
}
static void passwords(void)
{
    mc_space("passwords");
    static const char *good = OB_PWD; char w[64]; size_t L = strlen(good);
    for (int i = 0; i < nobjs; i++) {
        const Obj *o = &objs[i]; if (!o->pwd) { continue; } Obj x = *o;
        for (int k = 0; k < 24; k++) {
            if (k < 9) { strcpy(w, good); w[k % L] ^= 1 << (k % 6); } else if (k < 18) { strcpy(w, good); w[k - 9] = 0; } else if (k == 18) { strcpy(w, good); strcat(w, "a"); } else if (k == 19) { strcpy(w, " "); strcat(w, good); } else if (k == 20) { strcpy(w, good); w[0] = 'P'; } else if (k == 21) { strcpy(w, "x"); } else if (k == 22) { strcpy(w, "pass word "); } else { strcpy(w, "passw ord"); }
            if (!strcmp(w, good) || !mc_case("password %s %d \"%s\"", o->name, k, w)) { continue; }
            mc_case_cost(60);
            if (o->kind == OB_KEY) { x.pwd = w; void *h = NULL; int32_t r = obj_parse(&x, o->enc.p, o->enc.n, &h); MC_CHECK(r != 0 && !h, "opens with the wrong password"); obj_free(o, h); }
            else if (o->kind == OB_P12) {
                for (int m = 0; m < 3; m++) { BSL_Buffer g = {(uint8_t *)good, L}, b = {(uint8_t *)w, strlen(w)}, e = {o->enc.p, o->enc.n}; HITLS_PKCS12_PwdParam pw = {m == 1 ? &g : &b, m == 0 ? &g : &b}; HITLS_PKCS12 *h = NULL; if (!o->type && m != 1) { continue; } int32_t r = HITLS_PKCS12_ParseBuff(BSL_FORMAT_ASN1, &e, &pw, &h, o->type != 0); MC_CHECK(r != 0 && !h, "opens with a wrong %s password", m == 0 ? "MAC" : m == 1 ? "encryption" : "(both)"); HITLS_PKCS12_Free(h); }
            }
            BSL_ERR_ClearError(); mc_transitions(1);
        }
        if (mc_case("password %s right", o->name)) { void *h = NULL; MC_CHECK(!obj_parse(o, o->enc.p, o->enc.n, &h), "the right password is refused"); obj_free(o, h); }
    }
    /* where a MAC is demanded, a file without one is refused */
    Obj *o = obj_find("p12-enc"), *q = obj_find("p12-plain");
    if (o && mc_case("mac removed")) { int n; Node *t = der_tree(o->enc.p, o->enc.n, &n, false); Buf b = {0}; if (der_emit(t, t->ch[2]->id, MU_DEL, 0, &b)) { void *h = NULL; MC_CHECK(obj_parse(o, b.p, b.n, &h) != 0, "opened without a MAC although it was demanded"); obj_free(o, h); } der_tree_free(t); buf_free(&b); }
    if (q && mc_case("mac absent")) { Obj x = *q; x.type = 1; void *h = NULL; MC_CHECK(obj_parse(&x, q->enc.p, q->enc.n, &h) != 0, "opened without a MAC although it was demanded"); obj_free(q, h); BSL_ERR_ClearError(); }
}
void mc_explore(void)
{
    hx_init(); objs_init();
    for (int i = 0; i < nobjs; i++) { const Obj *o = &objs[i]; if (o->kind == OB_KEY || o->kind == OB_CERTS || o->kind == OB_CRLS || (o->kind == OB_P12 && !o->type) || o->fmt != BSL_FORMAT_ASN1 || !strcmp(o->name, "cms-sm2")) { continue; } object(o); }
    transplant(); passwords();
}
