/* C15, keys, PKCS#12 and CMS: every key algorithm in every encoding, boundary scalars, bag sets and protection options. */
#include "objs.h"
#include "bsl_obj.h"
int32_t HITLS_CMS_GenBuff(int32_t format, HITLS_CMS *cms, const BSL_Param *optionalParam, BSL_Buffer *encode);
static const struct { int t; const char *n, *s; bool prv; } T[] = {{CRYPT_PRIKEY_PKCS8_UNENCRYPT, "p8", "PRIKEY_PKCS8_UNENCRYPT", true}, {CRYPT_PRIKEY_PKCS8_ENCRYPT, "p8e", "PRIKEY_PKCS8_ENCRYPT", true}, {CRYPT_PRIKEY_RSA, "prsa", "PRIKEY_RSA", true}, {CRYPT_PRIKEY_ECC, "pec", "PRIKEY_ECC", true}, {CRYPT_PUBKEY_SUBKEY, "pub", "PUBKEY_SUBKEY", false}, {CRYPT_PUBKEY_RSA, "pubrsa", "PUBKEY_RSA", false}, {CRYPT_PUBKEY_SUBKEY_WITHOUT_SEQ, "pubns", "PUBKEY_SUBKEY_WITHOUT_SEQ", false}};
#define NT 7
static bool sameVal(const PkVal *a, const PkVal *b)
{
    if (a->n != b->n) { return false; }
    for (int i = 0; i < a->n; i++) {
        if (a->p[i].valueType != BSL_PARAM_TYPE_OCTETS) { if (memcmp(a->p[i].value, b->p[i].value, 4)) { return false; } continue; }
        const uint8_t *p = a->p[i].value, *q = b->p[i].value; uint32_t l = a->p[i].valueLen, m = b->p[i].valueLen; while (l && !*p && l > m) { p++; l--; } while (m && !*q && m > l) { q++; m--; }
        if (l != m || memcmp(p, q, l)) { return false; }
    }
    return true;
}
static void sameKey(const PkAlg *a, CRYPT_EAL_PkeyCtx *k, CRYPT_EAL_PkeyCtx *d, bool prv, const char *what)
{
    static PkVal x, y; MC_CHECK(CRYPT_EAL_PkeyGetId(d) == a->alg || (a->alg == CRYPT_PKEY_ECDH && (CRYPT_EAL_PkeyGetId(d) == CRYPT_PKEY_ECDSA || strstr(a->name, "sm2"))), "%s: algorithm %d for %d", what, CRYPT_EAL_PkeyGetId(d), a->alg);
    if (CRYPT_EAL_PkeyGetId(d) == CRYPT_PKEY_ECDSA || CRYPT_EAL_PkeyGetId(d) == CRYPT_PKEY_ECDH) { MC_CHECK(CRYPT_EAL_PkeyGetParaId(d) == CRYPT_EAL_PkeyGetParaId(k), "%s: another curve", what); }
    if (prv && a->prvIds[0]) { int32_t r = pk_get(k, a->prvIds, &x, false), s = pk_get(d, a->prvIds, &y, false); if (!r) { MC_CHECK(!s && sameVal(&x, &y), "%s: private key differs (%x)", what, s); } }
    if (a->pubIds[0]) { int32_t r = pk_get(k, a->pubIds, &x, true), s = pk_get(d, a->pubIds, &y, true); if (!r && !(prv && s && a->kind != PK_RSA && a->kind != PK_EC)) { MC_CHECK(!s && sameVal(&x, &y), "%s: public key differs (%x)", what, s); } }
}
static CRYPT_Pbkdf2Param PB[] = {
    {BSL_CID_PBES2, BSL_CID_PBKDF2, CRYPT_MAC_HMAC_SHA256, CRYPT_CIPHER_AES256_CBC, 16, (uint8_t *)OB_PWD, sizeof(OB_PWD) - 1, 1024},
};
static void key(const PkAlg *a, CRYPT_EAL_PkeyCtx *k, const char *label)
{
    CRYPT_Pbkdf2Param pb = PB[0]; CRYPT_EncodeParam ep = {CRYPT_DERIVE_PBKDF2, &pb}; BSL_Buffer pw = {(uint8_t *)OB_PWD, sizeof(OB_PWD) - 1};
    for (int t = 0; t < NT; t++) { for (int f = 0; f < 2; f++) {
        if (!mc_case("key %s %s %s", label, T[t].n, f ? "pem" : "der")) { continue; }
        int fmt = f ? BSL_FORMAT_PEM : BSL_FORMAT_ASN1; bool enc = T[t].t == CRYPT_PRIKEY_PKCS8_ENCRYPT; BSL_Buffer e = {0};
        int32_t r = CRYPT_EAL_EncodeBuffKey(k, enc ? &ep : NULL, fmt, T[t].t, &e); mc_outcome(&r, sizeof r);
        if (r) { MC_CHECK(!e.data, "an encoding although it failed"); BSL_ERR_ClearError(); continue; }
        { uint8_t *z = BSL_SAL_Malloc(e.dataLen + 1); memcpy(z, e.data, e.dataLen); z[e.dataLen] = 0; BSL_SAL_Free(e.data); e.data = z; } mc_outcome(e.data, e.dataLen); mc_sample("%s %s: %u octets", label, T[t].n, e.dataLen);
        for (int how = 0; how < 5 && !mc_failed(); how++) {
            static const char *H[] = {"by format and type", "format unknown", "type unknown", "provider", "provider, all unknown"}; CRYPT_EAL_PkeyCtx *d = NULL; char w[80]; snprintf(w, sizeof w, "decoded %s", H[how]);
            const uint8_t *p = enc ? pw.data : NULL; uint32_t pl = enc ? pw.dataLen : 0;
            if (how == 0) { r = CRYPT_EAL_DecodeBuffKey(fmt, T[t].t, &e, p, pl, &d); }
            else if (how == 1) { r = CRYPT_EAL_DecodeBuffKey(BSL_FORMAT_UNKNOWN, T[t].t, &e, p, pl, &d); }
            else if (how == 2) { r = CRYPT_EAL_DecodeBuffKey(fmt, CRYPT_ENCDEC_UNKNOW, &e, p, pl, &d); }
            else if (how == 3) { r = CRYPT_EAL_ProviderDecodeBuffKey(NULL, NULL, BSL_CID_UNKNOWN, f ? "PEM" : "ASN1", T[t].s, &e, enc ? &pw : NULL, &d); }
            else { r = CRYPT_EAL_ProviderDecodeBuffKey(NULL, NULL, BSL_CID_UNKNOWN, NULL, NULL, &e, enc ? &pw : NULL, &d); }
            mc_transitions(1);
            if (how == 0 || (how == 3 && a->alg != CRYPT_PKEY_DSA && a->alg != CRYPT_PKEY_DH)) { MC_CHECK(r == 0, "%s: refused %x", w, r); }
            if (r) { MC_CHECK(!d, "%s: a key although it failed", w); BSL_ERR_ClearError(); mc_outcome(&how, sizeof how); continue; }
            sameKey(a, k, d, T[t].prv, w);
            if (!enc) { BSL_Buffer g = {0}; r = CRYPT_EAL_EncodeBuffKey(d, NULL, fmt, T[t].t, &g); MC_CHECK(r == 0, "%s: not encoded again: %x", w, r); if (!r) { MC_CHECK(g.dataLen == e.dataLen && !memcmp(g.data, e.data, g.dataLen), "%s: encoded again differently", w); } BSL_SAL_Free(g.data); }
            CRYPT_EAL_PkeyFreeCtx(d);
        }
        BSL_SAL_Free(e.data); BSL_ERR_ClearError();
    } }
}
static void keys(void)
{
    char l[80];
    mc_space("keys");
    for (int i = 0; i < pk_nalgs; i++) {
        const PkAlg *a = &pk_algs[i]; bool slow = strstr(a->name, "mceliece") || strstr(a->name, "128s") || strstr(a->name, "192") || strstr(a->name, "256s") || strstr(a->name, "256f") || strstr(a->name, "frodo1344") || !strncmp(a->name, "dsa", 3) || strstr(a->name, "4096") || strstr(a->name, "3072") || strstr(a->name, "xmss") || strstr(a->name, "lms") || strstr(a->name, "hss");
        if (strstr(a->name, "ecd")) { slow = false; }
        if (slow && !mc_thorough && strcmp(a->name, "dsa1024")) { continue; }
        for (int q = 0; q < (slow ? 1 : 3); q++) { CRYPT_EAL_PkeyCtx *k = NULL; snprintf(l, sizeof l, "%s/%d", a->name, q); mc_mute = true; k = pk_key(a, q); mc_mute = false; if (k) { key(a, k, l); } }
    }
    /* boundary scalars and public keys derived from them */
    mc_space("scalars");
    static const char *C[] = {"ecdsa-p224", "ecdsa-p256", "ecdsa-p384", "ecdsa-p521", "sm2", "ecdsa-bp256", "ecdsa-p192"}; static const int BL[] = {28, 32, 48, 66, 32, 32, 24};
    for (int c = 0; c < 7; c++) {
        const PkAlg *a = pk_find(C[c]); if (!a) { continue; }
        for (int v = 0; v < BL[c] * 2 + 2; v++) {   /* 2^(8i) and 0x80 << 8i, and two small values */
            uint8_t d[80] = {0}; int L = BL[c], i = v / 2; if (v < 2 * L) { if (i == L - 1) { continue; } d[L - 1 - i] = v & 1 ? 0x80 : 1; } else { d[L - 1] = v == 2 * L ? 2 : 3; }
            snprintf(l, sizeof l, "%s/d%d", C[c], v); mc_mute = true; CRYPT_EAL_PkeyCtx *k = pk_new(a); BSL_Param p[2] = {{0}, BSL_PARAM_END}; BSL_PARAM_InitValue(&p[0], a->prvIds[0], BSL_PARAM_TYPE_OCTETS, d, L);
            int32_t r = CRYPT_EAL_PkeySetPrvEx(k, p); if (!r) { r = CRYPT_EAL_PkeyCtrl(k, CRYPT_CTRL_GEN_ECC_PUBLICKEY, NULL, 0); } mc_mute = false;
            if (!r) { key(a, k, l); } else if (mc_case("key %s", l)) { mc_note("%s not usable %x", l, r); mc_outcome(&r, sizeof r); }
            CRYPT_EAL_PkeyFreeCtx(k); BSL_ERR_ClearError();
        }
    }
    /* RSA-PSS keys carrying parameters */
    static const int MD[] = {CRYPT_MD_SHA1, CRYPT_MD_SHA224, CRYPT_MD_SHA256, CRYPT_MD_SHA384, CRYPT_MD_SHA512}; const PkAlg *ra = pk_find("rsa1024");
    for (int m = 0; m < 5; m++) { for (int g = 0; g < 5; g++) { for (int s = 0; s < 5; s++) {
        static const int SL[] = {0, 1, 20, 32, 50}; mc_mute = true; CRYPT_EAL_PkeyCtx *k = CRYPT_EAL_PkeyDupCtx(pk_key(ra, 0)); int32_t md = MD[m], mg = MD[g], sl = SL[s];
        BSL_Param p[] = {{CRYPT_PARAM_RSA_MD_ID, BSL_PARAM_TYPE_INT32, &md, sizeof md, 0}, {CRYPT_PARAM_RSA_MGF1_ID, BSL_PARAM_TYPE_INT32, &mg, sizeof mg, 0}, {CRYPT_PARAM_RSA_SALTLEN, BSL_PARAM_TYPE_INT32, &sl, sizeof sl, 0}, BSL_PARAM_END};
        int32_t r = CRYPT_EAL_PkeyCtrl(k, CRYPT_CTRL_SET_RSA_EMSA_PSS, p, 0); mc_mute = false; snprintf(l, sizeof l, "rsa-pss/%d/%d/%d", m, g, sl); if (!r) { key(ra, k, l); }
        if (!r && mc_case("pss %s", l)) {
            static const int TT[] = {CRYPT_PRIKEY_PKCS8_UNENCRYPT, CRYPT_PUBKEY_SUBKEY}; for (int t = 0; t < 2; t++) { BSL_Buffer e = {0}; CRYPT_EAL_PkeyCtx *d = NULL; if (!CRYPT_EAL_EncodeBuffKey(k, NULL, BSL_FORMAT_ASN1, TT[t], &e) && !CRYPT_EAL_DecodeBuffKey(BSL_FORMAT_ASN1, TT[t], &e, NULL, 0, &d)) {
                int32_t x = -1, y = -1, z = -1, pad = 0; CRYPT_EAL_PkeyCtrl(d, CRYPT_CTRL_GET_RSA_PADDING, &pad, sizeof pad); CRYPT_EAL_PkeyCtrl(d, CRYPT_CTRL_GET_RSA_MD, &x, sizeof x); CRYPT_EAL_PkeyCtrl(d, CRYPT_CTRL_GET_RSA_MGF, &y, sizeof y); CRYPT_EAL_PkeyCtrl(d, CRYPT_CTRL_GET_RSA_SALTLEN, &z, sizeof z);
                MC_CHECK(pad == CRYPT_EMSA_PSS && x == md && y == mg && z == sl, "type %d: padding %d hash %d mgf %d salt %d for %d %d %d", TT[t], pad, x, y, z, md, mg, sl); } CRYPT_EAL_PkeyFreeCtx(d); BSL_SAL_Free(e.data); }
        }
        CRYPT_EAL_PkeyFreeCtx(k); BSL_ERR_ClearError();
    } } }
    /* password protection: ciphers, hashes, salt lengths, iterations, password lengths */
    mc_space("protection");
    static const int CI[] = {CRYPT_CIPHER_AES128_CBC, CRYPT_CIPHER_AES192_CBC, CRYPT_CIPHER_AES256_CBC, CRYPT_CIPHER_SM4_CBC, CRYPT_CIPHER_AES128_ECB, CRYPT_CIPHER_AES256_CFB, CRYPT_CIPHER_AES256_CTR}; static const int HM[] = {CRYPT_MAC_HMAC_SHA1, CRYPT_MAC_HMAC_SHA224, CRYPT_MAC_HMAC_SHA256, CRYPT_MAC_HMAC_SHA384, CRYPT_MAC_HMAC_SHA512, CRYPT_MAC_HMAC_SM3, CRYPT_MAC_HMAC_MD5}; static const int SA[] = {8, 1, 16, 33, 64, 128}; static const int IT[] = {1024, 1, 127, 128, 255, 256, 1000, 32768, 65536}; static const int PL[] = {9, 1, 2, 64, 65, 128, 200};
    static uint8_t pwd[256]; for (int i = 0; i < 256; i++) { pwd[i] = 'a' + i % 26; } const PkAlg *ea = pk_find("ecdsa-p256");
    for (int c = 0; c < 7; c++) { for (int h = 0; h < 7; h++) { for (int z = 0; z < 20; z++) {
        int s = z < 6 ? z : 0, it = z >= 6 && z < 14 ? z - 5 : 0, pl = z >= 14 ? z - 13 : 0; if (z && !mc_thorough && (c + h) % 5) { continue; }
        if (!mc_case("protect %d %d salt %d iterations %d password %d", c, h, SA[s], IT[it], PL[pl])) { continue; }
        mc_case_cost(20); CRYPT_EAL_PkeyCtx *k = pk_key(ea, 0), *d = NULL; CRYPT_Pbkdf2Param pb = {BSL_CID_PBES2, BSL_CID_PBKDF2, HM[h], CI[c], SA[s], pwd, PL[pl], IT[it]}; CRYPT_EncodeParam ep = {CRYPT_DERIVE_PBKDF2, &pb}; BSL_Buffer e = {0};
        int32_t r = CRYPT_EAL_EncodeBuffKey(k, &ep, BSL_FORMAT_ASN1, CRYPT_PRIKEY_PKCS8_ENCRYPT, &e); mc_outcome(&r, sizeof r); mc_transitions(1);
        if (!r) { mc_outcome(e.data, e.dataLen); r = CRYPT_EAL_DecodeBuffKey(BSL_FORMAT_ASN1, CRYPT_PRIKEY_PKCS8_ENCRYPT, &e, pwd, PL[pl], &d); MC_CHECK(r == 0, "what was protected does not open: %x", r); if (!r) { sameKey(ea, k, d, true, "opened"); } }
        else { MC_CHECK(!(c < 4 && h < 6 && SA[s] >= 8 && IT[it] >= 1024 && PL[pl] >= 2), "not protected: %x", r); }
        CRYPT_EAL_PkeyFreeCtx(d); BSL_SAL_Free(e.data); BSL_ERR_ClearError();
    } } }
}
/* PKCS#12: every bag set x protection */
static HITLS_X509_Cert *crt(int i)
{
    PxKey *k = px_key(PK_EC256, 13), *p = px_key(i & 1 ? PK_RSA2048 : PK_EC256, 14); Buf b = {0}; HITLS_X509_Cert *c = NULL; char s[20]; sprintf(s, "cert %d", i);
    PxCert pc = {.serial = 90 + i, .issuer = "signer", .subject = s, .from = 1700000000LL - 1000, .to = 4000000000LL, .pub = p, .signer = k, .bcons = 1, .pathlen = -1, .ku = 0x86, .ski = 1}; px_cert(&pc, &b);
    BSL_Buffer e = {b.p, b.n}; if (HITLS_X509_CertParseBuff(BSL_FORMAT_ASN1, &e, &c)) { mc_fatal("cert"); } buf_free(&b); return c;
}
static void certEnc(HITLS_X509_Cert *c, Buf *o) { BSL_Buffer e = {0}; if (c && !HITLS_X509_CertGenBuff(BSL_FORMAT_ASN1, c, &e)) { buf_u32(o, e.dataLen); buf_put(o, e.data, e.dataLen); BSL_SAL_Free(e.data); } else { buf_u32(o, 0); } }
static void keyEnc(CRYPT_EAL_PkeyCtx *k, Buf *o) { BSL_Buffer e = {0}; if (k && !CRYPT_EAL_EncodeBuffKey(k, NULL, BSL_FORMAT_ASN1, CRYPT_PRIKEY_PKCS8_UNENCRYPT, &e)) { buf_u32(o, e.dataLen); buf_put(o, e.data, e.dataLen); BSL_SAL_Free(e.data); } else { buf_u32(o, 0); } }
static void bagAttr(HITLS_PKCS12_Bag *b, const char *name, const uint8_t *id, int idn) { if (name) { BSL_Buffer v = {(uint8_t *)name, strlen(name)}; HITLS_PKCS12_BagCtrl(b, HITLS_PKCS12_BAG_ADD_ATTR, &v, BSL_CID_FRIENDLYNAME); } if (idn) { BSL_Buffer v = {(uint8_t *)id, idn}; HITLS_PKCS12_BagCtrl(b, HITLS_PKCS12_BAG_ADD_ATTR, &v, BSL_CID_LOCALKEYID); } }
static void bagDump(HITLS_PKCS12_Bag *b, Buf *o)
{
    uint32_t id = 0; HITLS_PKCS12_BagCtrl(b, HITLS_PKCS12_BAG_GET_ID, &id, sizeof id); buf_u32(o, id);
    void *v = NULL; int32_t r = id == BSL_CID_SECRETBAG ? -1 : HITLS_PKCS12_BagCtrl(b, HITLS_PKCS12_BAG_GET_VALUE, &v, 0);
    if (id == BSL_CID_CERTBAG) { if (!r) { certEnc(v, o); HITLS_X509_CertFree(v); } } else if (id == BSL_CID_KEYBAG || id == BSL_CID_PKCS8SHROUDEDKEYBAG) { if (!r) { keyEnc(v, o); CRYPT_EAL_PkeyFreeCtx(v); } }
    else if (id == BSL_CID_SECRETBAG) { uint8_t t[600]; BSL_Buffer x = {t, sizeof t}; r = HITLS_PKCS12_BagCtrl(b, HITLS_PKCS12_BAG_GET_VALUE, &x, sizeof x); buf_u32(o, r); if (!r) { buf_put(o, x.data, x.dataLen); } }
    static const int AT[] = {BSL_CID_FRIENDLYNAME, BSL_CID_LOCALKEYID}; for (int i = 0; i < 2; i++) { uint8_t t[600]; BSL_Buffer x = {t, sizeof t}; r = HITLS_PKCS12_BagCtrl(b, HITLS_PKCS12_BAG_GET_ATTR, &x, AT[i]); buf_u8(o, r == 0); if (!r) { buf_u32(o, x.dataLen); buf_put(o, x.data, x.dataLen); } }
}
static void p12Dump(HITLS_PKCS12 *p, Buf *o)
{
    void *x = NULL; o->n = 0;
    if (!HITLS_PKCS12_Ctrl(p, HITLS_PKCS12_GET_ENTITY_CERT, &x, 0) && x) { certEnc(x, o); HITLS_X509_CertFree(x); } else { buf_u8(o, 1); } x = NULL;
    if (!HITLS_PKCS12_Ctrl(p, HITLS_PKCS12_GET_ENTITY_KEY, &x, 0) && x) { keyEnc(x, o); CRYPT_EAL_PkeyFreeCtx(x); } else { buf_u8(o, 2); } x = NULL;
    static const int L[] = {HITLS_PKCS12_GET_CERTBAGS, HITLS_PKCS12_GET_SECRETBAGS, HITLS_PKCS12_GET_KEYBAGS};
    for (int i = 0; i < 3; i++) { x = NULL; if (!HITLS_PKCS12_Ctrl(p, L[i], &x, 0) && x) { BslList *l = x; buf_u8(o, 0x40 + i); buf_u32(o, BSL_LIST_COUNT(l)); for (void *b = BSL_LIST_GET_FIRST(l); b; b = BSL_LIST_GET_NEXT(l)) { bagDump(b, o); } } }
    BSL_ERR_ClearError();
}
static void p12(void)
{
    mc_space("p12"); static uint8_t id[40]; for (int i = 0; i < 40; i++) { id[i] = 200 - i; } CRYPT_EAL_PkeyCtx *k1 = px_key(PK_EC256, 14)->k, *k2 = px_key(PK_RSA2048, 14)->k;
    for (int set = 0; set < 64; set++) { for (int at = 0; at < 4; at++) { for (int pr = 0; pr < 6; pr++) {
        if (pr > 2 && (at != 3 || set % 3)) { continue; }
        if (at > 1 && (set & 3) == 1) { continue; }  /* a key with an identifier and no certificate of its own: refused on reading, by design (NO_ENTITYCERT) */
        if (!mc_case("p12 set %02x attributes %d protection %d", set, at, pr)) { continue; }
        mc_case_cost(30); HITLS_PKCS12 *p = HITLS_PKCS12_New(), *q = NULL; int32_t r = 0; HITLS_PKCS12_Bag *b[7] = {NULL}; HITLS_X509_Cert *c[3] = {NULL}; const char *nm = at & 1 ? "friendly" : NULL; int idn = at & 2 ? (set & 1 ? 20 : 1) : 0;
        if (set & 1) { b[0] = HITLS_PKCS12_BagNew(BSL_CID_PKCS8SHROUDEDKEYBAG, 0, k1); bagAttr(b[0], nm, id, idn); r = r ? r : HITLS_PKCS12_Ctrl(p, HITLS_PKCS12_SET_ENTITY_KEYBAG, b[0], 0); }
        if (set & 2) { c[0] = crt(0); b[1] = HITLS_PKCS12_BagNew(BSL_CID_CERTBAG, BSL_CID_X509CERTIFICATE, c[0]); bagAttr(b[1], nm, id, idn); r = r ? r : HITLS_PKCS12_Ctrl(p, HITLS_PKCS12_SET_ENTITY_CERTBAG, b[1], 0); }
        for (int i = 0; i < 2; i++) { if (set >> (2 + i) & 1) { c[1 + i] = crt(1 + i); b[2 + i] = HITLS_PKCS12_BagNew(BSL_CID_CERTBAG, BSL_CID_X509CERTIFICATE, c[1 + i]); bagAttr(b[2 + i], i ? nm : NULL, id + 3, 0); r = r ? r : HITLS_PKCS12_Ctrl(p, HITLS_PKCS12_ADD_CERTBAG, b[2 + i], 0); } }
        if (set & 16) { b[4] = HITLS_PKCS12_BagNew(BSL_CID_KEYBAG, 0, k2); bagAttr(b[4], nm, id + 5, idn ? 4 : 0); r = r ? r : HITLS_PKCS12_Ctrl(p, HITLS_PKCS12_ADD_KEYBAG, b[4], 0); }
        if (set & 32) { BSL_Buffer sec = {id, 33}; b[5] = HITLS_PKCS12_BagNew(BSL_CID_SECRETBAG, BSL_CID_PKCS7_SIMPLEDATA, &sec); if (b[5]) { bagAttr(b[5], nm, id, 0); r = r ? r : HITLS_PKCS12_Ctrl(p, HITLS_PKCS12_ADD_SECRETBAG, b[5], 0); } }
        MC_CHECK(r == 0, "bags refused %x", r);
        static const int HM[] = {CRYPT_MAC_HMAC_SHA256, CRYPT_MAC_HMAC_SHA1, CRYPT_MAC_HMAC_SHA512, CRYPT_MAC_HMAC_SHA224, CRYPT_MAC_HMAC_SHA384, CRYPT_MAC_HMAC_SM3}, CI[] = {CRYPT_CIPHER_AES256_CBC, CRYPT_CIPHER_AES128_CBC, CRYPT_CIPHER_AES192_CBC, CRYPT_CIPHER_SM4_CBC, CRYPT_CIPHER_AES128_CBC, CRYPT_CIPHER_SM4_CBC}, MM[] = {BSL_CID_SHA256, BSL_CID_SHA512, BSL_CID_SHA224, BSL_CID_SHA384, BSL_CID_SM3, BSL_CID_SHA256};
        CRYPT_Pbkdf2Param pb = {BSL_CID_PBES2, BSL_CID_PBKDF2, HM[pr], CI[pr], 16, (uint8_t *)OB_PWD, sizeof(OB_PWD) - 1, 1024}; HITLS_PKCS12_KdfParam mp = {8, 1024, MM[pr], (uint8_t *)OB_PWD, sizeof(OB_PWD) - 1}; HITLS_PKCS12_EncodeParam ep = {{CRYPT_DERIVE_PBKDF2, &pb}, {&mp, BSL_CID_PKCS12KDF}}; BSL_Buffer e = {0};
        BSL_Buffer w = {(uint8_t *)OB_PWD, sizeof(OB_PWD) - 1}; HITLS_PKCS12_PwdParam pw = {&w, &w}; Buf A = {0}, B = {0}; p12Dump(p, &A);
        bool mac = pr != 2; r = HITLS_PKCS12_GenBuff(BSL_FORMAT_ASN1, p, &ep, mac, &e); mc_outcome(&r, sizeof r); mc_transitions(1);
        if (set & 31) { MC_CHECK(r == 0, "not encoded: %x", r); }
        if (!r) {
            r = HITLS_PKCS12_ParseBuff(BSL_FORMAT_ASN1, &e, &pw, &q, mac); MC_CHECK(r == 0, "what was encoded does not open: %x", r);
            if (!r) { p12Dump(q, &B); mc_outcome(B.p, B.n); MC_CHECK(((set & 2) && !((set & 1) && at > 1)) /* nothing says which certificate belongs to the key */ || (A.n == B.n && !memcmp(A.p, B.p, A.n)), "the bags differ after decoding (%zu, %zu)", A.n, B.n);
                BSL_Buffer e2 = {0}; HITLS_PKCS12 *q2 = NULL; r = HITLS_PKCS12_GenBuff(BSL_FORMAT_ASN1, q, &ep, mac, &e2); MC_CHECK(r == 0 && (e2.dataLen + 8 >= e.dataLen && e2.dataLen <= e.dataLen + 8), "encoded again: %x, %u octets for %u", r, e2.dataLen, e.dataLen); if (!r) { MC_CHECK(!HITLS_PKCS12_ParseBuff(BSL_FORMAT_ASN1, &e2, &pw, &q2, mac), "second encoding does not open"); if (q2) { Buf C = {0}; p12Dump(q2, &C); bool eq = C.n == B.n && !memcmp(C.p, B.p, B.n); buf_free(&C); MC_CHECK(eq, "the bags differ after the second decoding"); } } HITLS_PKCS12_Free(q2); BSL_SAL_Free(e2.data); }
        }
        buf_free(&A); buf_free(&B); BSL_SAL_Free(e.data); HITLS_PKCS12_Free(q); for (int i = 0; i < 7; i++) { HITLS_PKCS12_BagFree(b[i]); } for (int i = 0; i < 3; i++) { HITLS_X509_CertFree(c[i]); } HITLS_PKCS12_Free(p); BSL_ERR_ClearError();
    } } }
}
static void nofree(void *p) { (void)p; }
static void cms(void)
{
    mc_space("cms"); static const PxKind K[] = {PK_EC256, PK_EC384, PK_EC521, PK_RSA2048, PK_ED25519}; static uint8_t msg[2000]; for (int i = 0; i < 2000; i++) { msg[i] = i * 7; } static const int ML[] = {1, 5, 127, 128, 129, 255, 256, 257, 1000, 2000}; static const int MD[] = {CRYPT_MD_SHA256, CRYPT_MD_SHA384, CRYPT_MD_SHA512, CRYPT_MD_SHA224};
    for (int k = 0; k < 5; k++) { for (int o = 0; o < 16; o++) { for (int md = 0; md < 4; md++) { for (int l = 0; l < 10; l++) {
        if (!mc_thorough && l > 1 && (md || k)) { continue; }
        int ver = o & 1 ? 3 : 1; bool det = o & 2, na = o & 4; int nc = o & 8 ? 2 : 0;
        if (!mc_case("cms %s version %d detached %d noattrs %d certs %d md %d length %d", px_kindname(K[k]), ver, det, na, nc, md, ML[l])) { continue; }
        mc_case_cost(20); PxKey *s = px_key(K[k], 13); Buf cb = {0}; HITLS_X509_Cert *c = NULL; PxCert pc = {.serial = 99, .issuer = "signer", .subject = "signer", .from = 1700000000LL - 1000, .to = 4000000000LL, .pub = s, .signer = s, .bcons = 1, .pathlen = -1, .ku = 0x86, .ski = 1}; px_cert(&pc, &cb);
        BSL_Buffer ce = {cb.p, cb.n}; if (HITLS_X509_CertParseBuff(BSL_FORMAT_ASN1, &ce, &c)) { mc_fatal("cert"); }
        HITLS_X509_Cert *x1 = crt(5); BslList *cl = BSL_LIST_New(sizeof(void *)); BSL_LIST_AddElement(cl, c, BSL_LIST_POS_END); if (nc) { BSL_LIST_AddElement(cl, x1, BSL_LIST_POS_END); }
        HITLS_CMS *m = HITLS_CMS_ProviderNew(NULL, NULL, BSL_CID_PKCS7_SIGNEDDATA), *d = NULL; int32_t dg = K[k] == PK_ED25519 ? CRYPT_MD_SHA512 : MD[md]; CRYPT_EAL_PkeyCtx *sk = CRYPT_EAL_PkeyDupCtx(s->k); if (K[k] == PK_RSA2048) { int32_t mm = dg; CRYPT_EAL_PkeyCtrl(sk, CRYPT_CTRL_SET_RSA_EMSA_PKCSV15, &mm, sizeof mm); }
        BSL_Param p[] = {{HITLS_CMS_PARAM_SIGNERINFO_VERSION, BSL_PARAM_TYPE_INT32, &ver, sizeof ver, 0}, {HITLS_CMS_PARAM_DIGEST, BSL_PARAM_TYPE_INT32, &dg, sizeof dg, 0}, {HITLS_CMS_PARAM_DETACHED, BSL_PARAM_TYPE_BOOL, &det, sizeof det, 0}, {HITLS_CMS_PARAM_NO_SIGNED_ATTRS, BSL_PARAM_TYPE_BOOL, &na, sizeof na, 0}, {HITLS_CMS_PARAM_CERT_LISTS, BSL_PARAM_TYPE_CTX_PTR, cl, sizeof(void *), 0}, BSL_PARAM_END};
        if (!nc) { p[4] = (BSL_Param)BSL_PARAM_END; }
        BSL_Buffer mb = {msg, ML[l]}, e = {0}, e2 = {0}, e3 = {0}, out = {0}; int32_t r = HITLS_CMS_DataSign(m, sk, c, &mb, p); mc_transitions(1); mc_outcome(&r, sizeof r);
        MC_CHECK(r == 0, "not signed: %x", r);
        if (!r) {
            r = HITLS_CMS_GenBuff(BSL_FORMAT_ASN1, m, NULL, &e); MC_CHECK(r == 0, "not encoded: %x", r);
            if (!r) {
                mc_outcome(e.data, e.dataLen > 60 ? 60 : e.dataLen);
                r = HITLS_CMS_ProviderParseBuff(NULL, NULL, NULL, &e, &d); MC_CHECK(r == 0, "not decoded: %x", r);
                if (!r) {
                    r = HITLS_CMS_GenBuff(BSL_FORMAT_ASN1, d, NULL, &e2); MC_CHECK(r == 0 && e2.dataLen == e.dataLen && !memcmp(e2.data, e.data, e.dataLen), "encoded again differently (%x)", r);
                    BSL_Param v[] = {{HITLS_CMS_PARAM_CA_CERT_LISTS, BSL_PARAM_TYPE_CTX_PTR, cl, 0, 0}, {HITLS_CMS_PARAM_UNTRUSTED_CERT_LISTS, BSL_PARAM_TYPE_CTX_PTR, cl, 0, 0}, BSL_PARAM_END}; r = HITLS_CMS_DataVerify(d, det ? &mb : NULL, v, &out); MC_CHECK(r == 0, "decoded message does not verify: %x", r);
                    if (!r && !det) { MC_CHECK(out.dataLen == mb.dataLen && !memcmp(out.data, msg, out.dataLen), "content differs: %u octets for %u", out.dataLen, mb.dataLen); }
                    r = HITLS_CMS_GenBuff(BSL_FORMAT_ASN1, m, NULL, &e3); MC_CHECK(r == 0 && e3.dataLen == e.dataLen && !memcmp(e3.data, e.data, e.dataLen), "a second encoding differs");
                }
            }
        }
        BSL_SAL_Free(e.data); BSL_SAL_Free(e2.data); BSL_SAL_Free(e3.data); BSL_SAL_Free(out.data); HITLS_CMS_Free(m); HITLS_CMS_Free(d); CRYPT_EAL_PkeyFreeCtx(sk); BSL_LIST_FREE(cl, nofree); HITLS_X509_CertFree(c); HITLS_X509_CertFree(x1); buf_free(&cb); BSL_ERR_ClearError();
    } } } }
}
void mc_explore(void)
{
    hx_init(); for (int i = 0; i < PK_KMAX; i++) { px_key(i, 13); px_key(i, 14); }
    keys(); p12(); cms();
}
