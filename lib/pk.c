#include "pk.h"
#include "pk_const.h"
#define RSA_IDS {CRYPT_PARAM_RSA_N, CRYPT_PARAM_RSA_E}, {CRYPT_PARAM_RSA_N, CRYPT_PARAM_RSA_D, CRYPT_PARAM_RSA_P, CRYPT_PARAM_RSA_Q, CRYPT_PARAM_RSA_DP, CRYPT_PARAM_RSA_DQ, CRYPT_PARAM_RSA_QINV, CRYPT_PARAM_RSA_E}
#define DSA_IDS {CRYPT_PARAM_DSA_PUBKEY}, {CRYPT_PARAM_DSA_PRVKEY}
#define EC_IDS {CRYPT_PARAM_EC_PUBKEY}, {CRYPT_PARAM_EC_PRVKEY}
#define CV_IDS {CRYPT_PARAM_CURVE25519_PUBKEY}, {CRYPT_PARAM_CURVE25519_PRVKEY}
#define MLD_IDS {CRYPT_PARAM_ML_DSA_PUBKEY}, {CRYPT_PARAM_ML_DSA_PRVKEY}
#define MLK_IDS {CRYPT_PARAM_ML_KEM_PUBKEY}, {CRYPT_PARAM_ML_KEM_PRVKEY}
#define SLH_IDS {CRYPT_PARAM_SLH_DSA_PUB_SEED, CRYPT_PARAM_SLH_DSA_PUB_ROOT}, {CRYPT_PARAM_SLH_DSA_PRV_SEED, CRYPT_PARAM_SLH_DSA_PRV_PRF, CRYPT_PARAM_SLH_DSA_PUB_SEED, CRYPT_PARAM_SLH_DSA_PUB_ROOT}
#define XM_IDS {CRYPT_PARAM_XMSS_PUB_SEED, CRYPT_PARAM_XMSS_PUB_ROOT, CRYPT_PARAM_XMSS_XDR_TYPE}, {0}
#define HSS_IDS {CRYPT_PARAM_HSS_PUBKEY}, {CRYPT_PARAM_HSS_PRVKEY}
#define COM_IDS {CRYPT_PARAM_COMPOSITE_PUBKEY}, {CRYPT_PARAM_COMPOSITE_PRVKEY}
#define FRO_IDS {CRYPT_PARAM_FRODOKEM_PUBKEY}, {CRYPT_PARAM_FRODOKEM_PRVKEY}
#define MCE_IDS {CRYPT_PARAM_MCELIECE_PUBKEY}, {CRYPT_PARAM_MCELIECE_PRVKEY}
#define HYB_IDS {CRYPT_PARAM_HYBRID_PUBKEY}, {CRYPT_PARAM_HYBRID_PRVKEY}
#define DH_IDS {CRYPT_PARAM_DH_PUBKEY}, {CRYPT_PARAM_DH_PRVKEY}
#define SIG CRYPT_EAL_PKEY_SIGN_OPERATE
#define ENC CRYPT_EAL_PKEY_CIPHER_OPERATE
#define EXC CRYPT_EAL_PKEY_EXCH_OPERATE
#define KEM CRYPT_EAL_PKEY_KEM_OPERATE
const PkAlg pk_algs[] = {
    {"rsa1024", CRYPT_PKEY_RSA, 1024, PK_RSA, SIG | ENC, RSA_IDS, 0}, {"rsa2048", CRYPT_PKEY_RSA, 2048, PK_RSA, SIG | ENC, RSA_IDS, 0}, {"rsa1031", CRYPT_PKEY_RSA, 1031, PK_RSA, SIG | ENC, RSA_IDS, 0}, {"rsa3072", CRYPT_PKEY_RSA, 3072, PK_RSA, SIG | ENC, RSA_IDS, 0},
    {"dsa1024", CRYPT_PKEY_DSA, 1024, PK_DSA, SIG, DSA_IDS, 160}, {"dsa2048-224", CRYPT_PKEY_DSA, 2048, PK_DSA, SIG, DSA_IDS, 224}, {"dsa2048", CRYPT_PKEY_DSA, 2048, PK_DSA, SIG, DSA_IDS, 256},
    {"ecdsa-p192", CRYPT_PKEY_ECDSA, CRYPT_ECC_NISTP192, PK_EC, SIG, EC_IDS, 0}, {"ecdsa-p224", CRYPT_PKEY_ECDSA, CRYPT_ECC_NISTP224, PK_EC, SIG, EC_IDS, 0}, {"ecdsa-p256", CRYPT_PKEY_ECDSA, CRYPT_ECC_NISTP256, PK_EC, SIG, EC_IDS, 0}, {"ecdsa-p384", CRYPT_PKEY_ECDSA, CRYPT_ECC_NISTP384, PK_EC, SIG, EC_IDS, 0}, {"ecdsa-p521", CRYPT_PKEY_ECDSA, CRYPT_ECC_NISTP521, PK_EC, SIG, EC_IDS, 0},
    {"ecdsa-bp256", CRYPT_PKEY_ECDSA, CRYPT_ECC_BRAINPOOLP256R1, PK_EC, SIG, EC_IDS, 0}, {"ecdsa-bp384", CRYPT_PKEY_ECDSA, CRYPT_ECC_BRAINPOOLP384R1, PK_EC, SIG, EC_IDS, 0}, {"ecdsa-bp512", CRYPT_PKEY_ECDSA, CRYPT_ECC_BRAINPOOLP512R1, PK_EC, SIG, EC_IDS, 0},
    {"sm2", CRYPT_PKEY_SM2, 0, PK_CV, SIG | ENC, EC_IDS, 0}, {"ed25519", CRYPT_PKEY_ED25519, 0, PK_CV, SIG, CV_IDS, 0}, {"sm9-sign", CRYPT_PKEY_SM9, 1, PK_SM9, SIG, {0}, {0}, 0}, {"sm9-enc", CRYPT_PKEY_SM9, 2, PK_SM9, ENC, {0}, {0}, 0},
    {"mldsa44", CRYPT_PKEY_ML_DSA, CRYPT_MLDSA_TYPE_MLDSA_44, PK_ID, SIG, MLD_IDS, 0}, {"mldsa65", CRYPT_PKEY_ML_DSA, CRYPT_MLDSA_TYPE_MLDSA_65, PK_ID, SIG, MLD_IDS, 0}, {"mldsa87", CRYPT_PKEY_ML_DSA, CRYPT_MLDSA_TYPE_MLDSA_87, PK_ID, SIG, MLD_IDS, 0},
    {"slh-sha2-128f", CRYPT_PKEY_SLH_DSA, CRYPT_SLH_DSA_SHA2_128F, PK_ID, SIG, SLH_IDS, 0}, {"slh-shake-128f", CRYPT_PKEY_SLH_DSA, CRYPT_SLH_DSA_SHAKE_128F, PK_ID, SIG, SLH_IDS, 0}, {"slh-sha2-192f", CRYPT_PKEY_SLH_DSA, CRYPT_SLH_DSA_SHA2_192F, PK_ID, SIG, SLH_IDS, 0}, {"slh-shake-192f", CRYPT_PKEY_SLH_DSA, CRYPT_SLH_DSA_SHAKE_192F, PK_ID, SIG, SLH_IDS, 0}, {"slh-sha2-256f", CRYPT_PKEY_SLH_DSA, CRYPT_SLH_DSA_SHA2_256F, PK_ID, SIG, SLH_IDS, 0}, {"slh-shake-256f", CRYPT_PKEY_SLH_DSA, CRYPT_SLH_DSA_SHAKE_256F, PK_ID, SIG, SLH_IDS, 0},
    {"slh-sha2-128s", CRYPT_PKEY_SLH_DSA, CRYPT_SLH_DSA_SHA2_128S, PK_ID, SIG, SLH_IDS, 0}, {"slh-shake-128s", CRYPT_PKEY_SLH_DSA, CRYPT_SLH_DSA_SHAKE_128S, PK_ID, SIG, SLH_IDS, 0}, {"slh-sha2-192s", CRYPT_PKEY_SLH_DSA, CRYPT_SLH_DSA_SHA2_192S, PK_ID, SIG, SLH_IDS, 0}, {"slh-shake-192s", CRYPT_PKEY_SLH_DSA, CRYPT_SLH_DSA_SHAKE_192S, PK_ID, SIG, SLH_IDS, 0}, {"slh-sha2-256s", CRYPT_PKEY_SLH_DSA, CRYPT_SLH_DSA_SHA2_256S, PK_ID, SIG, SLH_IDS, 0}, {"slh-shake-256s", CRYPT_PKEY_SLH_DSA, CRYPT_SLH_DSA_SHAKE_256S, PK_ID, SIG, SLH_IDS, 0},
    {"xmss-sha2-10-256", CRYPT_PKEY_XMSS, CRYPT_XMSS_SHA2_10_256, PK_ID, SIG, XM_IDS, 0}, {"xmss-shake-10-256", CRYPT_PKEY_XMSS, CRYPT_XMSS_SHAKE_10_256, PK_ID, SIG, XM_IDS, 0}, {"xmss-sha2-10-192", CRYPT_PKEY_XMSS, CRYPT_XMSS_SHA2_10_192, PK_ID, SIG, XM_IDS, 0}, {"xmss-sha2-10-512", CRYPT_PKEY_XMSS, CRYPT_XMSS_SHA2_10_512, PK_ID, SIG, XM_IDS, 0}, {"xmssmt-sha2-20-4-256", CRYPT_PKEY_XMSSMT, CRYPT_XMSSMT_SHA2_20_4_256, PK_ID, SIG, XM_IDS, 0}, {"xmssmt-sha2-20-2-256", CRYPT_PKEY_XMSSMT, CRYPT_XMSSMT_SHA2_20_2_256, PK_ID, SIG, XM_IDS, 0},
    {"comp-44-ed25519", CRYPT_PKEY_COMPOSITE, CRYPT_COMPOSITE_MLDSA44_ED25519_SHA512, PK_ID, SIG, COM_IDS, 0}, {"comp-44-p256", CRYPT_PKEY_COMPOSITE, CRYPT_COMPOSITE_MLDSA44_ECDSA_P256_SHA256, PK_ID, SIG, COM_IDS, 0}, {"comp-65-p384", CRYPT_PKEY_COMPOSITE, CRYPT_COMPOSITE_MLDSA65_ECDSA_P384_SHA512, PK_ID, SIG, COM_IDS, 0}, {"comp-87-p521", CRYPT_PKEY_COMPOSITE, CRYPT_COMPOSITE_MLDSA87_ECDSA_P521_SHA512, PK_ID, SIG, COM_IDS, 0}, {"comp-65-bp256", CRYPT_PKEY_COMPOSITE, CRYPT_COMPOSITE_MLDSA65_ECDSA_BRAINPOOLP256R1_SHA512, PK_ID, SIG, COM_IDS, 0}, {"comp-44-rsapss", CRYPT_PKEY_COMPOSITE, CRYPT_COMPOSITE_MLDSA44_RSA2048_PSS_SHA256, PK_ID, SIG, COM_IDS, 0}, {"comp-44-rsa15", CRYPT_PKEY_COMPOSITE, CRYPT_COMPOSITE_MLDSA44_RSA2048_PKCS15_SHA256, PK_ID, SIG, COM_IDS, 0},
    {"x25519", CRYPT_PKEY_X25519, 0, PK_CV, EXC, CV_IDS, 0}, {"ecdh-p192", CRYPT_PKEY_ECDH, CRYPT_ECC_NISTP192, PK_EC, EXC, EC_IDS, 0}, {"ecdh-p224", CRYPT_PKEY_ECDH, CRYPT_ECC_NISTP224, PK_EC, EXC, EC_IDS, 0}, {"ecdh-p256", CRYPT_PKEY_ECDH, CRYPT_ECC_NISTP256, PK_EC, EXC, EC_IDS, 0}, {"ecdh-p384", CRYPT_PKEY_ECDH, CRYPT_ECC_NISTP384, PK_EC, EXC, EC_IDS, 0}, {"ecdh-p521", CRYPT_PKEY_ECDH, CRYPT_ECC_NISTP521, PK_EC, EXC, EC_IDS, 0}, {"ecdh-bp256", CRYPT_PKEY_ECDH, CRYPT_ECC_BRAINPOOLP256R1, PK_EC, EXC, EC_IDS, 0}, {"ecdh-bp384", CRYPT_PKEY_ECDH, CRYPT_ECC_BRAINPOOLP384R1, PK_EC, EXC, EC_IDS, 0}, {"ecdh-bp512", CRYPT_PKEY_ECDH, CRYPT_ECC_BRAINPOOLP512R1, PK_EC, EXC, EC_IDS, 0}, {"ecdh-sm2", CRYPT_PKEY_ECDH, CRYPT_ECC_SM2, PK_EC, EXC, EC_IDS, 0},
    {"dh2048", CRYPT_PKEY_DH, CRYPT_DH_RFC7919_2048, PK_DH, EXC, DH_IDS, 0}, {"dh3072", CRYPT_PKEY_DH, CRYPT_DH_RFC3526_3072, PK_DH, EXC, DH_IDS, 0}, {"dh768", CRYPT_PKEY_DH, CRYPT_DH_RFC2409_768, PK_DH, EXC, DH_IDS, 0}, {"dh1024", CRYPT_PKEY_DH, CRYPT_DH_RFC2409_1024, PK_DH, EXC, DH_IDS, 0},
    {"mlkem512", CRYPT_PKEY_ML_KEM, CRYPT_KEM_TYPE_MLKEM_512, PK_ID, KEM, MLK_IDS, 0}, {"mlkem768", CRYPT_PKEY_ML_KEM, CRYPT_KEM_TYPE_MLKEM_768, PK_ID, KEM, MLK_IDS, 0}, {"mlkem1024", CRYPT_PKEY_ML_KEM, CRYPT_KEM_TYPE_MLKEM_1024, PK_ID, KEM, MLK_IDS, 0},
    {"frodo640s", CRYPT_PKEY_FRODOKEM, CRYPT_KEM_TYPE_FRODOKEM_640_SHAKE, PK_ID, KEM, FRO_IDS, 0}, {"frodo976s", CRYPT_PKEY_FRODOKEM, CRYPT_KEM_TYPE_FRODOKEM_976_SHAKE, PK_ID, KEM, FRO_IDS, 0}, {"frodo1344s", CRYPT_PKEY_FRODOKEM, CRYPT_KEM_TYPE_FRODOKEM_1344_SHAKE, PK_ID, KEM, FRO_IDS, 0}, {"frodo640a", CRYPT_PKEY_FRODOKEM, CRYPT_KEM_TYPE_FRODOKEM_640_AES, PK_ID, KEM, FRO_IDS, 0}, {"efrodo640s", CRYPT_PKEY_FRODOKEM, CRYPT_KEM_TYPE_EFRODOKEM_640_SHAKE, PK_ID, KEM, FRO_IDS, 0}, {"efrodo976a", CRYPT_PKEY_FRODOKEM, CRYPT_KEM_TYPE_EFRODOKEM_976_AES, PK_ID, KEM, FRO_IDS, 0},
    {"mceliece6688f", CRYPT_PKEY_MCELIECE, CRYPT_KEM_TYPE_MCELIECE_6688128_F, PK_ID, KEM, MCE_IDS, 0}, {"mceliece6960pcf", CRYPT_PKEY_MCELIECE, CRYPT_KEM_TYPE_MCELIECE_6960119_PCF, PK_ID, KEM, MCE_IDS, 0}, {"mceliece8192f", CRYPT_PKEY_MCELIECE, CRYPT_KEM_TYPE_MCELIECE_8192128_F, PK_ID, KEM, MCE_IDS, 0},
    {"hyb-x25519-512", CRYPT_PKEY_HYBRID_KEM, CRYPT_HYBRID_X25519_MLKEM512, PK_ID, KEM, HYB_IDS, 0}, {"hyb-x25519-768", CRYPT_PKEY_HYBRID_KEM, CRYPT_HYBRID_X25519_MLKEM768, PK_ID, KEM, HYB_IDS, 0}, {"hyb-p256-768", CRYPT_PKEY_HYBRID_KEM, CRYPT_HYBRID_ECDH_NISTP256_MLKEM768, PK_ID, KEM, HYB_IDS, 0}, {"hyb-p384-1024", CRYPT_PKEY_HYBRID_KEM, CRYPT_HYBRID_ECDH_NISTP384_MLKEM1024, PK_ID, KEM, HYB_IDS, 0}, {"hyb-p521-512", CRYPT_PKEY_HYBRID_KEM, CRYPT_HYBRID_ECDH_NISTP521_MLKEM512, PK_ID, KEM, HYB_IDS, 0},
    {"paillier", CRYPT_PKEY_PAILLIER, 1024, PK_PAI, ENC, {CRYPT_PARAM_PAILLIER_N, CRYPT_PARAM_PAILLIER_G, CRYPT_PARAM_PAILLIER_N2}, {CRYPT_PARAM_PAILLIER_N, CRYPT_PARAM_PAILLIER_LAMBDA, CRYPT_PARAM_PAILLIER_MU, CRYPT_PARAM_PAILLIER_N2}, 0},
    {"elgamal", CRYPT_PKEY_ELGAMAL, 1024, PK_ELG, ENC, {CRYPT_PARAM_ELGAMAL_P, CRYPT_PARAM_ELGAMAL_G, CRYPT_PARAM_ELGAMAL_Q, CRYPT_PARAM_ELGAMAL_Y}, {CRYPT_PARAM_ELGAMAL_P, CRYPT_PARAM_ELGAMAL_G, CRYPT_PARAM_ELGAMAL_X}, 160},
};
const int pk_nalgs = MC_LEN(pk_algs);
const PkAlg *pk_find(const char *n) { for (int i = 0; i < pk_nalgs; i++) { if (!strcmp(pk_algs[i].name, n)) { return &pk_algs[i]; } } mc_fatal("no algorithm %s", n); return NULL; }
static uint32_t unhex(uint8_t *o, const char *h) { uint32_t n = 0; for (; h[0] && h[1]; h += 2) { unsigned v; sscanf(h, "%2x", &v); o[n++] = v; } return n; }
CRYPT_EAL_PkeyCtx *pk_new(const PkAlg *a)
{
    CRYPT_EAL_PkeyCtx *k = CRYPT_EAL_PkeyNewCtx(a->alg); if (!k) { return NULL; }
    CRYPT_EAL_PkeyPara pa; memset(&pa, 0, sizeof(pa)); pa.id = a->alg; static uint8_t e[3] = {1, 0, 1}; static uint8_t b[3][512]; int32_t r = 0;
    switch (a->kind) {
        case PK_RSA: pa.para.rsaPara.e = e; pa.para.rsaPara.eLen = 3; pa.para.rsaPara.bits = a->para; r = CRYPT_EAL_PkeySetPara(k, &pa); break;
        case PK_DSA: { const char (*v)[520] = a->aux == 160 ? DSA_1024_160 : a->aux == 224 ? DSA_2048_224 : DSA_2048_256;
            pa.para.dsaPara.p = b[0]; pa.para.dsaPara.q = b[1]; pa.para.dsaPara.g = b[2]; pa.para.dsaPara.pLen = unhex(b[0], v[0]); pa.para.dsaPara.qLen = unhex(b[1], v[1]); pa.para.dsaPara.gLen = unhex(b[2], v[2]); r = CRYPT_EAL_PkeySetPara(k, &pa); break; }
        case PK_PAI: pa.para.paillierPara.p = b[0]; pa.para.paillierPara.q = b[1]; pa.para.paillierPara.pLen = unhex(b[0], PAI_GEN[0]); pa.para.paillierPara.qLen = unhex(b[1], PAI_GEN[1]); pa.para.paillierPara.bits = a->para; r = CRYPT_EAL_PkeySetPara(k, &pa); break;
        case PK_ELG: pa.para.elgamalPara.q = b[0]; pa.para.elgamalPara.qLen = unhex(b[0], "e6fa5be8dfd1a200fd699a9ff4b02761f05fca69"); pa.para.elgamalPara.bits = a->para; pa.para.elgamalPara.k_bits = a->aux; r = CRYPT_EAL_PkeySetPara(k, &pa); break;
        case PK_HSS: { uint32_t lv = a->para >> 8, lm = a->para >> 4 & 15, ot = a->para & 15; int n = 0; BSL_Param p[8]; BSL_PARAM_InitValue(&p[n++], CRYPT_PARAM_HSS_LEVEL, BSL_PARAM_TYPE_UINT32, &lv, 4);
            const int li[] = {CRYPT_PARAM_HSS_LEVEL1_LMS_TYPE, CRYPT_PARAM_HSS_LEVEL2_LMS_TYPE, CRYPT_PARAM_HSS_LEVEL3_LMS_TYPE}, oi[] = {CRYPT_PARAM_HSS_LEVEL1_OTS_TYPE, CRYPT_PARAM_HSS_LEVEL2_OTS_TYPE, CRYPT_PARAM_HSS_LEVEL3_OTS_TYPE};
            for (uint32_t i = 0; i < lv; i++) { BSL_PARAM_InitValue(&p[n++], li[i], BSL_PARAM_TYPE_UINT32, &lm, 4); BSL_PARAM_InitValue(&p[n++], oi[i], BSL_PARAM_TYPE_UINT32, &ot, 4); } p[n] = (BSL_Param)BSL_PARAM_END; r = CRYPT_EAL_PkeyCtrl(k, CRYPT_CTRL_HSS_SET_PARAM, p, 0); break; }
        case PK_EC: case PK_DH: case PK_ID: r = CRYPT_EAL_PkeySetParaById(k, a->para); break;
        default: break;
    }
    if (r) { CRYPT_EAL_PkeyFreeCtx(k); return NULL; }
    return k;
}
CRYPT_EAL_PkeyCtx *pk_gen(const PkAlg *a, uint64_t seed)
{
    uint64_t s = mc_rand_state(); mc_rand_reseed(seed); CRYPT_EAL_PkeyCtx *k = pk_new(a); int32_t r = 0;
    if (k && a->kind == PK_SM9) { /* master key, then the user key of "user<seed>" */
        uint8_t mk[32]; mc_rand_bytes(mk, 32); mk[0] &= 0x7f; int32_t t = a->para; char id[32]; snprintf(id, sizeof(id), "user%llu", (unsigned long long)seed); BSL_Param p[3] = {{0}, {0}, BSL_PARAM_END};
        BSL_PARAM_InitValue(&p[0], CRYPT_PARAM_SM9_MASTER_KEY, BSL_PARAM_TYPE_OCTETS, mk, 32); BSL_PARAM_InitValue(&p[1], CRYPT_PARAM_SM9_KEY_TYPE, BSL_PARAM_TYPE_INT32, &t, 4); r = CRYPT_EAL_PkeySetPubEx(k, p);
        if (!r) { BSL_PARAM_InitValue(&p[0], CRYPT_PARAM_SM9_USER_ID, BSL_PARAM_TYPE_OCTETS, id, strlen(id)); r = CRYPT_EAL_PkeySetPrvEx(k, p); }
    } else if (k) { r = CRYPT_EAL_PkeyGen(k); }
    mc_rand_reseed(s); if (r) { CRYPT_EAL_PkeyFreeCtx(k); return NULL; }
    return k;
}
CRYPT_EAL_PkeyCtx *pk_key(const PkAlg *a, int w)
{
    static CRYPT_EAL_PkeyCtx *c[128][3]; int i = a - pk_algs;
    if (!c[i][w]) { c[i][w] = pk_gen(a, 7000 + 10 * i + w); if (!c[i][w]) { mc_fatal("key generation %s", a->name); } }
    return c[i][w];
}
int32_t pk_get(CRYPT_EAL_PkeyCtx *k, const int *ids, PkVal *v, bool pub)
{
    int n = 0; for (; ids[n]; n++) { uint8_t *p = v->buf[n]; uint32_t l = sizeof(v->buf[0]);
        if (ids[n] == CRYPT_PARAM_MCELIECE_PUBKEY || ids[n] == CRYPT_PARAM_MCELIECE_PRVKEY || ids[n] == CRYPT_PARAM_FRODOKEM_PRVKEY || ids[n] == CRYPT_PARAM_FRODOKEM_PUBKEY) { l = 1 << 21; if (!v->big) { v->big = malloc(l); } p = v->big; }
        if (ids[n] == CRYPT_PARAM_XMSS_XDR_TYPE) { l = 4; }
        if (ids[n] >= CRYPT_PARAM_SLH_DSA_PRV_SEED && ids[n] <= CRYPT_PARAM_SLH_DSA_PUB_ROOT) { uint32_t m = 0; CRYPT_EAL_PkeyCtrl(k, CRYPT_CTRL_GET_SLH_DSA_KEY_LEN, &m, sizeof(m)); l = m; }
        BSL_PARAM_InitValue(&v->p[n], ids[n], ids[n] == CRYPT_PARAM_XMSS_XDR_TYPE ? BSL_PARAM_TYPE_UINT32 : BSL_PARAM_TYPE_OCTETS, p, l); }
    v->p[n] = (BSL_Param)BSL_PARAM_END; v->n = n;
    int32_t r = pub ? CRYPT_EAL_PkeyGetPubEx(k, v->p) : CRYPT_EAL_PkeyGetPrvEx(k, v->p);
    if (!r) { for (int i = 0; i < n; i++) { if (v->p[i].valueType == BSL_PARAM_TYPE_OCTETS) { v->p[i].valueLen = v->p[i].useLen; } } }
    return r;
}
CRYPT_EAL_PkeyCtx *pk_pub(const PkAlg *a, CRYPT_EAL_PkeyCtx *k)
{
    if (!a->pubIds[0]) { return CRYPT_EAL_PkeyDupCtx(k); }
    PkVal *v = calloc(1, sizeof(*v)); int32_t r = pk_get(k, a->pubIds, v, true); CRYPT_EAL_PkeyCtx *q = NULL;
    if (!r) { q = a->kind == PK_ELG || a->kind == PK_PAI ? CRYPT_EAL_PkeyNewCtx(a->alg) : pk_new(a); r = q ? CRYPT_EAL_PkeySetPubEx(q, v->p) : -1; }
    if (r) { CRYPT_EAL_PkeyFreeCtx(q); q = NULL; }
    free(v->big); free(v); return q;
}
CRYPT_EAL_PkeyCtx *pk_prv(const PkAlg *a, CRYPT_EAL_PkeyCtx *k)
{
    if (!a->prvIds[0]) { return CRYPT_EAL_PkeyDupCtx(k); }
    PkVal *v = calloc(1, sizeof(*v)); int32_t r = pk_get(k, a->prvIds, v, false); CRYPT_EAL_PkeyCtx *q = NULL;
    if (!r) { q = a->kind == PK_ELG || a->kind == PK_PAI ? CRYPT_EAL_PkeyNewCtx(a->alg) : pk_new(a); r = q ? CRYPT_EAL_PkeySetPrvEx(q, v->p) : -1; }
    if (r) { CRYPT_EAL_PkeyFreeCtx(q); q = NULL; }
    free(v->big); free(v); return q;
}
static const int MDS[] = {CRYPT_MD_SHA1, CRYPT_MD_SHA224, CRYPT_MD_SHA256, CRYPT_MD_SHA384, CRYPT_MD_SHA512, CRYPT_MD_SM3, CRYPT_MD_MD5, CRYPT_MD_SHA3_256};
int32_t pk_pad(CRYPT_EAL_PkeyCtx *k, const PkSig *s)
{
    if (s->a->alg == CRYPT_PKEY_SM2) { return CRYPT_EAL_PkeyCtrl(k, CRYPT_CTRL_SET_SM2_USER_ID, "1234567812345678", 16); }
    if (s->a->alg != CRYPT_PKEY_RSA) { return 0; }
    int32_t md = s->md, sl = s->saltLen;
    if (s->pad == 1) { return CRYPT_EAL_PkeyCtrl(k, CRYPT_CTRL_SET_RSA_EMSA_PKCSV15, &md, sizeof(md)); }
    BSL_Param p[4] = {{CRYPT_PARAM_RSA_MD_ID, BSL_PARAM_TYPE_INT32, &md, 4, 0}, {CRYPT_PARAM_RSA_MGF1_ID, BSL_PARAM_TYPE_INT32, &md, 4, 0}, {CRYPT_PARAM_RSA_SALTLEN, BSL_PARAM_TYPE_INT32, &sl, 4, 0}, BSL_PARAM_END};
    return CRYPT_EAL_PkeyCtrl(k, s->pad == 2 ? CRYPT_CTRL_SET_RSA_EMSA_PSS : CRYPT_CTRL_SET_RSA_EMSA_ISO9796_2, p, 0);
}
int pk_sigs(PkSig *o, int max, int *cnt)
{
    int n = 0; *cnt = 0; (void)max;
    for (int i = 0; i < pk_nalgs; i++) { const PkAlg *a = &pk_algs[i]; if (!(a->op & SIG)) { continue; }
        if (a->alg == CRYPT_PKEY_RSA) { for (unsigned m = 0; m < MC_LEN(MDS); m++) { for (int pad = 1; pad <= 2; pad++) { if (a->para != 1024 && (m == 1 || m > 4)) { continue; } if (MDS[m] == CRYPT_MD_SHA3_256 || (pad == 2 && m >= 5)) { continue; } for (int sl = -2; sl <= (pad == 2 && a->para == 1024 ? 2 : -2); sl++) { PkSig s = {a, MDS[m], pad, pad == 2 ? (sl == -2 ? -1 : sl == -1 ? -2 : sl == 0 ? 0 : sl == 1 ? 20 : 40) : 0, a->name}; if (s.pad == 2 && MDS[m] == CRYPT_MD_SHA512 && s.saltLen == -1 && a->para < 1100) { continue; } if (n < max) { o[n] = s; } n++; } } } }
        else if (a->alg == CRYPT_PKEY_DSA || a->alg == CRYPT_PKEY_ECDSA) { for (unsigned m = 0; m < MC_LEN(MDS) - 1; m++) { PkSig s = {a, MDS[m], 0, 0, a->name}; if (n < max) { o[n] = s; } n++; } }
        else { PkSig s = {a, a->alg == CRYPT_PKEY_SM2 || a->alg == CRYPT_PKEY_SM9 ? CRYPT_MD_SM3 : a->alg == CRYPT_PKEY_ED25519 ? CRYPT_MD_SHA512 : a->alg == CRYPT_PKEY_COMPOSITE && !strstr(a->name, "-44-p") && !strstr(a->name, "-44-r") ? CRYPT_MD_SHA512 : CRYPT_MD_SHA256, 0, 0, a->name}; if (n < max) { o[n] = s; } n++; }
    }
    *cnt = n < max ? n : max; return n;
}
