/* C16: hashes, MACs and cipher modes against independent definitions, over all lengths and all splits. */
#include "hx.h"
#define MAXL 9000
static uint8_t g_in[MAXL], g_ref[MAXL + 64], g_out[MAXL + 256], g_tmp[MAXL + 256];
static uint32_t g_parts[4]; static int g_np;

/* calls fn for every split of L into 1..k parts (parts may be empty) */
typedef bool (*SplitFn)(void *u, const uint32_t *parts, int n);
static bool all_splits(uint32_t L, int k, SplitFn fn, void *u)
{
    uint32_t p[3];
    p[0] = L; if (!fn(u, p, 1)) { return false; }
    if (k >= 2) { for (uint32_t a = 0; a <= L; a++) { p[0] = a; p[1] = L - a; if (!fn(u, p, 2)) { return false; } } }
    if (k >= 3) { for (uint32_t a = 0; a <= L; a++) { for (uint32_t b = 0; a + b <= L; b++) { p[0] = a; p[1] = b; p[2] = L - a - b; if (!fn(u, p, 3)) { return false; } } } }
    return true;
}
/* number of parts explored for a length */
static int depth_for(uint32_t L, uint32_t block)
{
    uint32_t t3 = mc_thorough ? 2 * block + 2 : block + 2;
    if (L <= t3) { return 3; }
    if (L <= 2 * block + 3 || (L <= 300 && (L % block <= 1 || L % block == block - 1)) || mc_thorough) { return L <= 1200 ? 2 : 1; }
    return 1;
}
static const uint32_t g_big[] = {511, 512, 513, 767, 1023, 1024, 1025, 2047, 2048, 2049, 4095, 4096, 4097, 8191, 8192, 8193};
static uint32_t len_at(int i, uint32_t dense) { if ((uint32_t)i <= dense) { return (uint32_t)i; } i -= (int)dense + 1; return i < (int)MC_LEN(g_big) ? g_big[i] : UINT32_MAX; }
#define FOR_LEN(L, dense) for (int li_ = 0, L; (uint32_t)(L = (int)len_at(li_, dense)) != UINT32_MAX; li_++)

/* ---------- hashes ---------- */
typedef struct { const HxMd *m; CRYPT_EAL_MdCtx *ctx; uint32_t L; uint32_t ol; } MdU;
static bool md_split(void *u, const uint32_t *p, int n)
{
    MdU *x = u; uint32_t off = 0, ol = sizeof g_out;
    int32_t r = CRYPT_EAL_MdInit(x->ctx);
    for (int i = 0; i < n && r == 0; i++) { r = CRYPT_EAL_MdUpdate(x->ctx, g_in + off, p[i]); off += p[i]; }
    if (r) { mc_fail("md %s split %u,%u,..(%d): call failed %x", x->m->name, p[0], n > 1 ? p[1] : 0, n, r); return false; }
    uint32_t dl = ref_mdlen(x->m->ref);
    bool xof = x->m->ref == R_SHAKE128 || x->m->ref == R_SHAKE256;
    ol = xof ? x->ol : dl;
    memset(g_out, 0xEE, ol + 32);
    r = CRYPT_EAL_MdFinal(x->ctx, g_out, &ol);
    mc_transitions(n + 2);
    if (r || ol != (xof ? x->ol : dl) || memcmp(g_out, g_ref, ol)) { mc_fail("md %s len %u split %u,%u/%d: ret %x outlen %u got %s want %s", x->m->name, x->L, p[0], n > 1 ? p[1] : 0, n, r, ol, mc_hex(g_out, 32), mc_hex(g_ref, 32)); return false; }
    return true;
}
static void hashes(void)
{
    for (int k = 0; k < hx_nmd; k++) {
        const HxMd *m = &hx_md[k]; char sp[32]; snprintf(sp, sizeof sp, "hash/%s", m->name); mc_space(sp);
        FOR_LEN(L, 520) {
            if (!mc_case("md %s len=%d", m->name, L)) { continue; }
            bool xof = m->ref == R_SHAKE128 || m->ref == R_SHAKE256;
            CRYPT_EAL_MdCtx *c = CRYPT_EAL_MdNewCtx(m->id); if (!c) { mc_fatal("md ctx"); }
            MdU u = {m, c, L, ref_mdlen(m->ref)};
            ref_md(m->ref, g_in, L, g_ref, u.ol);
            all_splits(L, depth_for(L, ref_mdblock(m->ref)), md_split, &u);
            uint8_t o1[64]; uint32_t l1 = u.ol;
            int32_t r = CRYPT_EAL_Md(m->id, g_in, L, o1, &l1);
            MC_CHECK(r == 0 && l1 == u.ol && !memcmp(o1, g_ref, l1), "one-shot md differs ret %x", r);
            if (xof && L <= 350) {  /* squeezing: every split of the output */
                uint32_t OL = L; ref_md(m->ref, g_in, 40, g_ref, OL);
                for (uint32_t a = 0; a <= OL; a++) {
                    CRYPT_EAL_MdInit(c); CRYPT_EAL_MdUpdate(c, g_in, 40);
                    int32_t q = a ? CRYPT_EAL_MdSqueeze(c, g_out, a) : 0; if (q == 0 && OL - a) { q = CRYPT_EAL_MdSqueeze(c, g_out + a, OL - a); }
                    mc_transitions(4);
                    if (q || memcmp(g_out, g_ref, OL)) { mc_fail("%s squeeze %u+%u: ret %x", m->name, a, OL - a, q); break; }
                }
                uint32_t fl = OL; if (OL) { CRYPT_EAL_MdInit(c); CRYPT_EAL_MdUpdate(c, g_in, 40); int32_t q = CRYPT_EAL_MdFinal(c, g_out, &fl); MC_CHECK(q == 0 && fl == OL && !memcmp(g_out, g_ref, OL), "%s final with output length %u: ret %x len %u", m->name, OL, q, fl); }
            }
            mc_outcome(g_ref, 32); CRYPT_EAL_MdFreeCtx(c);
        }
    }
    /* multi-buffer SHA-256 */
    mc_space("hash/sha256-mb");
    for (uint32_t num = 1; num <= 4; num++) { for (uint32_t L = 0; L <= 200; L++) {
        if (!mc_case("md sha256mb num=%u len=%u", num, L)) { continue; }
        CRYPT_EAL_MdCtx *c = CRYPT_EAL_MdMBNewCtx(NULL, CRYPT_MD_SHA256_MB, num);
        if (!c) { mc_outcome_str("mb unsupported"); continue; }
        for (uint32_t a = 0; a <= L; a += (L > 70 ? 7 : 1)) {
            const uint8_t *d[4], *e[4]; uint32_t n1[4], n2[4]; uint8_t out[4][32]; uint8_t *o[4];
            for (uint32_t i = 0; i < num; i++) { d[i] = g_in + 13 * i; n1[i] = a; e[i] = d[i] + a; n2[i] = L - a; o[i] = out[i]; }
            int32_t r = CRYPT_EAL_MdMBInit(c); uint32_t ol = 32;
            if (!r) { r = CRYPT_EAL_MdMBUpdate(c, d, n1, num); } if (!r) { r = CRYPT_EAL_MdMBUpdate(c, e, n2, num); } if (!r) { r = CRYPT_EAL_MdMBFinal(c, o, &ol, num); }
            if (r) { mc_outcome_str("mb refused"); continue; }
            for (uint32_t i = 0; i < num; i++) { ref_md(R_SHA256, d[i], L, g_ref, 32); if (memcmp(out[i], g_ref, 32)) { mc_fail("multi-buffer sha256 lane %u len %u split %u wrong", i, L, a); break; } }
            mc_transitions(4);
        }
        CRYPT_EAL_MdMBFreeCtx(c);
    } }
}
/* ---------- MACs ---------- */
typedef struct { int id; const char *name; int kind; int p; } MacAlg; /* kind 0 hmac(p=RefMd) 1 cmac 2 cbcmac 3 gmac 4 siphash */
static const MacAlg g_macs[] = {
    {CRYPT_MAC_HMAC_MD5, "hmac-md5", 0, R_MD5}, {CRYPT_MAC_HMAC_SHA1, "hmac-sha1", 0, R_SHA1}, {CRYPT_MAC_HMAC_SHA224, "hmac-sha224", 0, R_SHA224}, {CRYPT_MAC_HMAC_SHA256, "hmac-sha256", 0, R_SHA256},
    {CRYPT_MAC_HMAC_SHA384, "hmac-sha384", 0, R_SHA384}, {CRYPT_MAC_HMAC_SHA512, "hmac-sha512", 0, R_SHA512}, {CRYPT_MAC_HMAC_SHA3_224, "hmac-sha3-224", 0, R_SHA3_224}, {CRYPT_MAC_HMAC_SHA3_256, "hmac-sha3-256", 0, R_SHA3_256},
    {CRYPT_MAC_HMAC_SHA3_384, "hmac-sha3-384", 0, R_SHA3_384}, {CRYPT_MAC_HMAC_SHA3_512, "hmac-sha3-512", 0, R_SHA3_512}, {CRYPT_MAC_HMAC_SM3, "hmac-sm3", 0, R_SM3},
    {CRYPT_MAC_CMAC_AES128, "cmac-aes128", 1, 128}, {CRYPT_MAC_CMAC_AES192, "cmac-aes192", 1, 192}, {CRYPT_MAC_CMAC_AES256, "cmac-aes256", 1, 256}, {CRYPT_MAC_CMAC_SM4, "cmac-sm4", 1, 4},
    {CRYPT_MAC_CBC_MAC_SM4, "cbcmac-sm4", 2, 4}, {CRYPT_MAC_GMAC_AES128, "gmac-aes128", 3, 128}, {CRYPT_MAC_GMAC_AES192, "gmac-aes192", 3, 192}, {CRYPT_MAC_GMAC_AES256, "gmac-aes256", 3, 256},
    {CRYPT_MAC_SIPHASH64, "siphash64", 4, 8}, {CRYPT_MAC_SIPHASH128, "siphash128", 4, 16}};
static uint8_t g_key[512], g_iv[64];
static uint32_t mac_ref(const MacAlg *a, uint32_t kl, const uint8_t *in, uint32_t L, uint8_t *o)
{
    RefBlk b; uint8_t d[16];
    switch (a->kind) {
        case 0: ref_hmac(a->p, g_key, kl, in, L, o); return (uint32_t)ref_mdlen(a->p);
        case 1: ref_blk_init(&b, a->p, g_key); ref_cmac(&b, in, L, o); return 16;
        case 2: { ref_blk_init(&b, a->p, g_key); memset(o, 0, 16); uint32_t nb = L ? (L + 15) / 16 : 1; for (uint32_t i = 0; i < nb; i++) { for (uint32_t j = 0; j < 16; j++) { o[j] ^= 16 * i + j < L ? in[16 * i + j] : 0; } ref_blk_enc(&b, o, o); } return 16; }
        case 3: ref_blk_init(&b, a->p, g_key); ref_gcm(&b, 1, g_iv, 12, in, L, d, 0, d, o); return 16;
        default: ref_siphash(a->p, g_key, in, L, o); return a->p;
    }
}
typedef struct { const MacAlg *a; CRYPT_EAL_MacCtx *ctx; uint32_t L, kl, tl; bool reinit; } MacU;
static bool mac_split(void *u, const uint32_t *p, int n)
{
    MacU *x = u; uint32_t off = 0, ol = 64; int32_t r;
    if (x->reinit) { r = CRYPT_EAL_MacReinit(x->ctx); } else { r = CRYPT_EAL_MacInit(x->ctx, g_key, x->kl); x->reinit = x->a->kind != 3; }
    if (!r && x->a->kind == 2) { int32_t pt = CRYPT_PADDING_ZEROS; r = CRYPT_EAL_MacCtrl(x->ctx, CRYPT_CTRL_SET_CBC_MAC_PADDING, &pt, sizeof pt); }
    if (!r && x->a->kind == 3) { uint32_t t = 16; ol = 16; r = CRYPT_EAL_MacCtrl(x->ctx, CRYPT_CTRL_SET_IV, g_iv, 12); if (!r) { r = CRYPT_EAL_MacCtrl(x->ctx, CRYPT_CTRL_SET_TAGLEN, &t, 4); } }
    for (int i = 0; i < n && r == 0; i++) { r = CRYPT_EAL_MacUpdate(x->ctx, g_in + off, p[i]); off += p[i]; }
    if (!r) { r = CRYPT_EAL_MacFinal(x->ctx, g_out, &ol); }
    mc_transitions(n + 2);
    if (r || ol != x->tl || memcmp(g_out, g_ref, ol)) { mc_fail("mac %s keylen %u len %u split %u,%u/%d: ret %x outlen %u got %s want %s", x->a->name, x->kl, x->L, p[0], n > 1 ? p[1] : 0, n, r, ol, mc_hex(g_out, 32), mc_hex(g_ref, x->tl)); return false; }
    return true;
}
static void macs(void)
{
    for (int k = 0; k < (int)MC_LEN(g_macs); k++) {
        const MacAlg *a = &g_macs[k]; char sp[32]; snprintf(sp, sizeof sp, "mac/%s", a->name); mc_space(sp);
        uint32_t bs = a->kind == 0 ? ref_mdblock(a->p) : a->kind == 4 ? 8 : 16;
        uint32_t kl = a->kind == 0 ? 24 : a->kind == 4 ? 16 : ref_keylen(a->p);
        FOR_LEN(L, 300) {
            if (!mc_case("mac %s len=%d", a->name, L)) { continue; }
            MacU u = {a, CRYPT_EAL_MacNewCtx(a->id), L, kl, 0, false}; if (!u.ctx) { mc_fatal("mac ctx %s", a->name); }
            u.tl = mac_ref(a, kl, g_in, L, g_ref);
            all_splits(L, a->kind == 3 ? 1 : depth_for(L, bs), mac_split, &u);
            mc_outcome(g_ref, u.tl); CRYPT_EAL_MacFreeCtx(u.ctx);
        }
        for (uint32_t q = 0; q <= 300; q++) {  /* every key length */
            if (!mc_case("mac %s keylen=%u", a->name, q)) { continue; }
            CRYPT_EAL_MacCtx *c = CRYPT_EAL_MacNewCtx(a->id);
            if (a->kind == 0) {
                if (q == 0) { CRYPT_EAL_MacFreeCtx(c); continue; }
                MacU u = {a, c, 77, q, 0, false}; u.tl = mac_ref(a, q, g_in, 77, g_ref); uint32_t p = 77; mac_split(&u, &p, 1); if (!mc_failed()) { mac_split(&u, &p, 1); }
            } else {
                int32_t r = CRYPT_EAL_MacInit(c, g_key, q);
                MC_CHECK((r == 0) == (q == kl), "mac %s key length %u: ret %x", a->name, q, r);
            }
            mc_transitions(1); CRYPT_EAL_MacFreeCtx(c);
        }
    }
    mc_space("mac/gmac-ivlen"); /* GMAC over all IV and tag lengths */
    for (int k = 16; k < 19; k++) { for (uint32_t il = 1; il <= 70; il++) { for (uint32_t tl = 0; tl <= 20; tl++) {
        if (!mc_case("gmac %s iv=%u tag=%u", g_macs[k].name, il, tl)) { continue; }
        CRYPT_EAL_MacCtx *c = CRYPT_EAL_MacNewCtx(g_macs[k].id); RefBlk b; uint8_t d[16], t[16];
        ref_blk_init(&b, g_macs[k].p, g_key); ref_gcm(&b, 1, g_in, il, g_in, 33, d, 0, d, t);
        int32_t r = CRYPT_EAL_MacInit(c, g_key, ref_keylen(g_macs[k].p)); if (!r) { r = CRYPT_EAL_MacCtrl(c, CRYPT_CTRL_SET_IV, g_in, il); }
        MC_CHECK(r == 0, "gmac iv length %u refused %x", il, r);
        uint32_t ol = tl; r = CRYPT_EAL_MacCtrl(c, CRYPT_CTRL_SET_TAGLEN, &tl, 4);
        bool okTag = tl == 4 || tl == 8 || (tl >= 12 && tl <= 16);
        if (r == 0) {
            MC_CHECK(tl >= 4 && tl <= 16, "gmac accepts tag length %u", tl);
            CRYPT_EAL_MacUpdate(c, g_in, 33); r = CRYPT_EAL_MacFinal(c, g_out, &ol); MC_CHECK(r == 0 && !memcmp(g_out, t, tl), "gmac tag wrong ret %x", r);
        } else { MC_CHECK(!okTag, "gmac tag length %u refused %x", tl, r); }
        mc_transitions(5); CRYPT_EAL_MacFreeCtx(c);
    } } }
}
/* ---------- ciphers ---------- */
enum { M_ECB, M_CBC, M_CTR, M_CFB, M_OFB, M_XTS, M_HCTR, M_CHACHA, M_WRAP, M_WRAPPAD };
typedef struct { int id; const char *name; int mode; int blk; } CiphAlg;
static const CiphAlg g_ciph[] = {
    {CRYPT_CIPHER_AES128_ECB, "aes128-ecb", M_ECB, 128}, {CRYPT_CIPHER_AES192_ECB, "aes192-ecb", M_ECB, 192}, {CRYPT_CIPHER_AES256_ECB, "aes256-ecb", M_ECB, 256}, {CRYPT_CIPHER_SM4_ECB, "sm4-ecb", M_ECB, 4},
    {CRYPT_CIPHER_AES128_CBC, "aes128-cbc", M_CBC, 128}, {CRYPT_CIPHER_AES192_CBC, "aes192-cbc", M_CBC, 192}, {CRYPT_CIPHER_AES256_CBC, "aes256-cbc", M_CBC, 256}, {CRYPT_CIPHER_SM4_CBC, "sm4-cbc", M_CBC, 4},
    {CRYPT_CIPHER_AES128_CTR, "aes128-ctr", M_CTR, 128}, {CRYPT_CIPHER_AES192_CTR, "aes192-ctr", M_CTR, 192}, {CRYPT_CIPHER_AES256_CTR, "aes256-ctr", M_CTR, 256}, {CRYPT_CIPHER_SM4_CTR, "sm4-ctr", M_CTR, 4},
    {CRYPT_CIPHER_AES128_CFB, "aes128-cfb", M_CFB, 128}, {CRYPT_CIPHER_AES192_CFB, "aes192-cfb", M_CFB, 192}, {CRYPT_CIPHER_AES256_CFB, "aes256-cfb", M_CFB, 256}, {CRYPT_CIPHER_SM4_CFB, "sm4-cfb", M_CFB, 4},
    {CRYPT_CIPHER_AES128_OFB, "aes128-ofb", M_OFB, 128}, {CRYPT_CIPHER_AES192_OFB, "aes192-ofb", M_OFB, 192}, {CRYPT_CIPHER_AES256_OFB, "aes256-ofb", M_OFB, 256}, {CRYPT_CIPHER_SM4_OFB, "sm4-ofb", M_OFB, 4},
    {CRYPT_CIPHER_AES128_XTS, "aes128-xts", M_XTS, 128}, {CRYPT_CIPHER_AES256_XTS, "aes256-xts", M_XTS, 256}, {CRYPT_CIPHER_SM4_XTS, "sm4-xts", M_XTS, 4},
    {CRYPT_CIPHER_SM4_HCTR, "sm4-hctr", M_HCTR, 4}, {CRYPT_CIPHER_CHACHA20, "chacha20", M_CHACHA, 0},
    {CRYPT_CIPHER_AES128_WRAP_NOPAD, "aes128-wrap", M_WRAP, 128}, {CRYPT_CIPHER_AES192_WRAP_NOPAD, "aes192-wrap", M_WRAP, 192}, {CRYPT_CIPHER_AES256_WRAP_NOPAD, "aes256-wrap", M_WRAP, 256},
    {CRYPT_CIPHER_AES128_WRAP_PAD, "aes128-wrappad", M_WRAPPAD, 128}, {CRYPT_CIPHER_AES192_WRAP_PAD, "aes192-wrappad", M_WRAPPAD, 192}, {CRYPT_CIPHER_AES256_WRAP_PAD, "aes256-wrappad", M_WRAPPAD, 256}};
static uint32_t c_keylen(const CiphAlg *a) { return a->mode == M_CHACHA ? 32 : (a->mode == M_XTS || a->mode == M_HCTR) ? 2 * ref_keylen(a->blk) : ref_keylen(a->blk); }
static uint32_t c_ivlen(const CiphAlg *a) { return a->mode == M_ECB ? 0 : a->mode == M_CHACHA ? 12 : a->mode == M_WRAP ? 8 : a->mode == M_WRAPPAD ? 4 : 16; }
static void hctr_mul(uint8_t x[16], const uint8_t y[16])
{
    uint8_t z[16] = {0}, v[16]; memcpy(v, y, 16);
    for (int i = 0; i < 128; i++) { if (x[i / 8] >> (7 - i % 8) & 1) { for (int j = 0; j < 16; j++) { z[j] ^= v[j]; } } int l = v[15] & 1; for (int j = 15; j > 0; j--) { v[j] = (uint8_t)(v[j] >> 1 | v[j - 1] << 7); } v[0] >>= 1; if (l) { v[0] ^= 0xe1; } }
    memcpy(x, z, 16);
}
static void hctr_hash(const uint8_t *k, const uint8_t *d, uint32_t n, const uint8_t *tw, uint8_t y[16])
{   /* Horner over (data || tweak) zero-padded, then the length block */
    uint8_t *b = calloc(1, n + 32); memcpy(b, d, n); memcpy(b + n, tw, 16); memset(y, 0, 16);
    for (uint32_t i = 0; i < n + 16; i += 16) { for (int j = 0; j < 16; j++) { y[j] ^= b[i + j]; } hctr_mul(y, k); }
    uint64_t bits = (uint64_t)(n + 16) * 8; for (int j = 0; j < 8; j++) { y[15 - j] ^= (uint8_t)(bits >> (8 * j)); } hctr_mul(y, k); free(b);
}
static void ref_hctr(const RefBlk *b, const uint8_t *k2, const uint8_t *tw, int enc, const uint8_t *in, uint32_t n, uint8_t *out)
{
    uint8_t h[16], z1[16], z2[16], s[16], c[16], ks[16]; uint32_t m = n - 16;
    hctr_hash(k2, in + 16, m, tw, h);
    if (enc) { for (int j = 0; j < 16; j++) { z1[j] = in[j] ^ h[j]; } ref_blk_enc(b, z1, z2); } else { for (int j = 0; j < 16; j++) { z2[j] = in[j] ^ h[j]; } ref_blk_dec(b, z2, z1); }
    for (int j = 0; j < 16; j++) { s[j] = z1[j] ^ z2[j]; }
    for (uint32_t i = 0; i < m; i++) { if (i % 16 == 0) { memcpy(c, s, 16); uint64_t q = i / 16 + 1; for (int j = 0; j < 8; j++) { c[15 - j] ^= (uint8_t)(q >> (8 * j)); } ref_blk_enc(b, c, ks); } out[16 + i] = in[16 + i] ^ ks[i % 16]; }
    hctr_hash(k2, out + 16, m, tw, h); for (int j = 0; j < 16; j++) { out[j] = (enc ? z2[j] : z1[j]) ^ h[j]; }
}
/* reference for a whole message; returns output length or -1 if the length is not allowed */
static int c_ref(const CiphAlg *a, int enc, const uint8_t *iv, int fb, const uint8_t *in, uint32_t L, uint8_t *out)
{
    RefBlk b, b2; if (a->blk) { ref_blk_init(&b, a->blk, g_key); ref_blk_init(&b2, a->blk, g_key + ref_keylen(a->blk)); }
    switch (a->mode) {
        case M_ECB: if (L % 16) { return -1; } ref_ecb(&b, enc, in, L, out); return L;
        case M_CBC: if (L % 16) { return -1; } ref_cbc(&b, enc, iv, in, L, out); return L;
        case M_CTR: ref_ctr(&b, iv, in, L, out); return L;
        case M_CFB: ref_cfb(&b, enc, fb, iv, in, L, out); return L;
        case M_OFB: ref_ofb(&b, iv, in, L, out); return L;
        case M_XTS: if (L < 16) { return -1; } ref_xts(&b, &b2, enc, a->blk == 4, iv, in, L, out); return L;
        case M_HCTR: if (L < 16) { return -1; } ref_hctr(&b, g_key + 16, iv, enc, in, L, out); return L;
        case M_CHACHA: ref_chacha(g_key, iv, 0, in, L, out); return L;
    }
    return -1;
}
typedef struct { const CiphAlg *a; CRYPT_EAL_CipherCtx *ctx; uint32_t L; int enc, want, pad, inplace, fb; const uint8_t *in, *iv; bool reinit; } CU;
static bool c_split(void *u, const uint32_t *p, int n)
{
    CU *x = u; uint32_t off = 0, tot = 0; int32_t r;
    int want0 = x->want;
    if (x->a->mode == M_XTS) {   /* documented: each XTS update takes at least one block, and a partial block ends the data unit */
        for (int i = 0; i < n; i++) { if (p[i] > 0 && p[i] < 16) { want0 = -1; } }
        if (want0 >= 0) { for (int i = 0; i + 1 < n; i++) { if (p[i] % 16) { return true; } } }
    }
    if (x->reinit) { r = CRYPT_EAL_CipherReinit(x->ctx, (uint8_t *)x->iv, c_ivlen(x->a)); }
    else { r = CRYPT_EAL_CipherInit(x->ctx, g_key, c_keylen(x->a), x->iv, c_ivlen(x->a), x->enc); x->reinit = x->a->mode != M_ECB && x->a->mode != M_HCTR; }
    if (!r && x->pad >= 0) { r = CRYPT_EAL_CipherSetPadding(x->ctx, x->pad); }
    if (!r && x->fb) { uint32_t f = x->fb; r = CRYPT_EAL_CipherCtrl(x->ctx, CRYPT_CTRL_SET_FEEDBACKSIZE, &f, 4); }
    if (r) { mc_fail("%s set-up failed %x", x->a->name, r); return false; }
    uint8_t *src = (uint8_t *)x->in;
    if (x->inplace) { memcpy(g_out, x->in, x->L); src = g_out; }
    int step = 0;
    for (int i = 0; i < n && r == 0; i++) {
        uint32_t ol = MAXL + 128 - tot; r = CRYPT_EAL_CipherUpdate(x->ctx, src + off, p[i], g_out + tot, &ol); off += p[i]; if (!r) { tot += ol; step++; }
    }
    if (!r) { uint32_t ol = MAXL + 128 - tot; r = CRYPT_EAL_CipherFinal(x->ctx, g_out + tot, &ol); if (!r) { tot += ol; step++; } }
    mc_transitions(n + 2);
    if (want0 < 0) { if (r == 0) { mc_fail("%s %s len %u parts %u,%u/%d pad %d: accepted, must be refused", x->a->name, x->enc ? "enc" : "dec", x->L, p[0], n > 1 ? p[1] : 0, n, x->pad); return false; } return true; }
    if (r || tot != (uint32_t)x->want || memcmp(g_out, g_ref, tot)) {
        mc_fail("%s %s len %u parts %u,%u/%d pad %d inplace %d fb %d: ret %x (after %d steps) outlen %u want %d, got %s want %s", x->a->name, x->enc ? "enc" : "dec", x->L, p[0], n > 1 ? p[1] : 0, n, x->pad, x->inplace, x->fb, r, step, tot, x->want, mc_hex(g_out, tot > 48 ? 48 : tot), mc_hex(g_ref, x->want > 48 ? 48 : x->want)); return false;
    }
    return true;
}
static uint32_t do_pad(int type, const uint8_t *in, uint32_t L, uint8_t *o)
{
    memcpy(o, in, L); uint32_t k = 16 - L % 16;
    if (type == CRYPT_PADDING_NONE) { return L; }
    memset(o + L, 0, k);
    if (type == CRYPT_PADDING_ISO7816) { o[L] = 0x80; } else if (type == CRYPT_PADDING_X923) { o[L + k - 1] = (uint8_t)k; } else if (type == CRYPT_PADDING_PKCS5 || type == CRYPT_PADDING_PKCS7) { memset(o + L, (int)k, k); }
    return L + k;
}
static int un_pad(int type, const uint8_t *b)   /* length of data in the last block, or -1 */
{
    int k = b[15];
    switch (type) {
        case CRYPT_PADDING_ISO7816: { int i = 15; while (i > 0 && b[i] == 0) { i--; } return b[i] == 0x80 ? i : -1; }
        case CRYPT_PADDING_X923: if (k == 0 || k > 16) { return -1; } for (int i = 16 - k; i < 15; i++) { if (b[i]) { return -1; } } return 16 - k;
        case CRYPT_PADDING_PKCS5: case CRYPT_PADDING_PKCS7: if (k == 0 || k > 16) { return -1; } for (int i = 16 - k; i < 16; i++) { if (b[i] != k) { return -1; } } return 16 - k;
        default: return 16;
    }
}
static void ciphers(void)
{
    for (int k = 0; k < (int)MC_LEN(g_ciph); k++) {
        const CiphAlg *a = &g_ciph[k]; char sp[32]; snprintf(sp, sizeof sp, "cipher/%s", a->name); mc_space(sp);
        if (a->mode == M_WRAP || a->mode == M_WRAPPAD) { continue; }
        int nfb = a->mode == M_CFB ? 4 : 1; static const int fbs[] = {0, 8, 64, 1};
        for (int f = 0; f < nfb; f++) { for (int enc = 1; enc >= 0; enc--) { for (int ip = 0; ip < 2; ip++) { for (int v = 0; v < ((a->mode == M_CTR || a->mode == M_XTS) ? 3 : 1); v++) {
            int fb = fbs[f];
            uint8_t iv[16]; memcpy(iv, g_iv, 16); if (v == 1) { memset(iv, 0xff, 16); } if (v == 2) { memset(iv + 8, 0xff, 8); iv[15] = 0xfd; }
            FOR_LEN(L, (fb == 1 ? 70 : 400)) {
                if (!mc_case("cipher %s %s fb=%d inplace=%d iv=%d len=%d", a->name, enc ? "enc" : "dec", fb, ip, v, L)) { continue; }
                if (fb == 1 && L > 70) { continue; }
                if (a->mode == M_HCTR && L > 2100) { continue; }
                CU u = {a, CRYPT_EAL_CipherNewCtx(a->id), L, enc, 0, (a->mode == M_ECB || a->mode == M_CBC) ? CRYPT_PADDING_NONE : -1, ip, fb, g_in, iv, false};
                if (!u.ctx) { mc_fatal("cipher ctx %s", a->name); }
                u.want = c_ref(a, enc, iv, fb ? fb : 128, g_in, L, g_ref);
                if (u.want < 0 && ip) { CRYPT_EAL_CipherFreeCtx(u.ctx); continue; }
                int d = depth_for(L, a->mode == M_CHACHA ? 64 : 16);
                if (a->mode == M_XTS && L == 0) { CRYPT_EAL_CipherFreeCtx(u.ctx); continue; }   /* nothing to encrypt: see DESIGN */
                if (fb == 1 && d > 2) { d = 2; }
                all_splits(L, d, c_split, &u);
                mc_outcome(g_ref, L > 64 ? 64 : L); CRYPT_EAL_CipherFreeCtx(u.ctx);
            }
        } } } }
    }
    mc_space("cipher/padding");
    for (int k = 0; k < (int)MC_LEN(g_ciph); k++) {
        const CiphAlg *a = &g_ciph[k]; if (a->mode != M_ECB && a->mode != M_CBC) { continue; }
        for (int pt = CRYPT_PADDING_ZEROS; pt < CRYPT_PADDING_MAX_COUNT; pt++) {
            for (int L = 0; L <= 66; L++) {
                if (!mc_case("padding %s type=%d len=%d", a->name, pt, L)) { continue; }
                CRYPT_EAL_CipherCtx *c = CRYPT_EAL_CipherNewCtx(a->id);
                uint32_t pl = do_pad(pt, g_in, L, g_tmp);
                CU u = {a, c, L, 1, 0, pt, 0, 0, g_in, g_iv, false};
                u.want = c_ref(a, 1, g_iv, 0, g_tmp, pl, g_ref);
                if (pt == CRYPT_PADDING_ZEROS && L % 16 == 0) { goto next; }  /* zero padding of a whole block: not reversible, length convention differs */
                all_splits(L, 3, c_split, &u);
                uint8_t ct[128]; memcpy(ct, g_ref, pl); memcpy(g_ref, g_in, L);
                CU d = {a, c, pl, 0, pt == CRYPT_PADDING_ZEROS ? (int)pl : L, pt, 0, 0, ct, g_iv, false};
                memcpy(g_ref, g_tmp, pl);
                all_splits(pl, 3, c_split, &d);
                d.inplace = 1; d.reinit = false; if (!mc_failed()) { all_splits(pl, 2, c_split, &d); }
next:           CRYPT_EAL_CipherFreeCtx(c);
            }
            if (pt == CRYPT_PADDING_ZEROS) { continue; }
            /* every last byte and every position of a deviating pad byte: accepted exactly if the padding is well formed */
            for (int last = 0; last < 256; last++) {
                if (!mc_case("unpad %s type=%d last=%d", a->name, pt, last)) { continue; }
                for (int pos = -1; pos < 15 && !mc_failed(); pos++) { for (int base = 0; base < 3; base++) {
                    uint8_t pl[32], ct[32]; mc_fill(pl, 16, 5);
                    memset(pl + 16, base == 0 ? (last <= 16 ? last : 0) : base == 1 ? 0 : 0x80, 16); pl[31] = (uint8_t)last; if (pos >= 0) { pl[16 + pos] ^= (base == 2 ? 0x80 : 0x01); }
                    if (pt == CRYPT_PADDING_ISO7816 && base == 1 && pos >= 0) { pl[16 + pos] = 0x80; }
                    c_ref(a, 1, g_iv, 0, pl, 32, ct);
                    int dl = un_pad(pt, pl + 16);
                    CU d = {a, CRYPT_EAL_CipherNewCtx(a->id), 32, 0, dl < 0 ? -1 : 16 + dl, pt, 0, 0, ct, g_iv, false};
                    memcpy(g_ref, pl, 32); uint32_t p[2] = {16, 16}; uint32_t one = 32;
                    c_split(&d, &one, 1); if (!mc_failed()) { d.reinit = false; c_split(&d, p, 2); }
                    CRYPT_EAL_CipherFreeCtx(d.ctx);
                } }
            }
        }
    }
    mc_space("cipher/wrap");
    for (int k = 0; k < (int)MC_LEN(g_ciph); k++) {
        const CiphAlg *a = &g_ciph[k]; if (a->mode != M_WRAP && a->mode != M_WRAPPAD) { continue; }
        for (int L = 0; L <= 200; L++) {
            if (!mc_case("wrap %s len=%d", a->name, L)) { continue; }
            RefBlk b; ref_blk_init(&b, a->blk, g_key); CRYPT_EAL_CipherCtx *c = CRYPT_EAL_CipherNewCtx(a->id);
            bool ok = a->mode == M_WRAP ? (L >= 16 && L % 8 == 0) : L >= 1;
            int32_t r = CRYPT_EAL_CipherInit(c, g_key, c_keylen(a), g_iv, c_ivlen(a), true); if (r) { mc_fail("wrap init %x", r); }
            uint32_t ol = sizeof g_out; r = CRYPT_EAL_CipherUpdate(c, g_in, L, g_out, &ol);
            if (!ok) { MC_CHECK(r != 0, "%s length %d accepted", a->name, L); CRYPT_EAL_CipherFreeCtx(c); continue; }
            int want = ref_wrap(&b, a->mode == M_WRAPPAD, g_iv, g_in, L, g_ref);
            MC_CHECK(r == 0 && (int)ol == want && !memcmp(g_out, g_ref, ol), "%s len %d: ret %x outlen %u want %d", a->name, L, r, ol, want);
            for (int ip = 0; ip < 2; ip++) {
                r = CRYPT_EAL_CipherInit(c, g_key, c_keylen(a), g_iv, c_ivlen(a), false); ol = sizeof g_out;
                memcpy(g_tmp, g_ref, want); uint8_t *dst = ip ? g_tmp : g_out;
                if (!r) { r = CRYPT_EAL_CipherUpdate(c, g_tmp, want, dst, &ol); }
                MC_CHECK(r == 0 && (int)ol == L && !memcmp(dst, g_in, L), "%s unwrap len %d inplace %d: ret %x outlen %u", a->name, L, ip, r, ol);
            }
            mc_transitions(6); mc_outcome(g_ref, want); CRYPT_EAL_CipherFreeCtx(c);
        }
    }
    mc_space("cipher/params");
    for (int k = 0; k < (int)MC_LEN(g_ciph); k++) { const CiphAlg *a = &g_ciph[k]; for (int enc = 0; enc < 2; enc++) { for (uint32_t q = 0; q <= 80; q++) { for (int what = 0; what < 2; what++) {
        if (!mc_case("params %s %s %s=%u", a->name, enc ? "enc" : "dec", what ? "ivlen" : "keylen", q)) { continue; }
        CRYPT_EAL_CipherCtx *c = CRYPT_EAL_CipherNewCtx(a->id); uint32_t kl = what ? c_keylen(a) : q, il = what ? q : c_ivlen(a);
        int32_t r = CRYPT_EAL_CipherInit(c, g_key, kl, g_iv, il, enc);
        bool ok = kl == c_keylen(a) && (a->mode == M_ECB || il == c_ivlen(a));
        if (a->mode == M_CHACHA && (il == 8 || il == 12) && kl == 32) { ok = r == 0; }
        MC_CHECK((r == 0) == ok, "%s key %u iv %u: ret %x", a->name, kl, il, r);
        if (r != 0) { uint32_t ol = 64; MC_CHECK(CRYPT_EAL_CipherUpdate(c, g_in, 16, g_out, &ol) != 0, "%s usable after refused init", a->name); }
        mc_transitions(2); CRYPT_EAL_CipherFreeCtx(c);
    } } } }
}
void mc_explore(void)
{
    hx_init();
    mc_fill(g_in, sizeof g_in, 1); mc_fill(g_key, sizeof g_key, 2); mc_fill(g_iv, sizeof g_iv, 3);
    hashes(); macs(); ciphers();
}
