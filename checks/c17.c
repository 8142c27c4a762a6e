/* C17: authenticated encryption -- exactness against reference definitions and rejection of every forgery. */
#include "hx.h"
#include "crypt_eal_hpke.h"
enum { GCM, CCM, CP };
typedef struct { int id; const char *n; int mode, blk; } Al;
static const Al AL[] = {
    {CRYPT_CIPHER_AES128_GCM, "aes128-gcm", GCM, 128}, {CRYPT_CIPHER_AES192_GCM, "aes192-gcm", GCM, 192}, {CRYPT_CIPHER_AES256_GCM, "aes256-gcm", GCM, 256}, {CRYPT_CIPHER_SM4_GCM, "sm4-gcm", GCM, 4},
    {CRYPT_CIPHER_AES128_CCM, "aes128-ccm", CCM, 128}, {CRYPT_CIPHER_AES192_CCM, "aes192-ccm", CCM, 192}, {CRYPT_CIPHER_AES256_CCM, "aes256-ccm", CCM, 256}, {CRYPT_CIPHER_SM4_CCM, "sm4-ccm", CCM, 4},
    {CRYPT_CIPHER_CHACHA20_POLY1305, "chacha20-poly1305", CP, 0}};
#define MX 70000
static uint8_t K[64], IV[256], AAD[MX], PT[MX], CT[MX], OUT[MX + 64], TAG[16];
static uint32_t klen(const Al *a) { return a->mode == CP ? 32 : (uint32_t)ref_keylen(a->blk); }
static void refenc(const Al *a, const uint8_t *key, const uint8_t *iv, uint32_t ivl, uint32_t al, uint32_t pl, uint32_t tl, uint8_t *ct, uint8_t *tag)
{
    if (a->mode == CP) { uint8_t n[12] = {0}; memcpy(n + 12 - ivl, iv, ivl); ref_chachapoly(1, key, n, AAD, al, PT, pl, ct, tag); return; }
    RefBlk b; ref_blk_init(&b, a->blk, key);
    if (a->mode == GCM) { ref_gcm(&b, 1, iv, ivl, AAD, al, PT, pl, ct, tag); } else { ref_ccm(&b, 1, iv, ivl, AAD, al, PT, pl, ct, tag, tl); }
}
/* one operation; steps: init or reinit, taglen, msglen, aad, updates in parts, (settag) final, gettag */
static int32_t op(CRYPT_EAL_CipherCtx *c, const Al *a, bool re, int enc, const uint8_t *key, const uint8_t *iv, uint32_t ivl, const uint8_t *aad, uint32_t al,
    const uint8_t *in, uint32_t n, const uint32_t *parts, int np, uint8_t *out, uint8_t *tag, uint32_t tl, uint32_t settl, int *stage)
{
    int32_t r; *stage = 0; uint64_t ml = n; mc_transitions(5 + np);
    r = re ? CRYPT_EAL_CipherReinit(c, (uint8_t *)iv, ivl) : CRYPT_EAL_CipherInit(c, key, klen(a), iv, ivl, enc); if (r) { return r; }
    *stage = 1; if (a->mode != CP) { r = CRYPT_EAL_CipherCtrl(c, CRYPT_CTRL_SET_TAGLEN, &tl, 4); if (r) { return r; } }
    *stage = 2; if (a->mode == CCM) { r = CRYPT_EAL_CipherCtrl(c, CRYPT_CTRL_SET_MSGLEN, &ml, 8); if (r) { return r; } }
    *stage = 3; if (al) { r = CRYPT_EAL_CipherCtrl(c, CRYPT_CTRL_SET_AAD, (void *)aad, al); if (r) { return r; } }
    *stage = 4; uint32_t off = 0; uint32_t all[1] = {n}; if (!parts) { parts = all; np = 1; }
    for (int i = 0; i < np; i++) { uint32_t ol = n - off + 16; if (parts[i] == 0 && np == 1) { break; } r = CRYPT_EAL_CipherUpdate(c, in + off, parts[i], out + off, &ol); if (r) { return r; } if (ol != parts[i]) { return -2; } off += parts[i]; }
    *stage = 5; uint32_t ol = 16; uint8_t dummy[32];
    if (!enc) { r = CRYPT_EAL_CipherCtrl(c, CRYPT_CTRL_SET_TAG, tag, settl); if (r) { return r; } *stage = 6; return CRYPT_EAL_CipherFinal(c, dummy, &ol); }
    r = CRYPT_EAL_CipherFinal(c, dummy, &ol); if (r) { return r; }
    *stage = 6; return CRYPT_EAL_CipherCtrl(c, CRYPT_CTRL_GET_TAG, tag, tl);
}
static void vec_case(const Al *a, uint32_t ivl, uint32_t tl, uint32_t al, uint32_t pl, int splits)
{
    CRYPT_EAL_CipherCtx *e = CRYPT_EAL_CipherNewCtx(a->id), *d = CRYPT_EAL_CipherNewCtx(a->id); if (!e || !d) { mc_fatal("ctx"); }
    uint8_t rt[16], t[16]; int st; refenc(a, K, IV, ivl, al, pl, tl, CT, rt); bool re = false;
    uint32_t lim = splits ? pl : 0;
    for (uint32_t s = 0; s <= lim && !mc_failed(); s++) { for (uint32_t s2 = s; s2 <= (splits > 1 ? pl : s); s2++) { for (int ip = 0; ip < 2; ip++) {
        uint32_t parts[3] = {s, s2 - s, pl - s2}; const uint32_t *pp = splits ? parts : NULL;
        memset(OUT, 0xA5, pl + 16); if (ip) { memcpy(OUT, PT, pl); } memset(t, 0, 16);
        int32_t r = op(e, a, re, 1, K, IV, ivl, AAD, al, ip ? OUT : PT, pl, pp, 3, OUT, t, tl, tl, &st);
        if (r || memcmp(OUT, CT, pl) || memcmp(t, rt, tl)) { mc_fail("%s enc ivlen %u taglen %u aad %u len %u split %u,%u inplace %d reinit %d: ret %x stage %d ct ok %d tag %s want %s", a->n, ivl, tl, al, pl, s, s2, ip, re, r, st, !memcmp(OUT, CT, pl), mc_hex(t, tl), mc_hex(rt, tl)); goto out; }
        memset(OUT, 0xA5, pl + 16); if (ip) { memcpy(OUT, CT, pl); }
        r = op(d, a, re, 0, K, IV, ivl, AAD, al, ip ? OUT : CT, pl, pp, 3, OUT, rt, tl, tl, &st);
        if (r || memcmp(OUT, PT, pl)) { mc_fail("%s dec ivlen %u taglen %u aad %u len %u split %u,%u inplace %d reinit %d: ret %x stage %d", a->n, ivl, tl, al, pl, s, s2, ip, re, r, st); goto out; }
        re = true;
    } } }
    mc_outcome(rt, tl);
out: CRYPT_EAL_CipherFreeCtx(e); CRYPT_EAL_CipherFreeCtx(d);
}
static const uint32_t BIG[] = {255, 256, 257, 511, 512, 513, 1023, 1024, 1025, 2047, 2048, 2049, 4095, 4096, 4097, 8192, 16383, 16384, 16385};
static void vectors(void)
{
    for (int k = 0; k < 9; k++) {
        const Al *a = &AL[k]; mc_space(a->n); uint32_t div = a->mode == CCM ? 13 : 12;
        for (uint32_t al = 0; al <= 34; al++) { for (uint32_t pl = 0; pl <= 66; pl++) {
            if (mc_case("vec %s aad=%u len=%u", a->n, al, pl)) { vec_case(a, div, 16, al, pl, 0); }
        } }
        for (uint32_t pl = 0; pl <= (mc_thorough ? 200u : 70u); pl++) { if (mc_case("split %s len=%u", a->n, pl)) { vec_case(a, div, 16, 13, pl, pl <= (mc_thorough ? 70u : 36u) ? 2 : 1); } }
        for (uint32_t pl = 67; pl <= 800; pl++) { if (mc_case("long %s len=%u", a->n, pl)) { vec_case(a, div, 16, pl % 20, pl, 0); } }
        for (int i = 0; i < (int)MC_LEN(BIG); i++) { for (int j = 0; j < 3; j++) { if (mc_case("big %s len=%u aad=%d", a->n, BIG[i], j)) { vec_case(a, div, 16, j == 0 ? 0 : j == 1 ? 13 : BIG[i], BIG[i], 0); } } }
        static const uint32_t AB[] = {65279, 65280, 65281, 65535, 65536};
        for (int i = 0; i < 5; i++) { if (mc_case("bigaad %s aad=%u", a->n, AB[i])) { vec_case(a, div, 16, AB[i], 17, 0); } }
        for (uint32_t ivl = 0; ivl <= 70; ivl++) { for (uint32_t tl = 0; tl <= 17; tl++) {
            bool okiv = a->mode == GCM ? ivl >= 1 : a->mode == CCM ? ivl >= 7 && ivl <= 13 : (ivl == 8 || ivl == 12);
            bool oktl = a->mode == GCM ? tl == 4 || tl == 8 || (tl >= 12 && tl <= 16) : a->mode == CCM ? tl >= 4 && tl <= 16 && tl % 2 == 0 : tl == 16;
            if (!mc_case("params %s ivlen=%u taglen=%u", a->n, ivl, tl)) { continue; }
            if (okiv && oktl) { static const uint32_t ps[] = {0, 1, 15, 16, 17, 33}; for (int i = 0; i < 6; i++) { for (int j = 0; j < 3; j++) { vec_case(a, ivl, tl, j * 9, ps[i], 0); } } continue; }
            CRYPT_EAL_CipherCtx *c = CRYPT_EAL_CipherNewCtx(a->id); uint8_t t[32]; int st;
            int32_t r = op(c, a, false, 1, K, IV, ivl, AAD, 5, PT, 20, NULL, 0, OUT, t, tl, tl, &st);
            if (r == 0) { mc_fail("%s accepted iv length %u tag length %u", a->n, ivl, tl); }
            CRYPT_EAL_CipherFreeCtx(c);
        } }
        for (uint32_t kl = 0; kl <= 66; kl++) { if (kl == klen(a) || !mc_case("keylen %s %u", a->n, kl)) { continue; } CRYPT_EAL_CipherCtx *c = CRYPT_EAL_CipherNewCtx(a->id); MC_CHECK(CRYPT_EAL_CipherInit(c, K, kl, IV, div, true) != 0, "%s accepted a key of %u bytes", a->n, kl); CRYPT_EAL_CipherFreeCtx(c); }
        /* CCM: message length announced and given must agree */
        if (a->mode == CCM) {
            for (uint32_t an = 0; an <= 40; an++) { for (uint32_t gv = 0; gv <= 40; gv++) {
                if (an == gv || !mc_case("ccm-msglen %s announced=%u given=%u", a->n, an, gv)) { continue; }
                CRYPT_EAL_CipherCtx *c = CRYPT_EAL_CipherNewCtx(a->id); uint64_t ml = an; uint32_t ol = 100, tl = 16; uint8_t t[16]; int32_t r = CRYPT_EAL_CipherInit(c, K, klen(a), IV, 12, true);
                if (!r) { r = CRYPT_EAL_CipherCtrl(c, CRYPT_CTRL_SET_TAGLEN, &tl, 4); } if (!r) { r = CRYPT_EAL_CipherCtrl(c, CRYPT_CTRL_SET_MSGLEN, &ml, 8); } if (r) { mc_fatal("ccm set-up %x", r); }
                if (gv) { r = CRYPT_EAL_CipherUpdate(c, PT, gv, OUT, &ol); } if (!r) { r = CRYPT_EAL_CipherCtrl(c, CRYPT_CTRL_GET_TAG, t, 16); }
                MC_CHECK(r != 0, "%s gave a tag for %u bytes although %u were announced", a->n, gv, an); CRYPT_EAL_CipherFreeCtx(c);
            } }
        }
    }
}
/* every altered input must be refused */
static void forge(void)
{
    mc_space("forge");
    static const uint32_t L[][2] = {{0, 0}, {0, 1}, {1, 0}, {13, 16}, {5, 17}, {16, 31}, {20, 64}, {0, 33}, {33, 0}, {13, 130}};
    for (int k = 0; k < 9; k++) { const Al *a = &AL[k]; for (int l = 0; l < (int)MC_LEN(L); l++) { for (uint32_t tl = 4; tl <= 16; tl++) { for (int iv2 = 0; iv2 < 3; iv2++) {
        uint32_t al = L[l][0], pl = L[l][1];
        bool oktl = a->mode == GCM ? tl == 4 || tl == 8 || tl >= 12 : a->mode == CCM ? tl % 2 == 0 : tl == 16; if (!oktl) { continue; }
        uint32_t ivl = a->mode == GCM ? (iv2 == 0 ? 12 : iv2 == 1 ? 1 : 20) : a->mode == CCM ? (iv2 == 0 ? 12 : iv2 == 1 ? 7 : 13) : (iv2 == 0 ? 12 : iv2 == 1 ? 8 : 0); if (!ivl || (iv2 && tl != 16)) { continue; }
        if (!mc_case("forge %s ivlen=%u taglen=%u aad=%u len=%u", a->n, ivl, tl, al, pl)) { continue; }
        uint8_t rt[16], t[17], key[64], iv[32], aad[256], ct[256]; int st; refenc(a, K, IV, ivl, al, pl, tl, CT, rt);
        CRYPT_EAL_CipherCtx *d = CRYPT_EAL_CipherNewCtx(a->id); int32_t r;
#define RESET() do { memcpy(t, rt, 16); t[16] = 0; memcpy(key, K, 64); memcpy(iv, IV, 32); memcpy(aad, AAD, 256); memcpy(ct, CT, 256); } while (0)
#define TRY(AL_, PL_, IVL_, STL_, ...) do { r = op(d, a, false, 0, key, iv, IVL_, aad, AL_, ct, PL_, NULL, 0, OUT, t, tl, STL_, &st); if (r == 0) { mc_fail(__VA_ARGS__); } } while (0)
        RESET(); r = op(d, a, false, 0, key, iv, ivl, aad, al, ct, pl, NULL, 0, OUT, t, tl, tl, &st); MC_CHECK(r == 0, "%s genuine message refused %x stage %d", a->n, r, st);
        for (uint32_t i = 0; i < tl * 8; i++) { RESET(); t[i / 8] ^= 1 << i % 8; TRY(al, pl, ivl, tl, "%s: tag bit %u of %u flipped, accepted (aad %u len %u)", a->n, i, tl * 8, al, pl); }
        for (uint32_t i = 0; i < pl * 8; i++) { RESET(); ct[i / 8] ^= 1 << i % 8; TRY(al, pl, ivl, tl, "%s: ciphertext bit %u flipped, accepted (taglen %u)", a->n, i, tl); }
        for (uint32_t i = 0; i < al * 8; i++) { RESET(); aad[i / 8] ^= 1 << i % 8; TRY(al, pl, ivl, tl, "%s: aad bit %u flipped, accepted (taglen %u)", a->n, i, tl); }
        for (uint32_t i = 0; i < ivl * 8; i++) { RESET(); iv[i / 8] ^= 1 << i % 8; TRY(al, pl, ivl, tl, "%s: nonce bit %u flipped, accepted", a->n, i); }
        for (uint32_t i = 0; i < klen(a) * 8; i++) { RESET(); key[i / 8] ^= 1 << i % 8; TRY(al, pl, ivl, tl, "%s: key bit %u flipped, accepted", a->n, i); }
        for (uint32_t s = 1; s <= 17; s++) { if (s == tl) { continue; } RESET(); if (s > tl) { memset(t + tl, 0, 17 - tl); } TRY(al, pl, ivl, s, "%s: tag of %u bytes accepted where %u were configured", a->n, s, tl); }
        if (pl) { for (uint32_t s = 0; s < pl; s++) { RESET(); TRY(al, s, ivl, tl, "%s: ciphertext truncated to %u of %u, accepted", a->n, s, pl); } }
        if (al) { for (uint32_t s = 0; s < al; s++) { RESET(); TRY(s, pl, ivl, tl, "%s: aad truncated to %u of %u, accepted", a->n, s, al); } }
        RESET(); ct[pl] = 0; TRY(al, pl + 1, ivl, tl, "%s: ciphertext with a zero byte appended, accepted", a->n);
        RESET(); aad[al] = 0; TRY(al + 1, pl, ivl, tl, "%s: aad with a zero byte appended, accepted", a->n);
        if (al && pl) { RESET(); memmove(ct + 1, ct, pl); ct[0] = aad[al - 1]; TRY(al - 1, pl + 1, ivl, tl, "%s: aad byte moved to ciphertext, accepted", a->n); }
        RESET(); memset(t, 0, 16); TRY(al, pl, ivl, tl, "%s: zero tag accepted", a->n);
        /* a tag verified for one message must not validate the next one on the same context */
        RESET(); r = op(d, a, false, 0, key, iv, ivl, aad, al, ct, pl, NULL, 0, OUT, t, tl, tl, &st);
        if (!r) { iv[0] ^= 1; r = CRYPT_EAL_CipherReinit(d, iv, ivl); uint64_t ml = pl; uint32_t ol = 16, o2 = pl + 16;
            if (!r && a->mode != CP) { r = CRYPT_EAL_CipherCtrl(d, CRYPT_CTRL_SET_TAGLEN, &tl, 4); } if (!r && a->mode == CCM) { r = CRYPT_EAL_CipherCtrl(d, CRYPT_CTRL_SET_MSGLEN, &ml, 8); } if (!r && al) { r = CRYPT_EAL_CipherCtrl(d, CRYPT_CTRL_SET_AAD, aad, al); }
            if (!r && pl) { r = CRYPT_EAL_CipherUpdate(d, ct, pl, OUT, &o2); } if (!r) { r = CRYPT_EAL_CipherFinal(d, OUT, &ol); } MC_CHECK(r != 0, "%s: message without expected tag accepted after reinit", a->n); }
        mc_outcome(rt, tl); CRYPT_EAL_CipherFreeCtx(d);
    } } } }
}
static void wraps(void)
{
    mc_space("wrap");
    static const struct { int id, blk, pad; } W[] = {{CRYPT_CIPHER_AES128_WRAP_NOPAD, 128, 0}, {CRYPT_CIPHER_AES192_WRAP_NOPAD, 192, 0}, {CRYPT_CIPHER_AES256_WRAP_NOPAD, 256, 0}, {CRYPT_CIPHER_AES128_WRAP_PAD, 128, 1}, {CRYPT_CIPHER_AES192_WRAP_PAD, 192, 1}, {CRYPT_CIPHER_AES256_WRAP_PAD, 256, 1}};
    for (int k = 0; k < 6; k++) { for (uint32_t n = 1; n <= 64; n++) {
        if (!W[k].pad && (n % 8 || n < 16)) { continue; } if (!mc_case("wrap blk=%d pad=%d len=%u", W[k].blk, W[k].pad, n)) { continue; }
        RefBlk b; ref_blk_init(&b, W[k].blk, K); int wl = ref_wrap(&b, W[k].pad, IV, PT, n, CT); uint32_t ivl = W[k].pad ? 4 : 8;
        CRYPT_EAL_CipherCtx *d = CRYPT_EAL_CipherNewCtx(W[k].id); uint8_t w[128], key[32], iv[8]; int32_t r; uint32_t ol;
#define UNW(len) (ol = 128, r = CRYPT_EAL_CipherInit(d, key, ref_keylen(W[k].blk), iv, ivl, false), r ? r : (r = CRYPT_EAL_CipherUpdate(d, w, len, OUT, &ol)), mc_transitions(2), r)
#define WR() memcpy(w, CT, wl); memset(w + wl, 0, 16); memcpy(key, K, 32); memcpy(iv, IV, 8)
        WR(); UNW(wl); MC_CHECK(r == 0 && ol == n && !memcmp(OUT, PT, n), "unwrap of genuine data: ret %x len %u", r, ol);
        for (int i = 0; i < wl * 8; i++) { WR(); w[i / 8] ^= 1 << i % 8; MC_CHECK(UNW(wl) != 0, "unwrap accepted data with bit %d flipped", i); }
        for (uint32_t i = 0; i < ivl * 8; i++) { WR(); iv[i / 8] ^= 1 << i % 8; MC_CHECK(UNW(wl) != 0, "unwrap accepted iv with bit %d flipped", i); }
        for (int i = 0; i < ref_keylen(W[k].blk) * 8; i++) { WR(); key[i / 8] ^= 1 << i % 8; MC_CHECK(UNW(wl) != 0, "unwrap accepted key with bit %d flipped", i); }
        for (int l = 0; l < wl + 16; l++) { if (l == wl) { continue; } WR(); MC_CHECK(UNW(l) != 0, "unwrap accepted %d bytes of %d", l, wl); }
        CRYPT_EAL_CipherFreeCtx(d);
    } }
}
typedef struct { uint8_t encap[200], info[24], psk[40], pskid[12], apub[200]; uint32_t encl, infol, pskl, pskidl, apubl; } HP;
static int32_t hp_recv(CRYPT_EAL_HpkeCtx **o, int mode, CRYPT_HPKE_CipherSuite cs, CRYPT_EAL_PkeyCtx *sk, HP *h)
{
    CRYPT_EAL_HpkeCtx *c = CRYPT_EAL_HpkeNewCtx(NULL, NULL, CRYPT_HPKE_RECIPIENT, mode, cs); *o = c; if (!c) { mc_fatal("hpke ctx"); }
    int32_t r = 0; if (mode & 1) { r = CRYPT_EAL_HpkeSetPsk(c, h->psk, h->pskl, h->pskid, h->pskidl); } if (!r && (mode & 2)) { r = CRYPT_EAL_HpkeSetAuthPubKey(c, h->apub, h->apubl); }
    return r ? r : CRYPT_EAL_HpkeSetupRecipient(c, sk, h->info, h->infol, h->encap, h->encl);
}
static uint32_t getpub(CRYPT_EAL_PkeyCtx *k, int kem, uint8_t *o)
{
    CRYPT_EAL_PkeyPub p = {0}; p.id = CRYPT_EAL_PkeyGetId(k); p.key.eccPub.data = o; p.key.eccPub.len = 200; (void)kem;
    if (CRYPT_EAL_PkeyGetPub(k, &p)) { mc_fatal("getpub"); } return p.key.eccPub.len;
}
static void hpke(void)
{
    mc_space("hpke");
    static const int kems[] = {0x10, 0x11, 0x12, 0x20}; mc_case_cost(60);
    for (int mode = 0; mode < 4; mode++) { for (int ki = 0; ki < 4; ki++) { for (int kdf = 1; kdf <= 3; kdf++) { for (int ae = 1; ae <= 3; ae++) {
        bool rep = mc_thorough || (kdf == 1 + (ki + ae) % 3); if (!rep) { continue; }
        if (!mc_case("hpke mode=%d kem=%x kdf=%d aead=%d", mode, kems[ki], kdf, ae)) { continue; }
        CRYPT_HPKE_CipherSuite cs = {kems[ki], kdf, ae}; CRYPT_EAL_PkeyCtx *rk = NULL, *ak = NULL, *ak2 = NULL, *rk2 = NULL; uint8_t ikm[80]; mc_fill(ikm, 80, 7); mc_rand_reseed(99);
        int32_t r = CRYPT_EAL_HpkeGenerateKeyPair(NULL, NULL, cs, ikm, 66, &rk); ikm[0] ^= 1; r |= CRYPT_EAL_HpkeGenerateKeyPair(NULL, NULL, cs, ikm, 66, &ak); ikm[0] ^= 2; r |= CRYPT_EAL_HpkeGenerateKeyPair(NULL, NULL, cs, ikm, 66, &ak2); ikm[0] ^= 4; r |= CRYPT_EAL_HpkeGenerateKeyPair(NULL, NULL, cs, ikm, 66, &rk2); if (r) { mc_fatal("hpke keygen %x", r); }
        HP h, g; memset(&h, 0, sizeof h); mc_fill(h.info, 24, 1); h.infol = 20; mc_fill(h.psk, 40, 2); h.pskl = 32; mc_fill(h.pskid, 12, 3); h.pskidl = 9; h.apubl = getpub(ak, kems[ki], h.apub); h.encl = 200;
        uint8_t pkr[200]; uint32_t pkrl = getpub(rk, kems[ki], pkr);
        CRYPT_EAL_HpkeCtx *s = CRYPT_EAL_HpkeNewCtx(NULL, NULL, CRYPT_HPKE_SENDER, mode, cs), *d;
        if (mode & 1) { r |= CRYPT_EAL_HpkeSetPsk(s, h.psk, h.pskl, h.pskid, h.pskidl); } if (mode & 2) { r |= CRYPT_EAL_HpkeSetAuthPriKey(s, ak); }
        r |= CRYPT_EAL_HpkeSetupSender(s, NULL, h.info, h.infol, pkr, pkrl, h.encap, &h.encl); if (r) { mc_fail("hpke sender set-up %x", r); goto end; }
        uint8_t c[4][100], o[120], ad[16], e1[40], e2[40]; uint32_t cl[4], ol; mc_fill(ad, 16, 5);
        for (int i = 0; i < 4; i++) { cl[i] = 100; r = CRYPT_EAL_HpkeSeal(s, ad, i ? 16 : 0, PT + i, 10 + 17 * (i % 3) + i / 3, c[i], &cl[i]); if (r) { mc_fail("seal %x", r); goto end; } }
        r = CRYPT_EAL_HpkeExportSecret(s, ad, 5, e1, 40);
#define OPEN(i, AD, ADL, C, CL) (ol = 120, r = CRYPT_EAL_HpkeOpen(d, AD, ADL, C, CL, o, &ol), mc_transitions(1), r)
        g = h; r = hp_recv(&d, mode, cs, rk, &g); MC_CHECK(r == 0, "recipient set-up %x", r);
        for (int i = 0; i < 4; i++) { uint32_t n = 10 + 17 * (i % 3) + i / 3;
            for (uint32_t p = 0; p < cl[i]; p++) { uint8_t x[100]; memcpy(x, c[i], 100); x[p] ^= 1 << p % 8; MC_CHECK(OPEN(i, ad, i ? 16 : 0, x, cl[i]) != 0, "hpke opened message %d with byte %u altered", i, p); }
            for (uint32_t p = 0; p < cl[i]; p++) { MC_CHECK(OPEN(i, ad, i ? 16 : 0, c[i], p) != 0, "hpke opened message %d truncated to %u", i, p); }
            for (int p = 0; i && p < 16; p++) { uint8_t x[16]; memcpy(x, ad, 16); x[p] ^= 1 << p % 8; MC_CHECK(OPEN(i, x, 16, c[i], cl[i]) != 0, "hpke opened message %d with altered aad", i); }
            for (int j = 0; j < 4; j++) { if (j != i) { MC_CHECK(OPEN(i, ad, j ? 16 : 0, c[j], cl[j]) != 0, "hpke opened message %d in place of %d", j, i); } }
            MC_CHECK(OPEN(i, ad, i ? 16 : 0, c[i], cl[i]) == 0 && ol == n && !memcmp(o, PT + i, n), "hpke message %d not opened after failed attempts: %x", i, r); }
        for (int i = 3; i >= 0; i--) { uint32_t n = 10 + 17 * (i % 3) + i / 3; CRYPT_EAL_HpkeSetSeq(d, i); MC_CHECK(OPEN(i, ad, i ? 16 : 0, c[i], cl[i]) == 0 && ol == n && !memcmp(o, PT + i, n), "hpke message %d not opened at its sequence number %x", i, r); }
        {   /* every sequence number is part of the nonce: each message opens under its own number only */
            static uint8_t q[66][40]; uint32_t ql[66]; uint64_t sn[66]; int nq = 0; for (int i = 0; i < 63; i++) { sn[nq++] = 1ull << i; } sn[nq++] = 0; sn[nq++] = ~0ull - 1; sn[nq++] = 0xffffffffull;
            for (int i = 0; i < nq; i++) { ql[i] = 40; r = CRYPT_EAL_HpkeSetSeq(s, sn[i]); MC_CHECK(r == 0, "set sequence number %llx: %x", (unsigned long long)sn[i], r); r = CRYPT_EAL_HpkeSeal(s, ad, 3, PT, 20, q[i], &ql[i]); MC_CHECK(r == 0, "seal at %llx: %x", (unsigned long long)sn[i], r); }
            for (int i = 0; i < nq; i++) { for (int j = 0; j < nq; j++) { CRYPT_EAL_HpkeSetSeq(d, sn[j]); int32_t e = OPEN(0, ad, 3, q[i], ql[i]); MC_CHECK((e == 0) == (i == j), "hpke message of sequence number %llx opened at %llx: %x", (unsigned long long)sn[i], (unsigned long long)sn[j], e); } }
        }
        r = CRYPT_EAL_HpkeExportSecret(d, ad, 5, e2, 40); MC_CHECK(r == 0 && !memcmp(e1, e2, 40), "exported secrets differ");
        r = CRYPT_EAL_HpkeExportSecret(d, ad, 6, e2, 40); MC_CHECK(r != 0 || memcmp(e1, e2, 40), "exported secret does not depend on the context");
        CRYPT_EAL_HpkeFreeCtx(d); mc_outcome(e1, 40);
#define BADR(KEY, ...) do { r = hp_recv(&d, mode, cs, KEY, &g); if (r == 0) { MC_CHECK(OPEN(0, ad, 0, c[0], cl[0]) != 0, __VA_ARGS__); r = CRYPT_EAL_HpkeExportSecret(d, ad, 5, e2, 40); MC_CHECK(r != 0 || memcmp(e1, e2, 40), __VA_ARGS__); } CRYPT_EAL_HpkeFreeCtx(d); } while (0)
        for (uint32_t p = 0; p < h.encl; p += (mc_thorough ? 1 : 5)) { g = h; g.encap[p] ^= 1 << p % 8; BADR(rk, "hpke opened with altered encapsulated key byte %u", p); }
        g = h; g.encl--; BADR(rk, "hpke opened with a truncated encapsulated key");
        for (uint32_t p = 0; p < h.infol; p += 3) { g = h; g.info[p] ^= 1; BADR(rk, "hpke opened with altered info"); }
        g = h; g.infol--; BADR(rk, "hpke opened with shorter info"); g = h; g.infol++; BADR(rk, "hpke opened with longer info");
        g = h; BADR(rk2, "hpke opened with another key");
        if (mode & 1) { for (uint32_t p = 0; p < h.pskl; p += 5) { g = h; g.psk[p] ^= 1; BADR(rk, "hpke opened with altered psk"); } for (uint32_t p = 0; p < h.pskidl; p += 3) { g = h; g.pskid[p] ^= 1; BADR(rk, "hpke opened with altered psk id"); } g = h; g.pskl--; BADR(rk, "hpke opened with shorter psk"); }
        if (mode & 2) { g = h; g.apubl = getpub(ak2, kems[ki], g.apub); BADR(rk, "hpke opened with another sender key"); }
        for (int m2 = 0; m2 < 4; m2++) { if (m2 == mode) { continue; } g = h; r = hp_recv(&d, m2, cs, rk, &g); if (r == 0) { MC_CHECK(OPEN(0, ad, 0, c[0], cl[0]) != 0, "hpke mode %d opened a message of mode %d", m2, mode); } CRYPT_EAL_HpkeFreeCtx(d); }
        for (int k2 = 1; k2 <= 3; k2++) { for (int a2 = 1; a2 <= 3; a2++) { if (k2 == kdf && a2 == ae) { continue; } CRYPT_HPKE_CipherSuite c2 = {kems[ki], k2, a2}; g = h; r = hp_recv(&d, mode, c2, rk, &g); if (r == 0) { MC_CHECK(OPEN(0, ad, 0, c[0], cl[0]) != 0, "hpke suite kdf %d aead %d opened another suite's message", k2, a2); } CRYPT_EAL_HpkeFreeCtx(d); } }
end:    CRYPT_EAL_HpkeFreeCtx(s); CRYPT_EAL_PkeyFreeCtx(rk); CRYPT_EAL_PkeyFreeCtx(ak); CRYPT_EAL_PkeyFreeCtx(ak2); CRYPT_EAL_PkeyFreeCtx(rk2);
    } } } }
    mc_case_cost(20);
}
void mc_explore(void)
{
    hx_init(); mc_fill(K, sizeof K, 1); mc_fill(IV, sizeof IV, 2); mc_fill(AAD, sizeof AAD, 3); mc_fill(PT, sizeof PT, 4);
    vectors(); forge(); wraps(); hpke();
}
