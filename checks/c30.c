/* C30: key derivation functions against reference definitions, over all lengths within bounds, and every parameter-setting order up to a depth. */
#include "hx.h"
#include "crypt_params_key.h"
typedef struct { int mac; RefMd md; const char *name; } M;
static const M macs[] = {{CRYPT_MAC_HMAC_SHA256, R_SHA256, "sha256"}, {CRYPT_MAC_HMAC_SHA512, R_SHA512, "sha512"}, {CRYPT_MAC_HMAC_SHA384, R_SHA384, "sha384"}, {CRYPT_MAC_HMAC_SM3, R_SM3, "sm3"}, {CRYPT_MAC_HMAC_SHA1, R_SHA1, "sha1"}, {CRYPT_MAC_HMAC_MD5, R_MD5, "md5"}, {CRYPT_MAC_HMAC_SHA224, R_SHA224, "sha224"},
    {CRYPT_MAC_HMAC_SHA3_224, R_SHA3_224, "sha3-224"}, {CRYPT_MAC_HMAC_SHA3_256, R_SHA3_256, "sha3-256"}, {CRYPT_MAC_HMAC_SHA3_384, R_SHA3_384, "sha3-384"}, {CRYPT_MAC_HMAC_SHA3_512, R_SHA3_512, "sha3-512"}};
static uint8_t K[70000], SA[70000], IN[70000];
#define BP(k, p, n) {k, BSL_PARAM_TYPE_OCTETS, (void *)(p), n, 0}
#define UP(k, v) {k, BSL_PARAM_TYPE_UINT32, &(uint32_t){v}, 4, 0}
#define END BSL_PARAM_END
static uint8_t out[70000], ref[70000];
static void cmp(int32_t r, size_t n, const char *what)
{
    if (r) { mc_fail("%s: failed with %x", what, r); return; }
    if (memcmp(out, ref, n)) { size_t i = 0; while (out[i] == ref[i]) { i++; } mc_fail("%s: byte %zu of %zu differs: %s, definition gives %s", what, i, n, mc_hex(out + i, n - i > 16 ? 16 : n - i), mc_hex(ref + i, n - i > 16 ? 16 : n - i)); return; }
    for (int i = 0; i < 8; i++) { if (out[n + i] != 0xa5) { mc_fail("%s: wrote beyond the requested length", what); return; } }
    mc_outcome(out, n); mc_transitions(1); mc_trace(1);
}
static void r_hkdf(RefMd m, int mode, size_t kl, size_t sl, size_t il, size_t ol)
{
    uint8_t prk[64]; size_t h = ref_mdlen(m);
    if (mode == CRYPT_KDF_HKDF_MODE_EXTRACT) { ref_hkdf_extract(m, SA, sl, K, kl, ref); return; }
    if (mode == CRYPT_KDF_HKDF_MODE_EXPAND) { ref_hkdf_expand(m, K, kl, IN, il, ref, ol); return; }
    ref_hkdf_extract(m, SA, sl, K, kl, prk); ref_hkdf_expand(m, prk, h, IN, il, ref, ol);
}
static uint32_t g_h;
static int32_t d_hkdf(int mac, int mode, size_t kl, size_t sl, size_t il, uint32_t ol)
{
    CRYPT_EAL_KdfCtx *c = CRYPT_EAL_KdfNewCtx(CRYPT_KDF_HKDF); if (!c) { mc_fatal("hkdf ctx"); }
    uint32_t ex = ol; BSL_Param p[] = {UP(CRYPT_PARAM_KDF_MAC_ID, mac), UP(CRYPT_PARAM_KDF_MODE, mode), BP(mode == CRYPT_KDF_HKDF_MODE_EXPAND ? CRYPT_PARAM_KDF_PRK : CRYPT_PARAM_KDF_KEY, K, kl), BP(CRYPT_PARAM_KDF_SALT, SA, sl), BP(CRYPT_PARAM_KDF_INFO, IN, il), {CRYPT_PARAM_KDF_EXLEN, BSL_PARAM_TYPE_UINT32_PTR, &ex, 4, 0}, END};
    memset(out, 0xa5, ol + 64); int32_t r = CRYPT_EAL_KdfSetParam(c, p); if (!r) { r = CRYPT_EAL_KdfDerive(c, out, ol); }
    if (!r && mode == CRYPT_KDF_HKDF_MODE_EXTRACT && ex != g_h) { mc_fail("extract reports length %u", ex); }
    CRYPT_EAL_KdfFreeCtx(c); return r;
}
static int32_t d_pb(int mac, size_t pl, size_t sl, uint32_t it, uint32_t ol)
{
    CRYPT_EAL_KdfCtx *c = CRYPT_EAL_KdfNewCtx(CRYPT_KDF_PBKDF2); BSL_Param p[] = {UP(CRYPT_PARAM_KDF_MAC_ID, mac), BP(CRYPT_PARAM_KDF_PASSWORD, K, pl), BP(CRYPT_PARAM_KDF_SALT, SA, sl), UP(CRYPT_PARAM_KDF_ITER, it), END};
    memset(out, 0xa5, ol + 64); int32_t r = CRYPT_EAL_KdfSetParam(c, p); if (!r) { r = CRYPT_EAL_KdfDerive(c, out, ol); } CRYPT_EAL_KdfFreeCtx(c); return r;
}
static int32_t d_sc(size_t pl, size_t sl, uint32_t N, uint32_t R, uint32_t P, uint32_t ol)
{
    CRYPT_EAL_KdfCtx *c = CRYPT_EAL_KdfNewCtx(CRYPT_KDF_SCRYPT); BSL_Param p[] = {BP(CRYPT_PARAM_KDF_PASSWORD, K, pl), BP(CRYPT_PARAM_KDF_SALT, SA, sl), UP(CRYPT_PARAM_KDF_N, N), UP(CRYPT_PARAM_KDF_R, R), UP(CRYPT_PARAM_KDF_P, P), END};
    memset(out, 0xa5, ol + 64); int32_t r = CRYPT_EAL_KdfSetParam(c, p); if (!r) { r = CRYPT_EAL_KdfDerive(c, out, ol); } CRYPT_EAL_KdfFreeCtx(c); return r;
}
static int32_t d_prf(int mac, size_t kl, const char *label, size_t ll, size_t sl, uint32_t ol)
{
    CRYPT_EAL_KdfCtx *c = CRYPT_EAL_KdfNewCtx(CRYPT_KDF_KDFTLS12); BSL_Param p[] = {UP(CRYPT_PARAM_KDF_MAC_ID, mac), BP(CRYPT_PARAM_KDF_KEY, K, kl), BP(CRYPT_PARAM_KDF_LABEL, label, ll), BP(CRYPT_PARAM_KDF_SEED, SA, sl), END};
    memset(out, 0xa5, ol + 64); int32_t r = CRYPT_EAL_KdfSetParam(c, p); if (!r) { r = CRYPT_EAL_KdfDerive(c, out, ol); } CRYPT_EAL_KdfFreeCtx(c); return r;
}
/* ---- histories: every sequence of parameter settings, derivations and resets ---- */
typedef struct { int alg; int mac; int mode; int kl, sl, il, prkl; uint32_t it, N, R, P; } St;
enum { O_MACA, O_MACB, O_MACBAD, O_KEY1, O_KEY2, O_SALT1, O_SALT2, O_INFO1, O_INFO2, O_PRK, O_MODEF, O_MODEX, O_MODEE, O_ITER, O_N, O_DUP, O_DEINIT, O_D17, O_D80, O_BADDERIVE };
static const char *opn[] = {"macA", "macB", "macBad", "key1", "key2", "salt1", "salt2", "info1", "info2", "prk", "full", "extract", "expand", "iter", "N", "dup", "deinit", "derive17", "derive80", "derive0"};
static const int alH[] = {O_MACA, O_MACB, O_MACBAD, O_KEY1, O_KEY2, O_SALT1, O_SALT2, O_INFO1, O_INFO2, O_PRK, O_MODEF, O_MODEE, O_DUP, O_DEINIT, O_D17, O_D80, O_BADDERIVE};
static const int alP[] = {O_MACA, O_MACB, O_MACBAD, O_KEY1, O_KEY2, O_SALT1, O_SALT2, O_ITER, O_DUP, O_DEINIT, O_D17, O_D80, O_BADDERIVE};
static const int alT[] = {O_MACA, O_MACB, O_MACBAD, O_KEY1, O_KEY2, O_SALT1, O_SALT2, O_INFO1, O_INFO2, O_DUP, O_DEINIT, O_D17, O_D80, O_BADDERIVE};
static const int alS[] = {O_KEY1, O_KEY2, O_SALT1, O_SALT2, O_N, O_DUP, O_DEINIT, O_D17, O_D80, O_BADDERIVE};
static int32_t set1(CRYPT_EAL_KdfCtx *c, BSL_Param q) { BSL_Param p[] = {q, END}; return CRYPT_EAL_KdfSetParam(c, p); }
static void model(const St *s, size_t n)
{
    RefMd m = s->mac == 1 ? R_SHA256 : R_SHA512; memset(ref, 0, n);
    if (s->alg == CRYPT_KDF_HKDF) { if (s->mode == 2) { ref_hkdf_expand(m, IN + 500, s->prkl, IN, s->il, ref, n); } else { uint8_t prk[64]; ref_hkdf_extract(m, SA, s->sl, K, s->kl, prk); ref_hkdf_expand(m, prk, ref_mdlen(m), IN, s->il, ref, n); } }
    else if (s->alg == CRYPT_KDF_PBKDF2) { ref_pbkdf2(m, K, s->kl, SA, s->sl, s->it, ref, n); }
    else if (s->alg == CRYPT_KDF_KDFTLS12) { char lab[64]; memcpy(lab, IN, s->il); lab[s->il] = 0; ref_prf12(m, K, s->kl, lab, SA, s->sl, ref, n); }
    else { ref_scrypt(K, s->kl, SA, s->sl, s->N, s->R, s->P, ref, n); }
}
static void history(int alg, const char *name, const int *seq, int n)
{
    CRYPT_EAL_KdfCtx *c = CRYPT_EAL_KdfNewCtx(alg), *old = NULL; St s = {.alg = alg}, so = s; if (!c) { mc_fatal("ctx"); }
    /* a complete, usable base set of parameters is in force at the start */
    if (alg != CRYPT_KDF_SCRYPT) { set1(c, (BSL_Param)UP(CRYPT_PARAM_KDF_MAC_ID, CRYPT_MAC_HMAC_SHA256)); s.mac = 1; }
    if (alg == CRYPT_KDF_HKDF) { set1(c, (BSL_Param)UP(CRYPT_PARAM_KDF_MODE, CRYPT_KDF_HKDF_MODE_FULL)); s.mode = 1; }
    if (alg == CRYPT_KDF_PBKDF2) { set1(c, (BSL_Param)UP(CRYPT_PARAM_KDF_ITER, 2)); s.it = 2; }
    if (alg == CRYPT_KDF_SCRYPT) { BSL_Param p[] = {UP(CRYPT_PARAM_KDF_N, 4), UP(CRYPT_PARAM_KDF_R, 1), UP(CRYPT_PARAM_KDF_P, 2), END}; CRYPT_EAL_KdfSetParam(c, p); s.N = 4; s.R = 1; s.P = 2; }
    int kid = alg == CRYPT_KDF_PBKDF2 || alg == CRYPT_KDF_SCRYPT ? CRYPT_PARAM_KDF_PASSWORD : CRYPT_PARAM_KDF_KEY, sid = alg == CRYPT_KDF_KDFTLS12 ? CRYPT_PARAM_KDF_SEED : CRYPT_PARAM_KDF_SALT, iid = alg == CRYPT_KDF_KDFTLS12 ? CRYPT_PARAM_KDF_LABEL : CRYPT_PARAM_KDF_INFO;
    for (int i = 0; i < n + 2 && !mc_failed(); i++) {
        int32_t r = 0; int o = i < n ? seq[i] : i == n ? O_D80 : -1; bool der = false; uint32_t dl = 0;
        if (o == -1) { if (!old) { break; } CRYPT_EAL_KdfFreeCtx(c); c = old; old = NULL; s = so; o = O_D80; }   /* finally the source of the last duplication */
        switch (o) {
            case O_MACA: case O_MACB: r = set1(c, (BSL_Param)UP(CRYPT_PARAM_KDF_MAC_ID, o == O_MACA ? CRYPT_MAC_HMAC_SHA256 : CRYPT_MAC_HMAC_SHA512)); if (!r) { s.mac = o == O_MACA ? 1 : 2; } break;
            case O_MACBAD: r = set1(c, (BSL_Param)UP(CRYPT_PARAM_KDF_MAC_ID, CRYPT_MAC_CMAC_AES128)); if (!r) { mc_fail("step %d: unusable MAC accepted", i); } r = 0; break;
            case O_KEY1: case O_KEY2: { int l = o == O_KEY1 ? 11 : 150; r = set1(c, (BSL_Param)BP(kid, K, l)); if (!r) { s.kl = l; } break; }
            case O_SALT1: case O_SALT2: { int l = o == O_SALT1 ? 5 : 40; r = set1(c, (BSL_Param)BP(sid, SA, l)); if (!r) { s.sl = l; } break; }
            case O_INFO1: case O_INFO2: { int l = o == O_INFO1 ? 3 : 20; r = set1(c, (BSL_Param)BP(iid, IN, l)); if (!r) { s.il = l; } break; }
            case O_PRK: r = set1(c, (BSL_Param)BP(CRYPT_PARAM_KDF_PRK, IN + 500, 33)); if (!r) { s.prkl = 33; } break;
            case O_MODEF: r = set1(c, (BSL_Param)UP(CRYPT_PARAM_KDF_MODE, CRYPT_KDF_HKDF_MODE_FULL)); s.mode = 1; break;
            case O_MODEE: r = set1(c, (BSL_Param)UP(CRYPT_PARAM_KDF_MODE, CRYPT_KDF_HKDF_MODE_EXPAND)); s.mode = 2; break;
            case O_ITER: r = set1(c, (BSL_Param)UP(CRYPT_PARAM_KDF_ITER, 5)); s.it = 5; break;
            case O_N: r = set1(c, (BSL_Param)UP(CRYPT_PARAM_KDF_N, 8)); s.N = 8; break;
            case O_DUP: { CRYPT_EAL_KdfCtx *d = CRYPT_EAL_KdfDupCtx(c); if (!d) { mc_fail("step %d: duplication failed", i); break; } CRYPT_EAL_KdfFreeCtx(old); old = c; so = s; c = d; break; }
            case O_DEINIT: r = CRYPT_EAL_KdfDeInitCtx(c); s.mac = 0; s.mode = 0; s.kl = s.sl = s.il = s.prkl = 0; s.it = s.N = s.R = s.P = 0; break;
            case O_D17: der = true; dl = 17; break; case O_D80: der = true; dl = 80; break;
            case O_BADDERIVE: r = CRYPT_EAL_KdfDerive(c, out, 0); if (!r) { mc_fail("step %d: derivation of zero bytes succeeded", i); } r = 0; break;
            default: break;
        }
        if (r) { mc_fail("step %d (%s) failed with %x", i, opn[o], r); break; }
        if (der) {
            memset(out, 0xa5, 200); r = CRYPT_EAL_KdfDerive(c, out, dl);
            bool complete = alg == CRYPT_KDF_SCRYPT ? s.N && s.R && s.P : s.mac && (alg != CRYPT_KDF_HKDF || s.mode) && (alg != CRYPT_KDF_PBKDF2 || s.it);
            if (!complete) { if (!r && alg != CRYPT_KDF_HKDF) { mc_fail("step %d: derivation succeeds with incomplete parameters", i); } if (!r && alg == CRYPT_KDF_HKDF && s.mac == 0) { mc_fail("step %d: derivation succeeds without a MAC", i); } }
            else { model(&s, dl); char w[40]; snprintf(w, sizeof w, "%s step %d", name, i); cmp(r, dl, w); }
        }
        mc_transitions(1);
    }
    mc_state(mc_hash(&s, sizeof s)); mc_trace(1); CRYPT_EAL_KdfFreeCtx(c); CRYPT_EAL_KdfFreeCtx(old); BSL_ERR_ClearError();
}
static void hist_all(int alg, const char *name, const int *al, int nal, int depth)
{
    int seq[8], idx[8];
    for (int n = 1; n <= depth; n++) {
        memset(idx, 0, sizeof idx);
        for (;;) {
            char d[160]; int k = 0; for (int i = 0; i < n; i++) { seq[i] = al[idx[i]]; k += snprintf(d + k, sizeof d - k, " %s", opn[seq[i]]); }
            if (mc_case("history %s%s", name, d)) { history(alg, name, seq, n); }
            int i = n - 1; while (i >= 0 && ++idx[i] == nal) { idx[i--] = 0; }
            if (i < 0) { break; }
        }
    }
}
void mc_explore(void)
{
    hx_init(); mc_fill(K, sizeof K, 30); mc_fill(SA, sizeof SA, 31); mc_fill(IN, sizeof IN, 32); char lab[256]; for (int i = 0; i < 255; i++) { lab[i] = 'a' + i % 23; } lab[255] = 0;
    int big = mc_thorough ? 300 : 146;
    for (unsigned m = 0; m < MC_LEN(macs); m++) {
        RefMd R = macs[m].md; uint32_t h = ref_mdlen(R); g_h = h; const char *nm = macs[m].name;
        if (m < 7) {
        {
            int32_t probe = d_hkdf(macs[m].mac, CRYPT_KDF_HKDF_MODE_FULL, 4, 4, 4, 16);
            mc_space("hkdf lengths");
            if (probe == 0) {
                for (int kl = 0; kl < big; kl++) { for (int f = 0; f < 7; f++) { static const int sls[] = {0, 1, 20, 63, 64, 65, 129}; if (mc_case("hkdf %s key %d salt %d", nm, kl, sls[f])) { r_hkdf(R, CRYPT_KDF_HKDF_MODE_EXTRACT, kl, sls[f], 0, h); cmp(d_hkdf(macs[m].mac, CRYPT_KDF_HKDF_MODE_EXTRACT, kl, sls[f], 0, h), h, "extract"); r_hkdf(R, CRYPT_KDF_HKDF_MODE_FULL, kl, sls[f], 9, h + 3); cmp(d_hkdf(macs[m].mac, CRYPT_KDF_HKDF_MODE_FULL, kl, sls[f], 9, h + 3), h + 3, "full"); r_hkdf(R, CRYPT_KDF_HKDF_MODE_EXPAND, kl, 0, sls[f], 2 * h); cmp(d_hkdf(macs[m].mac, CRYPT_KDF_HKDF_MODE_EXPAND, kl, 0, sls[f], 2 * h), 2 * h, "expand"); } } }
                for (int sl = 0; sl < big; sl++) { if (mc_case("hkdf %s saltlen %d", nm, sl)) { r_hkdf(R, CRYPT_KDF_HKDF_MODE_FULL, 22, sl, 10, 42); cmp(d_hkdf(macs[m].mac, CRYPT_KDF_HKDF_MODE_FULL, 22, sl, 10, 42), 42, "full"); } if (mc_case("hkdf %s infolen %d", nm, sl)) { r_hkdf(R, CRYPT_KDF_HKDF_MODE_FULL, 22, 13, sl, 3 * h + 1); cmp(d_hkdf(macs[m].mac, CRYPT_KDF_HKDF_MODE_FULL, 22, 13, sl, 3 * h + 1), 3 * h + 1, "full"); } }
                for (uint32_t ol = 0; ol <= 4 * h + 2; ol++) { if (mc_case("hkdf %s out %u", nm, ol)) { int32_t r = d_hkdf(macs[m].mac, CRYPT_KDF_HKDF_MODE_EXPAND, h, 0, 7, ol); if (!ol) { MC_CHECK(r != 0, "zero-length output accepted"); } else { r_hkdf(R, CRYPT_KDF_HKDF_MODE_EXPAND, h, 0, 7, ol); cmp(r, ol, "expand"); } r = d_hkdf(macs[m].mac, CRYPT_KDF_HKDF_MODE_FULL, 30, 3, 7, ol); if (!ol) { MC_CHECK(r != 0, "zero-length output accepted"); } else { r_hkdf(R, CRYPT_KDF_HKDF_MODE_FULL, 30, 3, 7, ol); cmp(r, ol, "full"); } } }
                for (uint32_t ol = 250 * h; ol <= 255 * h + 40; ol += ol > 254 * h || mc_thorough ? 1 : 13) { if (mc_case("hkdf %s long %u", nm, ol)) { int32_t r = d_hkdf(macs[m].mac, CRYPT_KDF_HKDF_MODE_EXPAND, h, 0, 7, ol); if (ol > 255 * h) { MC_CHECK(r != 0, "output beyond 255 blocks accepted"); } else { r_hkdf(R, CRYPT_KDF_HKDF_MODE_EXPAND, h, 0, 7, ol); cmp(r, ol, "expand"); } } }
                for (uint32_t ex = 0; ex <= h + 4; ex++) { if (mc_case("hkdf %s extract out %u", nm, ex)) { int32_t r = d_hkdf(macs[m].mac, CRYPT_KDF_HKDF_MODE_EXTRACT, 9, 9, 0, ex); if (ex < h) { MC_CHECK(r != 0, "extract into a %u-byte buffer succeeded", ex); for (int i = 0; i < 64; i++) { if (out[ex + i] != 0xa5) { mc_fail("wrote past a %u-byte buffer", ex); break; } } } } }
            }
        } }
        mc_space("pbkdf2 lengths");
        if (d_pb(macs[m].mac, 4, 4, 1, 16) == 0) {
            for (int pl = 0; pl < big; pl++) { for (int f = 0; f < 4; f++) { static const int sls[] = {0, 8, 51, 60}; if (mc_case("pbkdf2 %s pass %d salt %d", nm, pl, sls[f])) { ref_pbkdf2(R, K, pl, SA, sls[f], 2, ref, h + 5); cmp(d_pb(macs[m].mac, pl, sls[f], 2, h + 5), h + 5, "pbkdf2"); } } }
            for (int sl = 0; sl < big; sl++) { if (mc_case("pbkdf2 %s saltlen %d", nm, sl)) { ref_pbkdf2(R, K, 10, SA, sl, 1, ref, 2 * h); cmp(d_pb(macs[m].mac, 10, sl, 1, 2 * h), 2 * h, "pbkdf2"); } }
            for (uint32_t ol = 0; ol <= 4 * h + 2; ol++) { if (mc_case("pbkdf2 %s out %u", nm, ol)) { int32_t r = d_pb(macs[m].mac, 12, 9, 3, ol); if (!ol) { MC_CHECK(r != 0, "zero-length output accepted"); } else { ref_pbkdf2(R, K, 12, SA, 9, 3, ref, ol); cmp(r, ol, "pbkdf2"); } } }
            for (uint32_t it = 0; it <= (mc_thorough ? 1100 : 70); it++) { if (mc_case("pbkdf2 %s iter %u", nm, it)) { int32_t r = d_pb(macs[m].mac, 12, 9, it, 20); if (!it) { MC_CHECK(r != 0, "zero iterations accepted"); } else { ref_pbkdf2(R, K, 12, SA, 9, it, ref, 20); cmp(r, 20, "pbkdf2"); } } }
            static const uint32_t lo[] = {255, 256, 257, 258, 511, 513}; for (int i = 0; i < 6; i++) { if (mc_case("pbkdf2 %s blocks %u", nm, lo[i])) { uint32_t ol = lo[i] * h - 3; ref_pbkdf2(R, K, 12, SA, 9, 1, ref, ol); cmp(d_pb(macs[m].mac, 12, 9, 1, ol), ol, "pbkdf2"); } }   /* block counter beyond one byte */
        }
        mc_space("tls12 prf lengths");
        if (d_prf(macs[m].mac, 4, "x", 1, 4, 16) == 0) {
            for (int kl = 0; kl < big; kl++) { if (mc_case("prf %s secret %d", nm, kl)) { ref_prf12(R, K, kl, "master secret", SA, 64, ref, 48); cmp(d_prf(macs[m].mac, kl, "master secret", 13, 64, 48), 48, "prf"); } }
            for (int sl = 0; sl < big; sl++) { if (mc_case("prf %s seed %d", nm, sl)) { ref_prf12(R, K, 48, "key expansion", SA, sl, ref, 104); cmp(d_prf(macs[m].mac, 48, "key expansion", 13, sl, 104), 104, "prf"); } }
            for (int ll = 0; ll < (mc_thorough ? 255 : 140); ll++) { if (mc_case("prf %s label %d", nm, ll)) { char t[256]; memcpy(t, lab, ll); t[ll] = 0; ref_prf12(R, K, 48, t, SA, 32, ref, 40); cmp(d_prf(macs[m].mac, 48, lab, ll, 32, 40), 40, "prf"); } }
            for (uint32_t ol = 0; ol <= 5 * h + 2; ol++) { if (mc_case("prf %s out %u", nm, ol)) { int32_t r = d_prf(macs[m].mac, 48, "label", 5, 32, ol); if (!ol) { MC_CHECK(r != 0, "zero-length output accepted"); } else { ref_prf12(R, K, 48, "label", SA, 32, ref, ol); cmp(r, ol, "prf"); } } }
        }
    }
    mc_space("scrypt");
    for (int n = 1; n <= (mc_thorough ? 8 : 6); n++) { for (uint32_t r = 1; r <= (mc_thorough ? 9 : 5); r++) { for (uint32_t p = 1; p <= 4; p++) { if (mc_case("scrypt N %u r %u p %u", 1u << n, r, p)) { ref_scrypt(K, 13, SA, 9, 1u << n, r, p, ref, 70); cmp(d_sc(13, 9, 1u << n, r, p, 70), 70, "scrypt"); } } } }
    for (int l = 0; l < 140; l++) { if (mc_case("scrypt pass %d", l)) { ref_scrypt(K, l, SA, 16, 4, 1, 1, ref, 33); cmp(d_sc(l, 16, 4, 1, 1, 33), 33, "scrypt"); } if (mc_case("scrypt salt %d", l)) { ref_scrypt(K, 7, SA, l, 4, 1, 2, ref, 33); cmp(d_sc(7, l, 4, 1, 2, 33), 33, "scrypt"); } if (mc_case("scrypt out %d", l)) { int32_t r = d_sc(7, 16, 4, 1, 1, l); if (!l) { MC_CHECK(r != 0, "zero-length output accepted"); } else { ref_scrypt(K, 7, SA, 16, 4, 1, 1, ref, l); cmp(r, l, "scrypt"); } } }
    for (uint32_t n = 0; n <= 70; n++) { for (uint32_t r = 0; r < 2; r++) { for (uint32_t p = 0; p < 2; p++) { bool ok = n >= 2 && !(n & (n - 1)) && r && p; if (mc_case("scrypt range N %u r %u p %u", n, r, p)) { int32_t e = d_sc(5, 5, n, r, p, 20); MC_CHECK((e == 0) == ok, "parameters N=%u r=%u p=%u %s", n, r, p, e ? "refused" : "accepted"); if (!e) { ref_scrypt(K, 5, SA, 5, n, r, p, ref, 20); cmp(0, 20, "scrypt"); } } } } }
    static const uint32_t badp[][3] = {{65536, 1, 1}, {1u << 31, 8, 1}, {2, 0x40000000, 1}, {2, 1, 0x40000000}, {2, 0x10000, 0x10000}, {2, 0x8000, 0x8000}, {16, 0xffffffff, 0xffffffff}, {1u << 20, 1u << 10, 1}, {2, 1u << 25, 1}, {4, 1u << 24, 1}};
    for (unsigned i = 0; i < MC_LEN(badp); i++) { if (mc_case("scrypt overflow %u %u %u", badp[i][0], badp[i][1], badp[i][2])) { MC_CHECK(d_sc(5, 5, badp[i][0], badp[i][1], badp[i][2], 20) != 0, "parameters outside the limits accepted"); } }
    mc_space("unknown mac"); for (int id = 0; id < 64; id++) { if (mc_case("mac id %d", id)) { int mac = BSL_CID_HMAC_MD5 - 20 + id; bool known = false; for (unsigned m = 0; m < MC_LEN(macs); m++) { known |= macs[m].mac == mac; } if (!known) { MC_CHECK(d_hkdf(mac, CRYPT_KDF_HKDF_MODE_FULL, 4, 4, 4, 16) && d_pb(mac, 4, 4, 1, 16) && d_prf(mac, 4, "x", 1, 4, 16), "MAC %d accepted", mac); } BSL_ERR_ClearError(); } }
    mc_space("histories"); int dep = mc_thorough ? 5 : 4;
    hist_all(CRYPT_KDF_HKDF, "hkdf", alH, MC_LEN(alH), mc_thorough ? 5 : 4); hist_all(CRYPT_KDF_PBKDF2, "pbkdf2", alP, MC_LEN(alP), dep); hist_all(CRYPT_KDF_KDFTLS12, "tls12", alT, MC_LEN(alT), dep); hist_all(CRYPT_KDF_SCRYPT, "scrypt", alS, MC_LEN(alS), dep);
}
