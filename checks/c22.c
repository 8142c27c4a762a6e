/* C22: stateful hash-based signatures: every history of operations on a key object, no one-time key used twice. */
#include "hx.h"
#include "crypt_params_key.h"

typedef struct { int alg, para; const char *name; RefMd md; int n, pad, h, d; } P;
static const P ps[] = {
    { CRYPT_PKEY_XMSSMT, CRYPT_XMSSMT_SHA2_20_4_192, "mt-sha2-20/4-192", R_SHA256, 24, 4, 20, 4 },
    { CRYPT_PKEY_XMSS, CRYPT_XMSS_SHA2_10_192, "sha2-10-192", R_SHA256, 24, 4, 10, 1 },
    { CRYPT_PKEY_XMSSMT, CRYPT_XMSSMT_SHA2_60_12_192, "mt-sha2-60/12-192", R_SHA256, 24, 4, 60, 12 },
    { CRYPT_PKEY_XMSSMT, CRYPT_XMSSMT_SHAKE_40_8_256, "mt-shake-40/8-256", R_SHAKE128, 32, 32, 40, 8 },
    { CRYPT_PKEY_XMSSMT, CRYPT_XMSSMT_SHA2_20_4_512, "mt-sha2-20/4-512", R_SHA512, 64, 64, 20, 4 },
    { CRYPT_PKEY_XMSSMT, CRYPT_XMSSMT_SHAKE256_20_4_192, "mt-shake256-20/4-192", R_SHAKE256, 24, 4, 20, 4 },
    { CRYPT_PKEY_XMSS, CRYPT_XMSS_SHA2_10_256, "sha2-10-256", R_SHA256, 32, 32, 10, 1 },
    { CRYPT_PKEY_XMSS, CRYPT_XMSS_SHAKE_10_256, "shake-10-256", R_SHAKE128, 32, 32, 10, 1 },
    { CRYPT_PKEY_XMSSMT, CRYPT_XMSSMT_SHA2_20_2_192, "mt-sha2-20/2-192", R_SHA256, 24, 4, 20, 2 },
};
/* ---------- independent verification (RFC 8391, SP 800-208) ---------- */
static void put32(uint8_t *p, uint32_t v) { p[0] = (uint8_t)(v >> 24); p[1] = (uint8_t)(v >> 16); p[2] = (uint8_t)(v >> 8); p[3] = (uint8_t)v; }
static void hsh(const P *p, uint32_t dom, const uint8_t *in, size_t n, uint8_t *out)
{
    static uint8_t b[4096]; uint8_t o[64];
    memset(b, 0, (size_t)p->pad); put32(b + p->pad - 4, dom); memcpy(b + p->pad, in, n);
    ref_md(p->md, b, n + (size_t)p->pad, o, (size_t)p->n); memcpy(out, o, (size_t)p->n);
}
static void prf(const P *p, const uint8_t *seed, uint8_t *a, uint32_t km, uint8_t *out) { uint8_t t[128]; put32(a + 28, km); memcpy(t, seed, (size_t)p->n); memcpy(t + p->n, a, 32); hsh(p, 3, t, (size_t)p->n + 32, out); }
static void F(const P *p, const uint8_t *seed, uint8_t *a, uint8_t *x)
{
    uint8_t t[128]; int n = p->n; prf(p, seed, a, 0, t); prf(p, seed, a, 1, t + n);
    for (int i = 0; i < n; i++) { t[n + i] ^= x[i]; }
    hsh(p, 0, t, 2 * (size_t)n, x);
}
static void RH(const P *p, const uint8_t *seed, uint8_t *a, const uint8_t *l, const uint8_t *r, uint8_t *out)
{
    uint8_t t[256]; int n = p->n; prf(p, seed, a, 0, t); prf(p, seed, a, 1, t + n); prf(p, seed, a, 2, t + 2 * n);
    for (int i = 0; i < n; i++) { t[n + i] ^= l[i]; t[2 * n + i] ^= r[i]; }
    hsh(p, 1, t, 3 * (size_t)n, out);
}
static int wlen(const P *p) { return 2 * p->n + 3; }
static size_t idxb(const P *p) { return p->d == 1 ? 4 : (size_t)(p->h + 7) / 8; }
static size_t sigl(const P *p) { return idxb(p) + (size_t)p->n + (size_t)(p->d * wlen(p) + p->h) * (size_t)p->n; }
static uint64_t sig_idx(const P *p, const uint8_t *s) { uint64_t v = 0; for (size_t i = 0; i < idxb(p); i++) { v = v << 8 | s[i]; } return v; }
static bool ref_verify(const P *p, const uint8_t *pubSeed, const uint8_t *root, const uint8_t *m, size_t ml, const uint8_t *s)
{
    int n = p->n, hp = p->h / p->d; uint64_t idx = sig_idx(p, s); const uint8_t *q = s + idxb(p);
    static uint8_t t[2048]; uint8_t node[64];
    memcpy(t, q, (size_t)n); memcpy(t + n, root, (size_t)n); memset(t + 2 * n, 0, (size_t)n); for (int i = 0; i < 8; i++) { t[3 * n - 1 - i] = (uint8_t)(idx >> (8 * i)); } memcpy(t + 3 * n, m, ml);
    hsh(p, 2, t, 3 * (size_t)n + ml, node); q += n;
    for (int L = 0; L < p->d; L++) {
        uint32_t leaf = (uint32_t)(idx & ((1ull << hp) - 1)); idx >>= hp;
        uint8_t a[32]; memset(a, 0, 32); put32(a, (uint32_t)L); put32(a + 4, (uint32_t)(idx >> 32)); put32(a + 8, (uint32_t)idx); put32(a + 16, leaf);
        static uint8_t pk[140][64]; int len = wlen(p), sum = 0;
        for (int i = 0; i < len; i++) {
            int dg; if (i < 2 * n) { dg = i & 1 ? node[i / 2] & 15 : node[i / 2] >> 4; sum += 15 - dg; } else { dg = (sum >> (4 * (len - 1 - i))) & 15; }
            memcpy(pk[i], q, (size_t)n); q += n; put32(a + 20, (uint32_t)i);
            for (int j = dg; j < 15; j++) { put32(a + 24, (uint32_t)j); F(p, pubSeed, a, pk[i]); }
        }
        memset(a + 12, 0, 20); put32(a + 12, 1); put32(a + 16, leaf);
        int l = len; for (uint32_t ht = 0; l > 1; ht++) { put32(a + 20, ht); for (int i = 0; i < l / 2; i++) { put32(a + 24, (uint32_t)i); RH(p, pubSeed, a, pk[2 * i], pk[2 * i + 1], pk[i]); } if (l & 1) { memcpy(pk[l / 2], pk[l - 1], 64); } l = (l + 1) / 2; }
        memcpy(node, pk[0], (size_t)n);
        memset(a + 12, 0, 20); put32(a + 12, 2);
        for (int k = 0; k < hp; k++, q += n) { put32(a + 20, (uint32_t)k); put32(a + 24, leaf >> (k + 1)); if (leaf >> k & 1) { RH(p, pubSeed, a, q, node, node); } else { RH(p, pubSeed, a, node, q, node); } }
    }
    return memcmp(node, root, (size_t)n) == 0;
}
/* ---------- key objects ---------- */
typedef struct { uint64_t idx; uint8_t seed[64], prf[64], ps[64], root[64]; uint32_t bl; uint8_t bds[1 << 16]; } Blob;
static const P *cur;
static CRYPT_EAL_PkeyCtx *obj_new(const P *p)
{
    CRYPT_EAL_PkeyCtx *c = CRYPT_EAL_PkeyNewCtx(p->alg);
    if (!c || CRYPT_EAL_PkeySetParaById(c, p->para)) { mc_fatal("no %s", p->name); }
    return c;
}
static void params(BSL_Param *b, const P *p, Blob *x, uint32_t bl)
{
    memset(b, 0, 8 * sizeof *b); uint32_t n = (uint32_t)p->n;
    BSL_PARAM_InitValue(&b[0], CRYPT_PARAM_XMSS_PRV_SEED, BSL_PARAM_TYPE_OCTETS, x->seed, n); BSL_PARAM_InitValue(&b[1], CRYPT_PARAM_XMSS_PRV_PRF, BSL_PARAM_TYPE_OCTETS, x->prf, n);
    BSL_PARAM_InitValue(&b[2], CRYPT_PARAM_XMSS_PRV_INDEX, BSL_PARAM_TYPE_UINT64, &x->idx, 8);
    BSL_PARAM_InitValue(&b[3], CRYPT_PARAM_XMSS_PUB_SEED, BSL_PARAM_TYPE_OCTETS, x->ps, n); BSL_PARAM_InitValue(&b[4], CRYPT_PARAM_XMSS_PUB_ROOT, BSL_PARAM_TYPE_OCTETS, x->root, n);
    if (bl) { BSL_PARAM_InitValue(&b[5], CRYPT_PARAM_XMSS_BDS_STATE, BSL_PARAM_TYPE_OCTETS, x->bds, bl); b[6] = (BSL_Param)BSL_PARAM_END; } else { b[5] = (BSL_Param)BSL_PARAM_END; }
}
static int32_t obj_export(CRYPT_EAL_PkeyCtx *c, Blob *x, bool bds)
{
    BSL_Param b[8]; params(b, cur, x, bds ? sizeof x->bds : 0);
    int32_t r = CRYPT_EAL_PkeyGetPrvEx(c, b);
    x->bl = bds && r == 0 ? b[5].useLen : 0;
    return r;
}
static int32_t obj_import(CRYPT_EAL_PkeyCtx *c, Blob *x) { BSL_Param b[8]; params(b, cur, x, x->bl); return CRYPT_EAL_PkeySetPrvEx(c, b); }
static CRYPT_EAL_PkeyCtx *obj_from(Blob *x) { CRYPT_EAL_PkeyCtx *c = obj_new(cur); int32_t r = obj_import(c, x); MC_CHECK(r == 0, "importing an exported key fails %x (index %llu)", (unsigned)r, (unsigned long long)x->idx); return c; }
/* ---------- monitor ---------- */
static CRYPT_EAL_PkeyCtx *ver; static uint8_t rootk[64], psk[64];
static uint64_t used[8192]; static int nused;
static uint8_t sg[1 << 16]; static uint64_t msgno; static int64_t next_;      /* index the object should use next; -1 unknown but not below hi */
static uint64_t lo_;
static void setver(const Blob *x)
{
    CRYPT_EAL_PkeyFreeCtx(ver); ver = obj_new(cur); memcpy(rootk, x->root, 64); memcpy(psk, x->ps, 64);
    BSL_Param b[4]; memset(b, 0, sizeof b);
    BSL_PARAM_InitValue(&b[0], CRYPT_PARAM_XMSS_PUB_SEED, BSL_PARAM_TYPE_OCTETS, psk, (uint32_t)cur->n); BSL_PARAM_InitValue(&b[1], CRYPT_PARAM_XMSS_PUB_ROOT, BSL_PARAM_TYPE_OCTETS, rootk, (uint32_t)cur->n); b[2] = (BSL_Param)BSL_PARAM_END;
    int32_t r = CRYPT_EAL_PkeySetPubEx(ver, b);
    if (r) { mc_fatal("public key %x", r); }
}
/* returns true when a signature came out */
static bool do_sign(CRYPT_EAL_PkeyCtx *c, uint32_t room, bool deep)
{
    uint8_t m[40]; mc_fill(m, sizeof m, 0x515 + msgno++); uint32_t sl = room; uint32_t ml = (uint32_t)(msgno % 41);
    memset(sg, 0xA5, sizeof sg);
    bool expired = lo_ >> cur->h != 0;
    int32_t r = CRYPT_EAL_PkeySign(c, CRYPT_MD_SHA256, m, ml, sg, &sl);
    mc_transitions(1); mc_outcome(&r, 4);
    if (r != 0) {
        bool clean = true; for (size_t i = 0; i < sigl(cur); i++) { clean &= sg[i] == 0xA5 || sg[i] == 0; }
        MC_CHECK(clean, "a failing signature call leaves %s in the buffer", mc_hex(sg, 40));
        MC_CHECK(hx_failed || hx_rand_mode || expired || room < sigl(cur), "signing fails %x at index %llu", (unsigned)r, (unsigned long long)lo_);
        return false;
    }
    MC_CHECK(!expired, "an exhausted key signs");
    MC_CHECK(sl == sigl(cur), "signature of %u bytes", sl);
    for (size_t i = sl; i < sl + 64u; i++) { if (sg[i] != 0xA5) { mc_fail("writes past the signature"); break; } }
    uint64_t ix = sig_idx(cur, sg);
    for (int i = 0; i < nused; i++) { if (used[i] == ix) { mc_fail("one-time key %llu is used twice", (unsigned long long)ix); } }
    MC_CHECK(ix >= lo_, "one-time key %llu, but the key stands at %llu", (unsigned long long)ix, (unsigned long long)lo_);
    MC_CHECK(ix >> cur->h == 0, "index %llu beyond the last one-time key", (unsigned long long)ix);
    if (nused < (int)MC_LEN(used)) { used[nused++] = ix; }
    lo_ = ix + 1;
    if (deep) { MC_CHECK(ref_verify(cur, psk, rootk, m, ml, sg), "signature %llu does not verify by the standard", (unsigned long long)ix); }
    r = CRYPT_EAL_PkeyVerify(ver, CRYPT_MD_SHA256, m, ml, sg, sl);
    MC_CHECK(r == 0, "signature %llu does not verify: %x", (unsigned long long)ix, (unsigned)r);
    m[0] ^= 1; if (ml) { MC_CHECK(CRYPT_EAL_PkeyVerify(ver, CRYPT_MD_SHA256, m, ml, sg, sl) != 0, "signature verifies for another message"); }
    mc_state(mc_hash2(mc_hash(sg, sl), ix));
    return true;
}
static void gen(const P *p, uint64_t seed, Blob *x)
{
    cur = p; mc_rand_reseed(seed);
    CRYPT_EAL_PkeyCtx *c = obj_new(p); int32_t r = CRYPT_EAL_PkeyGen(c);
    if (r) { mc_fatal("gen %s %x", p->name, r); }
    r = obj_export(c, x, true); if (r) { mc_fatal("export %x", r); }
    MC_CHECK(x->idx == 0, "a fresh key stands at %llu", (unsigned long long)x->idx);
    CRYPT_EAL_PkeyFreeCtx(c); setver(x);
}
static void reset(uint64_t lo) { nused = 0; lo_ = lo; }
static Blob B0;
static bool fits(uint64_t idx) { return idx >> cur->h == 0; }
static void life(void)
{
    mc_space("signing one after another");
    for (unsigned pi = 0; pi < MC_LEN(ps); pi++) {
        const P *p = &ps[pi]; bool all = pi == 1;
        if (!mc_case("%s life", p->name)) { continue; }
        mc_case_cost(900);
        if (p->d == 2 && !mc_thorough) { continue; }
        gen(p, 77 + pi, &B0); CRYPT_EAL_PkeyCtx *c = obj_from(&B0); reset(0);
        long N = all || (mc_thorough && p->d == 1) ? 1024 : pi == 0 ? (mc_thorough ? 33900 : 1100) : p->d == 1 ? 70 : mc_thorough ? 2100 : pi == 2 ? 130 : 70;
        for (long i = 0; i < N && !mc_failed(); i++) {
            uint64_t w = lo_; if (nused > 4000) { nused = 0; }
            MC_CHECK(do_sign(c, (uint32_t)sizeof sg - 64, i % 8 == 0 || (i & (i + 1)) == 0 || i + 3 > N), "no signature at index %llu", (unsigned long long)w);
            /* the state is saved after every signature and restored every other time; both must agree */
            static Blob s1, s2; memset(&s1, 0, sizeof s1); memset(&s2, 0, sizeof s2); int32_t r = obj_export(c, &s1, true);
            MC_CHECK(r == 0 && s1.idx == w + 1, "the key cannot be saved after index %llu: %x", (unsigned long long)w, (unsigned)r);
            if (r == 0 && fits(s1.idx)) { CRYPT_EAL_PkeyCtx *k = obj_from(&s1); r = obj_export(k, &s2, true); MC_CHECK(r == 0 && memcmp(&s1, &s2, sizeof s1) == 0, "a restored key differs from the one saved after index %llu", (unsigned long long)w); CRYPT_EAL_PkeyFreeCtx(i & 1 ? k : c); if (!(i & 1)) { c = k; } }
            MC_CHECK(lo_ == w + 1, "skips from %llu to %llu", (unsigned long long)w, (unsigned long long)lo_);
        }
        if (N == 1024 && p->d == 1) { for (int i = 0; i < 3; i++) { MC_CHECK(!do_sign(c, (uint32_t)sizeof sg - 64, true), "an exhausted key signs"); } }
        CRYPT_EAL_PkeyFreeCtx(c); mc_trace(1);
    }
}
/* operations: s sign, b short buffer, x export, continue in a fresh object, y the same without traversal state, e export and go on, d duplicate and copy: these must not sign with the same keys,
   i imports that must fail, p set the public key again, n null arguments, a sign with failing allocation */
static const char ops[] = "sbxyedipn";
static bool do_sign2(CRYPT_EAL_PkeyCtx *c) { uint32_t l = sizeof sg; uint8_t m[3] = { 1, 2, 3 }; int32_t r = CRYPT_EAL_PkeySign(c, CRYPT_MD_SHA256, m, 3, sg, &l); if (r) { return false; } uint64_t ix = sig_idx(cur, sg); bool twice = ix >= lo_; for (int i = 0; i < nused; i++) { twice |= used[i] == ix; } return twice; }
static CRYPT_EAL_PkeyCtx *op(CRYPT_EAL_PkeyCtx *c, char o)
{
    static Blob x, y; uint32_t room = (uint32_t)sizeof sg - 64; int32_t r;
    switch (o) {
        case 's': { bool can = fits(lo_); bool ok = do_sign(c, room, true); MC_CHECK(ok == can, "no signature although one-time keys are left"); break; }
        case 'b': { static const int cut[] = { 1, 2, 100 }; for (int i = 0; i < 3; i++) { MC_CHECK(!do_sign(c, (uint32_t)sigl(cur) - (uint32_t)cut[i], true), "signs into a buffer that is too short"); } MC_CHECK(!do_sign(c, 0, true), "signs into no buffer"); break; }
        case 'x': case 'y': {
            r = obj_export(c, &x, o == 'x');
            if (r) { if (o == 'x') { r = obj_export(c, &x, false); } MC_CHECK(r == 0, "export fails %x", (unsigned)r); if (r) { break; } }
            MC_CHECK(x.idx >= lo_, "exported index %llu, but the key stands at %llu", (unsigned long long)x.idx, (unsigned long long)lo_);
            CRYPT_EAL_PkeyCtx *n = obj_new(cur); r = obj_import(n, &x);
            if (!fits(x.idx) && r != 0) { CRYPT_EAL_PkeyFreeCtx(n); break; }
            MC_CHECK(r == 0, "importing an exported key fails %x", (unsigned)r);
            CRYPT_EAL_PkeyFreeCtx(c); c = n; break;
        }
        case 'e': r = obj_export(c, &x, true); break;
        case 'd': {
            CRYPT_EAL_PkeyCtx *d = CRYPT_EAL_PkeyDupCtx(c); CRYPT_EAL_PkeyCtx *k = CRYPT_EAL_PkeyNewCtx(cur->alg); r = CRYPT_EAL_PkeyCopyCtx(k, c);
            if (d) { uint64_t before = lo_; if (do_sign2(d)) { mc_fail("a duplicate signs with the same one-time keys"); } lo_ = before; }
            if (r == 0) { if (do_sign2(k)) { mc_fail("a copy signs with the same one-time keys"); } }
            CRYPT_EAL_PkeyFreeCtx(d); CRYPT_EAL_PkeyFreeCtx(k); break;
        }
        case 'i': {
            if (obj_export(c, &x, true)) { (void)obj_export(c, &x, false); }
            for (int k = 0; k < 9; k++) {
                y = x; y.idx = 0; BSL_Param b[8]; params(b, cur, &y, y.bl);
                if (k < 5) { b[k].valueLen--; } else if (k == 5) { b[0].value = NULL; } else if (k == 6) { b[1].key = 1; }
                else if (x.bl == 0) { continue; } else if (k == 7) { b[5].valueLen--; } else { if (x.idx == 0) { continue; } }      /* 8: traversal state of another index */
                r = CRYPT_EAL_PkeySetPrvEx(c, b);
                if (r == 0) { mc_fail("an ill-formed private key (%d) is accepted", k); }
            }
            break;
        }
        case 'p': {
            BSL_Param b[4]; memset(b, 0, sizeof b); BSL_PARAM_InitValue(&b[0], CRYPT_PARAM_XMSS_PUB_SEED, BSL_PARAM_TYPE_OCTETS, psk, (uint32_t)cur->n); BSL_PARAM_InitValue(&b[1], CRYPT_PARAM_XMSS_PUB_ROOT, BSL_PARAM_TYPE_OCTETS, rootk, (uint32_t)cur->n); b[2] = (BSL_Param)BSL_PARAM_END;
            b[0].valueLen--; MC_CHECK(CRYPT_EAL_PkeySetPubEx(c, b) != 0, "a short public seed is accepted"); b[0].valueLen++;
            r = CRYPT_EAL_PkeySetPubEx(c, b); MC_CHECK(r == 0, "public key %x", (unsigned)r); break;
        }
        case 'n': { uint32_t l = room; uint8_t z = 0; MC_CHECK(CRYPT_EAL_PkeySign(c, CRYPT_MD_SHA256, NULL, 5, sg, &l) != 0 && CRYPT_EAL_PkeySign(c, CRYPT_MD_SHA256, &z, 1, NULL, &l) != 0 && CRYPT_EAL_PkeySign(c, CRYPT_MD_SHA256, &z, 1, sg, NULL) != 0, "signing with no buffer succeeds"); break; }
        default: break;
    }
    return c;
}
static void run(Blob *x, const char *sq, int n, uint64_t failat, bool forever, int failpos)
{
    reset(x->idx); CRYPT_EAL_PkeyCtx *c = obj_from(x);
    for (int i = 0; i < n && !mc_failed(); i++) {
        if (i == failpos) { hx_failed = 0; hx_fail_arm(failat, forever); uint64_t f0 = nused ? used[nused - 1] : 0; (void)f0; (void)do_sign(c, (uint32_t)sizeof sg - 64, false); hx_fail_off(); hx_failed = 0; continue; }
        c = op(c, sq[i]);
    }
    CRYPT_EAL_PkeyFreeCtx(c); BSL_ERR_ClearError();
    if (mc_failed()) { mc_fail("in history %.*s (allocation %llu at step %d)", n, sq, (unsigned long long)failat, failpos); }
}
typedef struct { int p; uint64_t at; int walk; int D; const char *ops; } St;   /* walk: sign up to the index to have the traversal state; else import the index alone */
static const St sts[] = { { 0, 0, 0, 3, "sbxdi" }, { 0, 0, 0, 2, ops }, { 0, 31, 1, 3, "sxdi" }, { 0, 31, 1, 2, ops }, { 0, 30, 1, 2, "sbxyedin" }, { 0, 1023, 1, 2, ops }, { 0, (1u << 20) - 1, -1, 2, ops }, { 0, (1u << 20) - 2, -1, 2, ops }, { 1, 0, 0, 2, "sbxedin" }, { 2, (1ull << 60) - 1, -1, 2, "sxbe" },
    { 2, 0xfffffffe, -1, 2, "sx" }, { 2, 30, 1, 2, "sbxedin" }, { 3, 31, 1, 2, "sxdi" }, { 3, (1ull << 40) - 1, -1, 2, "sx" }, { 4, 31, 1, 2, "sxbedi" }, { 5, 31, 1, 2, "sxbedi" }, { 6, 0, 0, 2, "sxbedi" } };
static void start(const St *s)
{
    static int key = -1; static Blob base, cache; static const St *cached;
    if (cached == s) { B0 = cache; return; }
    if (key != s->p) { gen(&ps[s->p], 1000 + (uint64_t)s->p, &base); key = s->p; }
    cur = &ps[s->p]; B0 = base;
    if (s->walk == 1) {
        CRYPT_EAL_PkeyCtx *c = obj_from(&B0); uint8_t m[4] = "abc";
        for (uint64_t i = 0; i < s->at; i++) { uint32_t sl = sizeof sg; if (CRYPT_EAL_PkeySign(c, CRYPT_MD_SHA256, m, 4, sg, &sl)) { mc_fail("cannot sign at %llu", (unsigned long long)i); } }
        int32_t er = obj_export(c, &B0, true); MC_CHECK(er == 0, "the key cannot be saved at index %llu: %x", (unsigned long long)s->at, (unsigned)er); CRYPT_EAL_PkeyFreeCtx(c);
    } else if (s->walk < 0) { B0.idx = s->at; B0.bl = 0; }
    if (!mc_failed()) { cache = B0; cached = s; }
}
static void hist(void)
{
    mc_space("histories");
    for (unsigned si = 0; si < MC_LEN(sts); si++) {
        const St *s = &sts[si]; int D = s->D + mc_thorough; long no = (long)strlen(s->ops); bool one = s->at == 1023 || (s->p > 2 && !mc_thorough);
        for (long f = 0; f < (one ? 1 : no); f++) {
            if (!mc_case("%s at %llu depth %d first %c", ps[s->p].name, (unsigned long long)s->at, s->D, one ? '*' : s->ops[f])) { continue; }
            mc_case_cost(900); start(s);
            long tot = 1; for (int i = one ? 0 : 1; i < D; i++) { tot *= no; }
            for (long v = 0; v < tot && !mc_failed(); v++) {
                char sq[10]; long w = one ? v : v * no + f; bool dull = false; for (int i = 0; i < D; i++) { sq[i] = s->ops[w % no]; w /= no; }
                for (int i = 1; i < D; i++) { dull |= sq[i] == sq[i - 1] && sq[i] != 's'; }
                if (dull) { continue; }
                sq[D] = 's'; sq[D + 1] = 0; run(&B0, sq, D + 1, 0, false, -1); mc_trace(1);
            }
        }
    }
}
static void failing(void)
{
    mc_space("failing imports and key generations");
    for (int pi = 0; pi < 2; pi++) {
        for (int pre = 0; pre < 3; pre++) {
            for (int k = 0; k < 12; k++) {          /* 0-5 import with failing allocation, 6-9 generation with failing allocation, 10 without randomness, 11 generation succeeds */
                if ((k == 11 && pi && !mc_thorough) || !mc_case("%s failing %d after %d", ps[pi].name, k, pre)) { continue; }
                mc_case_cost(900); start(&sts[pi ? 8 : 0]); static Blob old; old = B0;
                CRYPT_EAL_PkeyCtx *c = obj_from(&B0); reset(0);
                for (int i = 0; i < pre; i++) { c = op(c, 's'); }
                if (k < 6) {
                    hx_failed = 0; hx_fail_arm((uint64_t)k + 1, false); int32_t r = obj_import(c, &old); hx_fail_off();
                    MC_CHECK(!hx_failed || r != 0, "an import that ran out of memory reports success");
                    if (r == 0) { hx_failed = 0; CRYPT_EAL_PkeyFreeCtx(c); mc_trace(1); continue; }
                    hx_failed = 0; c = op(c, 's'); c = op(c, 's');
                } else {
                    mc_rand_reseed(4242); uint64_t g0 = hx_failed = 0; (void)g0;
                    if (k < 10) { hx_fail_arm((uint64_t)k - 5, false); } else if (k == 10) { hx_rand_mode = 1; }
                    int32_t r = CRYPT_EAL_PkeyGen(c); hx_rand_mode = 0; bool ran = hx_failed != 0 || k == 10; hx_fail_off(); hx_failed = 0;
                    MC_CHECK((r != 0) == ran, "key generation %s but reports %x", ran ? "failed" : "succeeded", (unsigned)r);
                    uint32_t l = sizeof sg; uint8_t m[3] = { 3, 2, 1 };
                    if (r) { MC_CHECK(CRYPT_EAL_PkeySign(c, CRYPT_MD_SHA256, m, 3, sg, &l) != 0, "signs after a failed key generation"); }
                    else { Blob *n = malloc(sizeof *n); MC_CHECK(obj_export(c, n, true) == 0 && n->idx == 0 && memcmp(n->seed, old.seed, (size_t)cur->n) && memcmp(n->ps, old.ps, (size_t)cur->n) && memcmp(n->prf, old.prf, (size_t)cur->n), "the generated key repeats the one before"); setver(n); reset(0); c = op(c, 's'); c = op(c, 's'); setver(&old); free(n); }
                }
                CRYPT_EAL_PkeyFreeCtx(c); BSL_ERR_ClearError(); mc_trace(1);
            }
        }
    }
}
void mc_explore(void)
{
    hx_init(); BSL_ERR_ClearError();
    mc_mute = true; CRYPT_EAL_PkeyFreeCtx(NULL); mc_mute = false;
    life(); hist(); failing();
}
