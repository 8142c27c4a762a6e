/* C21: deterministic random bit generators against SP 800-90A / GM/T 0105 written independently, for every sequence of
 * calls up to the stated length, with every entropy or nonce request failing in every way. */
#include "hx.h"
#include "crypt_params_key.h"
#include "crypt_eal_provider.h"
#include "crypt_eal_entropy.h"
#include <unistd.h>
#include <sys/wait.h>

typedef struct { int id; const char *name; int kind; RefMd md; int blk; int strength; bool gm; uint32_t maxReq; uint32_t interval; int itime; } Alg;   /* kind 0 hash 1 hmac 2 ctr 3 ctr with df */
static const Alg algs[] = {
    { CRYPT_RAND_SHA1, "hash-sha1", 0, R_SHA1, 0, 128 }, { CRYPT_RAND_SHA224, "hash-sha224", 0, R_SHA224, 0, 192 }, { CRYPT_RAND_SHA256, "hash-sha256", 0, R_SHA256, 0, 256 },
    { CRYPT_RAND_SHA384, "hash-sha384", 0, R_SHA384, 0, 256 }, { CRYPT_RAND_SHA512, "hash-sha512", 0, R_SHA512, 0, 256 }, { CRYPT_RAND_SM3, "hash-sm3", 0, R_SM3, 0, 256, true, 32, 1 << 10, 60 },
    { CRYPT_RAND_HMAC_SHA1, "hmac-sha1", 1, R_SHA1, 0, 128 }, { CRYPT_RAND_HMAC_SHA224, "hmac-sha224", 1, R_SHA224, 0, 192 }, { CRYPT_RAND_HMAC_SHA256, "hmac-sha256", 1, R_SHA256, 0, 256 },
    { CRYPT_RAND_HMAC_SHA384, "hmac-sha384", 1, R_SHA384, 0, 256 }, { CRYPT_RAND_HMAC_SHA512, "hmac-sha512", 1, R_SHA512, 0, 256 },
    { CRYPT_RAND_AES128_CTR, "ctr-aes128", 2, 0, 128, 128 }, { CRYPT_RAND_AES192_CTR, "ctr-aes192", 2, 0, 192, 192 }, { CRYPT_RAND_AES256_CTR, "ctr-aes256", 2, 0, 256, 256 },
    { CRYPT_RAND_AES128_CTR_DF, "ctr-df-aes128", 3, 0, 128, 128 }, { CRYPT_RAND_AES192_CTR_DF, "ctr-df-aes192", 3, 0, 192, 192 }, { CRYPT_RAND_AES256_CTR_DF, "ctr-df-aes256", 3, 0, 256, 256 },
    { CRYPT_RAND_SM4_CTR_DF, "ctr-df-sm4", 3, 0, 4, 128, true, 16, 1 << 10, 60 },
};
/* ---------- reference generators ---------- */
typedef struct { const Alg *a; int st; bool working; uint8_t V[128], C[128], K[64]; uint64_t ctr; int64_t last; } M;   /* st 0 none 1 ready 2 error */
typedef struct { const uint8_t *p; size_t n; } D;
static uint8_t cat_[1 << 17]; static size_t catn;
static void c0(void) { catn = 0; }
static void cb(const void *p, size_t n) { if (n) { memcpy(cat_ + catn, p, n); } catn += n; }
static size_t seedlen(const Alg *a) { return a->kind == 0 ? (a->md == R_SHA384 || a->md == R_SHA512 ? 111 : 55) : a->kind == 1 ? ref_mdlen(a->md) : (size_t)ref_keylen(a->blk) + 16; }
static void addmod(uint8_t *v, size_t n, const uint8_t *s, size_t sn)
{
    unsigned c = 0;
    for (size_t i = 0; i < n; i++) { c += v[n - 1 - i] + (i < sn ? s[sn - 1 - i] : 0u); v[n - 1 - i] = (uint8_t)c; c >>= 8; }
}
static void hash_df(const Alg *a, const D *in, int k, uint8_t *out, size_t n)
{
    uint8_t buf[4096], h[64]; size_t hl = ref_mdlen(a->md), bn = 5;
    for (int i = 0; i < k; i++) { memcpy(buf + bn, in[i].p, in[i].n); bn += in[i].n; }
    uint32_t bits = (uint32_t)n * 8; buf[0] = 1; buf[1] = (uint8_t)(bits >> 24); buf[2] = (uint8_t)(bits >> 16); buf[3] = (uint8_t)(bits >> 8); buf[4] = (uint8_t)bits;
    for (size_t o = 0; o < n; o += hl, buf[0]++) { ref_md(a->md, buf, bn, h, 0); memcpy(out + o, h, n - o < hl ? n - o : hl); }
}
static void hmac_upd(M *m, const D *in, int k)
{
    size_t L = ref_mdlen(m->a->md), n = 0;
    for (int i = 0; i < k; i++) { n += in[i].n; }
    for (int r = 0; r < 2; r++) {
        uint8_t b = (uint8_t)r;
        c0(); cb(m->V, L); cb(&b, 1);
        for (int i = 0; i < k; i++) { cb(in[i].p, in[i].n); }
        uint8_t t[64];
        ref_hmac(m->a->md, m->K, L, cat_, catn, t); memcpy(m->K, t, L);
        ref_hmac(m->a->md, m->K, L, m->V, L, t); memcpy(m->V, t, L);
        if (n == 0) { break; }
    }
}
static void ctr_inc(uint8_t *v) { for (int i = 15; i >= 0 && ++v[i] == 0; i--) { } }
static void ctr_upd(M *m, const uint8_t *pd)      /* pd: seedlen bytes */
{
    size_t s = seedlen(m->a); uint8_t t[64]; RefBlk b;
    ref_blk_init(&b, m->a->blk, m->K);
    for (size_t o = 0; o < s; o += 16) { ctr_inc(m->V); uint8_t x[16]; ref_blk_enc(&b, m->V, x); memcpy(t + o, x, s - o < 16 ? s - o : 16); }
    for (size_t i = 0; i < s; i++) { t[i] ^= pd[i]; }
    memcpy(m->K, t, s - 16); memcpy(m->V, t + s - 16, 16);
}
static void block_df(const Alg *a, const D *in, int k, uint8_t *out)
{
    size_t s = seedlen(a), kl = s - 16, n = 0; static uint8_t buf[1 << 16]; size_t bn = 16;
    for (int i = 0; i < k; i++) { n += in[i].n; }
    memset(buf, 0, 16);
    uint8_t h[8] = { (uint8_t)(n >> 24), (uint8_t)(n >> 16), (uint8_t)(n >> 8), (uint8_t)n, 0, 0, 0, (uint8_t)s };
    memcpy(buf + bn, h, 8); bn += 8;
    for (int i = 0; i < k; i++) { memcpy(buf + bn, in[i].p, in[i].n); bn += in[i].n; }
    buf[bn++] = 0x80; while (bn % 16) { buf[bn++] = 0; }
    uint8_t key[32], t[64]; for (int i = 0; i < 32; i++) { key[i] = (uint8_t)i; }
    RefBlk b; ref_blk_init(&b, a->blk, key);
    for (size_t o = 0, i = 0; o < s; o += 16, i++) {
        buf[3] = (uint8_t)i; uint8_t c[16] = {0};
        for (size_t q = 0; q < bn; q += 16) { for (int z = 0; z < 16; z++) { c[z] ^= buf[q + z]; } uint8_t y[16]; ref_blk_enc(&b, c, y); memcpy(c, y, 16); }
        memcpy(t + o, c, 16);
    }
    uint8_t x[16]; memcpy(x, t + kl, 16); ref_blk_init(&b, a->blk, t);
    for (size_t o = 0; o < s; o += 16) { uint8_t y[16]; ref_blk_enc(&b, x, y); memcpy(x, y, 16); memcpy(out + o, x, s - o < 16 ? s - o : 16); }
}
static void pad_xor(const Alg *a, const D *in, int k, uint8_t *out) { memset(out, 0, seedlen(a)); for (int i = 0; i < k; i++) { for (size_t z = 0; z < in[i].n; z++) { out[z] ^= in[i].p[z]; } } }
static void m_inst(M *m, D e, D n, D p)
{
    const Alg *a = m->a; size_t s = seedlen(a); D in[4] = { e, n, p };
    if (a->kind == 0) { hash_df(a, in, 3, m->V, s); D z[2] = { { (const uint8_t *)"", 1 }, { m->V, s } }; hash_df(a, z, 2, m->C, s); }
    else if (a->kind == 1) { memset(m->K, 0, s); memset(m->V, 1, s); hmac_upd(m, in, 3); }
    else { uint8_t sm[64]; memset(m->K, 0, 64); memset(m->V, 0, 16); if (a->kind == 3) { block_df(a, in, 3, sm); } else { D x[2] = { e, p }; pad_xor(a, x, 2, sm); } ctr_upd(m, sm); }
    m->ctr = 1; m->st = 1;
}
static void m_reseed(M *m, D e, D ad)
{
    const Alg *a = m->a; size_t s = seedlen(a); D in[2] = { e, ad };
    if (a->kind == 0) {
        uint8_t nv[128]; D x[4] = { { (const uint8_t *)"\1", 1 }, { m->V, s }, e, ad };
        if (a->gm) { x[1] = e; x[2] = (D){ m->V, s }; }
        hash_df(a, x, 4, nv, s); memcpy(m->V, nv, s); D z[2] = { { (const uint8_t *)"", 1 }, { m->V, s } }; hash_df(a, z, 2, m->C, s);
    } else if (a->kind == 1) { hmac_upd(m, in, 2); } else { uint8_t sm[64]; if (a->kind == 3) { block_df(a, in, 2, sm); } else { pad_xor(a, in, 2, sm); } ctr_upd(m, sm); }
    m->ctr = 1;
}
static void m_gen(M *m, uint8_t *out, size_t len, D ad)
{
    const Alg *a = m->a; size_t s = seedlen(a), L = a->kind < 2 ? ref_mdlen(a->md) : 16; uint8_t h[64];
    if (a->kind == 0) {
        uint8_t d[128];
        if (ad.n) { c0(); cb("\2", 1); cb(m->V, s); cb(ad.p, ad.n); ref_md(a->md, cat_, catn, h, 0); addmod(m->V, s, h, L); }
        memcpy(d, m->V, s);
        for (size_t o = 0; o < len; o += L) { ref_md(a->md, d, s, h, 0); memcpy(out + o, h, len - o < L ? len - o : L); addmod(d, s, (const uint8_t *)"\1", 1); }
        c0(); cb("\3", 1); cb(m->V, s); ref_md(a->md, cat_, catn, h, 0);
        uint8_t rc[8]; for (int i = 0; i < 8; i++) { rc[i] = (uint8_t)(m->ctr >> (56 - 8 * i)); }
        addmod(m->V, s, h, L); addmod(m->V, s, m->C, s); addmod(m->V, s, rc, 8);
    } else if (a->kind == 1) {
        if (ad.n) { hmac_upd(m, &ad, 1); }
        for (size_t o = 0; o < len; o += L) { ref_hmac(a->md, m->K, L, m->V, L, h); memcpy(m->V, h, L); memcpy(out + o, h, len - o < L ? len - o : L); }
        hmac_upd(m, &ad, ad.n ? 1 : 0);
    } else {
        uint8_t sm[64] = {0};
        if (ad.n) { if (a->kind == 3) { block_df(a, &ad, 1, sm); } else { pad_xor(a, &ad, 1, sm); } ctr_upd(m, sm); }
        RefBlk b; ref_blk_init(&b, a->blk, m->K);
        for (size_t o = 0; o < len; o += 16) { ctr_inc(m->V); ref_blk_enc(&b, m->V, h); memcpy(out + o, h, len - o < 16 ? len - o : 16); }
        ctr_upd(m, sm);
    }
    m->ctr++;
}
/* ---------- entropy source with scheduled faults ---------- */
typedef struct { bool nonce; int fault; uint8_t *p; uint32_t n; } Ev;
static Ev ev[64]; static int nev, evpos;
static int call, fault_at = -1, fault_kind; static bool fault_on; static int elen; static int live_e; static bool have_nonce; static int64_t now;
static int seedctx_cookie;
static const Alg *cur;
static int32_t src(bool nonce, void *ctx, CRYPT_Data *e, uint32_t strength, CRYPT_Range *r)
{
    (void)strength;
    MC_CHECK(ctx == &seedctx_cookie, "the seed context is not passed on");
    uint32_t want = (uint32_t)(cur->strength / 8);
    if (!nonce) { MC_CHECK(r->min >= (cur->kind == 2 ? seedlen(cur) : want), "asks for %u bytes of entropy, strength %d", r->min, cur->strength); }
    if (nonce) { MC_CHECK(r->min * 2 >= want, "asks for a nonce of %u bytes, strength %d", r->min, cur->strength); }
    if (nev >= 64) { mc_fatal("events"); }
    Ev *v = &ev[nev++]; v->nonce = nonce; v->fault = 0; v->p = NULL; v->n = 0;
    bool hit = fault_kind && (call == fault_at || (fault_on && call >= fault_at && fault_at >= 0)); call++;
    uint32_t n = r->min + (elen == 1 ? 5 : elen == 2 ? 64 : 0);
    if (n > r->max) { n = r->max; }
    if (hit) {
        v->fault = fault_kind;
        if (fault_kind == 1) { return CRYPT_DRBG_FAIL_GET_ENTROPY; }
        if (fault_kind == 2) { e->data = NULL; e->len = n; return CRYPT_SUCCESS; }
        if (fault_kind == 3) { n = r->min ? r->min - 1 : 0; if (n == 0) { v->fault = 0; n = r->min; } }
        if (fault_kind == 4) { if (r->max < 4096) { n = r->max + 1; } else { v->fault = 1; return 1; } }
        if (fault_kind == 5) { e->data = NULL; e->len = 0; return CRYPT_SUCCESS; }
    }
    v->p = malloc(n + 1); v->n = n;
    mc_fill(v->p, n, 0xE0000 + (uint64_t)call * 2 + nonce);
    e->data = malloc(n + 1); memcpy(e->data, v->p, n); e->len = n; live_e++;
    return CRYPT_SUCCESS;
}
static int32_t getE(void *c, CRYPT_Data *e, uint32_t s, CRYPT_Range *r) { return src(false, c, e, s, r); }
static int32_t getN(void *c, CRYPT_Data *e, uint32_t s, CRYPT_Range *r) { return src(true, c, e, s, r); }
static void cleanD(void *c, CRYPT_Data *e) { (void)c; if (e->data) { memset(e->data, 0xDD, e->len); free(e->data); live_e--; } }
static BslUnixTime clk(void) { return now; }
static void ev_reset(void) { for (int i = 0; i < nev; i++) { free(ev[i].p); } nev = 0; evpos = 0; }
/* ---------- one object: library and model side by side ---------- */
typedef struct { uint64_t interval; bool pr; int itime; int api; } Conf;       /* api 0 own context, 1 provider context, 2 global generator */
static Conf cf; static M m; static CRYPT_EAL_RndCtx *lc; static bool forked;
static bool ginit;
static bool model_inst(D pers)
{
    D e = {0}, n = {0}; bool ge = false, gn = !have_nonce || cur->kind == 2;
    m.st = 2;
    while (!(ge && gn)) {
        if (evpos >= nev) { mc_fail("instantiation without asking for %s", ge ? "a nonce" : "entropy"); return false; }
        Ev *v = &ev[evpos++];
        if (v->fault) { return false; }
        if (v->nonce) { gn = true; n = (D){ v->p, v->n }; } else { ge = true; e = (D){ v->p, v->n }; }
        if (!have_nonce && !v->nonce && cur->kind != 2) { MC_CHECK(v->n * 8 >= (uint32_t)cur->strength * 3 / 2, "instantiated with %u bytes of entropy and no nonce", v->n); }
    }
    m_inst(&m, e, n, pers); m.last = now;
    return true;
}
static bool model_reseed(D ad)
{
    if (evpos >= nev) { mc_fail("output without the reseeding that was due (state %d, %llu requests since)", m.st, (unsigned long long)m.ctr - 1); return false; }
    Ev *v = &ev[evpos++];
    if (v->fault) { m.st = 2; return false; }
    m_reseed(&m, (D){ v->p, v->n }, ad); m.last = now; forked = false;
    return true;
}
static bool model_gen(uint8_t *out, size_t len, D ad)
{
    uint32_t mr = cur->maxReq ? cur->maxReq : 65536;
    for (size_t o = 0; o < len; ) {
        size_t n = len - o < mr ? len - o : mr; D a = ad;
        if (m.st != 1) { if (!model_inst((D){0})) { return false; } }
        bool due = cf.pr || forked || m.ctr > cf.interval || (cf.itime && now - m.last > cf.itime);
        if (due || (cf.api == 2 && len <= mr && evpos < nev)) { if (!model_reseed(ad)) { return false; } a = (D){0}; }
        m_gen(&m, out + o, n, a);
        o += n;
    }
    return true;
}
static bool working(void) { return cf.api == 2 ? ginit : m.working; }
enum { O_I, O_P, O_G1, O_GN, O_GA, O_S, O_SA, O_X, O_C, O_T, O_L, O_D, O_N };
static const char on_[] = "IPgGasSXCTLD";
static bool step(int op)
{
    static uint8_t out[70000], ref[70000]; static const uint8_t pers[13] = "personalized", ad0[48] = "additional input of some forty-eight bytes....!";
    int32_t r = 0; bool ok = false; D ad = {0}; size_t len = 0;
    uint64_t fails = hx_failed;
    size_t L = cur->kind < 2 ? ref_mdlen(cur->md) : 16;
    ev_reset();
    switch (op) {
        case O_I: case O_P:
            if (cf.api == 2) {
                CRYPT_RandSeedMethod sm = { getE, cleanD, have_nonce ? getN : NULL, have_nonce ? cleanD : NULL };
                r = CRYPT_EAL_RandInit(cur->id, &sm, &seedctx_cookie, op == O_P ? pers : NULL, op == O_P ? 13 : 0);
                if (ginit) { MC_CHECK(r != 0 && nev == 0, "a running global generator is initialised again (%x)", (unsigned)r); return r != 0; }
            } else {
                r = CRYPT_EAL_DrbgInstantiate(lc, op == O_P ? pers : NULL, op == O_P ? 13 : 0);
                if (m.st == 1 || m.working) { MC_CHECK(r != 0 && nev == 0, "an instantiated generator is instantiated again (%x)", (unsigned)r); return r != 0; }
                if (m.st == 2 && nev == 0 && r != 0) { return true; }
            }
            ok = model_inst(op == O_P ? (D){ pers, 13 } : (D){0});
            MC_CHECK((r == 0) == ok || (hx_failed != fails && r != 0), "instantiation %s, but reported %x", ok ? "complete" : "without entropy", (unsigned)r);
            if (r == 0) { m.working = true; if (cf.api == 2) { ginit = true; } } else if (cf.api == 2) { m.st = 0; }
            break;
        case O_G1: len = 1; goto gen;
        case O_GN: len = 3 * L + 5; goto gen;
        case O_GA: len = 33; ad = (D){ ad0, cur->kind == 2 ? seedlen(cur) - 3 : 41 }; goto gen;
        case O_L: len = (cur->maxReq ? cur->maxReq : 65536) + 1; ad = (D){ ad0, 7 };
        gen:
            memset(out, 0xA5, len + 16);
            r = cf.api == 2 ? CRYPT_EAL_RandbytesWithAdin(out, (uint32_t)len, (uint8_t *)(uintptr_t)ad.p, (uint32_t)ad.n) : CRYPT_EAL_DrbgbytesWithAdin(lc, out, (uint32_t)len, (uint8_t *)(uintptr_t)ad.p, (uint32_t)ad.n);
            for (int i = 0; i < 16; i++) { MC_CHECK(out[len + i] == 0xA5, "writes past the %zu bytes asked for", len); }
            if (!working()) { MC_CHECK(r != 0, "output from a generator that was not instantiated"); for (size_t i = 0; i < len; i++) { if (out[i] != 0xA5) { mc_fail("a generator that was not instantiated writes output"); break; } } return true; }
            ok = model_gen(ref, len, ad);
            if (hx_failed != fails && r != 0) { return false; }
            MC_CHECK((r == 0) == ok, "%s, but the request for %zu bytes reported %x", ok ? "nothing failed" : "the entropy source failed", len, (unsigned)r);
            if (r == 0 && ok) { MC_CHECK(memcmp(out, ref, len) == 0, "%zu bytes differ from the specification: %s, expected %s", len, mc_hex(out, len < 32 ? len : 32), mc_hex(ref, len < 32 ? len : 32)); }
            break;
        case O_S: case O_SA:
            if (op == O_SA) { ad = (D){ ad0 + 3, 20 }; }
            r = cf.api == 2 ? CRYPT_EAL_RandSeedWithAdin((uint8_t *)(uintptr_t)ad.p, (uint32_t)ad.n) : CRYPT_EAL_DrbgSeedWithAdin(lc, (uint8_t *)(uintptr_t)ad.p, (uint32_t)ad.n);
            if (!working()) { MC_CHECK(r != 0, "reseeding a generator that was not instantiated succeeds"); return true; }
            ok = m.st == 1 || model_inst((D){0});
            ok = ok && model_reseed(ad);
            if (hx_failed != fails && r != 0) { return false; }
            MC_CHECK((r == 0) == ok, "%s, but reseeding reported %x", ok ? "nothing failed" : "the entropy source failed", (unsigned)r);
            break;
        case O_X:
            memset(out, 0xA5, 8);
            for (int k = 0; k < 4; k++) {
                const uint8_t *p = k == 0 ? NULL : ad0; uint32_t n = k == 0 ? 5 : k == 1 ? 0x7ffffff1 : 5; if (k == 1 && cur->kind == 2) { n = (uint32_t)seedlen(cur) + 1; }
                uint8_t *o = k == 2 ? NULL : out; uint32_t ol = k == 3 ? 0 : 8;
                if (k < 2) { r = cf.api == 2 ? CRYPT_EAL_RandSeedWithAdin((uint8_t *)(uintptr_t)p, n) : CRYPT_EAL_DrbgSeedWithAdin(lc, (uint8_t *)(uintptr_t)p, n); MC_CHECK(r != 0, "reseeding with illegal additional input %d succeeds", k); }
                r = cf.api == 2 ? CRYPT_EAL_RandbytesWithAdin(o, ol, (uint8_t *)(uintptr_t)p, n) : CRYPT_EAL_DrbgbytesWithAdin(lc, o, ol, (uint8_t *)(uintptr_t)p, n);
                MC_CHECK(r != 0, "illegal request %d succeeds", k);
            }
            break;
        case O_C: {
            if (cf.api == 2) { break; }
            uint32_t big = 1u << 30; bool f = false; uint64_t t = 0;
            r = CRYPT_EAL_DrbgCtrl(lc, CRYPT_CTRL_SET_RESEED_INTERVAL, &big, sizeof big); if (r == 0) { cf.interval = big; }
            r = CRYPT_EAL_DrbgCtrl(lc, CRYPT_CTRL_SET_PREDICTION_RESISTANCE, &f, sizeof f); if (r == 0) { cf.pr = f; }
            r = CRYPT_EAL_DrbgCtrl(lc, CRYPT_CTRL_SET_RESEED_TIME, &t, sizeof t); if (r == 0) { cf.itime = 0; }
            break;
        }
        case O_T: now += cf.itime ? cf.itime + 1 : 100000; break;
        case O_D: if (cf.api == 2) { CRYPT_EAL_RandDeinit(); ginit = false; m.st = 0; } break;
        default: break;
    }
    if (evpos != nev && !mc_failed()) { mc_fail("%d unexpected requests to the entropy source", nev - evpos); }
    MC_CHECK(live_e == 0, "%d entropy inputs are not handed back", live_e); live_e = 0;
    mc_transitions(1);
    if (m.st == 1) { mc_state(mc_hash2(mc_hash(m.V, seedlen(cur)), mc_hash2(mc_hash(m.K, 64), m.ctr * 4 + (uint64_t)cf.api))); }
    mc_outcome(&r, sizeof r);
    return true;
}
static void begin(const Alg *a, const Conf *c, bool nonce)
{
    cur = a; cf = *c; have_nonce = nonce; memset(&m, 0, sizeof m); m.a = a; call = 0; forked = false; now = 1000000; live_e = 0;
    ev_reset();
    if (cf.api == 2) { ginit = false; CRYPT_EAL_RandDeinit(); cf.pr = false; cf.interval = a->interval ? a->interval : 10000; cf.itime = a->itime; return; }
    CRYPT_RandSeedMethod sm = { getE, cleanD, nonce ? getN : NULL, nonce ? cleanD : NULL };
    if (cf.api == 1) {
        BSL_Param p[6] = {0}; int i = 0;
        BSL_PARAM_InitValue(&p[i++], CRYPT_PARAM_RAND_SEEDCTX, BSL_PARAM_TYPE_CTX_PTR, &seedctx_cookie, 0);
        BSL_PARAM_InitValue(&p[i++], CRYPT_PARAM_RAND_SEED_GETENTROPY, BSL_PARAM_TYPE_FUNC_PTR, getE, 0);
        BSL_PARAM_InitValue(&p[i++], CRYPT_PARAM_RAND_SEED_CLEANENTROPY, BSL_PARAM_TYPE_FUNC_PTR, cleanD, 0);
        if (nonce) { BSL_PARAM_InitValue(&p[i++], CRYPT_PARAM_RAND_SEED_GETNONCE, BSL_PARAM_TYPE_FUNC_PTR, getN, 0); BSL_PARAM_InitValue(&p[i++], CRYPT_PARAM_RAND_SEED_CLEANNONCE, BSL_PARAM_TYPE_FUNC_PTR, cleanD, 0); }
        p[i] = (BSL_Param)BSL_PARAM_END;
        lc = CRYPT_EAL_ProviderDrbgNewCtx(NULL, a->id, NULL, p);
    } else { lc = CRYPT_EAL_DrbgNew(a->id, &sm, &seedctx_cookie); }
    if (!lc) { if (hx_failed) { return; } mc_fatal("no %s", a->name); }
    int32_t r = 0; uint32_t iv; uint64_t t = 0;
    if (cf.interval != UINT64_MAX) { iv = (uint32_t)cf.interval; r |= CRYPT_EAL_DrbgCtrl(lc, CRYPT_CTRL_SET_RESEED_INTERVAL, &iv, 4); }
    r |= CRYPT_EAL_DrbgCtrl(lc, CRYPT_CTRL_GET_RESEED_INTERVAL, &iv, 4); cf.interval = iv;
    MC_CHECK(iv <= 10000, "reseed interval %u", iv);
    if (cf.itime >= 0) { t = (uint64_t)cf.itime; r |= CRYPT_EAL_DrbgCtrl(lc, CRYPT_CTRL_SET_RESEED_TIME, &t, 8); }
    r |= CRYPT_EAL_DrbgCtrl(lc, CRYPT_CTRL_GET_RESEED_TIME, &t, 8); cf.itime = (int)t;
    if (c->itime < 0) { MC_CHECK(!a->gm || (t > 0 && t <= 60), "GM generator reseeds after %d seconds", (int)t); }
    if (cf.pr) { bool b = true; r |= CRYPT_EAL_DrbgCtrl(lc, CRYPT_CTRL_SET_PREDICTION_RESISTANCE, &b, sizeof b); }
    if (r) { mc_fatal("ctrl %x", r); }
}
static void end(void)
{
    if (cf.api == 2) { CRYPT_EAL_RandDeinit(); ginit = false; } else { CRYPT_EAL_DrbgDeinit(lc); lc = NULL; }
    ev_reset(); BSL_ERR_ClearError();
}
static const Conf confs[] = { { UINT64_MAX, false, -1, 0 }, { 1, false, -1, 0 }, { 2, false, 0, 0 }, { UINT64_MAX, true, -1, 0 }, { 0, false, 50, 0 }, { 3, false, 50, 1 }, { UINT64_MAX, false, -1, 2 } };
static void seqs(void)
{
    mc_space("call sequences");
    static const int all[] = { O_I, O_P, O_G1, O_GN, O_GA, O_S, O_SA, O_X, O_C, O_T, O_D };
    for (unsigned ai = 0; ai < MC_LEN(algs); ai++) {
        bool deep = algs[ai].id == CRYPT_RAND_SHA384 || algs[ai].id == CRYPT_RAND_HMAC_SHA256 || algs[ai].id == CRYPT_RAND_AES192_CTR || algs[ai].id == CRYPT_RAND_AES256_CTR_DF || algs[ai].gm;
        int D = (mc_thorough ? 4 : 3) + deep;
        for (unsigned ci = 0; ci < MC_LEN(confs); ci++) {
            for (int nn = 0; nn < 2; nn++) {
                for (int first = 0; first < (int)MC_LEN(all); first++) {
                    if (!mc_case("%s conf %u nonce %d first %c", algs[ai].name, ci, nn, on_[all[first]])) { continue; }
                    long tot = 1; for (int i = 1; i < D; i++) { tot *= (long)MC_LEN(all); }
                    for (long v = 0; v < tot && !mc_failed(); v++) {
                        int op[8]; long w = v; op[0] = all[first];
                        for (int i = 1; i < D; i++) { op[i] = all[w % (long)MC_LEN(all)]; w /= (long)MC_LEN(all); }
                        /* dull sequences: deinit only for the global generator, control only for own ones, time only with a limit */
                        bool skip = false;
                        for (int i = 0; i < D; i++) { skip |= (op[i] == O_D) != (confs[ci].api == 2) && op[i] == O_D; skip |= op[i] == O_C && confs[ci].api == 2; skip |= op[i] == O_T && !(confs[ci].itime > 0 || (algs[ai].gm && confs[ci].itime < 0)); skip |= i > 0 && op[i] == op[i - 1] && (op[i] == O_X || op[i] == O_C || op[i] == O_T); }
                        if (skip) { continue; }
                        /* no fault first, to learn the number of requests; then every request failing in every way */
                        int ncalls = 0;
                        for (int fa = -1; fa < ncalls && !mc_failed(); fa++) {
                            for (int k = fa < 0 ? 0 : 1; k <= (fa < 0 ? 0 : 5); k++) {
                                if (k > 2 && !mc_thorough && deep && fa != 0) { continue; }
                                for (int per = 0; per < (k == 1 ? 2 : 1); per++) {
                                    fault_at = fa; fault_kind = k; fault_on = per; elen = (int)(v % 3);
                                    begin(&algs[ai], &confs[ci], nn);
                                    int i; for (i = 0; i < D; i++) { step(op[i]); }
                                    if (fa < 0) { ncalls = call; }
                                    end();
                                    if (mc_failed()) { char t[16] = ""; for (int j = 0; j < D; j++) { t[j] = on_[op[j]]; } mc_note("sequence %s fault at %d kind %d persistent %d elen %d", t, fa, k, per, elen); mc_fail("in sequence %s (fault %d/%d/%d)", t, fa, k, per); goto next; }
                                }
                            }
                        }
                        next: ;
                        mc_trace(1);
                    }
                    fault_at = -1; fault_kind = 0;
                }
            }
        }
    }
}
static void longruns(void)
{
    mc_space("large requests, long runs");
    for (unsigned ai = 0; ai < MC_LEN(algs); ai++) {
        for (int k = 0; k < 3; k++) {
            if (!mc_case("%s long %d", algs[ai].name, k)) { continue; }
            Conf c = { UINT64_MAX, false, 0, 0 };
            begin(&algs[ai], &c, k & 1);
            step(O_P);
            if (k == 0) { for (int i = 0; i < 3; i++) { step(O_L); step(O_GN); } }
            else if (k == 1) { for (int i = 0; i < 10010 && !mc_failed(); i++) { step(O_G1); } }
            else { for (int i = 0; i < 300 && !mc_failed(); i++) { step(i % 3 == 0 ? O_GN : i % 3 == 1 ? O_GA : i % 7 == 0 ? O_S : O_G1); } }
            end();
            mc_trace(1);
        }
    }
}
static void forks(void)
{
    mc_space("forked processes");
    for (unsigned ai = 0; ai < MC_LEN(algs); ai++) {
        for (int api = 0; api < 3; api++) {
            for (int pre = 0; pre < 3; pre++) {
                if (!mc_case("%s fork api %d after %d", algs[ai].name, api, pre)) { continue; }
                Conf c = { UINT64_MAX, false, 0, api };
                begin(&algs[ai], &c, pre & 1);
                step(O_I);
                if (pre > 0) { step(O_GN); } if (pre > 1) { step(O_S); }
                fflush(NULL);
                pid_t p = fork();
                if (p == 0) {
                    forked = true;
                    step(O_G1); step(O_GN); step(O_GA);
                    if (!mc_failed()) { pid_t q = fork(); if (q == 0) { forked = true; step(O_GA); step(O_G1); _exit(mc_failed() ? 9 : 0); } int s = 0; waitpid(q, &s, 0); _exit(WIFEXITED(s) ? WEXITSTATUS(s) : 8); }
                    _exit(9);
                }
                int s = 0; waitpid(p, &s, 0);
                MC_CHECK(WIFEXITED(s) && WEXITSTATUS(s) == 0, "the generator in a forked process does not start from fresh entropy (%x)", s);
                step(O_GN); step(O_S); step(O_G1);
                end();
                mc_trace(1);
            }
        }
    }
}
static void oom(void)
{
    mc_space("allocation failures");
    static const int sq[][4] = { { O_I, O_GN, O_GA, O_G1 }, { O_P, O_S, O_GN, O_SA }, { O_I, O_GA, O_SA, O_GN } };
    for (unsigned ai = 0; ai < MC_LEN(algs); ai++) {
        for (int q = 0; q < 3; q++) {
            if (!mc_case("%s allocation failures %d", algs[ai].name, q)) { continue; }
            for (int per = 0; per < 2; per++) {
                for (uint64_t k = 1; k < 200; k++) {
                    Conf c = { q == 1 ? 1 : UINT64_MAX, q == 2, 0, 0 };
                    hx_failed = 0; begin(&algs[ai], &c, q & 1);
                    hx_fail_arm(k, per);
                    for (int i = 0; i < 4; i++) { if (!step(sq[q][i])) { break; } if (hx_failed && m.st != 1) { break; } }
                    bool none = hx_failed == 0;
                    hx_fail_off(); end();
                    if (none || mc_failed()) { break; }
                }
            }
            mc_trace(1);
        }
    }
}
/* ---------- entropy source with a scripted noise source; seed pool with scripted entropy sources ---------- */
static uint64_t npos, ngood; static int nmode; static uint64_t an_at, an_n, an_step; static uint8_t an_v;     /* mode 0 good 1 stuck 2 error 3 two values */
static int32_t ns_read(void *c, uint32_t t, uint8_t *b, uint32_t n)
{
    (void)c; (void)t;
    if (nmode == 2) { return CRYPT_ENTROPY_ES_NS_NOT_AVA; }
    for (uint32_t i = 0; i < n; i++, npos++) {
        b[i] = nmode == 1 ? 7 : nmode == 3 ? (uint8_t)(npos & 1) : (uint8_t)(mc_hash2(npos / 16, 5) % 15 * 16 + npos % 16);
        if (nmode == 0 || nmode == 3) { ngood++; }
        if (an_n && npos >= an_at && (npos - an_at) % an_step == 0 && (npos - an_at) / an_step < an_n) { b[i] = an_v; }
    }
    return 0;
}
static const char *cfs[] = { "sha256_df", "sm3_df", "sha224_df", "sha384_df", "sha512_df" };
static CRYPT_EAL_Es *es_new(const char *cf_, uint32_t claim, uint32_t rct, uint32_t apt, uint32_t win)
{
    bool on = true; npos = ngood = 0; nmode = 0;
    CRYPT_EAL_Es *es = CRYPT_EAL_EsNew();
    if (!es) { mc_fatal("EsNew"); }
    CRYPT_EAL_NsPara p = { "scripted", false, claim, { NULL, NULL, ns_read, NULL }, { rct, apt, win } };
    (void)CRYPT_EAL_EsCtrl(es, CRYPT_ENTROPY_REMOVE_NS, (void *)(uintptr_t)"CPU-Jitter", 10); (void)CRYPT_EAL_EsCtrl(es, CRYPT_ENTROPY_REMOVE_NS, (void *)(uintptr_t)"CPU-HashLoop", 12);
    int32_t r = CRYPT_EAL_EsCtrl(es, CRYPT_ENTROPY_SET_CF, (void *)(uintptr_t)cf_, (uint32_t)strlen(cf_));
    r |= CRYPT_EAL_EsCtrl(es, CRYPT_ENTROPY_ENABLE_TEST, &on, 1);
    r |= CRYPT_EAL_EsCtrl(es, CRYPT_ENTROPY_ADD_NS, &p, sizeof p);
    if (r) { mc_fatal("es %x", r); }
    return es;
}
static void es_startup(void)
{
    mc_space("noise source health");
    for (int k = 0; k < 2; k++) {
        for (unsigned at = 0; at < 1024; at += k ? 64 : 1) {
            if (!mc_case("startup %s at %u", k ? "proportion" : "run", at)) { continue; }
            for (unsigned n = 3; n <= (k ? 24u : 9u); n++) {
                an_at = at; an_n = n; an_step = k ? 2 : 1; an_v = 0xFF;
                if (at + n * an_step > 1024) { continue; }
                CRYPT_EAL_Es *es = es_new("sha256_df", 8, k ? 30 : 6, k ? 20 : 600, k ? 64 : 1024);
                int32_t r = CRYPT_EAL_EsInit(es); bool bad = n >= (k ? 20u : 6u);
                MC_CHECK((r != 0) == bad, "%u equal samples, cutoff %u: %x", n, k ? 20 : 6, (unsigned)r);
                if (r != 0) { uint8_t b[8]; MC_CHECK(CRYPT_EAL_EsEntropyGet(es, b, 8) == 0, "entropy from a source that failed its startup test"); }
                CRYPT_EAL_EsFree(es); BSL_ERR_ClearError(); mc_transitions(1);
            }
            an_n = 0; mc_trace(1);
        }
    }
}
static void es_hist(void)
{
    mc_space("noise source histories");
    int D = mc_thorough ? 6 : 5;
    for (unsigned ci = 0; ci < MC_LEN(cfs); ci++) {
        for (unsigned claim = 1; claim <= 8; claim += claim < 2 ? 1 : 3) {        /* 1 2 5 8 */
            for (int first = 0; first < 36; first++) {
                if (!mc_case("%s claim %u first %d", cfs[ci], claim, first)) { continue; }
                long tot = 1; for (int i = 2; i < D - (claim < 5 || ci > 1); i++) { tot *= 6; }
                for (long v = 0; v < tot && !mc_failed(); v++) {
                    long w = v * 36 + first; char sq[16] = ""; uint64_t outn = 0; static uint8_t all[4096]; uint64_t start = 0;
                    CRYPT_EAL_Es *es = es_new(cfs[ci], claim, 6, 60, 512); an_n = 0;
                    int32_t r = CRYPT_EAL_EsInit(es);
                    MC_CHECK(r == 0, "a healthy source is refused %x", (unsigned)r);
                    start = 1024;
                    for (int i = 0; i < D; i++, w /= 6) {
                        int o = (int)(w % 6); sq[i] = "g1f0sea"[o]; uint8_t b[100]; uint32_t n = 0, want = o == 1 ? 1 : 70;
                        if (o == 0) { (void)CRYPT_EAL_EsCtrl(es, CRYPT_ENTROPY_GATHER_ENTROPY, NULL, 0); }
                        else if (o < 3) {
                            memset(b, 0xA5, sizeof b); n = CRYPT_EAL_EsEntropyGet(es, b, want);
                            MC_CHECK(n <= want, "%u bytes for %u", n, want);
                            for (uint32_t z = n; z < want && n <= want; z++) { if (b[z] != 0xA5) { mc_fail("writes more than the %u bytes reported", n); break; } }
                            if (n <= want && outn + n < sizeof all) { memcpy(all + outn, b, n); outn += n; }
                        } else { nmode = o - 3; }
                        MC_CHECK(outn * 8 <= (ngood > start ? ngood - start : 0) * claim, "%llu bytes of entropy out of %llu healthy samples of %u bits", (unsigned long long)outn, (unsigned long long)(ngood - start), claim);
                        mc_transitions(1);
                    }
                    for (uint64_t a = 0; a + 8 <= outn; a++) { for (uint64_t b2 = a + 1; b2 + 8 <= outn && b2 < a + 80; b2++) { if (memcmp(all + a, all + b2, 8) == 0) { mc_fail("entropy is handed out twice"); a = outn; break; } } }
                    if (mc_failed()) { mc_fail("in history %s", sq); }
                    mc_state(mc_hash(all, outn)); CRYPT_EAL_EsFree(es); BSL_ERR_ClearError();
                }
                mc_trace(1);
            }
        }
    }
}
typedef struct { int mode; uint32_t me; uint64_t given; int calls; uint8_t id; } PS;
static uint8_t glog[8192]; static size_t glogn;
static uint32_t ps_get(void *c, uint8_t *b, uint32_t n)
{
    PS *p = c; uint32_t k = n; p->calls++;
    if (p->mode == 1) { k = n > 3 ? 3 : n; } else if (p->mode == 2) { k = 0; } else if (p->mode == 3) { k = p->calls > 1 ? 0 : n / 2; } else if (p->mode == 4) { memset(b, 1, n); return n + 1; }
    mc_fill(b, k, p->id * 7919u + p->given); p->given += k;
    if (glogn + k < sizeof glog) { memcpy(glog + glogn, b, k); glogn += k; }
    return k;
}
static void pools(void)
{
    mc_space("seed pool");
    static const uint32_t mes[] = { 8, 5, 1 }; static const uint32_t st[] = { 1, 128, 256, 600 };
    static const CRYPT_Range rg[] = { { 0, 64 }, { 16, 16 }, { 32, 32 }, { 32, 64 }, { 48, 48 }, { 40, 400 }, { 75, 75 }, { 1, 2000 } };
    for (int cfg = 0; cfg < 16 * 16 * 16; cfg++) {
        int c[3] = { cfg % 16, cfg / 16 % 16, cfg / 256 }; bool dull = false;      /* 15: absent, else mode * 3 + rate */
        for (int i = 0; i < 2; i++) { dull |= c[i] == 15 && c[i + 1] != 15; }
        if (dull || !mc_case("sources %d %d %d", c[0], c[1], c[2])) { continue; }
        for (unsigned si = 0; si < 4; si++) {
            for (unsigned ri = 0; ri < MC_LEN(rg); ri++) {
                PS ps[3]; memset(ps, 0, sizeof ps); glogn = 0; bool over = false, full = true; int np = 0;
                CRYPT_EAL_SeedPoolCtx *sp = CRYPT_EAL_SeedPoolNew(true);
                uint32_t minme = 8;
                for (int i = 0; i < 3; i++) {
                    if (c[i] == 15) { continue; }
                    ps[i].mode = c[i] / 3; ps[i].me = mes[c[i] % 3]; ps[i].id = (uint8_t)(i + 1); np++;
                    over |= ps[i].mode == 4; full &= ps[i].mode == 0; if (ps[i].me < minme) { minme = ps[i].me; }
                    CRYPT_EAL_EsPara ep = { (i & 1) != 0, ps[i].me, &ps[i], ps_get };
                    if (CRYPT_EAL_SeedPoolAddEs(sp, &ep)) { mc_fatal("AddEs"); }
                }
                for (int rep = 0; rep < 2; rep++) {
                    glogn = 0; for (int i = 0; i < 3; i++) { ps[i].given = (uint64_t)rep << 32; ps[i].calls = 0; }
                    CRYPT_Data e = {0};
                    int32_t r = CRYPT_EAL_SeedPoolGetEntropy(sp, &e, st[si], &rg[ri]);
                    uint64_t credit = 0; for (int i = 0; i < 3; i++) { credit += (uint32_t)ps[i].given * (uint64_t)ps[i].me; }
                    if (r == 0) {
                        MC_CHECK(np > 0 && e.data && e.len >= rg[ri].min && e.len <= rg[ri].max, "strength %u range %u-%u: %u bytes", st[si], rg[ri].min, rg[ri].max, e.len);
                        MC_CHECK(credit >= st[si], "strength %u range %u-%u: only %llu bits of entropy from the sources", st[si], rg[ri].min, rg[ri].max, (unsigned long long)credit);
                        if (e.len <= glogn && (rg[ri].min != rg[ri].max || minme == 8)) { MC_CHECK(e.len == glogn && memcmp(e.data, glog, glogn) == 0, "strength %u range %u-%u: the seed is not what the sources gave", st[si], rg[ri].min, rg[ri].max); }
                        else if (rg[ri].min != rg[ri].max) { mc_fail("strength %u range %u-%u: %u bytes of seed from %zu given", st[si], rg[ri].min, rg[ri].max, e.len, glogn); }
                        BSL_SAL_Free(e.data);
                    } else {
                        MC_CHECK(e.data == NULL, "failing request returns data");
                        MC_CHECK(!(np && full && minme == 8 && st[si] <= rg[ri].max * 8), "strength %u range %u-%u refused %x with full sources", st[si], rg[ri].min, rg[ri].max, (unsigned)r);
                    }
                    mc_transitions(1); mc_outcome(&r, 4); mc_state(mc_hash(glog, glogn));
                }
                CRYPT_EAL_SeedPoolFree(sp); BSL_ERR_ClearError();
            }
        }
        mc_trace(1);
    }
}
void mc_explore(void)
{
    hx_init_alloc();
    BSL_ERR_Init();
    int32_t r = CRYPT_EAL_Init(CRYPT_EAL_INIT_ALL);
    if (r) { mc_fatal("init %x", r); }
    CRYPT_EAL_RandDeinit();
    BSL_SAL_CallBack_Ctrl(BSL_SAL_TIME_GET_UTC_TIME_CB_FUNC, clk);
    CRYPT_EAL_DrbgDeinit(NULL); CRYPT_EAL_Randbytes(NULL, 0); BSL_ERR_ClearError();
    seqs(); longruns(); forks(); oom();
    es_startup(); es_hist(); pools();
}
