/* C11: chain verification against an independent path model.  Certificates are described by PxCert records; the model
 * decides on the records, the library on the encoded certificates. */
#include "hx.h"
#include "pkix.h"
#include "hitls_pki_x509.h"
#include "hitls_pki_cert.h"
#include "hitls_pki_crl.h"
#include "hitls_pki_types.h"
#include "hitls_pki_errno.h"
#include "bsl_types.h"
#define T0 1700000000
#define DAY 86400
#define MAXN 8
static uint64_t certhash(const PxCert *c)
{
    uint64_t h = mc_hash(c->issuer, strlen(c->issuer));
    h = mc_hash2(h, mc_hash(c->subject, strlen(c->subject)));
    h = mc_hash2(h, mc_hash2(mc_hash(c->pub->skid, 20), mc_hash(c->signer->skid, 20)));
    int64_t k[] = { c->version, c->serial, c->from, c->to, c->bcons, c->pathlen, c->ku, c->eku, c->ekuCrit, c->ski, c->aki, c->unknownExt, c->badSig, c->md, c->noBconsCrit };
    return mc_hash2(h, mc_hash(k, sizeof k));
}
static HITLS_X509_Cert *parse(const PxCert *c)
{
    static struct { uint64_t h; HITLS_X509_Cert *x; bool used; } *tab; static size_t cnt;
    enum { CAP = 1 << 16 };
    if (!tab) { tab = calloc(CAP, sizeof *tab); }
    uint64_t h = certhash(c);
    size_t i = h % CAP;
    while (tab[i].used && tab[i].h != h) { i = (i + 1) % CAP; }
    if (!tab[i].used) {
        if (++cnt > CAP / 2) { mc_fatal("certificate table full"); }
        Buf d = {0};
        px_cert(c, &d);
        BSL_Buffer b = { d.p, (uint32_t)d.n };
        tab[i].used = true; tab[i].h = h;
        if (HITLS_X509_CertParseBuff(BSL_FORMAT_ASN1, &b, &tab[i].x) != 0) { tab[i].x = NULL; BSL_ERR_ClearError(); }
        buf_free(&d);
    }
    return tab[i].x;
}
typedef struct {
    bool partial, notime; int64_t time; int depth; int secbits; int purpose;
    int crlMode;               /* 0 none, 1 end entity, 2 all */
    bool lite, delta;
} Cfg;
static bool has_ext(const PxCert *c) { return c->bcons >= 0 || c->ku || c->eku || c->ski || c->aki || c->unknownExt || c->rawExt; }
static int ver(const PxCert *c) { return c->version ? c->version : 3; }
static const uint8_t *idof(const PxKey *k, int mode, uint8_t out[20]) { memcpy(out, k->skid, 20); if (mode == 2) { out[0] ^= 1; } return out; }
static bool named(const PxCert *a, const PxCert *b)
{
    uint8_t x[20], y[20];
    if (strcmp(a->subject, b->issuer)) { return false; }
    if (ver(a) == 3 && ver(b) == 3 && a->ski && b->aki && memcmp(idof(a->pub, a->ski, x), idof(b->signer, b->aki, y), 20)) { return false; }
    return (a->pub->kind == PK_RSA2048) == (b->signer->kind == PK_RSA2048) && (a->pub->kind == PK_ED25519) == (b->signer->kind == PK_ED25519);
}
static bool sigok(const PxCert *a, const PxCert *b) { return a->pub == b->signer && !b->badSig; }
static bool selfsigned(const PxCert *c) { return !strcmp(c->issuer, c->subject) && named(c, c) && sigok(c, c); }
static bool selfissued(const PxCert *c) { return !strcmp(c->issuer, c->subject); }
static int bits(const PxKey *k) { return k->kind == PK_EC384 ? 192 : k->kind == PK_EC521 ? 256 : k->kind == PK_RSA2048 ? 112 : 128; }
static int mdbits(const PxCert *c) { return c->signer->kind == PK_ED25519 ? 999 : c->md == CRYPT_MD_SHA384 ? 192 : c->md == CRYPT_MD_SHA1 ? 63 : 128; }
static bool purpose_ok(const PxCert *c, int p, bool *open)
{
    static const int need[8] = { 0, 0xF8, 0xF8, 0xC0, 0x20, 0x80, 0xC0, 0xC0 };
    if (p <= 0 || p >= 8 || ver(c) != 3) { return true; }
    if (c->ku && !(c->ku & need[p])) { return false; }
    if (c->eku) {
        int e = p == 1 ? EKU_SERVER : p == 2 ? EKU_CLIENT : p == 7 ? EKU_OTHER : 0;
        if (!(c->eku & e)) { if (c->eku & EKU_ANY) { *open = true; } return false; }
    }
    return true;
}
/* is p[0..n-1] (leaf first, p[n-1] the trust anchor) a valid path under cfg?  *open is set when the property leaves it open */
static bool path_ok(const PxCert *const *p, int n, const Cfg *g, bool *open)
{
    const PxCert *an = p[n - 1];
    *open = false;
    for (int i = 0; i < n; i++) { for (int j = i + 1; j < n; j++) { if (p[i] == p[j]) { return false; } } }
    if (!selfsigned(an) && !(g->partial && n > 1)) { return false; }
    for (int i = 0; i + 1 < n; i++) { if (!named(p[i + 1], p[i]) || !sigok(p[i + 1], p[i])) { return false; } }
    if (n > g->depth) { return false; }
    for (int i = 0; i < n; i++) {
        if (!g->notime && (p[i]->from > g->time || p[i]->to < g->time)) { return false; }
        if (p[i]->unknownExt == 2) { return false; }
        if (ver(p[i]) < 3 && has_ext(p[i])) { return false; }
        if (g->secbits && bits(p[i]->pub) < g->secbits) { return false; }
        if (g->secbits && i < n - 1 && mdbits(p[i]) < g->secbits) { return false; }
    }
    int left = 1000;
    for (int i = n - 1; i > 0; i--) {
        const PxCert *c = p[i];
        if (ver(c) < 3) { if (i < n - 1) { return false; } } else if (c->bcons != 1) { return false; }
        if (c->ku && !(c->ku & 0x04)) { return false; }
        if (!selfissued(c)) { if (left <= 0) { return false; } left--; }
        if (c->bcons == 1 && c->pathlen >= 0 && c->pathlen < left) { left = c->pathlen; }
    }
    return purpose_ok(p[0], g->purpose, open);
}
static int32_t verify(const PxCert *const *trust, int nt, const PxCert *const *chain, int nc, const Cfg *g, HITLS_X509_Crl **crls, int ncrl, bool *trusted)
{
    HITLS_X509_StoreCtx *st = HITLS_X509_StoreCtxNew();
    int64_t fl = 0; int32_t r;
    if (g->partial) { fl |= HITLS_X509_VFY_FLAG_PARTIAL_CHAIN; }
    if (g->notime) { fl |= HITLS_X509_VFY_FLAG_DISABLE_TIME_CHECK; }
    if (g->crlMode == 1) { fl |= HITLS_X509_VFY_FLAG_CRL_DEV; }
    if (g->crlMode == 2) { fl |= HITLS_X509_VFY_FLAG_CRL_ALL; }
    if (g->lite) { fl |= HITLS_X509_VFY_FLAG_CRL_LITE; }
    if (g->delta) { fl |= HITLS_X509_VFY_FLAG_CRL_USE_DELTA; }
    r = fl ? HITLS_X509_StoreCtxCtrl(st, HITLS_X509_STORECTX_SET_PARAM_FLAGS, &fl, sizeof fl) : 0;
    if (r) { mc_fatal("flags %x", r); }
    int64_t t = g->time;
    if (!g->notime && (r = HITLS_X509_StoreCtxCtrl(st, HITLS_X509_STORECTX_SET_TIME, &t, sizeof t)) != 0) { mc_fatal("time %x", r); }
    int32_t d = g->depth;
    if ((r = HITLS_X509_StoreCtxCtrl(st, HITLS_X509_STORECTX_SET_PARAM_DEPTH, &d, sizeof d)) != 0) { mc_fatal("depth %x", r); }
    uint32_t sb = (uint32_t)g->secbits;
    if (sb && (r = HITLS_X509_StoreCtxCtrl(st, HITLS_X509_STORECTX_SET_SECBITS, &sb, sizeof sb)) != 0) { mc_fatal("secbits %x", r); }
    int32_t pu = g->purpose;
    if (pu && (r = HITLS_X509_StoreCtxCtrl(st, HITLS_X509_STORECTX_SET_PURPOSE, &pu, sizeof pu)) != 0) { mc_fatal("purpose %x", r); }
    for (int i = 0; i < nt; i++) {
        HITLS_X509_Cert *x = parse(trust[i]);
        trusted[i] = x && HITLS_X509_StoreCtxCtrl(st, HITLS_X509_STORECTX_DEEP_COPY_SET_CA, x, 0) == 0;
    }
    for (int i = 0; i < ncrl; i++) { if ((r = HITLS_X509_StoreCtxCtrl(st, HITLS_X509_STORECTX_SET_CRL, crls[i], 0)) != 0) { mc_fatal("crl %x", r); } }
    HITLS_X509_List *l = BSL_LIST_New(sizeof(void *));
    for (int i = 0; i < nc; i++) {
        HITLS_X509_Cert *x = parse(chain[i]); int ref;
        if (!x) { if (i == 0) { r = 0xBAD; } continue; }
        (void)HITLS_X509_CertCtrl(x, HITLS_X509_REF_UP, &ref, sizeof ref);
        (void)BSL_LIST_AddElement(l, x, BSL_LIST_POS_END);
    }
    r = 0xBAD;
    if (nc && parse(chain[0])) { r = HITLS_X509_CertVerify(st, l); }
    /* a second verification with the same context must answer the same */
    if (r != 0xBAD) { int32_t r2 = HITLS_X509_CertVerify(st, l); MC_CHECK((r == 0) == (r2 == 0), "the same verification repeated answers %x, then %x", (unsigned)r, (unsigned)r2); }
    BSL_LIST_FREE(l, (BSL_LIST_PFUNC_FREE)HITLS_X509_CertFree);
    HITLS_X509_StoreCtxFree(st);
    BSL_ERR_ClearError();
    mc_transitions(2);
    return r;
}
/* all simple paths from the leaf over the certificates at hand; counts valid ones and whether every certificate on the
 * way has one possible issuer only */
typedef struct { const PxCert *c; bool trusted, given; } Node;
static int search(const Node *nd, int nn, const PxCert **p, int n, const Cfg *g, bool *amb, bool *anyopen)
{
    int found = 0, cand = 0;
    for (int i = 0; i < nn; i++) { if (nd[i].c == p[n - 1] && nd[i].trusted) { bool o; if (path_ok(p, n, g, &o)) { found++; } *anyopen |= o; } }
    if (n >= MAXN) { return found; }
    for (int i = 0; i < nn; i++) {
        if ((!nd[i].trusted && !nd[i].given) || !named(nd[i].c, p[n - 1])) { continue; }
        cand++;
        bool dup = false;
        for (int j = 0; j < n; j++) { dup |= p[j] == nd[i].c; }
        if (dup) { continue; }
        p[n] = nd[i].c;
        found += search(nd, nn, p, n + 1, g, amb, anyopen);
    }
    if (cand > 1) { *amb = true; }
    return found;
}
/* The library commits to the first candidate issuer (known finding F18); where several candidates exist the accepting
 * direction is judged in the dedicated cases only, the refusing direction everywhere. */
static bool judge_alt; static uint64_t nalt;
static void judge(const char *what, const PxCert *const *trust, int nt, const PxCert *const *chain, int nc, const Cfg *g)
{
    bool tr[MAXN] = {0};
    int32_t r = verify(trust, nt, chain, nc, g, NULL, 0, tr);
    Node nd[2 * MAXN]; int nn = 0;
    for (int i = 0; i < nt; i++) { if (tr[i]) { nd[nn++] = (Node){ trust[i], true, false }; } }
    for (int i = 0; i < nc; i++) {
        bool have = false;
        for (int j = 0; j < nn; j++) { if (nd[j].c == chain[i]) { nd[j].given = have = true; } }
        if (!have && parse(chain[i])) { nd[nn++] = (Node){ chain[i], false, true }; }
    }
    const PxCert *p[MAXN + 2]; bool amb = false, open = false;
    p[0] = chain[0];
    uint64_t sh = mc_hash2((uint64_t)g->time * 3 + g->partial, (uint64_t)g->depth * 4096 + (uint64_t)g->secbits * 16 + (uint64_t)g->purpose * 2 + g->notime);
    for (int i = 0; i < nt; i++) { sh = mc_hash2(sh, certhash(trust[i])); }
    for (int i = 0; i < nc; i++) { sh = mc_hash2(sh + 1, certhash(chain[i])); }
    mc_state(sh);
    int found = parse(chain[0]) ? search(nd, nn, p, 1, g, &amb, &open) : 0;
    int want = found > 0 ? 1 : 0;
    mc_note("%s: %d valid paths, ambiguous %d, open %d -> %x", what, found, amb, open, (unsigned)r);
    mc_outcome(&r, sizeof r);
    if (r == 0) { MC_CHECK(want || open, "%s: no valid path, but the chain was accepted", what); }
    else if (want && amb) { nalt++; MC_CHECK(!judge_alt, "%s: among several candidate issuers one gives a valid path, but verification answers %x", what, (unsigned)r); }
    else if (want) { MC_CHECK(false, "%s: there is a valid path, but verification answers %x", what, (unsigned)r); }
}
/* ---- one line of certificates, variations of attributes ---- */
static PxKey *K(int i) { return px_key(PK_EC256, i); }
static void base(PxCert *c, int n)        /* c[0] leaf .. c[n-1] root */
{
    static const char *nm[] = { "leaf", "ca1", "ca2", "ca3", "root" };
    for (int i = 0; i < n; i++) {
        bool root = i == n - 1;
        c[i] = (PxCert){ .serial = (uint32_t)(100 + i), .subject = root && n > 1 ? "root" : nm[i], .issuer = root ? (n > 1 ? "root" : nm[i]) : i == n - 2 ? "root" : nm[i + 1], .from = T0 - 10 * DAY, .to = T0 + 10 * DAY,
            .pub = root ? K(4) : K(i), .signer = i >= n - 2 ? K(4) : K(i + 1), .bcons = i || n == 1 ? 1 : -1, .pathlen = -1, .ku = i || n == 1 ? 0x06 : 0x80, .ski = 1, .aki = 1 };
    }
}
enum { V_NONE, V_EXPIRED, V_FUTURE, V_EDGE_TO, V_EDGE_TO1, V_EDGE_FROM, V_EDGE_FROM1, V_BADSIG, V_OTHERSIGNER, V_ISSUERNAME, V_SUBJNAME, V_AKIWRONG, V_SKIWRONG, V_NOAKI, V_NOSKI, V_NOIDS, V_NOBCONS, V_CAFALSE,
    V_CATRUE, V_PL0, V_PL1, V_PL2, V_KUNONE, V_KUDS, V_KUCS, V_KUEMPTY, V_KUALL, V_UNKNOWN, V_UNKNOWNCRIT, V_V1, V_V1EXT, V_V2EXT, V_EKUSERVER, V_EKUCLIENT, V_EKUANYOTHER, V_SELFISSUED, V_WEAKKEY, V_STRONGMD, V_NOTCRITBC, V_SAMEKEY, V_SHA1, V_COUNT };
static const char *vname[] = { "-", "expired", "future", "notAfter=now", "notAfter=now-1", "notBefore=now", "notBefore=now+1", "bad signature", "signed by another key", "other issuer name", "other subject name", "wrong AKI", "wrong SKI", "no AKI", "no SKI", "no key ids", "no basicConstraints", "CA false",
    "CA true", "pathlen 0", "pathlen 1", "pathlen 2", "no KU", "KU digitalSignature", "KU certSign", "KU empty", "KU all", "unknown ext", "unknown critical ext", "v1", "v1 with ext", "v2 with ext", "EKU server", "EKU client", "EKU any+time", "self-issued", "RSA-2048 key", "SHA-384", "bcons not critical", "key of the leaf", "SHA-1" };
static void vary(PxCert *c, int n, int i, int v)
{
    PxCert *x = &c[i];
    switch (v) {
        case V_EXPIRED: x->to = T0 - DAY; break;
        case V_FUTURE: x->from = T0 + DAY; break;
        case V_EDGE_TO: x->to = T0; break;
        case V_EDGE_TO1: x->to = T0 - 1; break;
        case V_EDGE_FROM: x->from = T0; break;
        case V_EDGE_FROM1: x->from = T0 + 1; break;
        case V_BADSIG: x->badSig = 1; break;
        case V_OTHERSIGNER: x->signer = K(7); break;
        case V_ISSUERNAME: x->issuer = "nobody"; break;
        case V_SUBJNAME: x->subject = "someone"; break;
        case V_AKIWRONG: x->aki = 2; break;
        case V_SKIWRONG: x->ski = 2; break;
        case V_NOAKI: x->aki = 0; break;
        case V_NOSKI: x->ski = 0; break;
        case V_NOIDS: x->aki = x->ski = 0; break;
        case V_NOBCONS: x->bcons = -1; break;
        case V_CAFALSE: x->bcons = 0; break;
        case V_CATRUE: x->bcons = 1; break;
        case V_PL0: case V_PL1: case V_PL2: x->bcons = 1; x->pathlen = v - V_PL0; break;
        case V_KUNONE: x->ku = 0; break;
        case V_KUDS: x->ku = 0x80; break;
        case V_KUCS: x->ku = 0x04; break;
        case V_KUEMPTY: x->ku = 0x100; break;
        case V_KUALL: x->ku = 0xff; break;
        case V_UNKNOWN: x->unknownExt = 1; break;
        case V_UNKNOWNCRIT: x->unknownExt = 2; break;
        case V_V1: x->version = 1; x->bcons = -1; x->pathlen = -1; x->ku = 0; x->ski = x->aki = 0; break;
        case V_V1EXT: x->version = 1; break;
        case V_V2EXT: x->version = 2; break;
        case V_EKUSERVER: x->eku = EKU_SERVER; break;
        case V_EKUCLIENT: x->eku = EKU_CLIENT; x->ekuCrit = 1; break;
        case V_EKUANYOTHER: x->eku = EKU_ANY | EKU_OTHER; break;
        case V_SELFISSUED: if (i > 0 && i < n - 1) { x->subject = x->issuer; if (i > 0) { c[i - 1].issuer = x->subject; } } break;
        case V_WEAKKEY: x->pub = px_key(PK_RSA2048, 0); if (i > 0) { c[i - 1].signer = x->pub; } if (i == n - 1) { x->signer = x->pub; } break;
        case V_STRONGMD: x->md = CRYPT_MD_SHA384; break;
        case V_SHA1: x->md = CRYPT_MD_SHA1; break;
        case V_NOTCRITBC: x->noBconsCrit = 1; break;
        case V_SAMEKEY: if (i > 0) { x->pub = c[0].pub; c[i - 1].signer = x->pub; if (i == n - 1) { x->signer = x->pub; } } break;
        default: break;
    }
}
static const Cfg cfgs[] = {
    { .time = T0, .depth = 20 }, { .time = T0, .depth = 20, .partial = true }, { .notime = true, .depth = 20 }, { .time = T0, .depth = 3 }, { .time = T0, .depth = 20, .purpose = 1 },
    { .time = T0, .depth = 20, .purpose = 2, .partial = true }, { .time = T0, .depth = 20, .secbits = 128 }, { .time = T0, .depth = 20, .purpose = 7 }, { .time = T0, .depth = 2, .partial = true }, { .time = T0, .depth = 20, .secbits = 192 },
};
static void line(void)
{
    mc_space("attribute variations");
    for (int n = 1; n <= 5; n++) {
        if (n == 5 && !mc_thorough) { continue; }
        for (int a = 0; a < n; a++) {
            for (int va = 0; va < V_COUNT; va++) {
                if (va == V_NONE && a) { continue; }
                if (!mc_case("line %d: %s@%d", n, vname[va], a)) { continue; }
                for (int b = a; b < n; b++) {
                    for (int vb = 0; vb < V_COUNT; vb++) {
                        if (vb == V_NONE && b > a) { continue; }
                        if (va == V_NONE && vb != V_NONE) { continue; }
                        PxCert c[8]; base(c, n); vary(c, n, a, va); vary(c, n, b, vb);
                        const PxCert *tr[1] = { &c[n - 1] }, *ch[8], *tr2[2] = { n > 1 ? &c[n - 2] : &c[0], &c[n - 1] };
                        for (int i = 0; i < n; i++) { ch[i] = &c[i]; }
                        char what[128];
                        for (int k = 0; k < (int)MC_LEN(cfgs); k++) {
                            if (!mc_thorough && vb != V_NONE && k > 2 && (va * 7 + vb + k) % 4) { continue; }
                            snprintf(what, sizeof what, "%s@%d, configuration %d", vname[vb], b, k);
                            judge(what, tr, 1, ch, n, &cfgs[k]);
                            if (n > 2 && cfgs[k].partial) { snprintf(what, sizeof what, "%s@%d, configuration %d, intermediate trusted", vname[vb], b, k); judge(what, tr2, 1, ch, n, &cfgs[k]); }
                        }
                    }
                }
                mc_trace(1);
            }
        }
    }
    /* path length limits and chain lengths, all combinations */
    mc_space("path lengths");
    for (int n = 2; n <= 6; n++) {
        long tot = 1; for (int i = 1; i < n; i++) { tot *= 5; }
        for (long v = 0; v < tot; v++) {
            if (!mc_case("pathlen %d:%ld", n, v)) { continue; }
            for (int si = 0; si < (1 << (n - 2)); si++) {
                if (n > 4 && !mc_thorough && si != 0 && si != 1 && si != 2) { continue; }
                PxCert c[8]; long w = v;
                static const char *nm[] = { "leaf", "ca1", "ca2", "ca3", "ca4", "ca5", "ca6" };
                base(c, 2);
                for (int i = 0; i < n; i++) {
                    c[i] = (PxCert){ .serial = (uint32_t)(10 + i), .subject = i == n - 1 ? "root" : nm[i], .from = T0 - DAY, .to = T0 + DAY, .pub = K(i), .signer = i == n - 1 ? K(i) : K(i + 1), .bcons = i ? 1 : -1, .pathlen = -1, .ku = i ? 0x04 : 0x80, .ski = 1, .aki = 1 };
                    if (i) { c[i].pathlen = (int)(w % 5) - 1; w /= 5; }
                }
                for (int i = n - 1; i >= 0; i--) { c[i].issuer = i == n - 1 ? c[i].subject : c[i + 1].subject; if (i > 0 && i < n - 1 && (si >> (i - 1) & 1)) { c[i].subject = c[i].issuer; } }
                const PxCert *tr[1] = { &c[n - 1] }, *ch[8];
                for (int i = 0; i < n; i++) { ch[i] = &c[i]; }
                char what[64]; snprintf(what, sizeof what, "length %d self-issued %x", n, si);
                for (int dd = 0; dd < 3; dd++) { Cfg g = { .time = T0, .depth = dd == 0 ? 20 : dd == 1 ? n : n - 1 }; if (g.depth < 1) { continue; } judge(what, tr, 1, ch, n, &g); }
            }
            mc_trace(1);
        }
    }
    mc_space("purposes");
    for (int p = 0; p <= 8; p++) {
        for (int ku = -1; ku < 256; ku++) {
            if (!mc_case("purpose %d ku %d", p, ku)) { continue; }
            for (int eku = 0; eku < 16; eku++) {
                for (int v1 = 0; v1 < 2; v1++) {
                    PxCert c[2]; base(c, 2); c[0].ku = ku < 0 ? 0 : ku == 0 ? 0x100 : ku; c[0].eku = eku; c[0].ekuCrit = v1;
                    const PxCert *tr[1] = { &c[1] }, *ch[2] = { &c[0], &c[1] };
                    Cfg g = { .time = T0, .depth = 20, .purpose = p };
                    char what[64]; snprintf(what, sizeof what, "ku %x eku %x purpose %d", ku, eku, p);
                    judge(what, tr, 1, ch, 2, &g);
                }
            }
            mc_trace(1);
        }
    }
}
/* ---- several certificates with the same names: every distribution over {absent, given, trusted} in both orders ---- */
static void graph(void)
{
    mc_space("certificate pools");
    static PxCert pool[3][7];
    const int64_t f = T0 - DAY, t = T0 + DAY;
#define CA(s, i, pk, sk, ...) (PxCert){ .subject = s, .issuer = i, .pub = K(pk), .signer = K(sk), .from = f, .to = t, .bcons = 1, .pathlen = -1, .ku = 0x06, __VA_ARGS__ }
    /* leaf <- X; X from R and from S; R and S self-signed, cross-certified by each other */
    PxCert a[7] = { CA("X", "R", 1, 2, .serial = 1), CA("X", "S", 1, 3, .serial = 2), CA("R", "R", 2, 2, .serial = 3), CA("S", "S", 3, 3, .serial = 4), CA("R", "S", 2, 3, .serial = 5), CA("S", "R", 3, 2, .serial = 6), CA("X", "X", 1, 1, .serial = 7) };
    /* same names: expired and wrong-key twins of each issuer */
    PxCert b[7] = { CA("X", "R", 1, 2, .serial = 1), CA("X", "R", 5, 2, .serial = 2), CA("X", "R", 1, 2, .serial = 3), CA("R", "R", 2, 2, .serial = 4), CA("R", "R", 6, 6, .serial = 5), CA("R", "R", 2, 2, .serial = 6), CA("X", "R", 1, 6, .serial = 7) };
    b[2].to = T0 - 5; b[5].to = T0 - 5;
    /* impostors: end entities and forged certificates that could stand in a chain; loops */
    PxCert c[7] = { CA("X", "Y", 1, 2, .serial = 1), CA("Y", "X", 2, 1, .serial = 2), CA("Y", "R", 2, 3, .serial = 3), CA("R", "R", 3, 3, .serial = 4), CA("X", "R", 1, 5, .serial = 5), CA("X", "R", 1, 3, .serial = 6), CA("Y", "Y", 2, 2, .serial = 7) };
    c[5].bcons = 0;
    memcpy(pool[0], a, sizeof a); memcpy(pool[1], b, sizeof b); memcpy(pool[2], c, sizeof c);
    static PxCert leaf = { .subject = "leaf", .issuer = "X", .serial = 99, .bcons = -1, .pathlen = -1, .ku = 0x80 };
    leaf.pub = K(0); leaf.signer = K(1); leaf.from = f; leaf.to = t;
    for (int s = 0; s < 3; s++) {
        for (int ids = 0; ids < 2; ids++) {
            static PxCert w[7]; static PxCert lf;
            for (int v = 0; v < 2187; v++) {
                if (!mc_case("pool %d ids %d %d", s, ids, v)) { continue; }
                for (int i = 0; i < 7; i++) { w[i] = pool[s][i]; w[i].ski = w[i].aki = ids; }
                lf = leaf; lf.ski = lf.aki = ids;
                for (int ord = 0; ord < 2; ord++) {
                    const PxCert *tr[8], *ch[8]; int nt = 0, nc = 0, q = v;
                    ch[nc++] = &lf;
                    int st[7]; for (int i = 0; i < 7; i++) { st[i] = q % 3; q /= 3; }
                    for (int i = 0; i < 7; i++) { int j = ord ? 6 - i : i; if (st[j] == 2) { tr[nt++] = &w[j]; } else if (st[j] == 1) { ch[nc++] = &w[j]; } }
                    for (int p = 0; p < 2; p++) {
                        Cfg g = { .time = T0, .depth = 20, .partial = p != 0 };
                        char what[80]; snprintf(what, sizeof what, "pool order %d partial %d", ord, p);
                        judge(what, tr, nt, ch, nc, &g);
                    }
                }
                mc_trace(1);
            }
        }
    }
}
static void alternatives(void)
{
    mc_space("alternative issuers");
    for (int k = 0; k < 4; k++) {
        /* two certificates of one CA name, the usable one last: expired twin / twin with another key; root / intermediate */
        if (!mc_case("alternative issuer: %s, %s", k & 1 ? "twin with another key first" : "expired twin first", k & 2 ? "intermediate" : "root")) { continue; }
        PxCert c[4]; base(c, 3); c[3] = c[k & 2 ? 1 : 2];
        c[3].serial = 77;
        if (k & 1) { c[3].pub = K(6); if (!(k & 2)) { c[3].signer = K(6); } for (int i = 0; i < 4; i++) { c[i].ski = c[i].aki = 0; } } else { c[3].to = T0 - DAY; }
        const PxCert *tr[2] = { &c[3], &c[2] }, *ch[4] = { &c[0], &c[3], &c[1], &c[2] };
        Cfg g = { .time = T0, .depth = 20 };
        judge_alt = true;
        if (k & 2) { judge("two intermediates", tr + 1, 1, ch, 4, &g); } else { ch[1] = &c[1]; judge("two roots", tr, 2, ch, 2, &g); }
        judge_alt = false;
        mc_trace(1);
    }
}
/* ---- revocation ---- */
typedef struct { const char *t; PxCrl c; int sig; int base; int idp; } CV;   /* base: delta indicator (0 none) */
static HITLS_X509_Crl *mkcrl(const CV *v)
{
    static struct { CV v; HITLS_X509_Crl *x; } *tab; static int n;
    if (!tab) { tab = calloc(4096, sizeof *tab); }
    for (int i = 0; i < n; i++) { if (!memcmp(&tab[i].v, v, sizeof *v)) { return tab[i].x; } }
    PxCrl c = v->c; Buf ex = {0}, d = {0};
    if (v->base) { Buf e = {0}, o = {0}; der_uint(&e, (uint64_t)v->base); der_oid(&o, "2.5.29.27"); der_tlv(&o, 1, "\xff", 1); der_wrap(&o, 4, &e); der_wrap(&ex, 0x30, &o); }
    if (v->idp) { Buf e = {0}, o = {0}, s = {0}; der_tlv(&e, v->idp == 1 ? 0x81 : 0x82, "\xff", 1); der_wrap(&s, 0x30, &e); der_oid(&o, "2.5.29.28"); der_tlv(&o, 1, "\xff", 1); der_wrap(&o, 4, &s); der_wrap(&ex, 0x30, &o); }
    if (ex.n) { c.rawExt = &ex; }
    px_crl(&c, &d);
    BSL_Buffer b = { d.p, (uint32_t)d.n };
    HITLS_X509_Crl *x = NULL;
    int32_t r = HITLS_X509_CrlParseBuff(BSL_FORMAT_ASN1, &b, &x);
    if (r) { mc_fatal("crl %s parse %x", v->t, (unsigned)r); }
    if (n >= 4096) { mc_fatal("crl table"); }
    tab[n].v = *v; tab[n++].x = x;
    return x;
}
static bool lists(const PxCrl *c, uint32_t s) { for (int i = 0; i < c->nrev; i++) { if (c->revoked[i] == s) { return true; } } return false; }
/* 1 certainly good, 0 certainly refused, -1 left open */
static int crl_model(const PxCert *cert, const PxCert *iss, const CV *const *v, int n, const Cfg *g)
{
    if (iss->ku && !(iss->ku & 0x02)) { return 0; }
    const CV *newest = NULL; bool allgood = true; int nb = 0;
    for (int i = 0; i < n; i++) {
        const PxCrl *c = &v[i]->c;
        if (strcmp(c->issuer, iss->subject)) { continue; }
        bool ok = c->signer == iss->pub && !c->badSig && c->thisUpd <= g->time && (c->noNext || c->nextUpd >= g->time) && !c->unknownCrit && c->aki != 2;
        if (v[i]->idp) { ok &= (v[i]->idp == 1) == (cert->bcons != 1) && !g->lite; }
        if (v[i]->base) { if (g->lite || g->delta) { allgood = false; } continue; }
        nb++;
        if (!ok) { allgood = false; continue; }
        if (!newest || c->thisUpd > newest->c.thisUpd) { newest = v[i]; }
        if (lists(c, cert->serial)) { allgood = false; }
    }
    if (!newest) {
        /* an expired base with a current delta is a matter of policy */
        if (g->delta) { for (int i = 0; i < n; i++) { if (v[i]->base) { return -1; } } }
        return 0;
    }
    bool other = false;
    for (int i = 0; i < n; i++) { if (v[i] != newest && !v[i]->base && v[i]->c.thisUpd == newest->c.thisUpd) { other = true; } }
    if (g->delta && !g->lite) {
        /* one base and one proper delta: the delta has the last word */
        const CV *d = NULL; int nd = 0;
        for (int i = 0; i < n; i++) { if (v[i]->base && !strcmp(v[i]->c.issuer, iss->subject)) { d = v[i]; nd++; } }
        if (nd == 1 && nb == 1) {
            bool fit = d->base <= newest->c.crlNumber && d->c.crlNumber > newest->c.crlNumber && newest->c.crlNumber && d->c.aki == newest->c.aki && d->idp == newest->idp;
            bool ok = d->c.signer == iss->pub && !d->c.badSig && d->c.thisUpd <= g->time && (d->c.noNext || d->c.nextUpd >= g->time) && !d->c.unknownCrit;
            if (!fit) { return lists(&newest->c, cert->serial) ? 0 : 1; }
            if (!ok) { return 0; }
            if (lists(&d->c, cert->serial)) { return d->c.removeFromCrl ? 1 : 0; }
            return lists(&newest->c, cert->serial) ? 0 : 1;
        }
        if (nd > 0) { return -1; }
    }
    if (allgood) { return 1; }
    if (lists(&newest->c, cert->serial) && !other) { return 0; }
    return -1;
}
static void crls(void)
{
    mc_space("revocation lists");
    static PxCert c[3];
    base(c, 3);
    /* variants for one issuer: filled per issuer name and key */
    enum { NV = 19 };
    static CV cv[2][NV];
    memset(cv, 0, sizeof cv);
    for (int k = 0; k < 2; k++) {
        const PxCert *iss = &c[k + 1]; uint32_t ser = c[k].serial;
        PxCrl b = { .issuer = iss->subject, .signer = iss->pub, .thisUpd = T0 - DAY, .nextUpd = T0 + DAY, .crlNumber = 10, .aki = 1 };
        CV *v = cv[k]; int i = 0;
#define ADD(txt, ...) do { v[i].t = txt; v[i].c = b; PxCrl *p = &v[i].c; (void)p; __VA_ARGS__; i++; } while (0)
        ADD("clean", );
        ADD("revokes it", p->revoked[0] = ser; p->nrev = 1);
        ADD("revokes others and it last", p->revoked[0] = 7; p->revoked[1] = 8; p->revoked[2] = ser; p->nrev = 3);
        ADD("revokes neighbours", p->revoked[0] = ser + 1; p->revoked[1] = ser - 1; p->revoked[2] = ser * 256; p->revoked[3] = ser + 256; p->nrev = 4);
        ADD("expired", p->thisUpd = T0 - 3 * DAY; p->nextUpd = T0 - 1);
        ADD("expires now", p->nextUpd = T0);
        ADD("future", p->thisUpd = T0 + 1);
        ADD("bad signature", p->badSig = 1; p->revoked[0] = 7; p->nrev = 1);
        ADD("signed by another key", p->signer = K(7); p->aki = 0);
        ADD("unknown critical extension", p->unknownCrit = 1);
        ADD("wrong AKI", p->aki = 2);
        ADD("newer, revokes it", p->thisUpd = T0 - 100; p->crlNumber = 11; p->revoked[0] = ser; p->nrev = 1);
        ADD("newer, clean", p->thisUpd = T0 - 50; p->crlNumber = 12);
        ADD("version 1, revokes it", p->version = 1; p->crlNumber = 0; p->aki = 0; p->revoked[0] = ser; p->nrev = 1);
        ADD("no next update", p->noNext = 1);
        ADD("delta, revokes it", p->crlNumber = 13; p->revoked[0] = ser; p->nrev = 1; v[i].base = 10; p->thisUpd = T0 - 40);
        ADD("delta, removes it", p->crlNumber = 13; p->revoked[0] = ser; p->nrev = 1; p->removeFromCrl = 1; v[i].base = 10; p->thisUpd = T0 - 40);
        ADD("user certificates only", v[i].idp = 1);
        ADD("CA certificates only", v[i].idp = 2);
        if (i != NV) { mc_fatal("variants"); }
    }
    const PxCert *tr[1] = { &c[2] }, *ch[3] = { &c[0], &c[1], &c[2] };
    /* per issuer: none, one or an ordered pair of lists */
    int S = 1 + NV + NV * NV;
    for (int k = 0; k < 4; k++) {          /* which issuer varies: leaf's, ca's; both (singles); other issuers' lists */
        int lim = k == 2 ? (1 + NV) * (1 + NV) : k == 3 ? NV * 4 : S;
        for (int v = 0; v < lim; v++) {
            for (int ku = 0; ku < 3; ku++) {
                if (ku && (k == 2 || v > NV)) { continue; }
                if (!mc_case("crl %d:%d ku %d", k, v, ku)) { continue; }
                base(c, 3);
                c[1].ku = ku == 0 ? 0x06 : ku == 1 ? 0x04 : 0;
                const CV *l[6]; int n = 0; char what[160] = "";
                if (k < 2) {
                    if (v >= 1 && v <= NV) { l[n++] = &cv[k][v - 1]; } else if (v > NV) { l[n++] = &cv[k][(v - NV - 1) / NV]; l[n++] = &cv[k][(v - NV - 1) % NV]; if (l[0] == l[1]) { n = 1; } }
                    int mine = n;
                    l[n++] = &cv[!k][0];
                    for (int i = 0; i < mine; i++) { snprintf(what + strlen(what), 60, "%s; ", l[i]->t); }
                } else if (k == 2) {
                    int x = v / (1 + NV), y = v % (1 + NV);
                    if (x) { l[n++] = &cv[0][x - 1]; }
                    if (y) { l[n++] = &cv[1][y - 1]; }
                    for (int i = 0; i < n; i++) { snprintf(what + strlen(what), 60, "%s; ", l[i]->t); }
                } else {
                    /* a delta with every fault, on each base */
                    static CV dl[64]; int f = v / 4, bs = v % 4;
                    CV *d = &dl[0]; *d = cv[0][bs & 1 ? 15 : 16];
                    d->t = "faulty delta";
                    switch (f) {
                        case 0: break; case 1: d->base = 11; break; case 2: d->base = 9; break; case 3: d->c.crlNumber = 10; break; case 4: d->c.crlNumber = 9; break; case 5: d->c.badSig = 1; break; case 6: d->c.signer = K(7); break; case 7: d->c.nextUpd = T0 - 1; break;
                        case 8: d->c.thisUpd = T0 + 1; break; case 9: d->c.unknownCrit = 1; break; case 10: d->c.aki = 0; break; case 11: d->c.issuer = "nobody"; break; case 12: d->c.crlNumber = 300; break; case 13: d->base = 300; d->c.crlNumber = 301; break; case 14: d->idp = 1; break;
                        case 15: d->c.noNext = 1; break; case 16: d->c.nextUpd = T0; break; case 17: d->c.crlNumber = 11; break; default: d->c.revoked[0]++; break;
                    }
                    l[n++] = d; l[n++] = &cv[0][bs >= 2 ? 1 : 0]; l[n++] = &cv[1][0];
                    snprintf(what, sizeof what, "fault %d base %d", f, bs);
                }
                HITLS_X509_Crl *x[6];
                for (int i = 0; i < n; i++) { x[i] = mkcrl(l[i]); }
                for (int mode = 1; mode <= 2; mode++) {
                    for (int lite = 0; lite < 2; lite++) {
                        for (int de = 0; de < 2; de++) {
                            Cfg g = { .time = T0, .depth = 20, .crlMode = mode, .lite = lite, .delta = de };
                            bool t1[1];
                            int32_t r = verify(tr, 1, ch, 3, &g, x, n, t1);
                            /* the default build has only the reduced CRL processing (HITLS_PKI_X509_VFY_CRL_LITE), whatever the flag says */
                            g.lite = true;
                            int w = crl_model(&c[0], &c[1], l, n, &g);
                            if (mode == 2) { int w2 = crl_model(&c[1], &c[2], l, n, &g); w = w == 0 || w2 == 0 ? 0 : w < 0 || w2 < 0 ? -1 : 1; }
                            mc_note("%s mode %d lite %d delta %d: want %d -> %x", what, mode, lite, de, w, (unsigned)r);
                            mc_outcome(&r, sizeof r);
                            mc_state(mc_hash2(mc_hash(what, strlen(what)), (uint64_t)(mode * 16 + lite * 4 + de + ku * 64 + k * 256)));
                            if (w == 1) { MC_CHECK(r == 0, "[%s] mode %d lite %d delta %d: nothing is revoked, but verification answers %x", what, mode, lite, de, (unsigned)r); }
                            if (w == 0) { MC_CHECK(r != 0, "[%s] mode %d lite %d delta %d: accepted without a clean revocation status", what, mode, lite, de); }
                        }
                    }
                }
                mc_trace(1);
            }
        }
    }
}
void mc_explore(void)
{
    hx_init();
    mc_case_cost(120);
    line();
    graph();
    alternatives();
    crls();
}
