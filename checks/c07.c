/* C07: products of client and server configurations; the negotiated values must be the ones the configurations prescribe. */
#include "tlsflow.h"
#define MAXL 4
typedef struct { uint16_t v[MAXL]; int n; } List;
typedef struct { int cmin, cmax, smin, smax; List cs, ss, cg, sg, cv, sv; int pref; PxKind kind; const char *calpn; const char *salpn; int dgram; int tlcp; int ems; int etm; int rsl[2]; const char *sni; int clientAuth; int forbid; } Conf;
static const uint16_t S12[] = {HITLS_ECDHE_ECDSA_WITH_AES_128_GCM_SHA256, HITLS_ECDHE_ECDSA_WITH_AES_256_GCM_SHA384, HITLS_ECDHE_ECDSA_WITH_CHACHA20_POLY1305_SHA256, HITLS_ECDHE_ECDSA_WITH_AES_128_CBC_SHA256};
static const uint16_t S13[] = {HITLS_AES_128_GCM_SHA256, HITLS_AES_256_GCM_SHA384, HITLS_CHACHA20_POLY1305_SHA256, HITLS_AES_128_CCM_SHA256};
static const uint16_t STL[] = {HITLS_ECC_SM4_CBC_SM3, HITLS_ECC_SM4_GCM_SM3, HITLS_ECDHE_SM4_CBC_SM3, HITLS_ECDHE_SM4_GCM_SM3};
static const uint16_t GR[] = {HITLS_EC_GROUP_CURVE25519, HITLS_EC_GROUP_SECP256R1, HITLS_EC_GROUP_SECP384R1, HITLS_EC_GROUP_SECP521R1};
static const uint16_t SG[] = {CERT_SIG_SCHEME_ECDSA_SECP256R1_SHA256, CERT_SIG_SCHEME_ECDSA_SECP384R1_SHA384, CERT_SIG_SCHEME_ECDSA_SECP521R1_SHA512, CERT_SIG_SCHEME_ECDSA_SHA1};
static bool has(const List *l, uint16_t x) { for (int i = 0; i < l->n; i++) { if (l->v[i] == x) { return true; } } return false; }
static bool is13(uint16_t s) { return (s >> 8) == 0x13; }
/* first of `a` that is in `b` and usable */
static uint16_t pick(const List *c, const List *s, int pref, bool (*ok)(uint16_t, void *), void *arg)
{
    const List *a = pref ? s : c, *b = pref ? c : s;
    for (int i = 0; i < a->n; i++) { if (has(b, a->v[i]) && (!ok || ok(a->v[i], arg))) { return a->v[i]; } }
    return 0;
}
static bool ok_suite(uint16_t s, void *v) { int ver = *(int *)v; return ver == 13 ? is13(s) : !is13(s); }
static bool g_usable[2][2][MAXL];    /* [dgram][13][scheme]: negotiable with a P-256 certificate */
typedef struct { int d, v13; } Sv;
static bool ok_sig(uint16_t s, void *a) { Sv *x = a; for (int i = 0; i < 4; i++) { if (SG[i] == s) { return g_usable[x->d][x->v13][i]; } } return true; }
static const char *g_salpn;
static int32_t alpn_sel(HITLS_Ctx *ctx, uint8_t **sel, uint8_t *sl, uint8_t *cl, uint32_t cll, void *u)
{
    (void)ctx; (void)u; const uint8_t *s = (const uint8_t *)g_salpn;
    for (; *s; s += 1 + *s) { for (uint32_t i = 0; i < cll; i += 1 + cl[i]) { if (cl[i] == *s && !memcmp(cl + i + 1, s + 1, *s)) { *sel = cl + i + 1; *sl = cl[i]; return HITLS_ALPN_ERR_OK; } } }
    return HITLS_ALPN_ERR_NOACK;
}
static int32_t sni_cb(HITLS_Ctx *c, int *a, void *arg) { (void)c; (void)a; (void)arg; return HITLS_ACCEPT_SNI_ERR_OK; }
static HITLS_Config *mk(const Conf *k, bool client)
{
    static const int VS[] = {V12, V13}, VD[] = {VD12, VD13};
    int lo = client ? k->cmin : k->smin, hi = client ? k->cmax : k->smax; const List *su = client ? &k->cs : &k->ss, *gr = client ? &k->cg : &k->sg, *sg = client ? &k->cv : &k->sv;
    TxOpt o = {.kind = k->kind, .suites = su->v, .nsuites = su->n, .groups = gr->v, .ngroups = gr->n, .sigs = sg->v, .nsigs = sg->n, .clientAuth = k->clientAuth};
    if (k->tlcp) { o.ver = k->dgram ? VDTLCP : VTLCP; }
    else { const int *V = k->dgram ? VD : VS; o.ver = V[hi - 12]; o.minver = lo == hi ? (k->forbid ? V[0] : 0) : V[lo - 12]; if (k->forbid && lo == hi && hi == 12) { o.ver = V[1]; o.minver = V[0]; } }
    HITLS_Config *c = tx_cfg(&o, client); if (!c) { return NULL; }
    if (k->forbid && lo == hi) { HITLS_CFG_SetVersionForbid(c, hi == 12 ? (k->dgram ? DTLS13_VERSION_BIT : TLS13_VERSION_BIT) : (k->dgram ? DTLS12_VERSION_BIT : TLS12_VERSION_BIT)); }
    if (!client) { HITLS_CFG_SetCipherServerPreference(c, k->pref); HITLS_CFG_SetServerNameCb(c, sni_cb); if (k->salpn) { HITLS_CFG_SetAlpnProtosSelectCb(c, alpn_sel, NULL); } }
    else { if (k->calpn) { HITLS_CFG_SetAlpnProtos(c, (const uint8_t *)k->calpn, strlen(k->calpn)); } if (k->sni) { HITLS_CFG_SetServerName(c, (uint8_t *)k->sni, strlen(k->sni)); } }
    bool e = k->ems >> client & 1; HITLS_CFG_SetExtendedMasterSecretSupport(c, e); if (!e) { HITLS_CFG_SetExtendedMasterSecretMode(c, 0); }
    HITLS_CFG_SetEncryptThenMac(c, k->etm >> client & 1);
    if (k->rsl[client]) { HITLS_CFG_SetRecordSizeLimit(c, k->rsl[client]); }
    return c;
}
static bool data_ok(TxLink *l, const Conf *k)
{
    for (int d = 0; d < 2; d++) {
        Ep *w = d ? l->s : l->c, *r = d ? l->c : l->s; uint8_t m[1200]; mc_fill(m, sizeof m, d); r->app.n = 0; size_t biggest = 0;
        for (size_t off = 0; off < sizeof m;) { uint32_t n = 0; int32_t e = HITLS_Write(w->ctx, m + off, sizeof m - off, &n); if (e || !n) { mc_fail("write on the finished connection: %x", e); return false; } off += n; }
        Buf x = {0}; while (tx_take(w, &x)) { if (x.n > biggest) { biggest = x.n; } tx_deliver(r, x.p, x.n); } buf_free(&x);
        for (int i = 0; i < 3; i++) { tx_drain(r); }
        if (r->app.n != sizeof m || memcmp(r->app.p, m, sizeof m)) { mc_fail("data does not pass on the finished connection (%zu of %zu)", r->app.n, sizeof m); return false; }
        int lim = k->rsl[d];
        if (lim && k->rsl[0] && k->rsl[1] && biggest > (size_t)lim + 5 + 8 + 64) { mc_fail("a record of %zu bytes although the peer's record size limit is %d", biggest, lim); return false; }
    }
    return true;
}
static uint16_t wire(int v, bool dg) { return dg ? (v == 13 ? VD13 : VD12) : (v == 13 ? V13 : V12); }
/* probe: only report whether both sides complete */
static bool go(const Conf *k, bool probe)
{
    g_salpn = k->salpn; mc_rand_reseed(31); tx_now = TX_EPOCH * 1000000; HITLS_Config *cc = mk(k, true), *sc = mk(k, false); bool ok = false;
    TxLink l = {0}; if (cc && sc) { l.c = tx_ep(cc, true, k->dgram); l.s = tx_ep(sc, false, k->dgram); }
    if (!l.c || !l.s) { if (!probe) { mc_fail("configuration refused"); } goto out; }
    tx_handshake(&l); ok = tx_both(&l);
    if (probe) { goto out; }
    int v = k->cmax < k->smax ? k->cmax : k->smax; bool common = k->tlcp || (v >= k->cmin && v >= k->smin);
    uint16_t suite = pick(&k->cs, &k->ss, k->pref, k->tlcp ? NULL : ok_suite, &v), group = k->cg.n ? pick(&k->cg, &k->sg, k->pref, NULL, NULL) : 0; if (v == 13 && k->cg.n && has(&k->sg, k->cg.v[0])) { group = k->cg.v[0]; }    /* the only group with a key share wins among groups of one tuple */
    Sv sv = {k->dgram, v == 13};
    uint16_t sig = k->cv.n ? pick(&k->cv, &k->sv, k->pref, ok_sig, &sv) : 0;
    if (v == 12 && !k->tlcp && !has(&k->cg, HITLS_EC_GROUP_SECP256R1)) { common = false; }    /* the client does not accept the curve of the server's certificate */
    bool want = common && suite && (group || !k->cg.n) && (sig || !k->cv.n);
    if (!want) {
        if (l.c->done || l.s->done) { mc_fail("the %s completed although nothing acceptable is common", l.c->done ? "client" : "server"); }
    } else if (!ok) { mc_fail("the handshake failed (client %x, server %x) although common parameters exist", l.c->ret, l.s->ret); }
    else {
        Nego a, b; nego_get(l.c, &a); nego_get(l.s, &b); const char *d = nego_differ(&a, &b);
        if (d) { mc_fail("the endpoints disagree on %s", d); }
        else if (!k->tlcp && a.ver != wire(v, k->dgram)) { mc_fail("version %x negotiated, the highest common one is %x", a.ver, wire(v, k->dgram)); }
        else if (a.suite != suite) { mc_fail("cipher suite %x negotiated, the preference order gives %x", a.suite, suite); }
        else if (!k->tlcp && group && a.group != group) { mc_fail("group %x negotiated, the preference order gives %x", a.group, group); }
        else if (sig && k->cv.n && a.peerSig != sig) { mc_fail("signature scheme %x used, the preference order gives %x (server reports %x)", a.peerSig, sig, b.localSig); }
        else {
            const char *ca = "", *sa = ""; char exp[16] = "";
            if (k->calpn && k->salpn) { for (const uint8_t *s = (const uint8_t *)k->salpn; *s && !*exp; s += 1 + *s) for (const uint8_t *c = (const uint8_t *)k->calpn; *c && !*exp; c += 1 + *c) { if (*c == *s && !memcmp(c, s, 1 + *c)) { memcpy(exp, c + 1, *c); } } }
            (void)ca; (void)sa; if (strcmp(a.alpn, exp)) { mc_fail("application protocol %s reported, expected %s", a.alpn, exp); }
            if (k->sni) { const char *n = HITLS_GetServerName(l.s->ctx, HITLS_SNI_HOSTNAME_TYPE); if (!n || strcmp(n, k->sni)) { mc_fail("the server sees name %s, the client asked for %s", n ? n : "(none)", k->sni); } }
            if (!mc_failed()) { data_ok(&l, k); }
        }
        uint64_t h = mc_hash2(a.suite << 16 | a.group, (uint64_t)a.ver << 32 | a.peerSig); mc_outcome(&h, 8);
    }
    mc_trace(1); mc_transitions(l.idxC + l.idxS);
out:
    tx_ep_free(l.c); tx_ep_free(l.s); HITLS_CFG_FreeConfig(cc); HITLS_CFG_FreeConfig(sc); BSL_ERR_ClearError();
    return ok;
}
static List lists[64]; static int nlists;
static void gen(const uint16_t *u, int n, int max)
{   /* all non-empty ordered lists without repetition */
    nlists = 0; int idx[MAXL];
    for (int len = 1; len <= max; len++) {
        int tot = 1; for (int i = 0; i < len; i++) { tot *= n; }
        for (int t = 0; t < tot; t++) {
            int x = t; bool ok = true; for (int i = 0; i < len; i++) { idx[i] = x % n; x /= n; for (int j = 0; j < i; j++) { ok &= idx[j] != idx[i]; } }
            if (ok) { List l = {.n = len}; for (int i = 0; i < len; i++) { l.v[i] = u[idx[i]]; } lists[nlists++] = l; }
        }
    }
}
static const char *ln(const List *l) { static char b[8][40]; static int k; char *p = b[k++ & 7]; int n = 0; *p = 0; for (int i = 0; i < l->n; i++) { n += sprintf(p + n, "%s%x", i ? "," : "", l->v[i]); } return p; }
static List one(uint16_t v) { return (List){{v}, 1}; }
void mc_explore(void)
{
    tx_init();
    mc_mute = true;
    for (int d = 0; d < 2; d++) for (int v = 0; v < 2; v++) for (int i = 0; i < 4; i++) {
        Conf k = {.cmin = 12 + v, .cmax = 12 + v, .smin = 12 + v, .smax = 12 + v, .cs = one(v ? S13[0] : S12[0]), .ss = one(v ? S13[0] : S12[0]), .cg = one(GR[1]), .sg = one(GR[1]), .cv = one(SG[i]), .sv = one(SG[i]), .dgram = d, .ems = 3};
        g_usable[d][v][i] = go(&k, true);
    }
    mc_mute = false;
    if (mc_case("signature probe")) { for (int d = 0; d < 2; d++) for (int v = 0; v < 2; v++) { if (!g_usable[d][v][0]) { mc_fail("ecdsa_secp256r1_sha256 unusable with a P-256 certificate"); } if (v && (g_usable[d][v][1] || g_usable[d][v][2] || g_usable[d][v][3])) { mc_fail("TLS 1.3 accepted a scheme that does not fit the P-256 key"); } } }
    mc_space("versions");
    for (int d = 0; d < 2; d++) for (int fb = 0; fb < 2; fb++) for (int c = 0; c < 3; c++) for (int s = 0; s < 3; s++) for (int p = 0; p < 2; p++) for (int q = 0; q < 2; q++) {
        static const int lo[] = {12, 13, 12}, hi[] = {12, 13, 13}; List m = {{S12[0], S13[0], S12[1], S13[1]}, 4}, m2 = {{S13[1], S12[1], S13[0], S12[0]}, 4};
        List c12 = {{S12[0], S12[1]}, 2}, c13 = {{S13[0], S13[1]}, 2};
        Conf k = {.cmin = lo[c], .cmax = hi[c], .smin = lo[s], .smax = hi[s], .cs = fb || c == 2 ? (q ? m : m2) : c ? c13 : c12, .ss = fb || s == 2 ? m : s ? c13 : c12, .cg = one(GR[1]), .sg = one(GR[1]), .cv = one(SG[0]), .sv = one(SG[0]), .pref = p, .dgram = d, .ems = 3, .forbid = fb};
        if (mc_case("%s client %d-%d server %d-%d pref %d order %d %s", d ? "dtls" : "tls", lo[c], hi[c], lo[s], hi[s], p, q, fb ? "forbid" : "")) { go(&k, false); }
    }
    mc_space("suites");
    for (int v = 0; v < 3; v++) {
        const uint16_t *u = v == 2 ? STL : v ? S13 : S12; gen(u, 4, mc_thorough ? 4 : 3); if (v == 2) { gen(u, 4, 2); }
        for (int i = 0; i < nlists; i++) for (int j = 0; j < nlists; j++) for (int p = 0; p < 2; p++) for (int d = 0; d < (mc_thorough ? 2 : 1); d++) {
            Conf k = {.cmin = 12 + v, .cmax = 12 + v, .smin = 12 + v, .smax = 12 + v, .cs = lists[i], .ss = lists[j], .cg = one(GR[1]), .sg = one(GR[1]), .cv = one(SG[0]), .sv = one(SG[0]), .pref = p, .ems = 3, .dgram = d};
            if (v == 2) { k.tlcp = 1; k.cg.n = k.sg.n = k.cv.n = k.sv.n = 0; k.clientAuth = 1; }
            if (mc_case("%s%s suites %s / %s pref %d", d ? "d" : "", v == 2 ? "tlcp" : v ? "13" : "12", ln(&lists[i]), ln(&lists[j]), p)) { go(&k, false); }
        }
    }
    mc_space("groups");
    for (int v = 0; v < 2; v++) {
        gen(GR, mc_thorough ? 4 : 3, 3);
        for (int i = 0; i < nlists; i++) for (int j = 0; j < nlists; j++) for (int p = 0; p < 2; p++) for (int d = 0; d < 2; d++) {
            Conf k = {.cmin = 12 + v, .cmax = 12 + v, .smin = 12 + v, .smax = 12 + v, .cs = one(v ? S13[0] : S12[0]), .ss = one(v ? S13[0] : S12[0]), .cg = lists[i], .sg = lists[j], .cv = one(SG[0]), .sv = one(SG[0]), .pref = p, .ems = 3, .dgram = d};
            if (mc_case("%s%d groups %s / %s pref %d", d ? "d" : "", 12 + v, ln(&lists[i]), ln(&lists[j]), p)) { go(&k, false); }
        }
    }
    mc_space("signatures");
    for (int v = 0; v < 2; v++) {
        gen(SG, mc_thorough ? 4 : 3, 3);
        for (int i = 0; i < nlists; i++) for (int j = 0; j < nlists; j++) for (int p = 0; p < 2; p++) for (int d = 0; d < (mc_thorough ? 2 : 1); d++) {
            Conf k = {.cmin = 12 + v, .cmax = 12 + v, .smin = 12 + v, .smax = 12 + v, .cs = one(v ? S13[0] : S12[0]), .ss = one(v ? S13[0] : S12[0]), .cg = one(GR[1]), .sg = one(GR[1]), .cv = lists[i], .sv = lists[j], .pref = p, .ems = 3, .dgram = d};
            if (mc_case("%s%d signatures %s / %s pref %d", d ? "d" : "", 12 + v, ln(&lists[i]), ln(&lists[j]), p)) { go(&k, false); }
        }
    }
    mc_space("extensions");
    static const char *al[] = {NULL, "\2h2", "\10http/1.1", "\2h2\10http/1.1", "\10http/1.1\2h2", "\1x\2h2"};
    for (int v = 0; v < 2; v++) for (int d = 0; d < 2; d++) {
        Conf b = {.cmin = 12 + v, .cmax = 12 + v, .smin = 12 + v, .smax = 12 + v, .cs = one(v ? S13[0] : S12[3]), .ss = one(v ? S13[0] : S12[3]), .cg = one(GR[1]), .sg = one(GR[1]), .cv = one(SG[0]), .sv = one(SG[0]), .ems = 3, .dgram = d};
        for (int i = 0; i < 6; i++) for (int j = 0; j < 6; j++) { Conf k = b; k.calpn = al[i]; k.salpn = al[j]; if (mc_case("%s%d alpn %d/%d", d ? "d" : "", 12 + v, i, j)) { go(&k, false); } }
        for (int e = 0; e < 4; e++) for (int m = 0; m < 4; m++) { Conf k = b; k.ems = e; k.etm = m; if (mc_case("%s%d ems %d etm %d", d ? "d" : "", 12 + v, e, m)) { go(&k, false); } }
        static const char *names[] = {"a", "server.example", "A-very-long-host-name-of-many-characters.example.org"}; for (int i = 0; i < 3; i++) { Conf k = b; k.sni = names[i]; if (mc_case("%s%d sni %s", d ? "d" : "", 12 + v, names[i])) { go(&k, false); } }
        static const int rl[] = {0, 64, 100, 512, 1000, 16385}; for (int i = 0; i < 6; i++) for (int j = 0; j < 6; j++) { if (d) { continue; } Conf k = b; k.rsl[0] = rl[i]; k.rsl[1] = rl[j]; if (!v && (rl[i] == 16385 || rl[j] == 16385)) { continue; } if (mc_case("%s%d record size limit %d/%d", d ? "d" : "", 12 + v, rl[i], rl[j])) { go(&k, false); } }
    }
}
