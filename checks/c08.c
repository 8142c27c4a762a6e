/* C08: every combination of verification settings and presented credentials, per protocol version and role, on real handshakes. */
#include "tlsflow.h"
#include "hitls_x509_verify.h"
typedef enum { K_OK, K_INT, K_INT2, K_NOINT, K_INTNOCA, K_INTBAD, K_UNTRUST, K_UNTRUSTROOT, K_SAMENAME, K_EXPIRED, K_FUTURE, K_INTEXPIRED, K_BADSIG, K_SELF, K_PATHLEN, K_INTNOKU, K_CRITEXT, K_LEAFISSUER, K_INTUNTRUST, K_WRONGKEY, K_NOCERT, K_NOKUSIG, K_ROOTASLEAF_FORGED, K_N } Kind;
static const char *KN[] = {"ok", "ok-int", "ok-int2", "missing-int", "int-not-ca", "int-badsig", "untrusted", "untrusted+root", "same-name-root", "expired", "not-yet-valid", "int-expired", "bad-signature", "self-signed", "path-length", "int-no-certsign", "critical-ext", "leaf-issuer", "int-untrusted", "wrong-key", "none", "ku-no-sign", "forged-root"};
typedef enum { S_DEF, S_NONE, S_CBPASS, S_CBTRANS, S_CBFAIL, S_APPOK, S_APPFAIL, S_NOCA, S_N } Setting;
static const char *SN[] = {"default", "verify-none", "cb-accept", "cb-transparent", "cb-reject", "app-accept", "app-reject", "no-anchor"};
static bool validKind(Kind k) { return k == K_OK || k == K_INT || k == K_INT2; }
/* chain validity only: a wrong private key or usage is not a matter of the chain */
static bool chainOk(Kind k) { return validKind(k) || k == K_WRONGKEY || k == K_NOKUSIG; }
static int cb_pass(int32_t e, HITLS_CERT_StoreCtx *s) { (void)e; (void)s; return 0; }
static int cb_trans(int32_t e, HITLS_CERT_StoreCtx *s) { (void)s; return e; }
static int cb_fail(int32_t e, HITLS_CERT_StoreCtx *s) { (void)e; (void)s; return 1; }
static int32_t app_ok(HITLS_CERT_StoreCtx *s, void *a) { (void)s; (void)a; return HITLS_APP_VERIFY_CALLBACK_SUCCESS; }
static int32_t app_fail(HITLS_CERT_StoreCtx *s, void *a) { (void)s; (void)a; return 0; }
static void settings(HITLS_Config *c, Setting s)
{
    if (s == S_NONE) { HITLS_CFG_SetVerifyNoneSupport(c, true); } else if (s == S_CBPASS) { HITLS_CFG_SetVerifyCb(c, cb_pass); } else if (s == S_CBTRANS) { HITLS_CFG_SetVerifyCb(c, cb_trans); } else if (s == S_CBFAIL) { HITLS_CFG_SetVerifyCb(c, cb_fail); }
    else if (s == S_APPOK) { HITLS_CFG_SetCertVerifyCb(c, app_ok, NULL); } else if (s == S_APPFAIL) { HITLS_CFG_SetCertVerifyCb(c, app_fail, NULL); }
}
#define FROM (TX_EPOCH - 86400 * 100)
#define TO (TX_EPOCH + 86400 * 1000)
typedef struct { Buf leaf, chain[3]; int n; PxKey *key; } Cred;
static Cred cache[8][K_N][4]; static bool have[8][K_N][4];
/* use: 0 single certificate, 1 TLCP signing, 2 TLCP encryption */
static Cred *mk(PxKind pk, Kind k, bool server, int use)
{
    Cred *c = &cache[pk][k][use + (server && !use ? 3 : 0)]; if (have[pk][k][use + (server && !use ? 3 : 0)]) { return c; } have[pk][k][use + (server && !use ? 3 : 0)] = true;
    uint64_t save = mc_rand_state(); mc_rand_reseed(0x4343 + k * 8 + use); static char rn[8][40]; sprintf(rn[pk], "%s root", px_kindname(pk)); const char *root = rn[pk];
    PxKey *rk = px_key(pk, 0), *r2 = px_key(pk, 8), *ik = px_key(pk, 9), *ik2 = px_key(pk, 10), *ee = px_key(pk, 11 + use), *other = px_key(pk, 14);
    PxCert L = {.serial = 500 + k, .issuer = root, .subject = "peer leaf", .from = FROM, .to = TO, .pub = ee, .signer = rk, .bcons = 0, .pathlen = -1, .ski = 1, .aki = 1, .ku = use == 2 ? 0x38 : use == 1 ? 0x80 : 0xA8};
    PxCert I = {.serial = 600 + k, .issuer = root, .subject = "mid one", .from = FROM, .to = TO, .pub = ik, .signer = rk, .bcons = 1, .pathlen = -1, .ski = 1, .aki = 1, .ku = 0x06};
    PxCert J = I; J.serial++; J.issuer = "mid one"; J.subject = "mid two"; J.pub = ik2; J.signer = ik;
    bool useI = false, useJ = false, sendI = true, rootToo = false; PxCert R = {.serial = 1, .issuer = "evil root", .subject = "evil root", .from = FROM, .to = TO, .pub = r2, .signer = r2, .bcons = 1, .pathlen = -1, .ski = 1, .aki = 1, .ku = 0x06};
    c->key = ee;
    switch (k) {
        case K_INT: useI = true; break; case K_INT2: useI = useJ = true; break; case K_NOINT: useI = true; sendI = false; break;
        case K_INTNOCA: useI = true; I.bcons = 0; break; case K_INTBAD: useI = true; I.badSig = 1; break;
        case K_UNTRUST: L.issuer = "evil root"; L.signer = r2; break; case K_UNTRUSTROOT: L.issuer = "evil root"; L.signer = r2; rootToo = true; break;
        case K_SAMENAME: L.signer = r2; L.aki = 0; break; case K_EXPIRED: L.to = TX_EPOCH - 86400; break; case K_FUTURE: L.from = TX_EPOCH + 86400; break;
        case K_INTEXPIRED: useI = true; I.to = TX_EPOCH - 86400; break; case K_BADSIG: L.badSig = 1; break;
        case K_SELF: L.issuer = L.subject; L.signer = ee; break; case K_PATHLEN: useI = useJ = true; I.pathlen = 0; break; case K_INTNOKU: useI = true; I.ku = 0x80; break;
        case K_CRITEXT: L.unknownExt = 2; break; case K_LEAFISSUER: useI = true; I.bcons = -1; I.ku = 0x80; break; case K_INTUNTRUST: useI = true; I.issuer = "evil root"; I.signer = r2; rootToo = true; break;
        case K_WRONGKEY: c->key = other; break; case K_NOKUSIG: L.ku = use == 2 ? 0x80 : 0x08; break;
        case K_ROOTASLEAF_FORGED: L.signer = r2; L.aki = 0; R.issuer = R.subject = root; rootToo = true; break;
        default: break;
    }
    if (useJ) { L.issuer = "mid two"; L.signer = ik2; } else if (useI) { L.issuer = "mid one"; L.signer = ik; }
    px_cert(&L, &c->leaf); if (useJ && sendI) { px_cert(&J, &c->chain[c->n++]); } if (useI && sendI) { px_cert(&I, &c->chain[c->n++]); } if (rootToo) { px_cert(&R, &c->chain[c->n++]); }
    mc_rand_reseed(save); return c;
}
static int32_t load1(HITLS_Config *c, Cred *x, int use)
{
    HITLS_CERT_X509 *y = HITLS_CFG_ParseCert(c, x->leaf.p, x->leaf.n, TLS_PARSE_TYPE_BUFF, TLS_PARSE_FORMAT_ASN1); if (!y) { return -1; } int32_t r;
    if (!use) { r = HITLS_CFG_SetCertificate(c, y, false); if (r) { HITLS_CFG_FreeCert(c, y); return r; } r = HITLS_CFG_SetPrivateKey(c, x->key->k, true); }
    else { r = HITLS_CFG_SetTlcpCertificate(c, y, false, use == 2); if (r) { HITLS_CFG_FreeCert(c, y); return r; } r = HITLS_CFG_SetTlcpPrivateKey(c, x->key->k, true, use == 2); }
    return r;
}
/* bad: 0 both (single), TLCP: 1 the signing certificate carries the defect, 2 the encryption certificate, 3 both */
static int32_t present(HITLS_Config *c, int ver, Kind k, bool server, int bad)
{
    bool tlcp = ver == VTLCP || ver == VDTLCP; if (k == K_NOCERT) { return 0; }
    int32_t r = 0; Cred *chainSrc = NULL;
    if (!tlcp) { chainSrc = mk(PK_EC256, k, server, 0); r = load1(c, chainSrc, 0); }
    else { Cred *s = mk(PK_SM2, bad & 1 ? k : K_OK, server, 1), *e = mk(PK_SM2, bad & 2 ? k : K_OK, server, 2); chainSrc = bad & 1 ? s : e; r = load1(c, s, 1); if (!r) { r = load1(c, e, 2); } }
    for (int i = 0; !r && i < chainSrc->n; i++) { r = tx_add_chain(c, &chainSrc->chain[i]); } return r;
}
typedef struct { int ver; const char *name; const char *flow; } Ver;
static const Ver vers[] = {{V12, "tls12", "t12"}, {V13, "tls13", "t13"}, {VTLCP, "tlcp", "tlcp"}, {VD12, "dtls12", "d12"}, {VD13, "dtls13", "d13"}, {VDTLCP, "dtlcp", "dtlcp"}, {VTLCP, "tlcp-ecdhe", "tlcp-ecdhe-auth"}, {V12, "tls12-cbc", "t12-cbc-auth"}};
static HITLS_Config *base(const Flow *f, bool client, bool auth, bool noCA) { TxOpt o = f->o; o.clientAuth = auth ? 1 : 0; o.noCert = 1; o.noCA = noCA; return tx_cfg(&o, client); }
static void finish(TxLink *l, Ep *v, bool want, bool mustFailResult, const char *what)
{
    bool ok = v->done;
    if (ok && !want) { mc_fail("the %s completed the handshake although the peer presented: %s", v->name, what); return; }
    if (!ok && want) { mc_fail("the %s did not complete although the peer presented: %s (client %x server %x)", v->name, what, l->c->ret, l->s->ret); return; }
    if (!want) { uint8_t b[16]; uint32_t n = 0; int32_t e = HITLS_Read(v->ctx, b, 16, &n); if (e == HITLS_SUCCESS && n) { mc_fail("application data from an unauthenticated peer"); } }
    if (ok) { HITLS_ERROR vr = 0; if (HITLS_GetVerifyResult(v->ctx, &vr) == HITLS_SUCCESS && mustFailResult && vr == 0) { mc_fail("an unverifiable chain is reported as verified"); } }
    char oc[160]; int n = snprintf(oc, sizeof oc, "%s %d %x", what, ok, ok ? 0 : v->ret); mc_outcome(oc, n); mc_trace(1); mc_transitions(1);
}
static void server_cred(const Ver *V, Kind k, Setting s, int bad)
{
    const Flow *f = flow_by_name(V->flow); bool auth = !strcmp(V->name, "tlcp-ecdhe"); mc_rand_reseed(31); tx_now = TX_EPOCH * 1000000;
    HITLS_Config *cc = base(f, true, false, s == S_NOCA), *sc = base(f, false, auth, false); if (!cc || !sc) { mc_fatal("config"); }
    if (auth && present(cc, V->ver, K_OK, false, 3)) { mc_fatal("client credential"); }
    settings(cc, s); int32_t r = present(sc, V->ver, k, true, bad); TxLink l = {0}; char what[120]; snprintf(what, sizeof what, "%s server %s %s %d", V->name, KN[k], SN[s], bad);
    if (r) { mc_outcome_str(what); HITLS_CFG_FreeConfig(cc); HITLS_CFG_FreeConfig(sc); return; }        /* the peer refuses to act with these credentials at all */
    l.c = tx_ep(cc, true, tx_is_dgram(V->ver)); l.s = tx_ep(sc, false, tx_is_dgram(V->ver)); tx_handshake(&l);
    bool ch = chainOk(k) && s != S_NOCA, want = s == S_NONE || s == S_CBPASS || s == S_APPOK ? true : s == S_CBFAIL || s == S_APPFAIL ? false : ch;
    if (k == K_WRONGKEY || k == K_NOCERT || k == K_NOKUSIG) { want = false; }
    bool either = s == S_CBPASS && !validKind(k) && want;     /* the callback may be consulted about some defects only */
    if (either) { char oc[150]; snprintf(oc, sizeof oc, "%s -> %d", what, l.c->done); mc_outcome_str(oc); }
    else if (!want || validKind(k) || s != S_DEF) { finish(&l, l.c, want, !ch && s == S_NONE, what); }
    tx_ep_free(l.c); tx_ep_free(l.s); HITLS_CFG_FreeConfig(cc); HITLS_CFG_FreeConfig(sc);
}
/* req: 0 not requested, 1 required, 2 optional */
static void client_cred(const Ver *V, Kind k, Setting s, int req, int bad)
{
    const Flow *f = flow_by_name(V->flow); bool tlcp = V->ver == VTLCP || V->ver == VDTLCP; mc_rand_reseed(32); tx_now = TX_EPOCH * 1000000;
    HITLS_Config *cc = base(f, true, false, false), *sc = base(f, false, false, s == S_NOCA); if (!cc || !sc) { mc_fatal("config"); }
    HITLS_CFG_SetClientVerifySupport(sc, req != 0); HITLS_CFG_SetNoClientCertSupport(sc, req == 2);
    if (present(sc, V->ver, K_OK, true, 3)) { mc_fatal("server credential"); }
    settings(sc, s); int32_t r = present(cc, V->ver, k, false, bad); TxLink l = {0}; char what[120]; snprintf(what, sizeof what, "%s client %s %s req%d %d", V->name, KN[k], SN[s], req, bad);
    if (r) { mc_outcome_str(what); HITLS_CFG_FreeConfig(cc); HITLS_CFG_FreeConfig(sc); return; }
    l.c = tx_ep(cc, true, tx_is_dgram(V->ver)); l.s = tx_ep(sc, false, tx_is_dgram(V->ver)); tx_handshake(&l);
    bool ch = chainOk(k) && s != S_NOCA, want = s == S_NONE || s == S_CBPASS || s == S_APPOK ? true : s == S_CBFAIL || s == S_APPFAIL ? false : ch;
    if (k == K_WRONGKEY || k == K_NOKUSIG) { want = false; }
    if (k == K_NOCERT) { want = req == 2; }
    if (req == 0) { want = true; }
    bool unsure = (k == K_NOCERT && req == 1 && s == S_NONE) || (k == K_WRONGKEY && tlcp && bad == 2) || (k == K_NOKUSIG && tlcp && bad == 2) || (tlcp && bad == 2 && req);   /* the client's encryption certificate is not part of its authentication in every suite */
    if (s == S_CBPASS && !validKind(k) && k != K_NOCERT && want && req) { unsure = true; }
    if (k == K_NOCERT && req == 1) { want = false; unsure = false; }
    if (unsure) { char oc[150]; snprintf(oc, sizeof oc, "%s -> %d", what, l.s->done); mc_outcome_str(oc); }
    else if (!want || validKind(k) || k == K_NOCERT || s != S_DEF || req == 0) { finish(&l, l.s, want, req && k != K_NOCERT && !ch && s == S_NONE, what); }
    tx_ep_free(l.c); tx_ep_free(l.s); HITLS_CFG_FreeConfig(cc); HITLS_CFG_FreeConfig(sc);
}
/* TLS 1.3 post-handshake authentication */
static void pha(Kind k, Setting s, int req, bool cliPha)
{
    const Flow *f = flow_by_name("t13"); mc_rand_reseed(33); tx_now = TX_EPOCH * 1000000;
    HITLS_Config *cc = base(f, true, false, false), *sc = base(f, false, false, s == S_NOCA);
    HITLS_CFG_SetClientVerifySupport(sc, true); HITLS_CFG_SetNoClientCertSupport(sc, req == 2); HITLS_CFG_SetPostHandshakeAuthSupport(sc, true); HITLS_CFG_SetPostHandshakeAuthSupport(cc, cliPha);
    if (present(sc, V13, K_OK, true, 3)) { mc_fatal("server credential"); } settings(sc, s); int32_t r = present(cc, V13, k, false, 0);
    TxLink l = {0}; if (r) { HITLS_CFG_FreeConfig(cc); HITLS_CFG_FreeConfig(sc); mc_outcome_str(KN[k]); return; }
    l.c = tx_ep(cc, true, false); l.s = tx_ep(sc, false, false); tx_handshake(&l);
    bool ch = chainOk(k) && s != S_NOCA, want = s == S_NONE || s == S_CBPASS || s == S_APPOK ? true : s == S_CBFAIL || s == S_APPFAIL ? false : ch; if (k == K_WRONGKEY || k == K_NOKUSIG) { want = false; } if (k == K_NOCERT) { want = req == 2; }
    if (!cliPha) {   /* the client does not offer it: the request for a certificate belongs to the handshake itself */
        if (!(want && s == S_CBPASS && !validKind(k))) { finish(&l, l.s, want, false, "no post-handshake auth offered"); }
    } else if (!tx_both(&l)) { mc_fail("handshake before post-handshake authentication: %x %x", l.c->ret, l.s->ret); }
    else {
        for (int i = 0; i < 2; i++) { tx_move(&l, l.s); tx_drain(l.c); tx_move(&l, l.c); tx_drain(l.s); }
        int32_t e = HITLS_VerifyClientPostHandshake(l.s->ctx); if (e) { mc_fail("post-handshake authentication cannot be requested: %x", e); }
        int32_t se = 0; uint8_t b[8]; uint32_t nb; for (int i = 0; i < 6; i++) { int32_t x = HITLS_Write(l.s->ctx, (uint8_t *)"ping", 4, &nb); (void)x; tx_move(&l, l.s); tx_drain(l.c); if (i == 2) { HITLS_Write(l.c->ctx, (uint8_t *)"secret", 6, &nb); } tx_move(&l, l.c); se = tx_drain(l.s); if (!tx_retry(se)) { break; } }
        bool got = l.s->app.n >= 6 && memmem(l.s->app.p, l.s->app.n, "secret", 6); (void)b;
        if (got && !want) { mc_fail("data of a client that failed post-handshake authentication (%s, %s) was handed out", KN[k], SN[s]); }
        if (!got && want && !(s == S_CBPASS && !validKind(k))) { mc_fail("post-handshake authentication with %s, %s failed: %x", KN[k], SN[s], se); }
        char oc[100]; snprintf(oc, sizeof oc, "pha %s %s %d %d", KN[k], SN[s], req, got); mc_outcome_str(oc); mc_trace(1); mc_transitions(2);
    }
    tx_ep_free(l.c); tx_ep_free(l.s); HITLS_CFG_FreeConfig(cc); HITLS_CFG_FreeConfig(sc);
}
/* pre-shared keys */
static int g_pskC, g_pskS; static const char *g_idC; static uint32_t g_lenC = 32;
static uint32_t pc(HITLS_Ctx *x, const uint8_t *h, uint8_t *id, uint32_t ml, uint8_t *p, uint32_t mp) { (void)x; (void)h; (void)ml; (void)mp; strcpy((char *)id, g_idC); mc_fill(p, 32, g_pskC < 100 ? 100 + g_pskC : 100); if (g_pskC >= 100) { p[(g_pskC - 100) / 8] ^= 1 << (g_pskC - 100) % 8; } return g_lenC; }
static uint32_t psv(HITLS_Ctx *x, const uint8_t *id, uint8_t *p, uint32_t mp) { (void)x; (void)mp; if (strcmp((const char *)id, "alice")) { return 0; } mc_fill(p, 32, 100 + g_pskS); return 32; }
static void psk(const char *fn, int keyC, const char *id, uint32_t len)
{
    const Flow *f = flow_by_name(!strcmp(fn, "t13-psk") ? "t13" : fn); TxOpt o = f->o; o.psk = 0; o.noCert = 1; mc_rand_reseed(34); tx_now = TX_EPOCH * 1000000; g_pskC = keyC; g_pskS = 0; g_idC = id; g_lenC = len;
    HITLS_Config *cc = tx_cfg(&o, true), *sc = tx_cfg(&o, false); HITLS_CFG_SetPskClientCallback(cc, pc); HITLS_CFG_SetPskServerCallback(sc, psv);
    if (f->o.ver == V13) { HITLS_CFG_SetKeyExchMode(cc, TLS13_KE_MODE_PSK_WITH_DHE | TLS13_KE_MODE_PSK_ONLY); HITLS_CFG_SetKeyExchMode(sc, TLS13_KE_MODE_PSK_WITH_DHE | TLS13_KE_MODE_PSK_ONLY); }
    TxLink l = {0}; l.c = tx_ep(cc, true, false); l.s = tx_ep(sc, false, false); tx_handshake(&l);
    bool want = keyC == 0 && len == 32 && !strcmp(id, "alice"); char w[60]; snprintf(w, sizeof w, "%s key %d id %s len %u", fn, keyC, id, len);
    finish(&l, l.s, want, false, w); if (!mc_failed()) { finish(&l, l.c, want, false, w); }
    tx_ep_free(l.c); tx_ep_free(l.s); HITLS_CFG_FreeConfig(cc); HITLS_CFG_FreeConfig(sc);
}
void mc_explore(void)
{
    tx_init();
    for (unsigned v = 0; v < MC_LEN(vers); v++) {
        const Ver *V = &vers[v]; bool tlcp = V->ver == VTLCP || V->ver == VDTLCP; mc_space(V->name);
        for (int k = 0; k < K_N; k++) for (int s = 0; s < S_N; s++) for (int bad = tlcp ? 1 : 0; bad <= (tlcp ? 3 : 0); bad++) {
            if (mc_case("%s server presents %s, client %s%s", V->name, KN[k], SN[s], tlcp ? bad == 1 ? " [sign]" : bad == 2 ? " [enc]" : " [both]" : "")) { server_cred(V, k, s, bad); }
            if (!strcmp(V->name, "tlcp-ecdhe")) { continue; }
            for (int q = 0; q < 3; q++) { if (mc_case("%s client presents %s, server %s request %d%s", V->name, KN[k], SN[s], q, tlcp ? bad == 1 ? " [sign]" : bad == 2 ? " [enc]" : " [both]" : "")) { client_cred(V, k, s, q, bad); } }
        }
    }
    mc_space("post-handshake");
    for (int k = 0; k < K_N; k++) for (int s = 0; s < S_N; s++) for (int q = 1; q < 3; q++) for (int cp = 0; cp < 2; cp++) { if (mc_case("post-handshake auth %s %s request %d offered %d", KN[k], SN[s], q, cp)) { pha(k, s, q, cp); } }
    mc_space("psk"); static const char *fl[] = {"t12-psk", "t13-psk"};
    for (int i = 0; i < 2; i++) {
        if (mc_case("%s right key", fl[i])) { psk(fl[i], 0, "alice", 32); }
        for (int b = 0; b < 256; b++) { if (mc_case("%s key bit %d wrong", fl[i], b)) { psk(fl[i], 100 + b, "alice", 32); } }
        for (int n = 1; n < 32; n++) { if (mc_case("%s key cut to %d", fl[i], n)) { psk(fl[i], 0, "alice", n); } }
        static const char *ids[] = {"bob", "alic", "alice ", "Alice", "alicf"}; for (int j = 0; j < 5; j++) { if (mc_case("%s identity %s", fl[i], ids[j])) { psk(fl[i], 0, ids[j], 32); } }
    }
}
