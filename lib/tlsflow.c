#include "tlsflow.h"
static const uint16_t s_gcm[] = {HITLS_ECDHE_ECDSA_WITH_AES_128_GCM_SHA256}, s_cbc[] = {HITLS_ECDHE_ECDSA_WITH_AES_128_CBC_SHA256}, s_chacha[] = {HITLS_ECDHE_ECDSA_WITH_CHACHA20_POLY1305_SHA256},
    s_13[] = {HITLS_AES_128_GCM_SHA256}, s_13b[] = {HITLS_AES_256_GCM_SHA384}, s_psk[] = {HITLS_ECDHE_PSK_WITH_AES_128_CBC_SHA256}, s_ppsk[] = {HITLS_PSK_WITH_AES_128_GCM_SHA256},
    s_tlcp[] = {HITLS_ECC_SM4_GCM_SM3}, s_tlcpe[] = {HITLS_ECDHE_SM4_CBC_SM3}, s_dhe[] = {HITLS_DHE_RSA_WITH_AES_128_GCM_SHA256}, s_rsa[] = {HITLS_RSA_WITH_AES_128_GCM_SHA256}, s_anon[] = {HITLS_ECDH_ANON_WITH_AES_128_CBC_SHA};
static const uint16_t g_x[] = {HITLS_EC_GROUP_CURVE25519, HITLS_EC_GROUP_SECP256R1}, g_p[] = {HITLS_EC_GROUP_SECP256R1}, g_sm[] = {HITLS_EC_GROUP_SM2};
static const uint16_t sg_e[] = {CERT_SIG_SCHEME_ECDSA_SECP256R1_SHA256}, sg_r[] = {CERT_SIG_SCHEME_RSA_PKCS1_SHA256, CERT_SIG_SCHEME_RSA_PSS_RSAE_SHA256};
#define SU(x) .suites = x, .nsuites = MC_LEN(x)
#define GX .groups = g_x, .ngroups = 2
#define SE .sigs = sg_e, .nsigs = 1
const Flow tx_flows[] = {
    {"t12", {.ver = V12, SU(s_gcm), GX, SE}},
    {"t12-cbc-auth", {.ver = V12, SU(s_cbc), GX, SE, .clientAuth = 1}, .etm = 1},
    {"t12-ticket", {.ver = V12, SU(s_gcm), GX, SE, .ticket = 1}},
    {"t12-resume-ticket", {.ver = V12, SU(s_gcm), GX, SE, .ticket = 1}, .resume = 1},
    {"t12-resume-id", {.ver = V12, SU(s_gcm), GX, SE}, .resume = 2},
    {"t12-psk", {.ver = V12, SU(s_psk), GX, SE, .psk = 1, .noCert = 1}},
    {"t12-anon", {.ver = V12, SU(s_anon), GX, .noCert = 1}},
    {"t13", {.ver = V13, SU(s_13), GX, SE}, .alpn = 1},
    {"t13-auth", {.ver = V13, SU(s_13b), GX, SE, .clientAuth = 1}},
    {"t13-hrr", {.ver = V13, SU(s_13), GX, SE}, .hrr = 1},
    {"t13-resume", {.ver = V13, SU(s_13), GX, SE, .ticket = 1}, .resume = 1},
    {"tlcp", {.ver = VTLCP, SU(s_tlcp)}},
    {"tlcp-ecdhe-auth", {.ver = VTLCP, SU(s_tlcpe), .clientAuth = 1}},
    {"d12", {.ver = VD12, SU(s_gcm), GX, SE}},
    {"d12-cookie-auth", {.ver = VD12, SU(s_gcm), GX, SE, .clientAuth = 1, .cookie = 1}},
    {"d12-ticket", {.ver = VD12, SU(s_gcm), GX, SE, .ticket = 1}},
    {"d12-resume", {.ver = VD12, SU(s_gcm), GX, SE}, .resume = 2},
    {"d13", {.ver = VD13, SU(s_13), GX, SE}},
    {"d13-auth", {.ver = VD13, SU(s_13), GX, SE, .clientAuth = 1}},
    {"d13-hrr", {.ver = VD13, SU(s_13), GX, SE}, .hrr = 1},
    {"dtlcp", {.ver = VDTLCP, SU(s_tlcp)}},
    {"t12-rsa", {.ver = V12, .kind = PK_RSA2048, SU(s_rsa), GX, .sigs = sg_r, .nsigs = 2}, .slow = 1},
    {"t12-dhe", {.ver = V12, .kind = PK_RSA2048, SU(s_dhe), GX, .sigs = sg_r, .nsigs = 2}, .slow = 1},
};
const int tx_nflows = MC_LEN(tx_flows);
/* every protection mode of every protocol version, for the checks on application data */
static const uint16_t q0[] = {HITLS_ECDHE_ECDSA_WITH_AES_128_CBC_SHA};
static const uint16_t q1[] = {HITLS_ECDHE_ECDSA_WITH_AES_128_CBC_SHA};
static const uint16_t q2[] = {HITLS_ECDHE_ECDSA_WITH_AES_256_CBC_SHA384};
static const uint16_t q3[] = {HITLS_ECDHE_ECDSA_WITH_AES_256_CBC_SHA384};
static const uint16_t q4[] = {HITLS_ECDHE_ECDSA_WITH_AES_128_CBC_SHA256};
static const uint16_t q5[] = {HITLS_ECDHE_ECDSA_WITH_AES_128_CBC_SHA256};
static const uint16_t q6[] = {HITLS_ECDHE_ECDSA_WITH_AES_128_GCM_SHA256};
static const uint16_t q7[] = {HITLS_ECDHE_ECDSA_WITH_AES_256_GCM_SHA384};
static const uint16_t q8[] = {HITLS_ECDHE_ECDSA_WITH_AES_128_CCM};
static const uint16_t q9[] = {HITLS_ECDHE_ECDSA_WITH_AES_256_CCM};
static const uint16_t q10[] = {HITLS_ECDHE_ECDSA_WITH_CHACHA20_POLY1305_SHA256};
static const uint16_t q11[] = {HITLS_ECDHE_ECDSA_WITH_AES_128_CBC_SHA};
static const uint16_t q12[] = {HITLS_ECDHE_ECDSA_WITH_AES_128_CBC_SHA};
static const uint16_t q13[] = {HITLS_ECDHE_ECDSA_WITH_AES_256_CBC_SHA384};
static const uint16_t q14[] = {HITLS_ECDHE_ECDSA_WITH_AES_256_CBC_SHA384};
static const uint16_t q15[] = {HITLS_ECDHE_ECDSA_WITH_AES_128_CBC_SHA256};
static const uint16_t q16[] = {HITLS_ECDHE_ECDSA_WITH_AES_128_CBC_SHA256};
static const uint16_t q17[] = {HITLS_ECDHE_ECDSA_WITH_AES_128_GCM_SHA256};
static const uint16_t q18[] = {HITLS_ECDHE_ECDSA_WITH_AES_256_GCM_SHA384};
static const uint16_t q19[] = {HITLS_ECDHE_ECDSA_WITH_AES_128_CCM};
static const uint16_t q20[] = {HITLS_ECDHE_ECDSA_WITH_AES_256_CCM};
static const uint16_t q21[] = {HITLS_ECDHE_ECDSA_WITH_CHACHA20_POLY1305_SHA256};
static const uint16_t q22[] = {HITLS_AES_128_GCM_SHA256};
static const uint16_t q23[] = {HITLS_AES_256_GCM_SHA384};
static const uint16_t q24[] = {HITLS_CHACHA20_POLY1305_SHA256};
static const uint16_t q25[] = {HITLS_AES_128_CCM_SHA256};
static const uint16_t q26[] = {HITLS_AES_128_CCM_8_SHA256};
static const uint16_t q27[] = {HITLS_AES_128_GCM_SHA256};
static const uint16_t q28[] = {HITLS_AES_256_GCM_SHA384};
static const uint16_t q29[] = {HITLS_CHACHA20_POLY1305_SHA256};
static const uint16_t q30[] = {HITLS_AES_128_CCM_SHA256};
static const uint16_t q31[] = {HITLS_AES_128_CCM_8_SHA256};
static const uint16_t q32[] = {HITLS_ECDHE_SM4_CBC_SM3};
static const uint16_t q33[] = {HITLS_ECC_SM4_CBC_SM3};
static const uint16_t q34[] = {HITLS_ECDHE_SM4_GCM_SM3};
static const uint16_t q35[] = {HITLS_ECC_SM4_GCM_SM3};
static const uint16_t q36[] = {HITLS_ECDHE_SM4_CBC_SM3};
static const uint16_t q37[] = {HITLS_ECC_SM4_CBC_SM3};
static const uint16_t q38[] = {HITLS_ECDHE_SM4_GCM_SM3};
static const uint16_t q39[] = {HITLS_ECC_SM4_GCM_SM3};
const Flow tx_prots[] = {
    {"t12-ecdsa-a128cbc-sha", {.ver = V12, SU(q0), GX, SE}, .etm = 0},
    {"t12-ecdsa-a128cbc-sha-etm", {.ver = V12, SU(q1), GX, SE}, .etm = 1},
    {"t12-ecdsa-a256cbc-sha384", {.ver = V12, SU(q2), GX, SE}, .etm = 0},
    {"t12-ecdsa-a256cbc-sha384-etm", {.ver = V12, SU(q3), GX, SE}, .etm = 1},
    {"t12-ecdsa-a128cbc-sha256", {.ver = V12, SU(q4), GX, SE}, .etm = 0},
    {"t12-ecdsa-a128cbc-sha256-etm", {.ver = V12, SU(q5), GX, SE}, .etm = 1},
    {"t12-ecdsa-a128gcm", {.ver = V12, SU(q6), GX, SE}, .etm = 0},
    {"t12-ecdsa-a256gcm", {.ver = V12, SU(q7), GX, SE}, .etm = 0},
    {"t12-ecdsa-a128ccm", {.ver = V12, SU(q8), GX, SE}, .etm = 0},
    {"t12-ecdsa-a256ccm", {.ver = V12, SU(q9), GX, SE}, .etm = 0},
    {"t12-ecdsa-chacha", {.ver = V12, SU(q10), GX, SE}, .etm = 0},
    {"d12-ecdsa-a128cbc-sha", {.ver = VD12, SU(q11), GX, SE}, .etm = 0},
    {"d12-ecdsa-a128cbc-sha-etm", {.ver = VD12, SU(q12), GX, SE}, .etm = 1},
    {"d12-ecdsa-a256cbc-sha384", {.ver = VD12, SU(q13), GX, SE}, .etm = 0},
    {"d12-ecdsa-a256cbc-sha384-etm", {.ver = VD12, SU(q14), GX, SE}, .etm = 1},
    {"d12-ecdsa-a128cbc-sha256", {.ver = VD12, SU(q15), GX, SE}, .etm = 0},
    {"d12-ecdsa-a128cbc-sha256-etm", {.ver = VD12, SU(q16), GX, SE}, .etm = 1},
    {"d12-ecdsa-a128gcm", {.ver = VD12, SU(q17), GX, SE}, .etm = 0},
    {"d12-ecdsa-a256gcm", {.ver = VD12, SU(q18), GX, SE}, .etm = 0},
    {"d12-ecdsa-a128ccm", {.ver = VD12, SU(q19), GX, SE}, .etm = 0},
    {"d12-ecdsa-a256ccm", {.ver = VD12, SU(q20), GX, SE}, .etm = 0},
    {"d12-ecdsa-chacha", {.ver = VD12, SU(q21), GX, SE}, .etm = 0},
    {"t13-a128gcm", {.ver = V13, SU(q22), GX, SE}},
    {"t13-a256gcm", {.ver = V13, SU(q23), GX, SE}},
    {"t13-chacha", {.ver = V13, SU(q24), GX, SE}},
    {"t13-a128ccm", {.ver = V13, SU(q25), GX, SE}},
    {"t13-a128ccm8", {.ver = V13, SU(q26), GX, SE}},
    {"d13-a128gcm", {.ver = VD13, SU(q27), GX, SE}},
    {"d13-a256gcm", {.ver = VD13, SU(q28), GX, SE}},
    {"d13-chacha", {.ver = VD13, SU(q29), GX, SE}},
    {"d13-a128ccm", {.ver = VD13, SU(q30), GX, SE}},
    {"d13-a128ccm8", {.ver = VD13, SU(q31), GX, SE}},
    {"tlcp-ecdhe-cbc", {.ver = VTLCP, SU(q32), .clientAuth = 1}},
    {"tlcp-ecc-cbc", {.ver = VTLCP, SU(q33), .clientAuth = 0}},
    {"tlcp-ecdhe-gcm", {.ver = VTLCP, SU(q34), .clientAuth = 1}},
    {"tlcp-ecc-gcm", {.ver = VTLCP, SU(q35), .clientAuth = 0}},
    {"dtlcp-ecdhe-cbc", {.ver = VDTLCP, SU(q36), .clientAuth = 1}},
    {"dtlcp-ecc-cbc", {.ver = VDTLCP, SU(q37), .clientAuth = 0}},
    {"dtlcp-ecdhe-gcm", {.ver = VDTLCP, SU(q38), .clientAuth = 1}},
    {"dtlcp-ecc-gcm", {.ver = VDTLCP, SU(q39), .clientAuth = 0}},
};
const int tx_nprots = MC_LEN(tx_prots);
const Flow *flow_by_name(const char *n) { for (int i = 0; i < tx_nflows; i++) { if (!strcmp(tx_flows[i].name, n)) { return &tx_flows[i]; } } for (int i = 0; i < tx_nprots; i++) { if (!strcmp(tx_prots[i].name, n)) { return &tx_prots[i]; } } mc_fatal("flow %s", n); }
static int32_t alpn_sel(HITLS_Ctx *ctx, uint8_t **sel, uint8_t *sl, uint8_t *cl, uint32_t cll, void *u) { (void)ctx; (void)u; for (uint32_t i = 0; i + 1 <= cll && i + 1 + cl[i] <= cll; i += 1 + cl[i]) { if (cl[i] == 2 && !memcmp(cl + i + 1, "h2", 2)) { *sel = cl + i + 1; *sl = 2; return HITLS_ALPN_ERR_OK; } } return HITLS_ALPN_ERR_NOACK; }
bool flow_open(const Flow *f, FlowRun *r)
{
    memset(r, 0, sizeof *r); r->f = f; tx_now = TX_EPOCH * 1000000;
    TxOpt oc = f->o, os = f->o; if (f->hrr) { os.groups = g_p; os.ngroups = 1; }
    if (f->cliNoCert) { oc.noCert = 1; } r->cc = tx_cfg(&oc, true); r->sc = tx_cfg(&os, false);
    if (!r->cc || !r->sc) { flow_close(r); return false; }
    if (f->o.suites == s_anon || strstr(f->name, "ccm8")) { HITLS_CFG_SetSecurityLevel(r->cc, 0); HITLS_CFG_SetSecurityLevel(r->sc, 0); }
    if (f->alpn) { HITLS_CFG_SetAlpnProtos(r->cc, (const uint8_t *)"\x08http/1.1\x02h2", 12); HITLS_CFG_SetAlpnProtosSelectCb(r->sc, alpn_sel, NULL); }
    HITLS_CFG_SetEncryptThenMac(r->cc, f->etm); HITLS_CFG_SetEncryptThenMac(r->sc, f->etm);
    if (f->noEms) { HITLS_CFG_SetExtendedMasterSecretSupport(r->cc, false); HITLS_CFG_SetExtendedMasterSecretSupport(r->sc, false); }
    if (f->resume == 2) { HITLS_CFG_SetSessionCacheMode(r->sc, HITLS_SESS_CACHE_SERVER); }
    bool dg = tx_is_dgram(f->o.ver);
    if (f->resume) {
        HITLS_CFG_SetSessionIdCtx(r->sc, (const uint8_t *)"mc", 2); HITLS_CFG_SetSessionIdCtx(r->cc, (const uint8_t *)"mc", 2);
        TxLink l = {.c = tx_ep(r->cc, true, dg), .s = tx_ep(r->sc, false, dg)};
        if (l.c && l.s) {
            tx_handshake(&l);
            if (tx_both(&l)) { tx_write(l.s, "x", 1); tx_move(&l, l.s); tx_drain(l.c); tx_move(&l, l.c); tx_drain(l.s); r->sess = HITLS_GetDupSession(l.c->ctx); }
            else if (mc_replaying) { printf("flow_open: first handshake c %x s %x\n", l.c->ret, l.s->ret); }
        }
        tx_ep_free(l.c); tx_ep_free(l.s);
        if (!r->sess) { flow_close(r); return false; }
    }
    r->l.c = tx_ep(r->cc, true, dg); r->l.s = tx_ep(r->sc, false, dg);
    if (!r->l.c || !r->l.s) { flow_close(r); return false; }
    if (r->sess) { if (HITLS_SetSession(r->l.c->ctx, r->sess)) { flow_close(r); return false; } }
    return true;
}
void flow_close(FlowRun *r)
{
    tx_ep_free(r->l.c); tx_ep_free(r->l.s); if (r->sess) { HITLS_SESS_Free(r->sess); }
    HITLS_CFG_FreeConfig(r->cc); HITLS_CFG_FreeConfig(r->sc); BSL_ERR_ClearError();
    memset(r, 0, sizeof *r);
}
void nego_get(Ep *e, Nego *n)
{
    memset(n, 0, sizeof *n); HITLS_GetNegotiatedVersion(e->ctx, &n->ver);
    const HITLS_Cipher *c = HITLS_GetCurrentCipher(e->ctx); if (c) { HITLS_CFG_GetCipherSuite(c, &n->suite); }
    HITLS_GetNegotiateGroup(e->ctx, &n->group); HITLS_IsSessionReused(e->ctx, &n->reused);
    HITLS_SignHashAlgo sa = 0; if (HITLS_GetPeerSignScheme(e->ctx, &sa) == 0) { n->peerSig = sa; } sa = 0; if (HITLS_GetLocalSignScheme(e->ctx, &sa) == 0) { n->localSig = sa; }
    n->hasExp = tx_export(e, n->exp);
    uint8_t *p = NULL; uint32_t l = 0; if (HITLS_GetSelectedAlpnProto(e->ctx, &p, &l) == 0 && p && l < 15) { memcpy(n->alpn, p, l); }
    HITLS_GetFinishVerifyData(e->ctx, n->fin, sizeof n->fin, &n->finLen); HITLS_GetPeerFinishVerifyData(e->ctx, n->pfin, sizeof n->pfin, &n->pfinLen);
    uint32_t rl = 32; HITLS_GetHsRandom(e->ctx, n->cr, &rl, true); rl = 32; HITLS_GetHsRandom(e->ctx, n->sr, &rl, false);
}
const char *nego_differ(const Nego *c, const Nego *s)
{
    if (c->ver != s->ver) { return "version"; }
    if (c->suite != s->suite) { return "cipher suite"; }
    if (c->group != s->group) { return "group"; }
    if (c->reused != s->reused) { return "session reuse"; }
    if (strcmp(c->alpn, s->alpn)) { return "ALPN"; }
    if (!c->hasExp || !s->hasExp || memcmp(c->exp, s->exp, 32)) { return "exported keying material"; }
    if (c->finLen && s->pfinLen && (c->finLen != s->pfinLen || memcmp(c->fin, s->pfin, c->finLen))) { return "client Finished"; }
    if (s->finLen && c->pfinLen && (s->finLen != c->pfinLen || memcmp(s->fin, c->pfin, s->finLen))) { return "server Finished"; }
    if (memcmp(c->cr, s->cr, 32) || memcmp(c->sr, s->sr, 32)) { return "hello randoms"; }
    return NULL;
}
