/* C09: a session is resumed only where it is valid.  Real client and server objects; a small model of which sessions are
 * still valid on which server says when resumption is forbidden. */
#include "tlsflow.h"
#include "hitls_pki_x509.h"
#include "hitls_pki_cert.h"
#define TMO 1000
static const uint16_t A12 = HITLS_ECDHE_ECDSA_WITH_AES_128_GCM_SHA256, B12 = HITLS_ECDHE_ECDSA_WITH_AES_256_GCM_SHA384, C12 = HITLS_ECDHE_ECDSA_WITH_AES_128_CBC_SHA256;
static const uint16_t A13 = HITLS_AES_128_GCM_SHA256, B13 = HITLS_AES_256_GCM_SHA384, C13 = HITLS_CHACHA20_POLY1305_SHA256;
typedef struct { const char *n; int ver, ticket; bool ext, mutual; int cb; } World;
static const World W[] = {
    {"tls12-id", V12, 0, false, false}, {"tls12-ticket", V12, 1, false, true}, {"tls12-external-cache", V12, 0, true, false}, {"tls13", V13, 1, false, true},
    {"dtls12-id", VD12, 0, false, false}, {"dtls12-ticket", VD12, 1, false, false}, {"tlcp-id", VTLCP, 0, false, false}, {"tlcp-ticket", VTLCP, 1, false, false}, {"dtls13", VD13, 1, false, false},
    {"tls12-callback-cbc", V12, 1, false, false, 1}, {"tls12-callback-gcm", V12, 1, false, false, 2}, {"tls13-callback-cbc", V13, 1, false, false, 1}, {"tlcp-callback-cbc", VTLCP, 1, false, false, 1}};
static bool v13(const World *w) { return w->ver == V13 || w->ver == VD13; }
/* ---------- external session cache of the server application ---------- */
static struct { uint8_t id[32]; uint32_t n; HITLS_Session *s; } xc[64]; static int nxc;
static void xc_clear(void) { for (int i = 0; i < nxc; i++) { HITLS_SESS_Free(xc[i].s); } nxc = 0; }
static int32_t xc_new(HITLS_Ctx *c, HITLS_Session *s) { (void)c; if (nxc == 64) { mc_fatal("cache"); } xc[nxc].n = 32; if (HITLS_SESS_GetSessionId(s, xc[nxc].id, &xc[nxc].n)) { mc_fatal("id"); } xc[nxc++].s = HITLS_SESS_Dup(s); return 0; }
static HITLS_Session *xc_get(HITLS_Ctx *c, const uint8_t *d, int32_t n, int32_t *copy) { (void)c; *copy = 1; for (int i = nxc - 1; i >= 0; i--) { if ((uint32_t)n == xc[i].n && !memcmp(d, xc[i].id, n)) { return xc[i].s; } } return NULL; }
/* ---------- connections ---------- */
typedef struct { bool up, reused; HITLS_Session *cs; uint16_t ver, suite; uint8_t mk[64]; uint32_t mkl; uint64_t peer; int32_t rc, rs; } Conn;
static uint64_t peerId(Ep *e) { HITLS_CERT_X509 *x = HITLS_GetPeerCertificate(e->ctx); if (!x) { return 0; } uint8_t *p = NULL; uint32_t n = 0; if (HITLS_X509_CertCtrl((HITLS_X509_Cert *)x, HITLS_X509_GET_ENCODELEN, &n, sizeof(n)) || HITLS_X509_CertCtrl((HITLS_X509_Cert *)x, HITLS_X509_GET_ENCODE, &p, 0)) { HITLS_X509_CertFree((HITLS_X509_Cert *)x); return 1; } uint64_t h = mc_hash(p, n); HITLS_X509_CertFree((HITLS_X509_Cert *)x); return h; }
static HITLS_Session *slotS;      /* server's own session of the last connection */
static bool connect2(const World *w, HITLS_Config *cc, HITLS_Config *sc, HITLS_Session *offer, Conn *o)
{
    memset(o, 0, sizeof(*o)); bool dg = tx_is_dgram(w->ver); TxLink l = {.c = tx_ep(cc, true, dg), .s = tx_ep(sc, false, dg)}; mc_transitions(1);
    if (!l.c || !l.s) { tx_ep_free(l.c); tx_ep_free(l.s); return false; }
    if (offer && HITLS_SetSession(l.c->ctx, offer)) { tx_ep_free(l.c); tx_ep_free(l.s); return false; }
    tx_handshake(&l); o->rc = l.c->ret; o->rs = l.s->ret;
    if (tx_both(&l)) {
        o->up = true; bool a = false, b = false; HITLS_IsSessionReused(l.c->ctx, &a); HITLS_IsSessionReused(l.s->ctx, &b); o->reused = a;
        if (a != b) { mc_fail("client says reused=%d, server says %d", a, b); }
        if (tx_write(l.s, "srv", 3)) { mc_fail("write after handshake fails"); } tx_move(&l, l.s); tx_drain(l.c); if (tx_write(l.c, "cli", 3)) { mc_fail("write after handshake fails"); } tx_move(&l, l.c); tx_drain(l.s);
        if (l.c->app.n != 3 || memcmp(l.c->app.p, "srv", 3) || l.s->app.n != 3 || memcmp(l.s->app.p, "cli", 3)) { mc_fail("data does not get through a%s connection", a ? " resumed" : ""); }
        Nego n; nego_get(l.s, &n); o->ver = n.ver; o->suite = n.suite; o->peer = peerId(l.s); uint64_t pc = peerId(l.c); (void)pc;
        HITLS_Session *ss = HITLS_GetDupSession(l.s->ctx); o->cs = HITLS_GetDupSession(l.c->ctx); o->mkl = sizeof(o->mk);
        if (ss) { if (HITLS_SESS_GetMasterKey(ss, o->mk, &o->mkl)) { o->mkl = 0; } uint8_t m2[64]; uint32_t l2 = sizeof(m2); if (o->cs && !HITLS_SESS_GetMasterKey(o->cs, m2, &l2) && !v13(w) && (l2 != o->mkl || memcmp(m2, o->mk, l2))) { mc_fail("client and server hold different master secrets"); } }
        if (slotS) { HITLS_SESS_Free(slotS); } slotS = ss;
    }
    tx_ep_free(l.c); tx_ep_free(l.s); BSL_ERR_ClearError(); return true;
}
static int cbKind;      /* ticket keys kept by the application: 1 AES-CBC with HMAC, 2 AES-GCM */
static int32_t ticketCb(uint8_t *name, uint32_t nl, HITLS_CipherParameters *p, uint8_t enc)
{
    static const uint8_t nm[16] = "ticket key name"; static uint8_t k[32], h[32], iv[16]; if (nl != 16) { return HITLS_TICKET_KEY_RET_NEED_ALERT; } if (enc) { memcpy(name, nm, 16); } else if (memcmp(name, nm, 16)) { return HITLS_TICKET_KEY_RET_FAIL; }
    mc_fill(k, 32, 901); mc_fill(h, 32, 902); if (enc) { mc_rand_bytes(iv, 16); p->iv = iv; p->ivLen = 16; } p->aad = (uint8_t *)(uintptr_t)nm; p->aadLen = 16; p->type = cbKind == 1 ? HITLS_CBC_CIPHER : HITLS_AEAD_CIPHER; p->algo = cbKind == 1 ? HITLS_CIPHER_AES_256_CBC : HITLS_CIPHER_AES_256_GCM; p->key = k; p->keyLen = 32; p->hmacKey = h; p->hmacKeyLen = 32; return HITLS_TICKET_KEY_RET_SUCCESS;
}
static HITLS_Config *mkcfg(const World *w, bool client, int minver)
{
    TxOpt o = {.ver = w->ver, .kind = PK_EC256, .ticket = w->ticket, .clientAuth = w->mutual, .minver = minver}; if (!v13(w) && w->ver != VTLCP) { o.suites = &A12; o.nsuites = 1; }
    HITLS_Config *c = tx_cfg(&o, client); if (!c) { mc_fatal("config %s", w->n); }
    if (!client) { HITLS_CFG_SetSessionTimeout(c, TMO); HITLS_CFG_SetSessionCacheMode(c, w->ext ? HITLS_SESS_CACHE_SERVER | HITLS_SESS_DISABLE_INTERNAL_LOOKUP : HITLS_SESS_CACHE_SERVER);
        cbKind = w->cb; if (w->cb && HITLS_CFG_SetTicketKeyCallback(c, ticketCb)) { mc_fatal("callback"); }
        if (w->ext) { HITLS_CFG_SetNewSessionCb(c, xc_new); HITLS_CFG_SetSessionGetCb(c, xc_get); } }
    else { HITLS_CFG_SetSessionTimeout(c, 1u << 30); }   /* the client never drops a session by itself */
    if (HITLS_CFG_SetSessionIdCtx(c, (const uint8_t *)"mc", 2)) { mc_fatal("sid"); }
    return c;
}
/* ---------- histories ---------- */
/* what is known of a session the client holds */
typedef struct { HITLS_Session *s; int64_t t0; uint64_t tmo; int key, sid, home; bool gone, tkt; uint16_t ver, suite; uint8_t mk[64]; uint32_t mkl; uint64_t peer; } Held;
typedef struct { const World *w; HITLS_Config *cc, *sc[2]; Held h[3]; int nh; int key[2], sid[2]; uint64_t tmo[2]; uint8_t keys[4][100]; uint32_t kn; bool ok; const char *seq; } Sim;
static void hold(Sim *m, Conn *c, int srv, const Held *from)
{
    if (!c->cs) { return; } if (m->nh == 3) { HITLS_SESS_Free(m->h[0].s); memmove(m->h, m->h + 1, 2 * sizeof(Held)); m->nh = 2; }
    Held *n = &m->h[m->nh++]; memset(n, 0, sizeof(*n)); n->s = c->cs; c->cs = NULL; n->t0 = tx_now; n->tmo = m->tmo[srv]; n->key = m->key[srv]; n->sid = m->sid[srv]; n->home = srv; n->ver = c->ver; n->suite = c->suite; memcpy(n->mk, c->mk, sizeof(n->mk)); n->mkl = c->mkl; n->peer = c->peer;
    n->tkt = HITLS_SESS_HasTicket(n->s); if (from && !n->tkt && !from->tkt) { n->t0 = from->t0; n->tmo = from->tmo; n->home = from->home; n->gone = from->gone; n->sid = from->sid; }
    if (from && n->tmo < from->tmo) { n->tmo = from->tmo; }   /* whether a renewed ticket keeps the old life time is left open */
}
static void attempt(Sim *m, int srv, const char *at, int i)
{
    if (!m->nh) { return; } Held h = m->h[m->nh - 1]; Conn c; const char *bad = NULL;
    if (h.tkt) { if (h.key != m->key[srv]) { bad = "its ticket key is not this server's"; } } else { if (m->w->ext ? false : h.home != srv) { bad = "it was established with another server"; } else if (h.gone) { bad = "it was removed"; } }
    if (tx_now >= h.t0 + (int64_t)(h.tmo + 1) * 1000000) { bad = "it has expired"; } if (h.sid != m->sid[srv]) { bad = "the session-id context differs"; }
    if (!connect2(m->w, m->cc, m->sc[srv], h.s, &c)) { return; }
    if (c.up && c.reused) {
        if (bad) { mc_fail("%s: history %s step %d%s: session resumed although %s", m->w->n, m->seq, i, at, bad); }
        if (c.ver != h.ver || (!v13(m->w) && c.suite != h.suite)) { mc_fail("%s: history %s step %d%s: resumed with version %x suite %x, established with %x %x", m->w->n, m->seq, i, at, c.ver, c.suite, h.ver, h.suite); }
        if (!v13(m->w) && (c.mkl != h.mkl || memcmp(c.mk, h.mk, h.mkl))) { mc_fail("%s: history %s step %d%s: resumed connection has another master secret", m->w->n, m->seq, i, at); }
        if (m->w->mutual && c.peer != h.peer) { mc_fail("%s: history %s step %d%s: resumed connection reports another peer", m->w->n, m->seq, i, at); }
    }
    char oc[64]; snprintf(oc, sizeof(oc), "%s %s %s", m->w->n, bad ? bad : "valid", c.up ? c.reused ? "resumed" : "full" : "failed"); mc_outcome_str(oc);
    if (mc_replaying) { printf("   attempt on %d: %s (c %x s %x)\n", srv, oc, c.rc, c.rs); }
    if (c.up) { hold(m, &c, srv, c.reused ? &h : NULL); } if (c.cs) { HITLS_SESS_Free(c.cs); }
}
static void hist(const World *w, const char *seq, bool share)
{
    Sim m = {.w = w, .seq = seq, .tmo = {TMO, TMO}}; Conn c; tx_now = TX_EPOCH * 1000000; xc_clear(); mc_rand_reseed(77);
    m.cc = mkcfg(w, true, 0); m.sc[0] = mkcfg(w, false, 0); m.sc[1] = mkcfg(w, false, 0); m.key[0] = 0; m.key[1] = 1;
    if (HITLS_CFG_GetSessionTicketKey(m.sc[0], m.keys[0], sizeof(m.keys[0]), &m.kn) || HITLS_CFG_GetSessionTicketKey(m.sc[1], m.keys[1], sizeof(m.keys[1]), &m.kn)) { mc_fatal("ticket key"); }
    mc_fill(m.keys[2], m.kn, 5); memcpy(m.keys[3], m.keys[0], 16); mc_fill(m.keys[3] + 16, m.kn - 16, 6);   /* 3: same key name, other keys */
    if (share) { HITLS_CFG_SetSessionTicketKey(m.sc[1], m.keys[0], m.kn); m.key[1] = 0; }
    if (!connect2(w, m.cc, m.sc[0], NULL, &c) || !c.up) { mc_fail("%s: plain handshake fails %x %x", w->n, c.rc, c.rs); } hold(&m, &c, 0, NULL);
    for (int i = 0; seq[i] && !mc_failed(); i++) {
        Held *h = m.nh ? &m.h[m.nh - 1] : NULL;
        switch (seq[i]) {
            case 'E': if (connect2(w, m.cc, m.sc[0], NULL, &c) && c.up) { hold(&m, &c, 0, NULL); } if (c.cs) { HITLS_SESS_Free(c.cs); } break;
            case 'R': attempt(&m, 0, "", i); break;
            case 'r': attempt(&m, 1, "", i); break;
            case 'T': tx_now += (int64_t)(TMO / 2 + 1) * 1000000; break;
            case 'J': tx_now += (int64_t)(TMO + 2) * 1000000; break;
            case 'j': tx_now += (int64_t)(TMO - 1) * 1000000; break;
            case 'X': if (h && h->s) { HITLS_CFG_RemoveSession(m.sc[0], h->s); if (h->home == 0 && !w->ext) { for (int k = 0; k < m.nh; k++) { uint8_t a[32], b[32]; uint32_t x = 32, y = 32; HITLS_SESS_GetSessionId(m.h[k].s, a, &x); HITLS_SESS_GetSessionId(h->s, b, &y); if (x == y && !memcmp(a, b, x)) { m.h[k].gone = true; } } } } break;
            case 'Z': HITLS_CFG_ClearTimeoutSession(m.sc[0], 0); if (!w->ext) { for (int k = 0; k < m.nh; k++) { if (m.h[k].home == 0) { m.h[k].gone = true; } } } break;
            case 'z': HITLS_CFG_ClearTimeoutSession(m.sc[0], tx_now / 1000000); break;
            case 'K': if (HITLS_CFG_SetSessionTicketKey(m.sc[0], m.keys[2], m.kn)) { mc_fatal("set key"); } m.key[0] = 2; break;
            case 'k': if (HITLS_CFG_SetSessionTicketKey(m.sc[0], m.keys[3], m.kn)) { mc_fatal("set key"); } m.key[0] = 3; break;
            case 'L': if (HITLS_CFG_SetSessionTicketKey(m.sc[0], m.keys[0], m.kn)) { mc_fatal("set key"); } m.key[0] = 0; break;
            case 'I': m.sid[0] = 1; HITLS_CFG_SetSessionIdCtx(m.sc[0], (const uint8_t *)"mx", 2); break;
            case 'i': m.sid[0] = 2; HITLS_CFG_SetSessionIdCtx(m.sc[0], (const uint8_t *)"m", 1); break;
            case 'O': m.sid[0] = 0; HITLS_CFG_SetSessionIdCtx(m.sc[0], (const uint8_t *)"mc", 2); break;
            case 'S': m.tmo[0] = 10; HITLS_CFG_SetSessionTimeout(m.sc[0], 10); break;
            case 'B': if (m.nh > 1) { Held t = m.h[m.nh - 1]; m.h[m.nh - 1] = m.h[m.nh - 2]; m.h[m.nh - 2] = t; } break;
            default: mc_fatal("step");
        }
        char st[200]; Held *q = m.nh ? &m.h[m.nh - 1] : NULL; snprintf(st, sizeof(st), "%s|%d|%d|%d|%d|%d|%lld|%d", w->n, share, m.key[0], m.sid[0], q ? q->key : -1, q ? q->sid : -1, q ? (long long)((tx_now - q->t0) / 1000000) : -1, q ? q->gone : 0); mc_state(mc_hash(st, strlen(st)));
    }
    if (!mc_failed()) { attempt(&m, 1, " (probe of the other server)", 99); if (m.nh > 1) { Held t = m.h[m.nh - 1]; m.h[m.nh - 1] = m.h[m.nh - 2]; m.h[m.nh - 2] = t; } attempt(&m, 0, " (probe)", 100); }
    mc_trace(1);
    for (int k = 0; k < m.nh; k++) { HITLS_SESS_Free(m.h[k].s); } HITLS_CFG_FreeConfig(m.cc); HITLS_CFG_FreeConfig(m.sc[0]); HITLS_CFG_FreeConfig(m.sc[1]); if (slotS) { HITLS_SESS_Free(slotS); slotS = NULL; } xc_clear();
}
static void hwalk(const World *w, char *s, int n, int d, bool share, const char *al)
{
    if (mc_failed()) { return; } if (n == d) { hist(w, s, share); return; }
    for (const char *p = al; *p; p++) { if (n && s[n - 1] == *p && strchr("KkLIiOSBXZz", *p)) { continue; } s[n] = *p; s[n + 1] = 0; hwalk(w, s, n + 1, d, share, al); s[n] = 0; }
}
static void histories(void)
{
    for (unsigned i = 0; i < MC_LEN(W) && !W[i].cb; i++) for (int share = 0; share < (W[i].ticket ? 2 : 1); share++) {
        const char *al = W[i].ticket ? "ERrTJKkLIiOSB" : "ERrTJXZzIiOSB"; int d = (mc_thorough ? 4 : W[i].ver == V12 || W[i].ver == V13 ? 3 : 2); char sp[40]; snprintf(sp, sizeof(sp), "histories %s", W[i].n); mc_space(sp);
        for (const char *p = al; *p; p++) for (const char *q = al; *q; q++) { if (!mc_case("history %s share %d depth %d first %c%c", W[i].n, share, d, *p, *q)) { continue; } char s[16] = {*p, *q, 0}; mc_case_cost(200); hwalk(&W[i], s, 2, d, share, al); }
    }
    /* exact ends of the life time */
    mc_space("life time");
    for (unsigned i = 0; i < MC_LEN(W); i++) for (int t = 0; t < 12; t++) { static const uint32_t to[] = {1, 2, 59, 7200, 86400, 604800, 604801, 700000, 5000000, 30000000, 0, 3}; if (!mc_case("life time %s %u", W[i].n, to[t])) { continue; }
        for (int dt = -1; dt <= 3; dt++) { tx_now = TX_EPOCH * 1000000; xc_clear(); Sim m = {.w = &W[i], .seq = "life", .tmo = {to[t], to[t]}}; Conn c; m.cc = mkcfg(&W[i], true, 0); m.sc[0] = mkcfg(&W[i], false, 0); HITLS_CFG_SetSessionTimeout(m.sc[0], to[t]);
            if (!connect2(&W[i], m.cc, m.sc[0], NULL, &c) || !c.up) { mc_fail("handshake"); } hold(&m, &c, 0, NULL); uint64_t life = to[t]; if (v13(&W[i]) && life > 604800) { m.h[0].tmo = life = 604800; }
            tx_now += ((int64_t)life + dt) * 1000000; attempt(&m, 0, "", dt);
            for (int k = 0; k < m.nh; k++) { HITLS_SESS_Free(m.h[k].s); } HITLS_CFG_FreeConfig(m.cc); HITLS_CFG_FreeConfig(m.sc[0]); }
    }
}
/* ---------- pairs of configurations ---------- */
typedef struct { int ver, suite, sid, ems, etm; } Side;
static void apply(const World *w, HITLS_Config *c, const Side *s)
{
    static const uint16_t L[5][2] = {{0, 0}}; (void)L; uint16_t l[6]; int n = 0; bool s13 = v13(w);
    if (s->ver) { static const uint16_t lo[4] = {0, V12, V13, V12}, hi[4] = {0, V12, V13, V13}; if (HITLS_CFG_SetVersion(c, lo[s->ver], hi[s->ver])) { mc_fatal("set version"); } }
    if (s->suite) { uint16_t a = s13 ? A13 : A12, b = s13 ? B13 : B12, d = s13 ? C13 : C12; switch (s->suite) { case 1: l[n++] = a; break; case 2: l[n++] = b; break; case 3: l[n++] = a; l[n++] = b; break; case 4: l[n++] = b; l[n++] = a; break; case 5: l[n++] = d; break; default: l[n++] = d; l[n++] = b; l[n++] = a; break; }
        if (s->ver) { if (s13) { l[n++] = A12; } else { l[n++] = A13; } } if (HITLS_CFG_SetCipherSuites(c, l, n)) { mc_fatal("suites"); } }
    if (s->sid) { static const char *const v[] = {"", "", "a", "ab", "b", "0123456789abcdef0123456789abcdef"}; if (HITLS_CFG_SetSessionIdCtx(c, (const uint8_t *)v[s->sid], strlen(v[s->sid]))) { mc_fatal("sid"); } }
    if (s->ems) { if (HITLS_CFG_SetExtendedMasterSecretMode(c, s->ems - 2)) { mc_fatal("ems"); } }   /* 1 forbid 2 prefer 3 force */
    if (s->etm) { HITLS_CFG_SetEncryptThenMac(c, s->etm == 1); }
}
static bool offers(const World *w, const Side *s, uint16_t v)
{
    bool t = v13(w); int k = v == (t ? A13 : A12) ? 1 : v == (t ? B13 : B12) ? 2 : v == (t ? C13 : C12) ? 5 : 0; static const int has[7] = {0, 1, 2, 3, 3, 4, 7};
    return k == 0 || (has[s->suite] & (k == 1 ? 1 : k == 2 ? 2 : 4)) != 0;
}
static int hashOf(uint16_t s) { return s == B13 ? 384 : 256; }
static void pairCase(const World *w, const Side *c1, const Side *s1, const Side *c2, const Side *s2, int fresh)
{
    tx_now = TX_EPOCH * 1000000; xc_clear(); mc_rand_reseed(78); int mv = c1->ver ? V12 : 0; HITLS_Config *ca = mkcfg(w, true, mv), *cb = mkcfg(w, true, mv), *sa = mkcfg(w, false, mv), *sb = fresh ? mkcfg(w, false, mv) : sa; Conn a, b;
    apply(w, ca, c1); apply(w, sa, s1);
    if (fresh) { uint8_t k[100]; uint32_t n = 0; if (HITLS_CFG_GetSessionTicketKey(sa, k, sizeof(k), &n) || HITLS_CFG_SetSessionTicketKey(sb, k, n)) { mc_fatal("key"); } }
    if (connect2(w, ca, sa, NULL, &a) && a.up && a.cs) {
        apply(w, cb, c2); apply(w, sb, s2); bool ems1 = false; HITLS_SESS_GetHaveExtMasterSecret(a.cs, &ems1);
        if (connect2(w, cb, sb, a.cs, &b) && b.up && b.reused) {
            const char *bad = NULL; bool is13 = b.ver == V13 || b.ver == VD13;
            if (a.ver != b.ver) { bad = "another protocol version"; } else if (!is13 && a.suite != b.suite) { bad = "another cipher suite"; } else if (is13 && hashOf(a.suite) != hashOf(b.suite)) { bad = "a cipher suite with another hash"; }
            else if ((s2->suite && !offers(w, s2, b.suite)) || (c2->suite && !offers(w, c2, b.suite))) { bad = "a cipher suite that is no longer configured"; }
            else if (s1->sid != s2->sid) { bad = "another session-id context"; }
            else if (!is13 && w->ver != VTLCP && ems1 && (c2->ems == 1 || s2->ems == 1)) { bad = "no extended master secret"; } else if (!is13 && w->ver != VTLCP && !ems1 && c2->ems >= 2 && s2->ems >= 2) { bad = "an extended master secret wanted by both now"; } else if (!is13 && w->ver != VTLCP && !ems1 && (c2->ems == 3 || s2->ems == 3)) { bad = "an extended master secret now required"; }
            if (bad) { mc_fail("%s: session %x/%x resumed as %x/%x although the new connection has %s", w->n, a.ver, a.suite, b.ver, b.suite, bad); }
            if (!is13 && (a.mkl != b.mkl || memcmp(a.mk, b.mk, a.mkl))) { mc_fail("resumed with another master secret"); }
            if (w->mutual && a.peer != b.peer) { mc_fail("resumed with another peer identity"); }
        }
        char oc[80]; snprintf(oc, sizeof(oc), "%s %x %x %s", w->n, a.suite, b.suite, b.up ? b.reused ? "resumed" : "full" : "failed"); mc_outcome_str(oc); if (b.cs) { HITLS_SESS_Free(b.cs); }
        char st[96]; snprintf(st, sizeof(st), "%s %d%d%d%d %d%d%d%d %d%d%d%d %d%d%d%d", w->n, c1->ver, c1->suite, c1->sid, c1->ems, s1->ver, s1->suite, s1->sid, s1->ems, c2->ver, c2->suite, c2->sid, c2->ems, s2->ver, s2->suite, s2->sid, s2->ems); mc_state(mc_hash(st, strlen(st)));
    }
    if (a.cs) { HITLS_SESS_Free(a.cs); } if (slotS) { HITLS_SESS_Free(slotS); slotS = NULL; }
    HITLS_CFG_FreeConfig(ca); HITLS_CFG_FreeConfig(cb); HITLS_CFG_FreeConfig(sa); if (fresh) { HITLS_CFG_FreeConfig(sb); } mc_trace(1);
}
static void pairs(void)
{
    for (unsigned i = 0; i < MC_LEN(W) && !W[i].cb; i++) for (int fresh = 0; fresh < (W[i].ticket ? 2 : 1); fresh++) { const World *w = &W[i]; char sp[40]; snprintf(sp, sizeof(sp), "configurations %s", w->n); mc_space(sp); bool tlcp = w->ver == VTLCP;
        int ns = mc_thorough ? 6 : 4;
        for (int a = 1; a <= ns && !tlcp; a++) for (int b = 1; b <= ns; b++) { if (!mc_case("suites %s fresh %d first client %d server %d", w->n, fresh, a, b)) { continue; } for (int c = 1; c <= ns; c++) for (int d = 1; d <= ns; d++) { pairCase(w, &(Side){.suite = a}, &(Side){.suite = b}, &(Side){.suite = c}, &(Side){.suite = d}, fresh); } }
        for (int a = 1; a <= 5; a++) for (int b = 1; b <= 5; b++) { if (!mc_case("sid %s fresh %d %d %d", w->n, fresh, a, b)) { continue; } for (int c = 1; c <= 2; c++) { pairCase(w, &(Side){.sid = 2}, &(Side){.sid = a}, &(Side){.sid = c}, &(Side){.sid = b}, fresh); } }
        if (!v13(w) && !tlcp) for (int a = 1; a <= 3; a++) for (int b = 1; b <= 3; b++) { if (!mc_case("ems %s fresh %d first client %d server %d", w->n, fresh, a, b)) { continue; } for (int c = 1; c <= 3; c++) for (int d = 1; d <= 3; d++) { pairCase(w, &(Side){.ems = a}, &(Side){.ems = b}, &(Side){.ems = c}, &(Side){.ems = d}, fresh); } }
        if (w->ver == V13) for (int a = 1; a <= 3; a++) for (int b = 1; b <= 3; b++) { if (!mc_case("versions %s fresh %d first client %d server %d", w->n, fresh, a, b)) { continue; } for (int c = 1; c <= 3; c++) for (int d = 1; d <= 3; d++) for (int e = 2; e <= 3; e++) { pairCase(w, &(Side){.ver = a, .suite = 3, .ems = e}, &(Side){.ver = b, .suite = 3, .ems = 2}, &(Side){.ver = c, .suite = 3, .ems = e}, &(Side){.ver = d, .suite = 3, .ems = 2}, fresh); } }
    }
}
/* ---------- altered tickets and session identifiers ---------- */
int32_t SESS_SetTicket(HITLS_Session *sess, uint8_t *ticket, uint32_t ticketSize); int32_t SESS_GetTicket(const HITLS_Session *sess, uint8_t **ticket, uint32_t *ticketSize);
typedef struct { uint8_t p[8192]; uint32_t n; } Tok;    /* what the client presents: ticket or session identifier */
static void tokGet(const World *w, HITLS_Session *s, Tok *t)
{
    t->n = 0; if (w->ticket) { uint8_t *p = NULL; if (SESS_GetTicket(s, &p, &t->n) || !p || t->n > sizeof(t->p) || t->n < 64) { mc_fatal("ticket of %s", w->n); } memcpy(t->p, p, t->n); } else { t->n = 32; if (HITLS_SESS_GetSessionId(s, t->p, &t->n) || t->n != 32) { mc_fatal("session id"); } }
}
static HITLS_Session *tokSet(const World *w, HITLS_Session *s, const uint8_t *p, uint32_t n)
{
    HITLS_Session *x = HITLS_SESS_Dup(s); if (!x) { mc_fatal("dup"); } if ((w->ticket ? SESS_SetTicket(x, (uint8_t *)(uintptr_t)p, n) : HITLS_SESS_SetSessionId(x, (uint8_t *)(uintptr_t)p, n))) { HITLS_SESS_Free(x); return NULL; } return x;
}
static void alter(void)
{
    for (unsigned i = 0; i < MC_LEN(W); i++) {
        const World *w = &W[i]; char sp[40]; snprintf(sp, sizeof(sp), "alterations %s", w->n); mc_space(sp); mc_mute = true;
        tx_now = TX_EPOCH * 1000000; xc_clear(); mc_rand_reseed(79); HITLS_Config *cc = mkcfg(w, true, 0), *sc = mkcfg(w, false, 0), *s2 = mkcfg(w, false, 0); Conn c, d, e, r; static Tok A, B, D, X;
        if (!connect2(w, cc, sc, NULL, &c) || !c.up || !c.cs || !connect2(w, cc, sc, NULL, &d) || !d.up || !d.cs) { mc_fatal("alter %s", w->n); } int keep = nxc; if (!connect2(w, cc, s2, NULL, &e) || !e.up || !e.cs) { mc_fatal("alter %s", w->n); } while (nxc > keep) { HITLS_SESS_Free(xc[--nxc].s); }
        tokGet(w, c.cs, &A); tokGet(w, d.cs, &B); tokGet(w, e.cs, &D); uint32_t tl = A.n; if (B.n < tl || D.n < tl) { tl = B.n < D.n ? B.n : D.n; }
        HITLS_Session *s = tokSet(w, c.cs, A.p, A.n); if (!s || !connect2(w, cc, sc, s, &r) || !r.up || !r.reused) { mc_fatal("the unaltered %s session is not resumed (%x %x)", w->n, r.rc, r.rs); } HITLS_SESS_Free(s); HITLS_SESS_Free(r.cs); mc_mute = false;
        uint32_t nb = (A.n + 15) / 16;
        for (uint32_t blk = 0; blk < nb + 3; blk++) {
            if (!mc_case("alter %s part %u", w->n, blk)) { continue; } int cnt = blk < nb ? 16 * 4 : blk == nb ? (int)A.n + 3 : (int)tl;
            for (int v = 0; v < cnt && !mc_failed(); v++) {
                X = A; char what[80];
                if (blk < nb) { uint32_t pos = blk * 16 + v / 4; if (pos >= A.n) { break; } static const uint8_t m[4] = {0x01, 0x80, 0xff, 0x10}; if (!mc_thorough && A.n > 300 && v % 4 > 1) { continue; } X.p[pos] ^= m[v % 4]; snprintf(what, sizeof(what), "byte %u xor %02x", pos, m[v % 4]); }
                else if (blk == nb) { X.n = v < (int)A.n ? (uint32_t)v : A.n + 1 + (v - A.n); if (X.n < 1 || (!w->ticket && X.n > 32)) { continue; } if (!mc_thorough && A.n > 300 && v % 3) { continue; } for (uint32_t z = A.n; z < X.n; z++) { X.p[z] = 0; } snprintf(what, sizeof(what), "length %u instead of %u", X.n, A.n); }
                else { uint32_t cut = v; if (w->ticket && cut % 8 && cut != tl - 1 && !mc_thorough) { continue; } const Tok *o = blk == nb + 1 ? &B : &D; if (w->cb && blk == nb + 2) { continue; } if (cut == 0 && blk == nb + 1) { continue; } memcpy(X.p + cut, o->p + cut, tl - cut); snprintf(what, sizeof(what), "from byte %u the other ticket (%s server)", cut, blk == nb + 1 ? "same" : "other"); }
                if (X.n == A.n && !memcmp(X.p, A.p, A.n)) { continue; } s = tokSet(w, c.cs, X.p, X.n); if (!s) { continue; }
                if (connect2(w, cc, sc, s, &r)) { if (r.up && r.reused) { mc_fail("%s: session resumed with an altered %s (%s)", w->n, w->ticket ? "ticket" : "session identifier", what); } mc_outcome_str(r.up ? r.reused ? "resumed" : "full" : "failed"); if (r.cs) { HITLS_SESS_Free(r.cs); } }
                while (nxc > keep) { HITLS_SESS_Free(xc[--nxc].s); }
                HITLS_SESS_Free(s); mc_trace(1); char st[120]; snprintf(st, sizeof(st), "%s %s", w->n, what); mc_state(mc_hash(st, strlen(st)));
            }
        }
        HITLS_SESS_Free(c.cs); HITLS_SESS_Free(d.cs); HITLS_SESS_Free(e.cs); HITLS_CFG_FreeConfig(cc); HITLS_CFG_FreeConfig(sc); HITLS_CFG_FreeConfig(s2);
    }
}
void mc_explore(void)
{
    tx_init(); histories(); pairs(); alter();
}
