#include "tlsx.h"
#include <time.h>
int64_t tx_now = TX_EPOCH * 1000000;
static BslUnixTime t_utc(void) { return tx_now / 1000000; }
static uint32_t t_bsl(BSL_TIME *t)
{
    time_t s = tx_now / 1000000; struct tm m; gmtime_r(&s, &m); memset(t, 0, sizeof *t);
    t->year = m.tm_year + 1900; t->month = m.tm_mon + 1; t->day = m.tm_mday; t->hour = m.tm_hour; t->minute = m.tm_min; t->second = m.tm_sec;
    t->millSec = (tx_now / 1000) % 1000; t->microSec = tx_now % 1000; return BSL_SUCCESS;
}
void tx_init(void)
{
    hx_init();
    BSL_SAL_CallBack_Ctrl(BSL_SAL_TIME_GET_UTC_TIME_CB_FUNC, t_utc);
    BSL_SAL_CallBack_Ctrl(BSL_SAL_TIME_GET_BSL_TIME_CB_FUNC, t_bsl);
    HITLS_CertMethodInit(); HITLS_CryptMethodInit();
}
bool tx_is_dgram(int v) { return v == VD12 || v == VD13 || v == VDTLCP; }
static int32_t u_write(BSL_UIO *u, const void *buf, uint32_t len, uint32_t *w)
{
    Ep *e = BSL_UIO_GetUserData(u); *w = 0; uint32_t take = len; e->nwrite++;
    BSL_UIO_ClearFlags(u, BSL_UIO_FLAGS_RWS | BSL_UIO_FLAGS_SHOULD_RETRY);
    if (e->onWrite) { int32_t r = e->onWrite(e, &take); if (r) { return r; } }
    if (take > len) { take = len; }
    if (take == 0 && len != 0) { BSL_UIO_SetFlags(u, BSL_UIO_FLAGS_WRITE | BSL_UIO_FLAGS_SHOULD_RETRY); return BSL_SUCCESS; }
    if (e->dgram) { if (e->odTail - e->odHead >= TX_MAXDG) { mc_fatal("too many datagrams"); } buf_set(&e->od[e->odTail++ % TX_MAXDG], buf, len); *w = len; return BSL_SUCCESS; }
    buf_put(&e->out, buf, take); *w = take; return BSL_SUCCESS;
}
static int32_t u_read(BSL_UIO *u, void *buf, uint32_t len, uint32_t *rd)
{
    Ep *e = BSL_UIO_GetUserData(u); *rd = 0; e->nread++;
    BSL_UIO_ClearFlags(u, BSL_UIO_FLAGS_RWS | BSL_UIO_FLAGS_SHOULD_RETRY);
    uint32_t have;
    if (e->dgram) { have = e->dgHead == e->dgTail ? 0 : e->dg[e->dgHead % TX_MAXDG].n; } else { have = e->in.n - e->inoff; }
    uint32_t give = have < len ? have : len;
    if (e->onRead) { int32_t r = e->onRead(e, &give); if (r) { return r; } }
    if (give > have) { give = have; }
    if (give > len) { give = len; }
    if (give == 0) {
        if (have == 0 && e->eof) { return BSL_UIO_IO_EOF; }
        BSL_UIO_SetFlags(u, BSL_UIO_FLAGS_READ | BSL_UIO_FLAGS_SHOULD_RETRY); return BSL_SUCCESS;
    }
    if (e->dgram) { memcpy(buf, e->dg[e->dgHead % TX_MAXDG].p, give); e->dgHead++; }
    else { memcpy(buf, e->in.p + e->inoff, give); e->inoff += give; }
    *rd = give; return BSL_SUCCESS;
}
static int32_t u_ctrl(BSL_UIO *u, int32_t cmd, int32_t larg, void *p)
{
    Ep *e = BSL_UIO_GetUserData(u);
    switch (cmd) {
        case BSL_UIO_GET_FD: *(int32_t *)p = 666; break;
        case BSL_UIO_UDP_GET_MTU_OVERHEAD: *(uint8_t *)p = 28; break;
        case BSL_UIO_UDP_QUERY_MTU: *(uint32_t *)p = e && e->mtu ? e->mtu : 1500; break;
        case BSL_UIO_UDP_MTU_EXCEEDED: *(bool *)p = false; break;
        case BSL_UIO_SCTP_SND_BUFF_IS_EMPTY: *(uint8_t *)p = true; break;
        case BSL_UIO_GET_PEER_IP_ADDR: if (p && larg > 0) { memset(p, e && e->client ? 2 : 1, larg); } break;
        default: break;
    }
    return BSL_SUCCESS;
}
Ep *tx_ep(HITLS_Config *cfg, bool client, bool dgram)
{
    Ep *e = calloc(1, sizeof *e); e->client = client; e->dgram = dgram; strcpy(e->name, client ? "client" : "server");
    e->ctx = HITLS_New(cfg); if (!e->ctx) { free(e); return NULL; }
    BSL_UIO_Method *m = BSL_UIO_NewMethod();
    if (!m) { HITLS_Free(e->ctx); free(e); return NULL; }
    BSL_UIO_SetMethodType(m, dgram ? BSL_UIO_UDP : BSL_UIO_TCP); BSL_UIO_SetMethod(m, BSL_UIO_WRITE_CB, u_write); BSL_UIO_SetMethod(m, BSL_UIO_READ_CB, u_read); BSL_UIO_SetMethod(m, BSL_UIO_CTRL_CB, u_ctrl);
    e->uio = BSL_UIO_New(m); BSL_UIO_FreeMethod(m);
    if (!e->uio) { HITLS_Free(e->ctx); free(e); return NULL; }
    BSL_UIO_SetUserData(e->uio, e); BSL_UIO_SetInit(e->uio, true);
    int32_t r = HITLS_SetUio(e->ctx, e->uio); if (r) { BSL_UIO_Free(e->uio); HITLS_Free(e->ctx); free(e); return NULL; }
    BSL_UIO_Free(e->uio);
    HITLS_SetEndPoint(e->ctx, client);
    return e;
}
void tx_ep_free(Ep *e)
{
    if (!e) { return; }
    HITLS_Free(e->ctx);
    buf_free(&e->in); buf_free(&e->out); buf_free(&e->app);
    for (int i = 0; i < TX_MAXDG; i++) { buf_free(&e->dg[i]); buf_free(&e->od[i]); }
    free(e);
}
bool tx_retry(int32_t r) { return r == HITLS_REC_NORMAL_RECV_BUF_EMPTY || r == HITLS_REC_NORMAL_IO_BUSY || r == HITLS_REC_NORMAL_RECV_UNEXPECT_MSG || r == HITLS_REC_NORMAL_RECV_DISORDER_MSG; }
void tx_step(Ep *e)
{
    if (e->done || e->failed) { return; }
    e->steps++;
    e->ret = e->client ? HITLS_Connect(e->ctx) : HITLS_Accept(e->ctx);
    if (e->ret == HITLS_SUCCESS) { e->done = true; } else if (!tx_retry(e->ret)) { e->failed = true; }
}
void tx_deliver(Ep *to, const void *p, size_t n)
{
    if (to->dgram) { if (n == 0) { return; } if (to->dgTail - to->dgHead >= TX_MAXDG) { mc_fatal("too many datagrams"); } buf_set(&to->dg[to->dgTail++ % TX_MAXDG], p, n); return; }
    if (to->inoff == to->in.n) { to->inoff = to->in.n = 0; }
    buf_put(&to->in, p, n);
}
bool tx_take(Ep *f, Buf *rec)
{
    if (f->dgram) { if (f->odHead == f->odTail) { return false; } Buf *b = &f->od[f->odHead++ % TX_MAXDG]; buf_set(rec, b->p, b->n); return true; }
    size_t n = f->out.n - f->outoff; uint8_t *p = f->out.p + f->outoff;
    if (n < 5) { return false; }
    size_t l = 5 + (p[3] << 8 | p[4]); if (n < l) { return false; }
    buf_set(rec, p, l); f->outoff += l;
    if (f->outoff == f->out.n) { f->outoff = f->out.n = 0; }
    return true;
}
int tx_move(TxLink *l, Ep *from)
{
    Ep *to = from == l->c ? l->s : l->c; Buf r = {0}; int k = 0;
    while (tx_take(from, &r)) {
        int idx = from == l->c ? l->idxC++ : l->idxS++; k++;
        if (l->mitm) { l->mitm(from, to, idx, &r, l->arg); } else { tx_deliver(to, r.p, r.n); }
    }
    buf_free(&r); return k;
}
bool tx_both(TxLink *l) { return l->c->done && l->s->done; }
void tx_handshake(TxLink *l)
{
    int idle = 0;
    for (l->rounds = 0; l->rounds < 200 && idle < 3; l->rounds++) {
        int moved = 0;
        tx_step(l->c); moved += tx_move(l, l->c);
        tx_step(l->s); moved += tx_move(l, l->s);
        if (tx_both(l)) { return; }
        if (l->c->failed && l->s->failed) { return; }
        idle = moved ? 0 : idle + 1;
    }
}
bool tx_export(Ep *e, uint8_t out[32])
{
    memset(out, 0, 32);
    return HITLS_ExportKeyingMaterial(e->ctx, out, 32, "EXPERIMENTAL mc", 15, (const uint8_t *)"ctx", 3, 1) == HITLS_SUCCESS;
}
int32_t tx_write(Ep *e, const void *p, uint32_t n) { uint32_t w = 0; int32_t r = HITLS_Write(e->ctx, p, n, &w); return r ? r : (w == n ? 0 : -(int32_t)w - 1); }
int32_t tx_read(Ep *e, uint32_t max)
{
    static uint8_t b[20000]; uint32_t n = 0; if (max > sizeof b) { max = sizeof b; }
    int32_t r = HITLS_Read(e->ctx, b, max, &n);
    if (r == HITLS_SUCCESS) { buf_put(&e->app, b, n); }
    return r;
}
int32_t tx_drain(Ep *e) { int32_t r; int k = 0; while ((r = tx_read(e, 20000)) == HITLS_SUCCESS && k++ < 1000) {} return r; }

/* ---- credentials ---- */
typedef struct { PxKind k; char which[16]; Buf der; PxKey *key; } Cred;
static Cred g_cred[64]; static int g_ncred;
static Cred *cred(PxKind k, const char *which)
{
    for (int i = 0; i < g_ncred; i++) { if (g_cred[i].k == k && !strcmp(g_cred[i].which, which)) { return &g_cred[i]; } }
    uint64_t save = mc_rand_state(); mc_rand_reseed(0x63657274 + k);
    Cred *c = &g_cred[g_ncred++]; c->k = k; strcpy(c->which, which);
    static char names[64][40]; char *ca = names[g_ncred % 32], *su = names[32 + g_ncred % 32];
    bool second = which[strlen(which) - 1] == '2';
    sprintf(ca, "%s root%s", px_kindname(k), second ? "2" : ""); sprintf(su, "%s %s", px_kindname(k), which);
    PxKey *cak = px_key(k, second ? 8 : 0);
    PxCert x = {.serial = 100 + g_ncred, .issuer = ca, .subject = su, .from = TX_EPOCH - 86400 * 100, .to = TX_EPOCH + 86400 * 1000, .signer = cak, .bcons = 0, .pathlen = -1, .ski = 1, .aki = 1};
    if (!strncmp(which, "ca", 2)) { x.subject = ca; x.pub = cak; x.bcons = 1; x.ku = 0x06; }
    else if (!strcmp(which, "server") || !strcmp(which, "server2")) { x.pub = px_key(k, 1); x.ku = 0x80 | 0x20 | 0x08; x.dns[0] = "server.example"; }
    else if (!strcmp(which, "client") || !strcmp(which, "client2")) { x.pub = px_key(k, 2); x.ku = 0x80; }
    else if (!strcmp(which, "ssign")) { x.pub = px_key(k, 3); x.ku = 0x80; }
    else if (!strcmp(which, "senc")) { x.pub = px_key(k, 4); x.ku = 0x20 | 0x10 | 0x08; }
    else if (!strcmp(which, "csign")) { x.pub = px_key(k, 5); x.ku = 0x80; }
    else if (!strcmp(which, "cenc")) { x.pub = px_key(k, 6); x.ku = 0x20 | 0x10 | 0x08; }
    else { mc_fatal("cred %s", which); }
    c->key = x.pub; px_cert(&x, &c->der); mc_rand_reseed(save);
    return c;
}
Buf *tx_cert_der(PxKind k, const char *w) { return &cred(k, w)->der; }
PxKey *tx_cert_key(PxKind k, const char *w) { return cred(k, w)->key; }
int tx_add_ca(HITLS_Config *c, const Buf *der)
{
    HITLS_CERT_X509 *x = HITLS_CFG_ParseCert(c, der->p, der->n, TLS_PARSE_TYPE_BUFF, TLS_PARSE_FORMAT_ASN1); if (!x) { return -1; }
    int32_t r = HITLS_CFG_AddCertToStore(c, x, TLS_CERT_STORE_TYPE_DEFAULT, false); if (r) { HITLS_CFG_FreeCert(c, x); } return r;
}
int tx_add_chain(HITLS_Config *c, const Buf *der)
{
    HITLS_CERT_X509 *x = HITLS_CFG_ParseCert(c, der->p, der->n, TLS_PARSE_TYPE_BUFF, TLS_PARSE_FORMAT_ASN1); if (!x) { return -1; }
    int32_t r = HITLS_CFG_AddChainCert(c, x, false); if (r) { HITLS_CFG_FreeCert(c, x); } return r;
}
int tx_use_cert(HITLS_Config *c, const Buf *der, PxKey *k)
{
    HITLS_CERT_X509 *x = HITLS_CFG_ParseCert(c, der->p, der->n, TLS_PARSE_TYPE_BUFF, TLS_PARSE_FORMAT_ASN1); if (!x) { return -1; }
    int32_t r = HITLS_CFG_SetCertificate(c, x, false); if (r) { HITLS_CFG_FreeCert(c, x); return r; }
    return HITLS_CFG_SetPrivateKey(c, k->k, true);
}
static int use_tlcp(HITLS_Config *c, const char *sw, const char *ew)
{
    const char *w[2] = {sw, ew};
    for (int i = 0; i < 2; i++) {
        Buf *d = tx_cert_der(PK_SM2, w[i]);
        HITLS_CERT_X509 *x = HITLS_CFG_ParseCert(c, d->p, d->n, TLS_PARSE_TYPE_BUFF, TLS_PARSE_FORMAT_ASN1); if (!x) { return -1; }
        int32_t r = HITLS_CFG_SetTlcpCertificate(c, x, false, i == 1); if (r) { HITLS_CFG_FreeCert(c, x); return r; }
        r = HITLS_CFG_SetTlcpPrivateKey(c, tx_cert_key(PK_SM2, w[i])->k, true, i == 1); if (r) { return r; }
    }
    return 0;
}
static const uint8_t g_psk[32] = {7, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31};
static uint32_t psk_c(HITLS_Ctx *ctx, const uint8_t *hint, uint8_t *id, uint32_t maxId, uint8_t *psk, uint32_t maxPsk) { (void)ctx; (void)hint; if (maxId < 8 || maxPsk < 32) { return 0; } strcpy((char *)id, "mc-psk"); memcpy(psk, g_psk, 32); return 32; }
static uint32_t psk_s(HITLS_Ctx *ctx, const uint8_t *id, uint8_t *psk, uint32_t maxPsk) { (void)ctx; if (strcmp((const char *)id, "mc-psk") || maxPsk < 32) { return 0; } memcpy(psk, g_psk, 32); return 32; }
static int32_t ck_gen(HITLS_Ctx *ctx, uint8_t *c, uint32_t *n) { (void)ctx; memcpy(c, "mc-cookie-0123456789", 20); *n = 20; return HITLS_COOKIE_GENERATE_SUCCESS; }
static int32_t ck_ver(HITLS_Ctx *ctx, const uint8_t *c, uint32_t n) { (void)ctx; return n == 20 && !memcmp(c, "mc-cookie-0123456789", 20) ? HITLS_COOKIE_VERIFY_SUCCESS : HITLS_COOKIE_VERIFY_ERROR; }
#define R(x) do { int32_t r_ = (x); if (r_ != HITLS_SUCCESS) { if (mc_replaying) { fprintf(stderr, "tx_cfg: %s: %x\n", #x, r_); } HITLS_CFG_FreeConfig(c); return NULL; } } while (0)
HITLS_Config *tx_cfg(const TxOpt *o, bool client)
{
    HITLS_Config *c = NULL;
    switch (o->ver) {
        case V12: c = HITLS_CFG_NewTLS12Config(); break;
        case V13: c = o->minver ? HITLS_CFG_NewTLSConfig() : HITLS_CFG_NewTLS13Config(); break;
        case VTLCP: c = HITLS_CFG_NewTLCPConfig(); break;
        case VD12: c = HITLS_CFG_NewDTLS12Config(); break;
        case VD13: c = o->minver ? HITLS_CFG_NewDTLSConfig() : HITLS_CFG_NewDTLS13Config(); break;
        case VDTLCP: c = HITLS_CFG_NewDTLCPConfig(); break;
        default: mc_fatal("version %x", o->ver);
    }
    if (!c) { return NULL; }
    if (o->minver) { R(HITLS_CFG_SetVersion(c, o->minver, o->ver)); }
    if (o->nsuites) { R(HITLS_CFG_SetCipherSuites(c, o->suites, o->nsuites)); }
    if (o->ngroups) { R(HITLS_CFG_SetGroups(c, o->groups, o->ngroups)); }
    if (o->nsigs) { R(HITLS_CFG_SetSignature(c, o->sigs, o->nsigs)); }
    bool tlcp = o->ver == VTLCP || o->ver == VDTLCP;
    PxKind k = tlcp ? PK_SM2 : o->kind;
    if (!o->noCA) { R(tx_add_ca(c, tx_cert_der(k, "ca"))); }
    if (!o->noCert && (!client || o->clientAuth || tlcp)) {
        if (tlcp) { R(use_tlcp(c, client ? "csign" : "ssign", client ? "cenc" : "senc")); }
        else { R(tx_use_cert(c, tx_cert_der(k, client ? "client" : "server"), tx_cert_key(k, client ? "client" : "server"))); }
    }
    if (!client && o->clientAuth) { R(HITLS_CFG_SetClientVerifySupport(c, true)); R(HITLS_CFG_SetNoClientCertSupport(c, o->clientAuth == 2)); }
    R(HITLS_CFG_SetSessionTicketSupport(c, o->ticket != 0));
    R(HITLS_CFG_SetFlightTransmitSwitch(c, o->flight));
    if (o->psk) { if (client) { R(HITLS_CFG_SetPskClientCallback(c, psk_c)); } else { R(HITLS_CFG_SetPskServerCallback(c, psk_s)); } }
    if (o->cookie) { R(HITLS_CFG_SetDtlsCookieExchangeSupport(c, true)); R(HITLS_CFG_SetCookieGenCb(c, ck_gen)); R(HITLS_CFG_SetCookieVerifyCb(c, ck_ver)); }
    else if (o->ver == VD12 || o->ver == VDTLCP) { R(HITLS_CFG_SetDtlsCookieExchangeSupport(c, false)); }
    return c;
}
