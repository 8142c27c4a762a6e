/* In-memory TLS/DTLS/TLCP endpoints over a fully controlled transport and clock. */
#ifndef TLSX_H
#define TLSX_H
#include "pkix.h"
#include "hitls.h"
#include "hitls_error.h"
#include "hitls_config.h"
#include "hitls_cert.h"
#include "hitls_cert_init.h"
#include "hitls_crypt_init.h"
#include "hitls_session.h"
#include "hitls_psk.h"
#include "hitls_alpn.h"
#include "hitls_sni.h"
#include "hitls_cookie.h"
#include "hitls_security.h"
#include "bsl_uio.h"
#define V12 0x0303
#define V13 0x0304
#define VTLCP 0x0101
#define VD12 0xfefd
#define VD13 0xfefc
#define VDTLCP 0x10101
extern int64_t tx_now;           /* virtual clock, microseconds since 1970 */
#define TX_EPOCH 1700000000LL
#define TX_MAXDG 512

typedef struct Ep Ep;
struct Ep {
    HITLS_Ctx *ctx; BSL_UIO *uio; bool client, dgram;
    Buf in; size_t inoff;                     /* stream: bytes to be read */
    Buf dg[TX_MAXDG]; int dgHead, dgTail;     /* datagrams to be read */
    Buf out; size_t outoff;                   /* stream: bytes written */
    Buf od[TX_MAXDG]; int odHead, odTail;     /* datagrams written */
    bool eof;                                 /* report end of stream when nothing is left */
    int32_t (*onRead)(Ep *e, uint32_t *give); /* may reduce *give, 0 = would block; nonzero return = hard error */
    int32_t (*onWrite)(Ep *e, uint32_t *take);
    uint64_t nread, nwrite; void *arg; uint32_t mtu;
    int32_t ret; bool done, failed; int steps;
    Buf app;                                  /* application bytes read */
    char name[16];
};
typedef struct {
    int ver; PxKind kind;           /* certificate key kind (ignored for TLCP) */
    int clientAuth;                 /* 0 none, 1 request+require, 2 request, optional */
    const uint16_t *suites; int nsuites; const uint16_t *groups; int ngroups; const uint16_t *sigs; int nsigs;
    int ticket;                     /* 0 off, 1 on */
    int minver;                     /* 0: = ver */
    int psk;                        /* external PSK identity/key configured */
    int noCert;                     /* do not load own certificate */
    int noCA;                       /* do not load a trust anchor */
    int flight;                     /* flight transmission switch */
    int cookie;                     /* DTLS 1.2 cookie exchange */
    int caIdx, eeIdx;
} TxOpt;
void tx_init(void);
HITLS_Config *tx_cfg(const TxOpt *o, bool client);
Ep *tx_ep(HITLS_Config *cfg, bool client, bool dgram);
void tx_ep_free(Ep *e);
bool tx_is_dgram(int ver);
void tx_step(Ep *e);                       /* one HITLS_Connect/Accept call */
bool tx_retry(int32_t ret);
typedef void (*TxMitm)(Ep *from, Ep *to, int idx, Buf *rec, void *arg);   /* default: tx_deliver */
void tx_deliver(Ep *to, const void *p, size_t n);
bool tx_take(Ep *from, Buf *rec);          /* next complete record (stream) or datagram */
typedef struct { Ep *c, *s; int idxC, idxS; TxMitm mitm; void *arg; int rounds; } TxLink;
int tx_move(TxLink *l, Ep *from);          /* hand all output over, returns number of records moved */
void tx_handshake(TxLink *l);              /* run both until done/failed/stuck */
bool tx_export(Ep *e, uint8_t out[32]);
bool tx_both(TxLink *l);
int32_t tx_write(Ep *e, const void *p, uint32_t n);
int32_t tx_read(Ep *e, uint32_t max);      /* appends to e->app */
int32_t tx_drain(Ep *e);                   /* reads until not successful; returns the last code */
Buf *tx_cert_der(PxKind k, const char *which);   /* "ca", "server", "client", "ssign", "senc", "csign", "cenc", "ca2" ... */
PxKey *tx_cert_key(PxKind k, const char *which);
int tx_add_ca(HITLS_Config *c, const Buf *der);
int tx_use_cert(HITLS_Config *c, const Buf *der, PxKey *k);
int tx_add_chain(HITLS_Config *c, const Buf *der);
#endif
