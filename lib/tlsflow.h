/* Named connection set-ups ("flows") shared by the TLS checks. */
#ifndef TLSFLOW_H
#define TLSFLOW_H
#include "tlsx.h"
typedef struct { const char *name; TxOpt o; int hrr; int resume; /* 1 ticket/PSK, 2 session id */ int alpn; int etm; int noEms; int srvGroups; int mtu; int slow; int lowsec; int cliNoCert; } Flow;
extern const Flow tx_flows[]; extern const int tx_nflows;
extern const Flow tx_prots[]; extern const int tx_nprots;
const Flow *flow_by_name(const char *n);
typedef struct { TxLink l; HITLS_Config *cc, *sc; HITLS_Session *sess; const Flow *f; } FlowRun;
bool flow_open(const Flow *f, FlowRun *r);     /* both endpoints ready, nothing sent (for resume: earlier connection already done) */
void flow_close(FlowRun *r);
typedef struct { uint16_t ver, suite, group; uint16_t peerSig, localSig; bool reused; uint8_t exp[32]; bool hasExp; char alpn[16]; uint8_t fin[64], pfin[64]; uint32_t finLen, pfinLen; uint8_t cr[32], sr[32]; } Nego;
void nego_get(Ep *e, Nego *n);
const char *nego_differ(const Nego *c, const Nego *s);   /* NULL if both endpoints agree */
#endif
