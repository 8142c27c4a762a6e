/* C06: DTLS handshakes under every loss / duplication / delay / reordering pattern of one, two (three) datagrams, and early timer expiry. */
#include "tlsflow.h"
typedef enum { D_DROP, D_DUP, D_SWAP, D_LATE, D_TWICELATE, D_NKIND } Dev;
typedef struct { int dir, idx; Dev k; } Fault;
typedef struct { Fault f[3]; int n; int early; Ep *earlyEp; Buf hold[2][4]; int nh[2]; Buf late[2][8]; int nl[2]; } Net;
static void mitm(Ep *f, Ep *t, int idx, Buf *r, void *arg)
{
    Net *n = arg; int d = f->client ? 0 : 1; bool held = false;
    if (mc_replaying) { mc_note("%c%d t=%lld type %d epoch %d len %zu hs %d", "cs"[d], idx, (long long)(tx_now / 1000000 - TX_EPOCH), r->p[0], r->p[4], r->n, r->n > 13 ? r->p[13] : 0); }
    for (int i = 0; i < n->n; i++) if (n->f[i].dir == d && n->f[i].idx == idx) {
        switch (n->f[i].k) {
            case D_DROP: return;
            case D_DUP: tx_deliver(t, r->p, r->n); break;
            case D_SWAP: if (n->nh[d] < 4) { buf_set(&n->hold[d][n->nh[d]++], r->p, r->n); held = true; } break;
            case D_LATE: if (n->nl[d] < 8) { buf_set(&n->late[d][n->nl[d]++], r->p, r->n); } return;
            case D_TWICELATE: if (n->nl[d] < 8) { buf_set(&n->late[d][n->nl[d]++], r->p, r->n); } break;
            default: break;
        }
        if (held) { return; }
    }
    tx_deliver(t, r->p, r->n);
    for (int i = 0; i < n->nh[d]; i++) { tx_deliver(t, n->hold[d][i].p, n->hold[d][i].n); } n->nh[d] = 0;
}
/* moves the clock to the deadline of p's retransmission timer; false if it has none */
static bool to_deadline(Ep *p) { uint64_t us = 0; if (HITLS_DtlsGetTimeout(p->ctx, &us) != HITLS_SUCCESS) { return false; } tx_now += us + 1; return true; }
static bool g_fatal; static char g_why[100];
static void pump(FlowRun *r, Net *n, int timers)
{
    int idle = 0, fired = 0; g_fatal = false;
    for (int round = 0; round < 400 && !g_fatal; round++) {
        int moved = 0;
        for (int e = 0; e < 2; e++) {
            Ep *p = e ? r->l.s : r->l.c;
            if (!p->done) { tx_step(p); if (p->failed) { g_fatal = true; sprintf(g_why, "the %s failed with %x", p->name, p->ret); } }
            else { int32_t x = tx_drain(p); if (!tx_retry(x)) { g_fatal = true; sprintf(g_why, "the finished %s failed with %x", p->name, x); } }
            moved += tx_move(&r->l, p);
        }
        if (n->early && round + 1 == n->early) { Ep *p = n->earlyEp; if (!p->done && to_deadline(p)) { HITLS_DtlsProcessTimeout(p->ctx); moved += tx_move(&r->l, p); moved++; } }
        bool pend = r->l.c->dgHead != r->l.c->dgTail || r->l.s->dgHead != r->l.s->dgTail;
        if (moved || pend) { idle = 0; continue; }
        if (++idle < 2) { continue; }
        /* quiet: whatever the network still holds arrives, then the timers run */
        for (int d = 0; d < 2; d++) { Ep *t = d ? r->l.c : r->l.s; for (int i = 0; i < n->nh[d]; i++) { tx_deliver(t, n->hold[d][i].p, n->hold[d][i].n); moved++; } n->nh[d] = 0; }
        if (moved) { idle = 0; continue; }
        if (tx_both(&r->l) && !n->nl[0] && !n->nl[1]) { return; }
        if (!tx_both(&r->l) && fired < timers) {
            fired++; idle = 0; bool any = false;
            for (int e = 0; e < 2; e++) { Ep *p = e ? r->l.s : r->l.c; if (!p->done) { any |= to_deadline(p); } }
            if (!any) { tx_now += 1000001; }
            for (int e = 0; e < 2; e++) { Ep *p = e ? r->l.s : r->l.c; int32_t x = HITLS_DtlsProcessTimeout(p->ctx); if (mc_replaying) { mc_note("timeout %s t=%lld: %x", p->name, (long long)(tx_now / 1000000 - TX_EPOCH), x); } tx_move(&r->l, p); }
        } else if (!n->nl[0] && !n->nl[1]) { return; }
        for (int d = 0; d < 2; d++) { Ep *t = d ? r->l.c : r->l.s; for (int i = 0; i < n->nl[d]; i++) { tx_deliver(t, n->late[d][i].p, n->late[d][i].n); } n->nl[d] = 0; }
    }
}
static void data(FlowRun *r)
{
    for (int k = 0; k < 2 && !mc_failed(); k++) for (int d = 0; d < 2 && !mc_failed(); d++) {
        Ep *w = d ? r->l.s : r->l.c, *p = d ? r->l.c : r->l.s; char m[8]; sprintf(m, "msg%d%d", k, d); p->app.n = 0;
        int32_t e = tx_write(w, m, 5); if (e) { mc_fail("write after the handshake: %x", e); return; }
        tx_move(&r->l, w); for (int i = 0; i < 14; i++) { tx_drain(p); } tx_move(&r->l, p); tx_drain(w);
        if (p->app.n != 5 || memcmp(p->app.p, m, 5)) { mc_fail("data sent after the handshake did not arrive at the %s", p->name); }
    }
}
static void run(const Flow *f, Net *n, int earlyEp)
{
    FlowRun r; mc_rand_reseed(4242); if (!flow_open(f, &r)) { mc_fail("connection cannot be set up"); return; }
    if (f->mtu) { HITLS_SetMtu(r.l.c->ctx, f->mtu); HITLS_SetMtu(r.l.s->ctx, f->mtu); }
    n->earlyEp = earlyEp ? r.l.s : r.l.c; r.l.mitm = mitm; r.l.arg = n; pump(&r, n, 8);
    if (g_fatal) { mc_fail("%s", g_why); }
    else if (!tx_both(&r.l)) { mc_fail("the handshake does not complete: client %s %x, server %s %x", r.l.c->done ? "done" : "open", r.l.c->ret, r.l.s->done ? "done" : "open", r.l.s->ret); }
    else {
        Nego a, b; nego_get(r.l.c, &a); nego_get(r.l.s, &b); const char *d = nego_differ(&a, &b);
        if (d) { mc_fail("the endpoints disagree on %s", d); }
        r.l.mitm = NULL; if (!mc_failed()) { data(&r); }
    }
    mc_trace(1); mc_transitions(r.l.idxC + r.l.idxS); uint32_t o[3] = {r.l.idxC, r.l.idxS, r.l.c->steps * 1000 + r.l.s->steps}; mc_outcome(o, sizeof o);
    for (int d = 0; d < 2; d++) { for (int i = 0; i < 4; i++) { buf_free(&n->hold[d][i]); } for (int i = 0; i < 8; i++) { buf_free(&n->late[d][i]); } }
    flow_close(&r);
}
static const char *dn[] = {"drop", "dup", "swap", "late", "twice"};
void mc_explore(void)
{
    tx_init();
    static Flow fl[40]; int nf = 0; static char nm[40][40];
    for (int i = 0; i < tx_nflows; i++) { if (tx_is_dgram(tx_flows[i].o.ver)) { fl[nf++] = tx_flows[i]; } }
    int base = nf;
    for (int i = 0; i < base; i++) { fl[nf] = fl[i]; fl[nf].mtu = 300; sprintf(nm[nf], "%s-mtu300", fl[i].name); fl[nf].name = nm[nf]; nf++; }
    for (int i = 0; i < base; i++) { fl[nf] = fl[i]; fl[nf].o.flight = 1; sprintf(nm[nf], "%s-flight", fl[i].name); fl[nf].name = nm[nf]; nf++; }
    for (int fi = 0; fi < nf; fi++) {
        const Flow *f = &fl[fi]; mc_space(f->name); bool ok = false; int nd[2] = {0, 0}; 
        { FlowRun r; Net n = {0}; mc_rand_reseed(4242); if (flow_open(f, &r)) { if (f->mtu) { HITLS_SetMtu(r.l.c->ctx, f->mtu); HITLS_SetMtu(r.l.s->ctx, f->mtu); } n.earlyEp = r.l.c; r.l.mitm = mitm; r.l.arg = &n; pump(&r, &n, 0); ok = tx_both(&r.l); nd[0] = r.l.idxC; nd[1] = r.l.idxS; flow_close(&r); } }
        if (mc_case("%s plain", f->name)) { Net n = {0}; run(f, &n, 0); }
        if (!ok) { continue; }
        for (int e = 0; e < 2; e++) for (int rd = 1; rd <= 8; rd++) { if (mc_case("%s %c timer early at %d", f->name, e ? 's' : 'c', rd)) { Net n = {.early = rd}; run(f, &n, e); } }
        int T = nd[0] + nd[1];
        for (int a = 0; a < T; a++) for (int ka = 0; ka < D_NKIND; ka++) {
            Fault A = {a < nd[0] ? 0 : 1, a < nd[0] ? a : a - nd[0], ka};
            if (mc_case("%s %c%d %s", f->name, A.dir ? 's' : 'c', A.idx, dn[ka])) { Net n = {.f = {A}, .n = 1}; run(f, &n, 0); }
            for (int e = 0; e < 2; e++) for (int rd = 1; rd <= 4; rd++) { if (mc_case("%s %c%d %s, %c timer early at %d", f->name, A.dir ? 's' : 'c', A.idx, dn[ka], e ? 's' : 'c', rd)) { Net n = {.f = {A}, .n = 1, .early = rd}; run(f, &n, e); } }
            /* second fault: among the original datagrams and the first retransmissions */
            for (int b = 0; b < 2 * T; b++) for (int kb = 0; kb < D_NKIND; kb++) {
                Fault B = {b < 2 * nd[0] ? 0 : 1, b < 2 * nd[0] ? b : b - 2 * nd[0], kb};
                if (B.dir * 1000 + B.idx <= A.dir * 1000 + A.idx) { continue; }
                bool big = f->mtu || f->o.flight;
                if (!mc_thorough && (big || T > 14) && (ka > D_SWAP || kb > D_SWAP || ka == D_DUP || kb == D_DUP)) { continue; }
                if (mc_case("%s %c%d %s %c%d %s", f->name, A.dir ? 's' : 'c', A.idx, dn[ka], B.dir ? 's' : 'c', B.idx, dn[kb])) { Net n = {.f = {A, B}, .n = 2}; run(f, &n, 0); }
                if (!mc_thorough || (big && f->mtu)) { continue; }
                for (int c = b + 1; c < 2 * T; c++) {
                    Fault C = {c < 2 * nd[0] ? 0 : 1, c < 2 * nd[0] ? c : c - 2 * nd[0], ka};
                    if (ka > D_SWAP || kb > D_SWAP) { continue; }
                    if (mc_case("%s %c%d %s %c%d %s %c%d %s", f->name, A.dir ? 's' : 'c', A.idx, dn[ka], B.dir ? 's' : 'c', B.idx, dn[kb], C.dir ? 's' : 'c', C.idx, dn[C.k])) { Net n = {.f = {A, B, C}, .n = 3}; run(f, &n, 0); }
                }
            }
        }
    }
}
