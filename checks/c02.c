/* C02: every byte of every handshake record of each flow, and every record-level manipulation, by an attacker on the wire. */
#include "tlsflow.h"
typedef enum { A_NONE, A_XOR, A_SET, A_DROP, A_DUP, A_DUPLAST, A_SWAP, A_TRUNC, A_CUT, A_SUBST, A_REFLECT, A_GROW } Act;
typedef struct { Act a; int dir, idx; int pos; int val; bool applied; Buf held; bool haveHeld; Buf saved; const Buf *subst; bool recvDone; bool exempt; int ver; int lastIdx; } Atk;
static void mitm(Ep *f, Ep *t, int idx, Buf *r, void *arg)
{
    Atk *k = arg; int dir = f->client ? 0 : 1;
    if (k->a == A_NONE || dir != k->dir) { tx_deliver(t, r->p, r->n); return; }
    if (k->haveHeld) { k->exempt |= k->ver == V13 && r->p[0] == 20; tx_deliver(t, r->p, r->n); tx_deliver(t, k->held.p, k->held.n); k->haveHeld = false; return; }
    if (idx != k->idx) {
        tx_deliver(t, r->p, r->n);
        if (k->a == A_DUPLAST && k->saved.n && idx == k->lastIdx && !t->done) { tx_deliver(t, k->saved.p, k->saved.n); k->applied = true; }
        return;
    }
    if (t->done) { tx_deliver(t, r->p, r->n); return; }        /* the receiver has completed already: not part of its handshake */
    bool ccs13 = (k->ver == V13) && r->p[0] == 20;
    switch (k->a) {
        case A_XOR: if (k->pos >= (int)r->n) { break; } r->p[k->pos] ^= k->val; k->applied = true; k->exempt = !f->dgram && (k->pos == 1 || k->pos == 2); break;
        case A_SET: if (k->pos < (int)r->n && r->p[k->pos] != k->val) { r->p[k->pos] = k->val; k->applied = true; k->exempt = !f->dgram && (k->pos == 1 || k->pos == 2); } break;
        case A_DROP: k->applied = true; k->exempt = ccs13; return;
        case A_DUP: tx_deliver(t, r->p, r->n); k->applied = true; k->exempt = ccs13; break;
        case A_DUPLAST: buf_set(&k->saved, r->p, r->n); k->exempt = ccs13; break;
        case A_SWAP: buf_set(&k->held, r->p, r->n); k->haveHeld = true; k->applied = true; k->exempt = ccs13; return;
        case A_TRUNC: { size_t h = 5; if (f->dgram || r->n <= h + k->val) { break; } size_t n = r->n - h - k->val; r->p[3] = n >> 8; r->p[4] = n; r->n = h + n; k->applied = true; k->exempt = false; break; }
        case A_GROW: { if (f->dgram) { break; } buf_u8(r, k->val); size_t n = r->n - 5; r->p[3] = n >> 8; r->p[4] = n; k->applied = true; break; }
        case A_CUT: if (k->val < (int)r->n) { r->n -= k->val; k->applied = true; t->eof = !f->dgram; tx_deliver(t, r->p, r->n); k->a = A_CUT; return; } break;
        case A_SUBST: if (k->subst && (k->subst->n != r->n || memcmp(k->subst->p, r->p, r->n))) { buf_set(r, k->subst->p, k->subst->n); k->applied = true; k->exempt = ccs13; } break;
        case A_REFLECT: tx_deliver(f, r->p, r->n); k->applied = true; k->dir = 1 - dir; k->exempt = ccs13; k->idx = 1 << 30; tx_deliver(t, r->p, r->n); return;
        default: break;
    }
    tx_deliver(t, r->p, r->n);
}
static Buf g_rec[2][2][64]; static int g_n[2][2];    /* [session][dir][idx] */
static int g_ses; static bool g_before[2][64];
static void record(Ep *f, Ep *t, int idx, Buf *r, void *arg) { (void)arg; int d = f->client ? 0 : 1; if (idx < 64) { buf_set(&g_rec[g_ses][d][idx], r->p, r->n); g_n[g_ses][d] = idx + 1; if (g_ses == 0) { g_before[d][idx] = !t->done; } } tx_deliver(t, r->p, r->n); }
static void finish(FlowRun *r)
{   /* faithful network from here on: let DTLS timers run */
    if (!r->l.c->dgram) { return; }
    for (int i = 0; i < 3 && !tx_both(&r->l); i++) { tx_now += 70 * 1000000LL; if (!r->l.c->done && !r->l.c->failed) { HITLS_DtlsProcessTimeout(r->l.c->ctx); } if (!r->l.s->done && !r->l.s->failed) { HITLS_DtlsProcessTimeout(r->l.s->ctx); } tx_handshake(&r->l); }
}
static void run(const Flow *f, Atk *k)
{
    FlowRun r; mc_rand_reseed(4242); k->ver = f->o.ver;
    if (!flow_open(f, &r)) { mc_fail("the unmodified connection cannot be set up"); return; }
    r.l.mitm = mitm; r.l.arg = k; tx_handshake(&r.l); 
    if (k->applied) { finish(&r); }
    Ep *recv = k->a == A_REFLECT ? (k->dir == 1 ? r.l.c : r.l.s) : (k->dir == 0 ? r.l.s : r.l.c);
    Nego a, b; nego_get(r.l.c, &a); nego_get(r.l.s, &b);
    const char *diff = tx_both(&r.l) ? nego_differ(&a, &b) : NULL;
    if (tx_both(&r.l) && diff) { mc_fail("both endpoints completed but disagree on %s", diff); }
    if (k->applied && recv->done && k->a != A_REFLECT) {
        bool lenient = k->exempt || recv->dgram;
        if (!lenient) { mc_fail("the %s completed the handshake although a message it received was modified", recv->name); }
        else if (!tx_both(&r.l)) { mc_fail("the %s completed, its peer never did", recv->name); }
    }
    if (!k->applied && !tx_both(&r.l)) { mc_fail("unmodified handshake failed: client %x server %x", r.l.c->ret, r.l.s->ret); }
    mc_transitions(r.l.idxC + r.l.idxS); mc_trace(1);
    uint32_t o[4] = {r.l.c->ret, r.l.s->ret, r.l.c->done, r.l.s->done}; mc_outcome(o, sizeof o);
    buf_free(&k->held); buf_free(&k->saved); flow_close(&r);
}
void mc_explore(void)
{
    tx_init();
    for (int fi = 0; fi < tx_nflows; fi++) {
        const Flow *f = &tx_flows[fi]; mc_space(f->name);
        if (f->slow && !mc_thorough) { continue; }
        FlowRun r;
        for (g_ses = 0; g_ses < 2; g_ses++) {
            g_n[g_ses][0] = g_n[g_ses][1] = 0;
            mc_rand_reseed(g_ses ? 999 : 4242);
            if (flow_open(f, &r)) { r.l.mitm = record; tx_handshake(&r.l); }
            bool ok = r.l.c && tx_both(&r.l); if (mc_replaying && !ok) { printf("flow %s baseline fails\n", f->name); }
            flow_close(&r);
            if (!ok && mc_case("%s baseline", f->name)) { mc_fail("the plain handshake does not complete"); }
            if (!ok) { g_n[0][0] = g_n[0][1] = 0; }
        }
        for (int d = 0; d < 2; d++) for (int i = 0, last; i < g_n[0][d]; i++) {
            for (last = g_n[0][d] - 1; last > 0 && !g_before[d][last]; last--) { }   /* the last record the receiver needs */
            if (!g_before[d][i]) { continue; }
            int n = g_rec[0][d][i].n;
            static const int quick[] = {0x01, 0x80, 0x100, 0x1ff}, deep[] = {1, 2, 4, 8, 16, 32, 64, 128, 0x100, 0x1ff};
            const int *vals = mc_thorough ? deep : quick; int nv = mc_thorough ? 10 : 4; if (f->slow) { vals = quick; nv = 1; }
            for (int p = 0; p < n; p++) for (int v = 0; v < nv; v++) {
                if (vals[v] >= 0x100 && g_rec[0][d][i].p[p] == (vals[v] & 0xff)) { continue; }
                if (mc_case("%s %c%d byte %d %s%02x", f->name, d ? 's' : 'c', i, p, vals[v] >= 0x100 ? "=" : "^", vals[v] & 0xff)) { Atk k = {vals[v] >= 0x100 ? A_SET : A_XOR, d, i, p, vals[v] & 0xff}; run(f, &k); }
            }
            if (mc_case("%s %c%d drop", f->name, d ? 's' : 'c', i)) { Atk k = {A_DROP, d, i}; run(f, &k); }
            if (i < last && mc_case("%s %c%d dup", f->name, d ? 's' : 'c', i)) { Atk k = {A_DUP, d, i}; run(f, &k); }
            for (int j = i + 1; j < last; j++) { if (mc_case("%s %c%d again after %d", f->name, d ? 's' : 'c', i, j)) { Atk k = {A_DUPLAST, d, i, .lastIdx = j}; run(f, &k); } }
            if (i + 1 <= last && mc_case("%s %c%d swap", f->name, d ? 's' : 'c', i)) { Atk k = {A_SWAP, d, i}; run(f, &k); }
            for (int t = 1; t < n - 5; t = t < 8 ? t + 1 : t * 2) { if (mc_case("%s %c%d trunc %d", f->name, d ? 's' : 'c', i, t)) { Atk k = {A_TRUNC, d, i, 0, t}; run(f, &k); } }
            if (mc_case("%s %c%d grow", f->name, d ? 's' : 'c', i)) { Atk k = {A_GROW, d, i, 0, 0}; run(f, &k); }
            for (int t = 1; t < n; t = t < 8 ? t + 1 : t * 2) { if (mc_case("%s %c%d cut %d", f->name, d ? 's' : 'c', i, t)) { Atk k = {A_CUT, d, i, 0, t}; run(f, &k); } }
            if (mc_case("%s %c%d subst", f->name, d ? 's' : 'c', i)) { Atk k = {A_SUBST, d, i, .subst = &g_rec[1][d][i]}; run(f, &k); }
            for (int j = 0; j < g_n[0][d]; j++) { if (j != i && mc_case("%s %c%d replaced by own %d", f->name, d ? 's' : 'c', i, j)) { Atk k = {A_SUBST, d, i, .subst = &g_rec[0][d][j]}; run(f, &k); } }
            if (mc_case("%s %c%d reflect", f->name, d ? 's' : 'c', i)) { Atk k = {A_REFLECT, d, i}; run(f, &k); }
        }
    }
}
