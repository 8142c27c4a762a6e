/* C05: every placement of short reads, short writes and would-block answers in complete connections. */
#include "tlsflow.h"
typedef struct { int kind; /* 0 none 1 uniform chunk 2 at one call 3 at two calls 4 periodic */ int ep, rw, at, k, ep2, rw2, at2; } Pol;
static Pol g_p; static int g_cnt[2][2];
static int32_t policy(Ep *e, int rw, uint32_t *n)
{
    int ep = e->client ? 0 : 1, c = g_cnt[ep][rw]++;
    uint32_t full = *n;
    switch (g_p.kind) {
        case 1: if ((g_p.ep == 2 || g_p.ep == ep) && (g_p.rw == 2 || g_p.rw == rw) && !e->dgram && *n > (uint32_t)g_p.k) { *n = g_p.k; } break;
        case 3: if (ep == g_p.ep2 && rw == g_p.rw2 && c == g_p.at2) { *n = g_p.k && !e->dgram ? (uint32_t)g_p.k : 0; } /* fallthrough */
        case 2: if (ep == g_p.ep && rw == g_p.rw && c == g_p.at) { *n = g_p.k == -1 ? (full ? full - 1 : 0) : (uint32_t)g_p.k; if (e->dgram) { *n = 0; } } break;
        case 4: if ((g_p.ep == 2 || g_p.ep == ep) && (g_p.rw == 2 || g_p.rw == rw) && c % g_p.k == g_p.at) { *n = 0; } break;
        case 5: if (c % 2 == 0) { *n = 0; } else if (!e->dgram && *n > (uint32_t)g_p.k) { *n = g_p.k; } break;
        default: break;
    }
    if (*n > full) { *n = full; }
    return 0;
}
static int32_t onr(Ep *e, uint32_t *n) { return policy(e, 0, n); }
static int32_t onw(Ep *e, uint32_t *n) { return policy(e, 1, n); }
/* per-endpoint programme */
typedef struct { char op; int arg; } Op;
static const Op prog_c[] = {{'h', 0}, {'w', 10}, {'w', 700}, {'k', 0}, {'w', 3}, {'r', 900}, {'w', 18000}, {'r', 905}, {'c', 0}, {'e', 0}, {0, 0}};
static const Op prog_s[] = {{'h', 0}, {'r', 713}, {'w', 400}, {'w', 500}, {'r', 18713}, {'w', 5}, {'e', 0}, {'c', 0}, {0, 0}};
static const Op prog_cd[] = {{'h', 0}, {'w', 10}, {'w', 700}, {'k', 0}, {'w', 3}, {'r', 900}, {'w', 1000}, {'r', 905}, {'c', 0}, {'e', 0}, {0, 0}};
static const Op prog_sd[] = {{'h', 0}, {'r', 713}, {'w', 400}, {'w', 500}, {'r', 1713}, {'w', 5}, {'e', 0}, {'c', 0}, {0, 0}};
typedef struct { Ep *e; const Op *p; int pc; uint32_t off; Buf sent; bool ku; uint8_t *d; Nego nego; } Run;
static bool step(Run *r, bool v13)      /* one application call; true if something was achieved */
{
    const Op *o = &r->p[r->pc]; Ep *e = r->e; int32_t ret = 0; uint32_t n = 0; static uint8_t b[20000];
    switch (o->op) {
        case 0: return false;
        case 'h': tx_step(e); ret = e->ret; if (e->done) { nego_get(e, &r->nego); r->pc++; return true; } break;
        case 'w': {
            if (!r->d) { r->d = malloc(o->arg); mc_fill(r->d, o->arg, r->pc * 1000 + e->client); } uint8_t *d = r->d;   /* a retry passes the same buffer */ ret = HITLS_Write(e->ctx, d + r->off, o->arg - r->off, &n);
            if (ret == HITLS_SUCCESS) { buf_put(&r->sent, d + r->off, n); r->off += n; if (r->off == (uint32_t)o->arg) { r->pc++; r->off = 0; free(r->d); r->d = NULL; } if (n == 0) { mc_fail("%s: write succeeded with nothing written", e->name); } }
            if (ret == HITLS_SUCCESS) { return true; } break;
        }
        case 'r': ret = HITLS_Read(e->ctx, b, sizeof b, &n); if (ret == HITLS_SUCCESS) { buf_put(&e->app, b, n); if (e->app.n >= (size_t)o->arg) { r->pc++; } return true; } break;
        case 'k': if (!v13 || e->dgram) { r->pc++; return true; } if (!r->ku) { ret = HITLS_KeyUpdate(e->ctx, HITLS_UPDATE_REQUESTED); if (ret) { break; } r->ku = true; } r->pc++; return true;
        case 'c': ret = HITLS_Close(e->ctx); if (ret == HITLS_SUCCESS) { r->pc++; return true; } break;
        case 'e': if (e->dgram) { r->pc++; return true; } ret = HITLS_Read(e->ctx, b, sizeof b, &n); if (ret == HITLS_SUCCESS) { buf_put(&e->app, b, n); return true; } if (ret == HITLS_CM_LINK_CLOSED) { r->pc++; return true; } break;
    }
    if (!tx_retry(ret)) { mc_fail("%s: step %d (%c) returns %x where the transport only delayed", e->name, r->pc, o->op, ret); }
    return false;
}
static bool go(const Flow *f, int dt, Nego *nc)
{
    FlowRun fr; mc_rand_reseed(4242); memset(g_cnt, 0, sizeof g_cnt); Pol keep = g_p; g_p.kind = 0;
    if (!flow_open(f, &fr)) { mc_fail("connection cannot be set up"); return false; }
    g_p = keep; memset(g_cnt, 0, sizeof g_cnt);
    fr.l.c->onRead = fr.l.s->onRead = onr; fr.l.c->onWrite = fr.l.s->onWrite = onw;
    bool dg = fr.l.c->dgram; Run c = {fr.l.c, dg ? prog_cd : prog_c}, s = {fr.l.s, dg ? prog_sd : prog_s}; int idle = 0; uint64_t rounds = 0; bool v13 = f->o.ver == V13; bool got = false;
    while ((c.p[c.pc].op || s.p[s.pc].op) && !mc_failed() && idle < 60 && rounds < 400000) {
        bool a = step(&c, v13); int m = tx_move(&fr.l, fr.l.c); bool b = mc_failed() ? false : step(&s, v13); m += tx_move(&fr.l, fr.l.s);
        static int64_t lastn; int64_t n = fr.l.c->inoff + fr.l.s->inoff + fr.l.c->out.n + fr.l.s->out.n + fr.l.c->dgHead + fr.l.s->dgHead;
        idle = a || b || m || n != lastn ? 0 : idle + 1; lastn = n; rounds++;
        if (!got && tx_both(&fr.l)) { *nc = c.nego; got = true; const char *d = nego_differ(&c.nego, &s.nego); if (d) { mc_fail("endpoints disagree on %s", d); } }
    }
    if (!mc_failed()) {
        if (c.p[c.pc].op || s.p[s.pc].op) { mc_fail("the connection stalls: client at step %d (%x), server at step %d (%x)", c.pc, fr.l.c->ret, s.pc, fr.l.s->ret); }
        else if (s.sent.n != fr.l.c->app.n || memcmp(s.sent.p, fr.l.c->app.p, s.sent.n)) { mc_fail("the client read other bytes than the server wrote (%zu/%zu)", fr.l.c->app.n, s.sent.n); }
        else if (c.sent.n != fr.l.s->app.n || memcmp(c.sent.p, fr.l.s->app.p, c.sent.n)) { mc_fail("the server read other bytes than the client wrote (%zu/%zu)", fr.l.s->app.n, c.sent.n); }
    }
    (void)dt; mc_trace(1); mc_transitions(g_cnt[0][0] + g_cnt[0][1] + g_cnt[1][0] + g_cnt[1][1]); uint64_t h = mc_hash2(rounds, g_cnt[0][0] * 1000003 + g_cnt[1][0]); mc_outcome(&h, 8);
    free(c.d); free(s.d); buf_free(&c.sent); buf_free(&s.sent); flow_close(&fr); return !mc_failed();
}
static Nego g_base;
static void run(const Flow *f)
{
    Nego n; if (!go(f, 0, &n)) { return; }
    if (n.ver != g_base.ver || n.suite != g_base.suite || n.group != g_base.group || n.reused != g_base.reused || strcmp(n.alpn, g_base.alpn)) { mc_fail("other parameters were negotiated than over an unbroken transport"); }
}
void mc_explore(void)
{
    tx_init();
    static const char RW[] = "rw*", EP[] = "cs*";
    static Flow flight[8]; int nfl = 0; const char *fl[] = {"t12-cbc-auth", "t13-auth", "d12-cookie-auth", "t13-resume", "tlcp-ecdhe-auth"};
    for (int i = 0; i < 5; i++) { flight[nfl] = *flow_by_name(fl[i]); static char nm[8][40]; sprintf(nm[nfl], "%s-flight", fl[i]); flight[nfl].name = nm[nfl]; flight[nfl].o.flight = 1; nfl++; }
    for (int fi = 0; fi < tx_nflows + nfl; fi++) {
        const Flow *f = fi < tx_nflows ? &tx_flows[fi] : &flight[fi - tx_nflows]; mc_space(f->name); if (f->slow) { continue; }
        g_p = (Pol){0}; mc_mute = true; bool ok = go(f, 0, &g_base); int cnt[2][2]; memcpy(cnt, g_cnt, sizeof cnt); mc_mute = false;
        if (mc_case("%s plain", f->name)) { g_p = (Pol){0}; run(f); }
        if (!ok) { continue; }
        bool dg = tx_is_dgram(f->o.ver);
        for (int ep = 0; ep < 3; ep++) for (int rw = 0; rw < 3; rw++) {
            if (!dg) { for (int k = 1; k <= (mc_thorough ? 600 : 24); k++) { if (mc_case("%s %c%c chunks of %d", f->name, EP[ep], RW[rw], k)) { g_p = (Pol){1, ep, rw, 0, k}; run(f); } } }
            for (int per = 2; per <= 5; per++) for (int ph = 0; ph < per; ph++) { if (mc_case("%s %c%c blocks %d of %d", f->name, EP[ep], RW[rw], ph, per)) { g_p = (Pol){4, ep, rw, ph, per}; run(f); } }
        }
        for (int k = 1; k < 40; k++) { if (mc_case("%s block and chunk %d", f->name, k)) { g_p = (Pol){5, 0, 0, 0, k}; run(f); } }
        static const int ks[] = {0, 1, 4, 5, 6, 13, -1};
        for (int ep = 0; ep < 2; ep++) for (int rw = 0; rw < 2; rw++) for (int at = 0; at < cnt[ep][rw]; at++) for (int k = 0; k < (dg ? 1 : 7); k++) {
            if (mc_case("%s %c%c call %d gives %d", f->name, EP[ep], RW[rw], at, ks[k])) { g_p = (Pol){2, ep, rw, at, ks[k]}; run(f); }
        }
        for (int e1 = 0; e1 < 2; e1++) for (int r1 = 0; r1 < 2; r1++) for (int a1 = 0; a1 < cnt[e1][r1]; a1++) for (int e2 = 0; e2 < 2; e2++) for (int r2 = 0; r2 < 2; r2++) for (int a2 = 0; a2 < cnt[e2][r2]; a2++) {
            if ((e2 * 2 + r2) * 10000 + a2 <= (e1 * 2 + r1) * 10000 + a1) { continue; }
            if (!mc_thorough && !(r1 == 1 && r2 == 1)) { continue; }
            for (int k = 0; k < (mc_thorough ? 2 : 1); k++) { if (mc_case("%s %c%c call %d and %c%c call %d give %d", f->name, EP[e1], RW[r1], a1, EP[e2], RW[r2], a2, k)) { g_p = (Pol){3, e1, r1, a1, k, e2, r2, a2}; run(f); } }
        }
    }
}
