/* C03: what an application reads is a prefix of what its peer wrote, under every attacker action on protected records. */
#include "tlsflow.h"
#define MAXR 8
typedef struct { FlowRun r; Ep *w, *rd; int nrec; Buf rec[MAXR]; size_t end[MAXR]; Buf sent; bool isKu[MAXR], isClose[MAXR]; } Conn;
static void conn_free(Conn *c) { for (int i = 0; i < MAXR; i++) { buf_free(&c->rec[i]); } buf_free(&c->sent); flow_close(&c->r); }
static bool conn_open(const Flow *f, int dir, uint64_t seed, Conn *c)
{
    memset(c, 0, sizeof *c); mc_rand_reseed(seed);
    if (!flow_open(f, &c->r)) { mc_fail("connection cannot be set up"); return false; }
    tx_handshake(&c->r.l);
    if (!tx_both(&c->r.l)) { mc_fail("handshake failed: client %x server %x", c->r.l.c->ret, c->r.l.s->ret); conn_free(c); return false; }
    c->w = dir ? c->r.l.s : c->r.l.c; c->rd = dir ? c->r.l.c : c->r.l.s;
    tx_move(&c->r.l, c->r.l.c); tx_move(&c->r.l, c->r.l.s);
    int32_t a = tx_drain(c->r.l.c), b = tx_drain(c->r.l.s);    /* consume session tickets and the like */
    if (!tx_retry(a) || !tx_retry(b)) { mc_fail("idle connection reports %x/%x", a, b); conn_free(c); return false; }
    return true;
}
/* history letters: a digit-coded size list; 'k' key update, 'K' key update with request, 'c' close */
static bool conn_history(Conn *c, const char *h)
{
    static const int size[10] = {1, 5, 16, 31, 32, 33, 100, 255, 16384, 3};
    for (; *h; h++) {
        int32_t e = 0; size_t n0 = c->sent.n; bool ku = false, cl = false;
        if (*h >= '0' && *h <= '9') { int n = size[*h - '0']; uint8_t *p = malloc(n); mc_fill(p, n, 77 + c->nrec); e = tx_write(c->w, p, n); buf_put(&c->sent, p, n); free(p); }
        else if (*h == 'k' || *h == 'K') { ku = true; e = HITLS_KeyUpdate(c->w->ctx, *h == 'K' ? HITLS_UPDATE_REQUESTED : HITLS_UPDATE_NOT_REQUESTED); if (!e) { e = HITLS_DoHandShake(c->w->ctx); } }
        else { cl = true; e = HITLS_Close(c->w->ctx); }
        if (e) { mc_fail("history letter %c: %x", *h, e); return false; }
        (void)n0; Buf r = {0};
        while (tx_take(c->w, &r)) { if (c->nrec == MAXR) { mc_fail("too many records"); return false; } buf_set(&c->rec[c->nrec], r.p, r.n); c->end[c->nrec] = c->sent.n; c->isKu[c->nrec] = ku; c->isClose[c->nrec] = cl; c->nrec++; }
        buf_free(&r);
    }
    return true;
}
static bool prefix_ok(Conn *c)
{
    if (c->rd->app.n > c->sent.n || memcmp(c->rd->app.p, c->sent.p, c->rd->app.n)) { mc_fail("the reader got bytes that were not sent at this place (%zu read, %zu sent)", c->rd->app.n, c->sent.n); return false; }
    return true;
}
/* expectation after a record that must be refused: exactly `want` bytes delivered, an error, and nothing afterwards */
static void expect_broken(Conn *c, size_t want, const char *what)
{
    int32_t r = tx_drain(c->rd); if (r == HITLS_REC_NORMAL_RECV_UNEXPECT_MSG) { r = tx_drain(c->rd); } if (!prefix_ok(c)) { return; }
    if (c->rd->app.n != want) { mc_fail("%s: %zu bytes delivered, expected %zu", what, c->rd->app.n, want); return; }
    if (tx_retry(r) || r == HITLS_CM_LINK_CLOSED) { mc_fail("%s: the connection did not fail (read returns %x)", what, r); return; }
    size_t n = c->rd->app.n; int32_t r2 = tx_drain(c->rd);
    if (c->rd->app.n != n || r2 == HITLS_SUCCESS) { mc_fail("%s: data returned after the failure", what); return; }
    uint32_t w = 0; if (HITLS_Write(c->rd->ctx, (const uint8_t *)"x", 1, &w) == HITLS_SUCCESS) { mc_fail("%s: the failed connection still accepts data to send", what); }
    mc_outcome(&r, sizeof r);
}
static void outcome(Conn *c, int32_t r) { uint64_t h = mc_hash2(c->rd->app.n, r); mc_outcome(&h, sizeof h); mc_trace(1); mc_transitions(c->nrec); }

static int baseline(const Flow *f, int dir, const char *hist, Buf *rec)
{
    Conn c; int n = 0; mc_mute = true;
    if (conn_open(f, dir, 5, &c)) { if (conn_history(&c, hist)) { n = c.nrec; for (int i = 0; rec && i < n; i++) { buf_set(&rec[i], c.rec[i].p, c.rec[i].n); } } conn_free(&c); }
    mc_mute = false;
    if (!n && mc_case("%s %c hist %s", f->name, dir ? 's' : 'c', hist)) { if (conn_open(f, dir, 5, &c)) { conn_history(&c, hist); conn_free(&c); } if (!mc_failed()) { mc_fail("no records sent"); } }
    return n;
}
static void sequences(const Flow *f, int dir, const char *hist, int len)
{
    /* every sequence of the captured records up to the given length */
    int n = baseline(f, dir, hist, NULL);
    for (int L = 1; L <= len; L++) {
        int tot = 1; for (int i = 0; i < L; i++) { tot *= n; }
        for (int s = 0; s < tot; s++) {
            int q[8], t = s; char d[16] = ""; for (int i = 0; i < L; i++) { q[i] = t % n; d[i] = '0' + q[i]; t /= n; }
            if (!mc_case("%s %c hist %s order %s", f->name, dir ? 's' : 'c', hist, d)) { continue; }
            Conn c; if (!conn_open(f, dir, 5, &c)) { continue; }
            if (!conn_history(&c, hist)) { conn_free(&c); continue; }
            int good = 0; while (good < L && q[good] == good) { good++; }
            bool closed = false; for (int i = 0; i < good; i++) { closed |= c.isClose[i]; }
            for (int i = 0; i < L; i++) { tx_deliver(c.rd, c.rec[q[i]].p, c.rec[q[i]].n); }
            size_t want = good ? c.end[good - 1] : 0;
            if (good < L && !closed) { expect_broken(&c, want, "out-of-order record"); }
            else {
                int32_t r = tx_drain(c.rd);
                if (prefix_ok(&c) && c.rd->app.n != want) { mc_fail("%zu bytes delivered, expected %zu (read returns %x)", c.rd->app.n, want, r); }
                else if (closed ? r != HITLS_CM_LINK_CLOSED : !tx_retry(r)) { mc_fail("read returns %x %s", r, closed ? "after close_notify" : "on a faithful prefix"); }
                outcome(&c, r);
            }
            conn_free(&c);
        }
    }
}
typedef enum { M_XOR, M_SET, M_TRUNC, M_GROW, M_TYPE, M_FOREIGN, M_REFLECT, M_PLAIN, M_EMPTY, M_EOF, M_SPLIT2, M_JOIN, M_COPYTAG } Mut;
static void one(const Flow *f, int dir, const char *hist, int ri, Mut m, int a, int b)
{
    Conn c; if (!conn_open(f, dir, 5, &c)) { return; }
    if (!conn_history(&c, hist)) { conn_free(&c); return; }
    Buf x = {0}; buf_set(&x, c.rec[ri].p, c.rec[ri].n); bool lenient = false, changed = true;
    bool t13 = f->o.ver == V13;
    switch (m) {
        case M_XOR: if (a >= (int)x.n) { changed = false; } else { x.p[a] ^= b; lenient = a < 5; } break;
        case M_SET: if (a >= (int)x.n || x.p[a] == b) { changed = false; } else { x.p[a] = b; lenient = a < 5; } break;
        case M_TRUNC: if (a >= (int)x.n - 5) { changed = false; } else { x.n -= a; x.p[3] = (x.n - 5) >> 8; x.p[4] = x.n - 5; } break;
        case M_GROW: for (int i = 0; i < a; i++) { buf_u8(&x, b ? x.p[x.n - 1] : 0); } x.p[3] = (x.n - 5) >> 8; x.p[4] = x.n - 5; break;
        case M_TYPE: if (x.p[0] == a) { changed = false; } else { x.p[0] = a; } break;
        case M_FOREIGN: { Conn o; if (conn_open(f, dir, 6, &o)) { conn_history(&o, hist); buf_set(&x, o.rec[ri].p, o.rec[ri].n); conn_free(&o); } break; }
        case M_REFLECT: break;
        case M_PLAIN: { static const uint8_t body[64] = {1, 0, 0, 4}; x.n = 0; buf_u8(&x, a); buf_u8(&x, 3); buf_u8(&x, f->o.ver == VTLCP ? 1 : 3); if (f->o.ver == VTLCP) { x.p[1] = 1; x.p[2] = 1; } buf_u8(&x, b >> 8); buf_u8(&x, b); buf_put(&x, body, b); break; }
        case M_EOF: x.n = a; lenient = true; break;
        case M_SPLIT2: { if (a >= (int)x.n - 5) { changed = false; break; } Buf y = {0}; buf_put(&y, x.p, 5); buf_put(&y, x.p + 5, a); y.p[3] = a >> 8; y.p[4] = a; size_t o = y.n; buf_put(&y, x.p, 5); buf_put(&y, x.p + 5 + a, x.n - 5 - a); y.p[o + 3] = (x.n - 5 - a) >> 8; y.p[o + 4] = x.n - 5 - a; buf_set(&x, y.p, y.n); buf_free(&y); break; }
        case M_COPYTAG: { Buf *o = &c.rec[b]; if (o->n < (size_t)a + 5 || x.n < (size_t)a + 5) { changed = false; break; } memcpy(x.p + x.n - a, o->p + o->n - a, a); break; }
        default: break;
    }
    if (!changed) { conn_free(&c); buf_free(&x); return; }
    Ep *rd = c.rd;
    for (int i = 0; i < ri; i++) { tx_deliver(rd, c.rec[i].p, c.rec[i].n); }
    size_t want = ri ? c.end[ri - 1] : 0;
    if (m == M_REFLECT) { Ep *t = c.rd; c.rd = c.w; rd = c.w; (void)t; want = 0; Buf none = {0}; buf_free(&c.sent); c.sent = none; for (int i = 0; i < a; i++) { tx_deliver(rd, c.rec[i].p, c.rec[i].n); } }
    tx_deliver(rd, x.p, x.n);
    if (m == M_EOF) {
        rd->eof = true; int32_t r = tx_drain(rd);
        if (prefix_ok(&c) && rd->app.n != want) { mc_fail("%zu bytes delivered of a cut stream, expected %zu", rd->app.n, want); }
        if (r == HITLS_SUCCESS || r == HITLS_CM_LINK_CLOSED) { mc_fail("a truncated stream looks like a proper end (%x)", r); }
        outcome(&c, r);
    } else if (lenient) {
        for (int i = ri + 1; i < c.nrec; i++) { tx_deliver(rd, c.rec[i].p, c.rec[i].n); }
        int32_t r = tx_drain(rd); prefix_ok(&c);
        bool ver = a == 1 || a == 2;
        if (!ver && rd->app.n > want) { mc_fail("data delivered from or after a record with a changed header"); }
        if (ver && !t13 && rd->app.n > want) { mc_fail("a record whose authenticated version was changed was accepted"); }
        outcome(&c, r);
    } else {
        for (int i = ri + 1; i < c.nrec; i++) { tx_deliver(rd, c.rec[i].p, c.rec[i].n); }
        if (t13 && m == M_PLAIN && a == 20) { int32_t r = tx_drain(rd); prefix_ok(&c); outcome(&c, r); }
        else { expect_broken(&c, want, "forged record"); }
        mc_trace(1); mc_transitions(c.nrec);
    }
    buf_free(&x); conn_free(&c);
}
static void mutations(const Flow *f, int dir, const char *hist)
{
    Buf rec[MAXR] = {{0}}; int n = baseline(f, dir, hist, rec);
    char D = dir ? 's' : 'c';
    static const int bq[] = {0x01, 0x80}, bt[] = {1, 2, 4, 8, 16, 32, 64, 128};
    for (int i = 0; i < n; i++) {
        int L = rec[i].n; if (L > 400 && !mc_thorough) { L = 64; }
        for (int p = 0; p < L; p++) for (int k = 0; k < (mc_thorough ? 8 : 2); k++) { int b = mc_thorough ? bt[k] : bq[k]; if (mc_case("%s %c hist %s rec %d byte %d ^%02x", f->name, D, hist, i, p, b)) { one(f, dir, hist, i, M_XOR, p, b); } }
        for (int b = 0; b < 256; b++) { if (mc_case("%s %c hist %s rec %d last=%02x", f->name, D, hist, i, b)) { one(f, dir, hist, i, M_SET, rec[i].n - 1, b); } }
        for (int t = 1; t < L - 4; t++) { if (mc_case("%s %c hist %s rec %d trunc %d", f->name, D, hist, i, t)) { one(f, dir, hist, i, M_TRUNC, t, 0); } }
        for (int t = 1; t <= 34; t++) for (int b = 0; b < 2; b++) { if (mc_case("%s %c hist %s rec %d grow %d %d", f->name, D, hist, i, t, b)) { one(f, dir, hist, i, M_GROW, t, b); } }
        for (int t = 0; t < 256; t++) { if ((t < 32 || t > 250 || mc_thorough) && mc_case("%s %c hist %s rec %d type %d", f->name, D, hist, i, t)) { one(f, dir, hist, i, M_TYPE, t, 0); } }
        for (int t = 20; t < 25; t++) for (int b = 0; b < 50; b = b < 6 ? b + 1 : b * 2) { if (mc_case("%s %c hist %s plain type %d len %d before %d", f->name, D, hist, t, b, i)) { one(f, dir, hist, i, M_PLAIN, t, b); } }
        for (int t = 1; t < L - 5; t++) { if (mc_case("%s %c hist %s rec %d split %d", f->name, D, hist, i, t)) { one(f, dir, hist, i, M_SPLIT2, t, 0); } }
        for (int t = 0; t < L; t++) { if (mc_case("%s %c hist %s rec %d cut to %d", f->name, D, hist, i, t)) { one(f, dir, hist, i, M_EOF, t, 0); } }
        for (int j = 0; j < n; j++) for (int t = 8; t <= 48; t += 8) { if (j != i && mc_case("%s %c hist %s rec %d tail %d of %d", f->name, D, hist, i, t, j)) { one(f, dir, hist, i, M_COPYTAG, t, j); } }
        if (mc_case("%s %c hist %s rec %d of another connection", f->name, D, hist, i)) { one(f, dir, hist, i, M_FOREIGN, 0, 0); }
        if (i == 0 && mc_case("%s %c hist %s reflected", f->name, D, hist)) { one(f, dir, hist, 0, M_REFLECT, 0, 0); }
        buf_free(&rec[i]);
    }
}
/* far replay: record 0 again instead of record N */
static void far(const Flow *f, int dir, int N)
{
    Conn c; if (!conn_open(f, dir, 5, &c)) { return; }
    Buf first = {0}, r = {0}; size_t want = 0;
    for (int i = 0; i <= N && !mc_failed(); i++) {
        uint8_t b[2] = {i, i >> 8}; int32_t e = tx_write(c.w, b, 2); if (e) { mc_fail("write %d: %x", i, e); break; }
        buf_put(&c.sent, b, 2);
        while (tx_take(c.w, &r)) { if (!first.n) { buf_set(&first, r.p, r.n); } if (i < N) { tx_deliver(c.rd, r.p, r.n); } else { tx_deliver(c.rd, first.p, first.n); } }
        if (i < N) { want += 2; if ((i & 63) == 63 || i == N - 1) { int32_t d = tx_drain(c.rd); if (!tx_retry(d)) { mc_fail("record %d: read %x", i, d); } if (c.rd->app.n != want) { mc_fail("after record %d: %zu bytes, expected %zu", i, c.rd->app.n, want); } } }
    }
    if (!mc_failed()) { expect_broken(&c, want, "far replay"); }
    mc_trace(1); mc_transitions(N); buf_free(&first); buf_free(&r); conn_free(&c);
}
static uint64_t pad_cb(HITLS_Ctx *ctx, int32_t type, uint64_t len, void *arg) { (void)ctx; (void)type; uint64_t room = len < 16384 ? 16384 - len : 0, p = *(int *)arg; return p < room ? p : room; }
static void lengths(const Flow *f, int dir, int n, int rdsz, int frag, int pad, int peek)
{
    Conn c; if (!conn_open(f, dir, 5, &c)) { return; }
    if (frag && HITLS_SetMaxSendFragment(c.w->ctx, frag)) { mc_fail("max send fragment %d refused", frag); }
    if (pad) { HITLS_SetRecordPaddingCb(c.w->ctx, pad_cb); HITLS_SetRecordPaddingCbArg(c.w->ctx, &pad); }
    uint8_t *p = malloc(n), *b = malloc(rdsz), *q = malloc(rdsz); mc_fill(p, n, n);
    for (int k = 0; k < 2; k++) {
        for (int off = 0; off < n;) { uint32_t w = 0; int32_t e = HITLS_Write(c.w->ctx, p + off, n - off, &w); if (e || w == 0) { mc_fail("write of %d: %x (%u)", n - off, e, w); goto out; } off += w; }
        buf_put(&c.sent, p, n);
        Buf r = {0}; while (tx_take(c.w, &r)) { if (r.n > 5 + 16384 + 2048) { mc_fail("record longer than allowed: %zu", r.n); } if (frag && r.n > (size_t)frag + 5 + 256 + (pad > 0 ? pad : 0)) { mc_fail("record exceeds the fragment limit: %zu", r.n); } tx_deliver(c.rd, r.p, r.n); mc_transitions(1); } buf_free(&r);
        for (;;) {
            uint32_t g = 0, pg = 0; int32_t e;
            if (peek) { e = HITLS_Peek(c.rd->ctx, q, rdsz, &pg); if (e && !tx_retry(e)) { mc_fail("peek %x", e); goto out; } if (e) { pg = 0; } }
            e = HITLS_Read(c.rd->ctx, b, rdsz, &g);
            if (e == HITLS_SUCCESS) {
                if (peek && (pg != g || memcmp(b, q, g))) { mc_fail("peek showed %u other bytes than the read of %u that followed", pg, g); goto out; }
                buf_put(&c.rd->app, b, g); if (g == 0) { mc_fail("empty read"); goto out; }
            } else if (tx_retry(e)) { break; } else { mc_fail("read: %x", e); goto out; }
        }
        if (prefix_ok(&c) && c.rd->app.n != c.sent.n) { mc_fail("%zu of %zu bytes arrived", c.rd->app.n, c.sent.n); }
    }
out: free(p); free(b); free(q); mc_trace(1); { uint64_t h = mc_hash2(n, rdsz); mc_outcome(&h, 8); } conn_free(&c);
}
void mc_explore(void)
{
    tx_init();
    for (int fi = 0; fi < tx_nprots; fi++) {
        const Flow *f = &tx_prots[fi]; if (tx_is_dgram(f->o.ver)) { continue; }
        mc_space(f->name); bool t13 = f->o.ver == V13;
        for (int dir = 0; dir < 2; dir++) {
            sequences(f, dir, "105", mc_thorough ? 5 : 4); sequences(f, dir, "1c", 3); sequences(f, dir, "16c", 3);
            if (t13) { sequences(f, dir, "1k0", 4); sequences(f, dir, "1K00", mc_thorough ? 5 : 4); if (mc_thorough) { sequences(f, dir, "1kk0", 4); } }
            mutations(f, dir, t13 ? "1k3" : "13"); if (mc_thorough) { mutations(f, dir, "0524"); mutations(f, dir, "8"); } mutations(f, dir, "c");
            static const int far_q[] = {255, 256, 257}; for (int i = 0; i < 3; i++) { if (mc_case("%s %c far replay %d", f->name, dir ? 's' : 'c', far_q[i])) { far(f, dir, far_q[i]); } }
            bool big = mc_thorough || (!dir && (!strcmp(f->name, "t12-ecdsa-a128gcm") || !strcmp(f->name, "t13-a128gcm") || !strcmp(f->name, "tlcp-ecc-cbc")));
            if (big && mc_case("%s %c far replay 65536", f->name, dir ? 's' : 'c')) { mc_case_cost(60); far(f, dir, 65536); }
            static const int szs[] = {1, 2, 15, 16, 17, 255, 256, 511, 512, 513, 1023, 4096, 16383, 16384, 16385, 20000, 32768, 32769, 50000}, rds[] = {1, 7, 16, 300, 16384, 20000};
            for (int n = 1; n <= (mc_thorough ? 400 : 70); n++) { if (mc_case("%s %c len %d", f->name, dir ? 's' : 'c', n)) { lengths(f, dir, n, 20000, 0, 0, 0); } }
            for (size_t i = 0; i < MC_LEN(szs); i++) for (size_t j = 0; j < MC_LEN(rds); j++) for (int fr = 0; fr < 2; fr++) for (int pk = 0; pk < 2; pk++) {
                if (rds[j] == 1 && szs[i] > 5000) { continue; }
                if (!mc_thorough && dir && (fr || pk)) { continue; }
                if (mc_case("%s %c len %d read %d frag %d peek %d", f->name, dir ? 's' : 'c', szs[i], rds[j], fr * 600, pk)) { lengths(f, dir, szs[i], rds[j], fr * 600, 0, pk); }
                if (t13 && !fr && !pk) { static const int pads[] = {1, 15, 255, 1000}; for (int q = 0; q < 4; q++) { if (mc_case("%s %c len %d read %d pad %d", f->name, dir ? 's' : 'c', szs[i], rds[j], pads[q])) { lengths(f, dir, szs[i], rds[j], 0, pads[q], 0); } } }
            }
        }
    }
}
