/* C04: every delivery sequence of DTLS datagrams over index sets around the replay-window edges, with corrupted and forged copies. */
#include "tlsflow.h"
#define NMAX 400
#define WIN 64
typedef struct { FlowRun r; Ep *w, *rd; Buf dg[NMAX]; int n; } Conn;
static void conn_free(Conn *c) { for (int i = 0; i < c->n; i++) { buf_free(&c->dg[i]); } flow_close(&c->r); }
static bool conn_open(const Flow *f, int dir, uint64_t seed, int n, Conn *c)
{
    memset(c, 0, sizeof *c); mc_rand_reseed(seed);
    if (!flow_open(f, &c->r)) { mc_fail("connection cannot be set up"); return false; }
    tx_handshake(&c->r.l);
    if (!tx_both(&c->r.l)) { mc_fail("handshake failed: client %x server %x", c->r.l.c->ret, c->r.l.s->ret); conn_free(c); return false; }
    c->w = dir ? c->r.l.s : c->r.l.c; c->rd = dir ? c->r.l.c : c->r.l.s;
    for (int k = 0; k < 3; k++) { tx_move(&c->r.l, c->r.l.c); tx_move(&c->r.l, c->r.l.s); tx_drain(c->r.l.c); tx_drain(c->r.l.s); }
    for (int i = 0; i < n; i++) {
        uint8_t p[8] = {'m', i >> 8, i, 1, 2, 3, 4, 5}; int32_t e = tx_write(c->w, p, 8); if (e) { mc_fail("write %d: %x", i, e); conn_free(c); return false; }
        Buf d = {0}; if (!tx_take(c->w, &d)) { mc_fail("write %d sent nothing", i); conn_free(c); return false; }
        c->dg[i] = d; c->n = i + 1; Buf extra = {0}; if (tx_take(c->w, &extra)) { mc_fail("one write, several datagrams"); buf_free(&extra); conn_free(c); return false; }
    }
    return true;
}
/* reads everything that is there; the indices delivered, in order */
static int collect(Conn *c, int *out, int max)
{
    int n = 0, idle = 0; uint8_t b[64];
    for (int k = 0; k < 2000; k++) {
        uint32_t g = 0; int32_t e = HITLS_Read(c->rd->ctx, b, sizeof b, &g);
        if (e == HITLS_SUCCESS) { idle = 0; if (g != 8 || b[0] != 'm' || b[3] != 1 || b[7] != 5) { mc_fail("payload that was never sent (%u bytes)", g); return -1; } if (n < max) { out[n++] = b[1] << 8 | b[2]; } }
        else if (tx_retry(e)) { if (c->rd->dgHead == c->rd->dgTail && ++idle >= 2) { return n; } }
        else { mc_fail("the connection broke: read returns %x", e); return -1; }
    }
    mc_fail("reading does not end"); return -1;
}
static void alive(Conn *c)
{   /* later authentic datagrams still pass in both directions */
    for (int d = 0; d < 2 && !mc_failed(); d++) {
        Ep *w = d ? c->rd : c->w, *r = d ? c->w : c->rd; Buf x = {0}; int32_t e = tx_write(w, "alive", 5); if (e) { mc_fail("connection unusable afterwards: write %x", e); return; }
        while (tx_take(w, &x)) { tx_deliver(r, x.p, x.n); } buf_free(&x);
        r->app.n = 0; for (int k = 0; k < 4; k++) { tx_drain(r); } if (r->app.n != 5 || memcmp(r->app.p, "alive", 5)) { mc_fail("an authentic datagram sent afterwards was not delivered"); }
    }
}
static void expect(Conn *c, const int *got, int n, const int *want, int m)
{
    if (n < 0) { return; }
    bool same = n == m; for (int i = 0; same && i < n; i++) { same = got[i] == want[i]; }
    if (!same) { char a[200] = "", b[200] = ""; int p = 0; for (int i = 0; i < n && p < 180; i++) { p += sprintf(a + p, "%d ", got[i]); } p = 0; for (int i = 0; i < m && p < 180; i++) { p += sprintf(b + p, "%d ", want[i]); } mc_fail("delivered [%s] but expected [%s]", a, b); return; }
    uint64_t h = mc_hash(got, n * sizeof(int)); mc_outcome(&h, 8); (void)c;
}
typedef struct { bool seen[NMAX]; int max; int want[64], n; } Oracle;
static void o_recv(Oracle *o, int i) { if (o->max - i >= WIN || o->seen[i]) { return; } o->seen[i] = true; if (i > o->max) { o->max = i; } o->want[o->n++] = i; }
/* letters: idx into set; +nset: corrupted copy (last byte), +2*nset: corrupted first payload byte */
static void seq(const Flow *f, int dir, const int *set, int nset, const int *q, int L, bool batch)
{
    int top = 0; for (int i = 0; i < nset; i++) { if (set[i] > top) { top = set[i]; } }
    Conn c; if (!conn_open(f, dir, 5, top + 1, &c)) { return; }
    Oracle o = {.max = -1}; int got[64], n = 0;
    for (int i = 0; i < L; i++) {
        int k = q[i] % nset, kind = q[i] / nset, id = set[k]; Buf x = {0}; buf_set(&x, c.dg[id].p, c.dg[id].n);
        if (kind == 1) { x.p[x.n - 1] ^= 1; } else if (kind == 2) { x.p[x.n - 20] ^= 0x40; }
        tx_deliver(c.rd, x.p, x.n); buf_free(&x);
        if (kind == 0) { o_recv(&o, id); }
        if (!batch || i == L - 1) { int m = collect(&c, got + n, 64 - n); if (m < 0) { break; } n += m; }
    }
    if (!mc_failed()) { expect(&c, got, n, o.want, o.n); } if (!mc_failed()) { alive(&c); }
    mc_trace(1); mc_transitions(L); conn_free(&c);
}
static void all_seqs(const Flow *f, int dir, const char *sname, const int *set, int nset, int kinds, int L)
{
    int tot = 1, A = nset * kinds; for (int i = 0; i < L; i++) { tot *= A; }
    for (int s = 0; s < tot; s++) {
        int q[8], t = s; char d[64] = ""; int p = 0; for (int i = 0; i < L; i++) { q[i] = t % A; t /= A; p += sprintf(d + p, "%s%d%s", i ? "," : "", set[q[i] % nset], q[i] < nset ? "" : q[i] < 2 * nset ? "x" : "y"); }
        if (mc_case("%s %c %s %s", f->name, dir ? 's' : 'c', sname, d)) { seq(f, dir, set, nset, q, L, s & 1); }
    }
}
/* a forged/corrupted datagram at one point of a history; then everything else still arrives */
typedef enum { F_XOR, F_TRUNC, F_GROW, F_JUNK, F_FOREIGN, F_REFLECT, F_PLAIN, F_SEQ, F_EPOCH, F_JOIN } Forge;
static void forge(const Flow *f, int dir, Forge k, int a, int b)
{
    Conn c; if (!conn_open(f, dir, 5, 4, &c)) { return; }
    Oracle o = {.max = -1}; int got[64], n = 0, m; bool d13 = f->o.ver == VD13;
    Buf x = {0}; buf_set(&x, c.dg[1].p, c.dg[1].n);
    if (k == F_XOR) { if (a >= (int)x.n) { goto out; } x.p[a] ^= b; }
    else if (k == F_TRUNC) { if (a >= (int)x.n) { goto out; } x.n -= a; if (b && x.n >= 13 && !d13) { x.p[11] = (x.n - 13) >> 8; x.p[12] = x.n - 13; } }
    else if (k == F_GROW) { for (int i = 0; i < a; i++) { buf_u8(&x, i * 7); } if (b && !d13) { x.p[11] = (x.n - 13) >> 8; x.p[12] = x.n - 13; } }
    else if (k == F_JUNK) { x.n = 0; for (int i = 0; i < a; i++) { buf_u8(&x, b + i * 37); } }
    else if (k == F_FOREIGN) { Conn p; if (!conn_open(f, dir, 6, 4, &p)) { goto out; } buf_set(&x, p.dg[a].p, p.dg[a].n); conn_free(&p); }
    else if (k == F_PLAIN) { static const uint8_t body[64] = "m\0\1\1\2\3\4\5"; x.n = 0; buf_u8(&x, a); if (f->o.ver == VDTLCP) { buf_u8(&x, 1); buf_u8(&x, 1); } else { buf_u8(&x, 0xfe); buf_u8(&x, 0xfd); } for (int i = 0; i < 8; i++) { buf_u8(&x, i == 1 ? b >> 8 : i == 7 ? 9 : 0); } buf_u8(&x, 0); buf_u8(&x, b & 0xff); buf_put(&x, body, b & 0xff); }
    else if (k == F_SEQ) { if (d13) { goto out; } for (int i = 0; i < 6; i++) { x.p[5 + i] = 0; } x.p[5 + a] = b; }
    else if (k == F_EPOCH) { if (d13) { goto out; } x.p[3] = a; x.p[4] = b; if (a == c.dg[1].p[3] && b == c.dg[1].p[4]) { goto out; } }
    bool joinOk = false;
    tx_deliver(c.rd, c.dg[0].p, c.dg[0].n); o_recv(&o, 0);
    if (k == F_REFLECT) { tx_deliver(c.w, x.p, x.n); Ep *t = c.rd; c.rd = c.w; int dummy[8]; int r = collect(&c, dummy, 8); c.rd = t; if (r > 0) { mc_fail("a reflected datagram was delivered"); } }
    else if (k == F_JOIN) { Buf y = {0}; buf_set(&y, c.dg[a].p, c.dg[a].n); buf_put(&y, c.dg[b].p, c.dg[b].n); tx_deliver(c.rd, y.p, y.n); buf_free(&y); joinOk = true; }
    else { tx_deliver(c.rd, x.p, x.n); }
    m = collect(&c, got, 64); if (m < 0) { goto out; } n = m;
    bool ignoreTail = (k == F_GROW && !b);     /* trailing bytes after a complete record: the record itself is authentic */
    if (ignoreTail && n == 2 && got[1] == 1) { o_recv(&o, 1); }
    if (joinOk) { for (int i = 1; i < n; i++) { if (got[i] == a || got[i] == b) { o_recv(&o, got[i]); } } }
    for (int i = 1; i < 4; i++) { tx_deliver(c.rd, c.dg[i].p, c.dg[i].n); o_recv(&o, i); }
    m = collect(&c, got + n, 64 - n); if (m < 0) { goto out; } n += m;
    expect(&c, got, n, o.want, o.n); if (!mc_failed()) { alive(&c); }
out: mc_trace(1); mc_transitions(5); buf_free(&x); conn_free(&c);
}
void mc_explore(void)
{
    tx_init();
    static const int setA[] = {0, 1, 2, 62, 63, 64, 65, 66}, setB[] = {0, 1, 127, 128, 129, 190, 191, 192, 193}, setC[] = {0, 191, 192, 193, 255, 256, 257, 320}, setD[] = {0, 1, 64}, setE[] = {0, 1, 2, 3, 4};
    const char *deepNames[] = {"d12-ecdsa-a128gcm", "d13-a128gcm", "dtlcp-ecc-cbc", "d12-ecdsa-a128cbc-sha-etm"};
    for (int fi = 0; fi < tx_nprots; fi++) {
        const Flow *f = &tx_prots[fi]; if (!tx_is_dgram(f->o.ver)) { continue; }
        mc_space(f->name); bool deep = false; for (int i = 0; i < 4; i++) { deep |= !strcmp(f->name, deepNames[i]); }
        for (int dir = 0; dir < 2; dir++) {
            char D = dir ? 's' : 'c';
            if (deep) { for (int L = 1; L <= (mc_thorough ? 4 : 3); L++) { all_seqs(f, dir, "A", setA, 8, 1, L); all_seqs(f, dir, "B", setB, 9, 1, L); all_seqs(f, dir, "C", setC, 8, 1, L); } }
            else { for (int L = 1; L <= (mc_thorough ? 3 : 2); L++) { all_seqs(f, dir, "A", setA, 8, 1, L); } }
            all_seqs(f, dir, "D", setD, 3, 3, deep ? 4 - !mc_thorough : 2);
            if (deep) { all_seqs(f, dir, "E", setE, 5, 1, mc_thorough ? 5 : 4); }
            for (int p = 0; p < 80; p++) for (int b = 1; b < 256; b <<= (mc_thorough || deep ? 1 : 7)) { if (mc_case("%s %c byte %d ^%02x", f->name, D, p, b)) { forge(f, dir, F_XOR, p, b); } }
            for (int t = 1; t < 80; t++) for (int b = 0; b < 2; b++) { if (mc_case("%s %c trunc %d fix %d", f->name, D, t, b)) { forge(f, dir, F_TRUNC, t, b); } }
            for (int t = 1; t < 36; t++) for (int b = 0; b < 2; b++) { if (mc_case("%s %c grow %d fix %d", f->name, D, t, b)) { forge(f, dir, F_GROW, t, b); } }
            for (int t = 1; t < 30; t++) for (int b = 0; b < 256; b += (mc_thorough || (deep && t < 16)) ? 1 : 17) { if (mc_case("%s %c junk %d first %02x", f->name, D, t, b)) { forge(f, dir, F_JUNK, t, b); } }
            for (int t = 0; t < 4; t++) { if (mc_case("%s %c foreign %d", f->name, D, t)) { forge(f, dir, F_FOREIGN, t, 0); } }
            if (mc_case("%s %c reflect", f->name, D)) { forge(f, dir, F_REFLECT, 0, 0); }
            for (int t = 20; t < 26; t++) for (int e = 0; e < 5; e++) for (int l = 0; l < 20; l += l < 4 ? 1 : 5) { if (mc_case("%s %c plain type %d epoch %d len %d", f->name, D, t, e, l)) { forge(f, dir, F_PLAIN, t, e << 8 | l); } }
            for (int p = 0; p < 6; p++) for (int b = 1; b < 256; b = b * 2 + 1) { if (mc_case("%s %c seq byte %d = %d", f->name, D, p, b)) { forge(f, dir, F_SEQ, p, b); } }
            for (int a = 0; a < 3; a++) for (int b = 0; b < 4; b++) { if (mc_case("%s %c epoch %d", f->name, D, a << 8 | b)) { forge(f, dir, F_EPOCH, a, b); } }
            for (int a = 0; a < 4; a++) for (int b = 0; b < 4; b++) { if (mc_case("%s %c join %d %d", f->name, D, a, b)) { forge(f, dir, F_JOIN, a, b); } }
        }
    }
}
