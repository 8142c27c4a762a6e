/* C14, TLS part: malformed handshake messages, records and sessions.  One endpoint sends, through the real record layer and
 * with its transcript following, a message altered in every enumerated way (each length-prefixed element emptied, cut, grown,
 * duplicated, removed, moved or retyped with all enclosing lengths corrected; lengths that lie; every byte with fixed values;
 * every truncation); the other endpoint runs under AddressSanitizer and must end without a leak. */
#include "tlsflow.h"
#include "tls.h"
#include "hs_ctx.h"
#include "transcript_hash.h"
#include "rec.h"
#include "hs_msg.h"
int32_t __real_REC_Write(TLS_Ctx *ctx, REC_Type t, const uint8_t *d, uint32_t n);
int32_t __real_VERIFY_Append(VerifyCtx *c, const uint8_t *d, uint32_t n);
int32_t __real_VERIFY_AppendDtlsRaw(VerifyCtx *c, const uint8_t *d, uint32_t n, VERIFY_TranscriptStyle s);
static TLS_Ctx *g_pup; static bool g_active, g_dgram, g_expect, g_rec; static int g_n, g_at; static Buf repl, pend; static int replType; static bool g_sent;
static struct { int type; Buf b; } msgs[32]; static int nmsgs;
static int hdr(void) { return g_dgram ? 12 : 4; }
static void fixlen(Buf *m) { if ((int)m->n < hdr()) { return; } uint32_t l = m->n - hdr(); m->p[1] = l >> 16; m->p[2] = l >> 8; m->p[3] = l; if (g_dgram) { m->p[6] = m->p[7] = m->p[8] = 0; m->p[9] = l >> 16; m->p[10] = l >> 8; m->p[11] = l; } }
int32_t __wrap_REC_Write(TLS_Ctx *ctx, REC_Type type, const uint8_t *data, uint32_t len)
{
    if (ctx != g_pup || !g_active || type == 21) { return __real_REC_Write(ctx, type, data, len); }
    int i = g_n++;
    if (g_rec && nmsgs < 32) { msgs[nmsgs].type = type; buf_set(&msgs[nmsgs].b, data, len); nmsgs++; }
    if (i != g_at) { return __real_REC_Write(ctx, type, data, len); }
    g_sent = true; if (replType < 0) { replType = type; }
    if (type == 22) { buf_set(&pend, repl.p, repl.n); g_expect = true; }
    if (repl.n > 16000) { return __real_REC_Write(ctx, type, data, len); }
    return __real_REC_Write(ctx, replType, repl.p, repl.n);
}
/* while a message is parsed, the rest of the receive buffer is out of bounds */
int32_t __real_HS_ParseMsg(TLS_Ctx *ctx, const HS_MsgInfo *info, HS_Msg *msg) __attribute__((weak));
void __asan_poison_memory_region(void const volatile *p, size_t n); void __asan_unpoison_memory_region(void const volatile *p, size_t n);
int32_t __wrap_HS_ParseMsg(TLS_Ctx *ctx, const HS_MsgInfo *info, HS_Msg *msg)
{
    const uint8_t *b = info ? info->rawMsg : NULL; size_t bs = b && b == ctx->hsCtx->msgBuf ? hx_block_size(b) : 0, n = b ? info->headerAndBodyLen : 0;
    if (bs > n) { __asan_poison_memory_region(b + n, bs - n); }
    int32_t r = __real_HS_ParseMsg(ctx, info, msg);
    if (bs > n) { __asan_unpoison_memory_region(b + n, bs - n); }
    return r;
}
static bool pup_ctx(VerifyCtx *c) { return g_active && g_pup && g_pup->hsCtx && g_pup->hsCtx->verifyCtx == c && g_expect; }
int32_t __wrap_VERIFY_Append(VerifyCtx *c, const uint8_t *d, uint32_t n) { if (pup_ctx(c)) { g_expect = false; return __real_VERIFY_Append(c, pend.p, pend.n); } return __real_VERIFY_Append(c, d, n); }
int32_t __wrap_VERIFY_AppendDtlsRaw(VerifyCtx *c, const uint8_t *d, uint32_t n, VERIFY_TranscriptStyle s) { if (pup_ctx(c)) { g_expect = false; return __real_VERIFY_AppendDtlsRaw(c, pend.p, pend.n, s); } return __real_VERIFY_AppendDtlsRaw(c, d, n, s); }
static uint64_t nrun;
static bool run(const Flow *f, bool ps)
{
    mc_rand_reseed(77); FlowRun r; g_active = false; int64_t before = hx_live;
    if (!flow_open(f, &r)) { mc_fail("set-up"); return false; }
    Ep *p = ps ? r.l.s : r.l.c, *v = ps ? r.l.c : r.l.s; g_pup = p->ctx; g_dgram = tx_is_dgram(f->o.ver); g_expect = false; g_n = 0; g_sent = false; g_active = true; pend.n = 0;
    tx_handshake(&r.l);
    bool ok = v->done && p->done;
    if (ok) { tx_write(p, "hello", 5); tx_move(&r.l, p); tx_drain(v); tx_write(v, "hi", 2); tx_move(&r.l, v); tx_drain(p); HITLS_Close(p->ctx); tx_move(&r.l, p); tx_drain(v); }
    int32_t vr = v->ret; g_active = false; g_pup = NULL; flow_close(&r); BSL_ERR_ClearError(); nrun++; mc_transitions(1);
    if (hx_live != before) { mc_fail("%ld blocks leaked after message %d was replaced by %s", (long)(hx_live - before), g_at, mc_hex(repl.p, repl.n)); }
    mc_outcome(&vr, sizeof vr);
    return ok;
}
/* ---- length-prefixed elements */
typedef struct { int off, w, len; int el; } Vec;       /* length field at off, w bytes, len content; el: start of the whole element */
static Vec vec[400]; static int nvec; static const uint8_t *P;
static uint32_t rd(int off, int w) { uint32_t v = 0; for (int i = 0; i < w; i++) { v = v << 8 | P[off + i]; } return v; }
static int take(int *o, int end, int w, int el) { if (*o + w > end) { return -1; } int l = rd(*o, w); if (*o + w + l > end || nvec >= 400) { return -1; } vec[nvec++] = (Vec){*o, w, l, el}; *o += w + l; return nvec - 1; }
static void guess(int lo, int hi, int depth)
{   /* whole content is one vector, or a list of (skip, vector, tail) items */
    if (hi - lo < 2 || depth > 3) { return; }
    for (int w = 3; w >= 1; w--) { if (hi - lo >= w && (int)rd(lo, w) == hi - lo - w && hi - lo > w) { int o = lo; take(&o, hi, w, lo); guess(lo + w, hi, depth + 1); return; } }
    for (int w = 2; w >= 1; w--) { for (int s = 0; s <= 2; s++) { for (int t = 0; t <= 4; t += 4) {
        int o = lo, k = 0; bool good = true; while (o < hi) { if (o + s + w > hi) { good = false; break; } int l = rd(o + s, w); if (!l || o + s + w + l + t > hi) { good = false; break; } o += s + w + l + t; k++; }
        if (good && o == hi && k <= 40) { o = lo; while (o < hi) { int q = o + s, el = o; if (take(&q, hi, w, el) < 0) { return; } guess(el + s + w, q, depth + 1); o = q + t; } return; }
    } } }
}
static void exts(int *o, int end) { int v = take(o, end, 2, *o); if (v < 0) { return; } int a = vec[v].off + 2, e = a + vec[v].len; while (a + 4 <= e) { int q = a + 2; int x = take(&q, e, 2, a); if (x < 0) { return; } guess(vec[x].off + 2, vec[x].off + 2 + vec[x].len, 0); a = q; } }
static void vectors(int type, const Buf *m, int ver)
{
    nvec = 0; P = m->p; int o = hdr(), end = m->n; bool t13 = ver == V13 || ver == VD13, dg = g_dgram; if (type != 22 || end < o) { return; }
    switch (m->p[0]) {
        case 1: o += 34; take(&o, end, 1, o); if (dg && (ver == VD12 || ver == VDTLCP || ver == VD13)) { take(&o, end, 1, o); } take(&o, end, 2, o); take(&o, end, 1, o); if (o < end) { exts(&o, end); } break;
        case 2: o += 34; take(&o, end, 1, o); o += 3; if (o < end) { exts(&o, end); } break;
        case 3: o += 2; take(&o, end, 1, o); break;
        case 4: o += 4; if (t13) { o += 4; take(&o, end, 1, o); } take(&o, end, 2, o); if (t13) { exts(&o, end); } break;
        case 8: exts(&o, end); break;
        case 11: { if (t13) { take(&o, end, 1, o); } int v = take(&o, end, 3, o); if (v < 0) { break; } int a = vec[v].off + 3, e = a + vec[v].len; while (a < e) { if (take(&a, e, 3, a) < 0) { break; } if (t13) { exts(&a, e); } } break; }
        case 12: if (P[o] == 3 && ver != VTLCP && ver != VDTLCP) { o += 3; take(&o, end, 1, o); o += 2; take(&o, end, 2, o); } else { while (o < end && take(&o, end, 2, o) >= 0) { } } break;
        case 13: if (t13) { take(&o, end, 1, o); exts(&o, end); } else { take(&o, end, 1, o); if (ver == V12 || ver == VD12) { take(&o, end, 2, o); } int v = take(&o, end, 2, o); if (v >= 0) { guess(vec[v].off + 2, vec[v].off + 2 + vec[v].len, 0); } } break;
        case 15: if (t13 || ver == V12 || ver == VD12) { o += 2; } take(&o, end, 2, o); break;
        case 16: if (take(&o, end, 1, o) < 0 || o != end) { nvec = 0; o = hdr(); take(&o, end, 2, o); } break;
        default: break;
    }
}
static void put(Buf *b, int off, int w, long v) { for (int i = 0; i < w; i++) { b->p[off + i] = v >> 8 * (w - 1 - i); } }
/* replace bytes [a,b) by q, correcting every enclosing vector */
static bool splice(const Buf *m, int a, int b, const uint8_t *q, int qn, int skipVec, Buf *out)
{
    long d = qn - (b - a); out->n = 0; buf_put(out, m->p, a); buf_put(out, q, qn); buf_put(out, m->p + b, m->n - b);
    for (int i = 0; i < nvec; i++) {
        Vec *v = &vec[i]; int lo = v->off + v->w, hi = lo + v->len;
        if (i == skipVec || v->off >= a && v->off < b) { continue; }
        if (lo <= a && b <= hi && v->off < a) { long l = v->len + d; if (l < 0 || l >= 1L << 8 * v->w) { return false; } put(out, v->off, v->w, l); }
    }
    fixlen(out); return true;
}
static const char *MN[] = {"empty", "dropfirst", "droplast", "addbyte", "double", "ff", "grow", "len+1", "len-1", "len0", "lenmax", "remove", "dupelem", "tolast", "one", "half"};
static bool vmut(const Buf *m, int i, int k, Buf *out)
{
    Vec v = vec[i]; int lo = v.off + v.w, hi = lo + v.len; static uint8_t tmp[70000]; const uint8_t *c = m->p + lo;
    switch (k) {
        case 0: return v.len && splice(m, lo, hi, NULL, 0, -1, out);
        case 1: return v.len && splice(m, lo, lo + 1, NULL, 0, -1, out);
        case 2: return v.len && splice(m, hi - 1, hi, NULL, 0, -1, out);
        case 3: return splice(m, hi, hi, (const uint8_t *)"", 1, -1, out);
        case 4: return v.len && splice(m, hi, hi, c, v.len, -1, out);
        case 5: memset(tmp, 0xff, v.len); return v.len && splice(m, lo, hi, tmp, v.len, -1, out);
        case 6: { int g = v.w == 1 ? 255 : 2000; if (v.len >= g) { return false; } for (int z = 0; z < g; z++) { tmp[z] = v.len ? c[z % v.len] : z; } return splice(m, lo, hi, tmp, g, -1, out); }
        case 7: case 8: case 9: case 10: { long l = k == 7 ? v.len + 1 : k == 8 ? v.len - 1 : k == 9 ? 0 : (1L << 8 * v.w) - 1; if (l < 0 || l == v.len) { return false; } buf_set(out, m->p, m->n); put(out, v.off, v.w, l); return true; }
        case 11: return v.el < v.off && splice(m, v.el, hi, NULL, 0, -1, out);
        case 12: memcpy(tmp, m->p + v.el, hi - v.el); return splice(m, hi, hi, tmp, hi - v.el, -1, out);
        case 13: { for (int j = 0; j < i; j++) { Vec e = vec[j]; int eh = e.off + e.w + e.len; if (e.off + e.w <= v.el && hi < eh) { buf_set(out, m->p, m->n); memcpy(tmp, m->p + v.el, hi - v.el); memmove(out->p + v.el, out->p + hi, eh - hi); memcpy(out->p + eh - (hi - v.el), tmp, hi - v.el); return true; } } return false; }
        case 14: return v.len > 1 && splice(m, lo, hi, c, 1, -1, out);
        case 15: return v.len > 3 && splice(m, lo, hi, c, v.len / 2, -1, out);
    }
    return false;
}
static void flow(const Flow *f, bool ps, int step, bool deep)
{
    mc_mute = true; g_rec = true; nmsgs = 0; g_at = -1; replType = -1; bool ok = run(f, ps); g_rec = false; mc_mute = false; if (!ok) { mc_fatal("baseline of %s fails", f->name); }
    static Buf m[32]; static int ty[32]; int n = nmsgs; for (int i = 0; i < n; i++) { buf_set(&m[i], msgs[i].b.p, msgs[i].b.n); ty[i] = msgs[i].type; }
    for (int i = 0; i < n; i++) {
        Buf *b = &m[i]; int t = ty[i], h = t == 22 ? hdr() : 0; char nm[80]; snprintf(nm, sizeof nm, "%s %s#%d(%d.%d)", f->name, ps ? "s" : "c", i, t, t == 22 ? b->p[0] : -1);
        vectors(t, b, f->o.ver); int nv = nvec; static Vec keep[400]; memcpy(keep, vec, sizeof vec);
#define RUN() do { g_at = i; replType = -1; run(f, ps); if (!g_sent) { mc_fail("message not sent"); } } while (0)
        for (int v = 0; v < nv; v++) {
            if (!mc_case("%s elem %d @%d/%d", nm, v, keep[v].off, keep[v].w)) { continue; }
            mc_case_cost(60); nvec = nv; memcpy(vec, keep, sizeof vec); P = b->p;
            for (int k = 0; k < (int)MC_LEN(MN) && !mc_failed(); k++) { if (vmut(b, v, k, &repl)) { RUN(); nvec = nv; memcpy(vec, keep, sizeof vec); P = b->p; } }
            if (keep[v].off - keep[v].el == 2 && !mc_failed()) {   /* give the element every other type */
                for (int x = 0; x < 70 && !mc_failed(); x++) { int ty2 = x < 60 ? x : x == 60 ? 0xff01 : x == 61 ? 13172 : x == 62 ? 0x0a0a : x == 63 ? 0xffff : 0x100 + x; if (!deep && x > 55 && x != 60) { continue; } buf_set(&repl, b->p, b->n); put(&repl, keep[v].el, 2, ty2); RUN(); }
            }
        }
        for (int a = h; a < (int)b->n; a += 16 * step) {
            if (!mc_case("%s bytes %d", nm, a)) { continue; }
            mc_case_cost(60); static const uint8_t V[] = {0, 0xff, 1, 0x7f, 0x80}; nvec = 0;
            for (int k = a; k < a + 16 * step && k < (int)b->n && !mc_failed(); k += step) {
                for (int z = 0; z < (deep ? 7 : 4) && !mc_failed(); z++) { uint8_t x = z == 2 ? b->p[k] + 1 : z == 3 ? b->p[k] - 1 : z < 2 ? V[z] : V[z - 2]; if (x == b->p[k]) { continue; } buf_set(&repl, b->p, b->n); repl.p[k] = x; RUN(); }
                if (mc_failed()) { break; }
                buf_set(&repl, b->p, k); if (t == 22) { fixlen(&repl); } RUN(); if (mc_failed()) { break; }               /* cut */
                if (deep) { splice(b, k, k + 1, NULL, 0, -1, &repl); RUN(); splice(b, k, k, (const uint8_t *)"\xff", 1, -1, &repl); RUN(); }
            }
        }
        if (mc_case("%s whole", nm)) {
            mc_case_cost(60);
            for (int k = 0; k < 256 && t == 22 && !mc_failed(); k++) { buf_set(&repl, b->p, b->n); repl.p[0] = k; if (k > 30 && k < 250 && !deep) { continue; } RUN(); }      /* retyped, same body */
            for (int k = 0; k < h && !mc_failed(); k++) { for (int z = 0; z < 4 && !mc_failed(); z++) { buf_set(&repl, b->p, b->n); repl.p[k] = z == 0 ? 0xff : z == 1 ? repl.p[k] + 1 : z == 2 ? repl.p[k] - 1 : 0; RUN(); } }
            for (int k = 0; k <= h + 1 && k < (int)b->n && !mc_failed(); k++) { buf_set(&repl, b->p, k); if (k) { RUN(); } }    /* cut without correction */
            if (!mc_failed()) { buf_set(&repl, b->p, b->n); for (int k = 0; k < 3; k++) { buf_u8(&repl, 0x41); } RUN(); fixlen(&repl); RUN(); }
            if (!mc_failed() && t == 22) { buf_set(&repl, b->p, b->n); buf_buf(&repl, b); RUN(); }
            if (!mc_failed() && t == 22) { buf_set(&repl, b->p, b->n); while (repl.n < 15000) { buf_u8(&repl, repl.n); } fixlen(&repl); RUN(); }
        }
    }
}
/* raw bytes instead of a first flight, and records with every header */
static void raw(int ver, bool client, const uint8_t *p, size_t n, const char *what)
{
    static HITLS_Config *cache[8]; int ix = (ver == V12 ? 0 : ver == V13 ? 1 : ver == VTLCP ? 2 : 3) * 2 + client; static int cv[8]; if (cv[ix] != ver) { if (cache[ix]) { HITLS_CFG_FreeConfig(cache[ix]); } TxOpt o = {.ver = ver, .kind = PK_EC256}; cache[ix] = tx_cfg(&o, client); cv[ix] = ver; }
    HITLS_Config *c = cache[ix]; int64_t before = hx_live; Ep *e = tx_ep(c, client, tx_is_dgram(ver)); (void)what;
    tx_step(e); tx_deliver(e, p, n); for (int k = 0; k < 3; k++) { tx_step(e); } e->eof = true; tx_step(e); int32_t r = e->ret;
    tx_ep_free(e); BSL_ERR_ClearError(); mc_transitions(1); mc_outcome(&r, sizeof r);
    if (hx_live != before) { mc_fail("%ld blocks leaked after %s", (long)(hx_live - before), mc_hex(p, n)); }
}
static void records(void)
{
    static const int V[] = {V12, V13, VTLCP, VD12, VD13}; static const uint8_t T[] = {0, 20, 21, 22, 23, 24, 25, 26, 0x20, 0x2c, 0x3f, 0x80, 0xff}; static const uint16_t L[] = {0, 1, 2, 3, 4, 5, 12, 13, 16, 64, 0x100, 0x3fff, 0x4000, 0x4001, 0x4100, 0x4101, 0x4800, 0x4801, 0xffff};
    static const uint16_t W[] = {0x0301, 0x0303, 0x0304, 0x0101, 0xfefd, 0xfeff, 0, 0xffff, 0x0200}; static uint8_t buf[70000];
    for (int v = 0; v < (int)MC_LEN(V); v++) { for (int cl = 0; cl < 2; cl++) { for (int t = 0; t < (int)MC_LEN(T); t++) {
        if (!mc_case("record v%x %s type %d", V[v], cl ? "client" : "server", T[t])) { continue; }
        mc_case_cost(60);
        for (int w = 0; w < (int)MC_LEN(W) && !mc_failed(); w++) { for (int l = 0; l < (int)MC_LEN(L) && !mc_failed(); l++) { for (int full = 0; full < 3 && !mc_failed(); full++) {
            int h = tx_is_dgram(V[v]) ? 13 : 5; memset(buf, full == 2 ? 1 : 0, h + L[l]); buf[0] = T[t]; buf[1] = W[w] >> 8; buf[2] = W[w]; memset(buf + 3, 0, h - 5); buf[h - 2] = L[l] >> 8; buf[h - 1] = L[l];
            raw(V[v], cl, buf, full ? h + L[l] : h + L[l] / 2, "record");
        } } }
    } } }
}
/* serialised sessions */
static void sessions(void)
{
    for (int i = 0; i < tx_nflows && i < 21; i++) {
        const Flow *f = &tx_flows[i]; if (f->resume || f->hrr) { continue; }
        mc_mute = true; mc_rand_reseed(5); FlowRun r; if (!flow_open(f, &r)) { mc_mute = false; continue; } tx_handshake(&r.l); tx_drain(r.l.c);
        HITLS_Session *s = HITLS_GetDupSession(r.l.c->ctx); uint8_t e[8192]; uint32_t n = 0; int32_t rr = s ? HITLS_SESS_Encode(s, e, sizeof e, &n) : -1; HITLS_SESS_Free(s); flow_close(&r); BSL_ERR_ClearError(); mc_mute = false;
        if (rr || !n) { continue; }
        for (int blk = 0; blk < (int)n; blk += 32) {
            if (!mc_case("session %s %d", f->name, blk)) { continue; }
            for (int k = blk; k < blk + 32 && k < (int)n && !mc_failed(); k++) {
                for (int z = -1; z < 14 && !mc_failed(); z++) {
                    int64_t before = hx_live; uint32_t len = z < 0 ? k : n; uint8_t *c = malloc(len ? len : 1); memcpy(c, e, len);
                    static const uint8_t W[] = {0, 0xff, 0x7f, 0x80, 1}; if (z >= 0) { c[k] = z < 5 ? W[z] : z < 13 ? e[k] ^ 1 << (z - 5) : e[k] + 1; }
                    HITLS_Session *d = NULL; int32_t q = HITLS_SESS_Decode(&d, c, len); free(c);
                    if (!q) { uint8_t o[8192]; uint32_t on = 0; HITLS_SESS_Encode(d, o, sizeof o, &on); HITLS_SESS_HasTicket(d); HITLS_SESS_IsResumable(d); HITLS_Session *x = HITLS_SESS_Dup(d); HITLS_SESS_Free(x); }
                    HITLS_SESS_Free(d); BSL_ERR_ClearError(); mc_transitions(1); mc_outcome(&q, sizeof q);
                    if (hx_live != before) { mc_fail("%ld blocks leaked decoding a session (byte %d, value %d)", (long)(hx_live - before), k, z); }
                }
            }
        }
    }
}
void mc_explore(void)
{
    tx_init();
    mc_mute = true; for (int v = 0; v < 3; v++) { raw(v == 0 ? V12 : v == 1 ? V13 : VD12, false, (const uint8_t *)"\x16", 1, ""); raw(v == 0 ? V12 : v == 1 ? V13 : VD12, true, (const uint8_t *)"\x16", 1, ""); } mc_mute = false;
    mc_space("records"); records();
    mc_space("sessions"); sessions();
    mc_space("handshake");
    for (int i = 0; i < tx_nflows; i++) {
        const Flow *f = &tx_flows[i]; if (i >= 23) { break; }
        static const char *Q[] = {"t12-cbc-auth", "t13-auth", "tlcp-ecdhe-auth", "d12-cookie-auth", "t12-resume-ticket", "t13-resume", "t13-hrr"}; bool in = mc_thorough; for (unsigned k = 0; k < MC_LEN(Q); k++) { in |= !strcmp(f->name, Q[k]); }
        if (!in) { continue; }
        for (int ps = 0; ps < 2; ps++) { flow(f, ps, mc_thorough ? 1 : 6, mc_thorough); }
    }
}
