/* C01: every sequence of handshake messages a key-holding peer can produce by deviating from a legal flow (any set of skipped
 * messages, and every repetition, exchange, injection, retyping and altered proof, alone or in pairs) against a client or server;
 * the peer's transcript always follows what it really sent, so nothing but the sequence itself is wrong.  Oracle: the language of
 * legal flights, written down below as regular expressions over message symbols. */
#include "tlsflow.h"
#include <regex.h>
#include "tls.h"
#include "hs_ctx.h"
#include "transcript_hash.h"
#include "rec.h"
int32_t __real_REC_Write(TLS_Ctx *ctx, REC_Type t, const uint8_t *d, uint32_t n);
int32_t __real_VERIFY_Append(VerifyCtx *c, const uint8_t *d, uint32_t n);
int32_t __real_VERIFY_AppendDtlsRaw(VerifyCtx *c, const uint8_t *d, uint32_t n, VERIFY_TranscriptStyle s);
int32_t __real_REC_ActivePendingState(TLS_Ctx *ctx, bool out);
typedef enum { V_DROP, V_DUP, V_SWAP, V_INJ, V_TYPE, V_FLIP, V_CUT, V_GROW, V_PLAIN, V_CCSVAL } DevK;
typedef struct { int idx; DevK k; int a; } Dev;
typedef struct { int type; Buf b; bool fromServer, synth; char name[24]; } Cat;
static Cat cat[64]; static int ncat;
static TLS_Ctx *g_pup, *g_recA, *g_recB; static bool g_active, g_dgram, g_expect; static int g_n, g_seq, g_nact, g_plainFrom; static bool g_plain;
static Dev dev[4]; static int ndev; static uint32_t dropMask;
static int g_outAct, g_appAct; static bool g_earlyPlain; static char slog[160]; static int nlog; static Buf held; static int heldType; static bool hasHeld;
static Buf pend[16]; static int npend;
static int hdr(void) { return g_dgram ? 12 : 4; }
static char symbol(int type, const uint8_t *p, uint32_t n)
{
    static const char T[] = "HcsVNo??e?xCkqdvK???F?t?u"; static const uint8_t hrr[4] = {0xCF, 0x21, 0xAD, 0x74};
    if (type == 20) { return n == 1 && p[0] == 1 ? 'X' : 'B'; } if (type == 23) { return 'A'; } if (type == 21) { return 'W'; }
    if (type != 22 || n < (uint32_t)hdr() || p[0] > 24) { return '?'; }
    if (p[0] == 2 && n > (uint32_t)hdr() + 6 && !memcmp(p + hdr() + 2, hrr, 4)) { return 'r'; }
    if (p[0] == 11 && n <= (uint32_t)hdr() + 4) { return 'E'; }
    return T[p[0]];
}
static void fixlen(Buf *m) { uint32_t l = m->n - hdr(); m->p[1] = l >> 16; m->p[2] = l >> 8; m->p[3] = l; if (g_dgram) { m->p[6] = m->p[7] = m->p[8] = 0; m->p[9] = l >> 16; m->p[10] = l >> 8; m->p[11] = l; } }
static int32_t emit(int type, const Buf *b, bool bad)
{
    Buf m = {0}; buf_set(&m, b->p, b->n);
    if (type == 22 && m.n >= (size_t)hdr()) { if (g_dgram) { m.p[4] = g_seq >> 8; m.p[5] = g_seq; g_seq++; } if (npend < 16 && m.p[0] != 0) { buf_set(&pend[npend++], m.p, m.n); } }   /* HelloRequest is never part of the transcript */
    if (nlog < 150) { if (g_plain) { slog[nlog++] = '!'; } slog[nlog++] = bad ? 'B' : symbol(type, m.p, m.n); slog[nlog] = 0; }
    if (type == 23 && g_outAct < g_appAct) { g_earlyPlain = true; }
    int32_t r = __real_REC_Write(g_pup, type, m.p, m.n); mc_transitions(1); buf_free(&m); return r;
}
static int32_t flush(VerifyCtx *c, bool dtls, VERIFY_TranscriptStyle st)
{
    int32_t r = 0; for (int i = 0; i < npend; i++) { if (!r) { r = dtls ? __real_VERIFY_AppendDtlsRaw(c, pend[i].p, pend[i].n, st) : __real_VERIFY_Append(c, pend[i].p, pend[i].n); } pend[i].n = 0; }
    npend = 0; return r;
}
int32_t __wrap_REC_Write(TLS_Ctx *ctx, REC_Type type, const uint8_t *data, uint32_t len)
{
    if ((ctx == g_recA || ctx == g_recB) && (type == 22 || type == 20) && ncat < 60) {
        Cat *c = &cat[ncat]; c->type = type; c->synth = false; buf_set(&c->b, data, len); c->fromServer = ctx == g_recB; sprintf(c->name, "%c:%d", c->fromServer ? 's' : 'c', type == 22 ? data[0] : 100);
        bool dup = false; for (int i = 0; i < ncat; i++) { dup |= !strcmp(cat[i].name, c->name); } if (!dup) { ncat++; }
    }
    if (ctx != g_pup || !g_active || (type != 22 && type != 20)) { return __real_REC_Write(ctx, type, data, len); }
    int i = g_n++; Buf m = {0}; buf_set(&m, data, len); bool bad = false, drop = dropMask >> i & 1, dup = false, hold = false; int inj = -1; int32_t r = 0;
    for (int k = 0; k < ndev; k++) if (dev[k].idx == i) {
        int a = dev[k].a; switch (dev[k].k) {
            case V_DROP: drop = true; break;
            case V_DUP: dup = true; break;
            case V_SWAP: hold = !hasHeld; break;
            case V_INJ: inj = a; break;
            case V_TYPE: if (type == 22) { if (m.p[0] != a) { bad = true; } m.p[0] = a; } break;
            case V_FLIP: if (type == 22 && hdr() + (a >> 8) < (int)m.n) { m.p[hdr() + (a >> 8)] ^= a & 255; bad = true; } break;
            case V_CUT: if (type == 22 && (int)m.n - a >= hdr()) { m.n -= a; fixlen(&m); bad = true; } break;
            case V_GROW: if (type == 22) { for (int z = 0; z < a; z++) { buf_u8(&m, 0); } fixlen(&m); bad = true; } break;
            case V_CCSVAL: if (type == 20) { m.n = 0; buf_u8(&m, a & 255); if (a > 255) { buf_u8(&m, 1); } bad = true; } break;
            case V_PLAIN: break;
        }
    }
    if (inj >= 0) {   /* a message of the other side, or an empty one that cannot be well-formed, is never legal */
        Cat *x = &cat[inj]; bool foreign = x->type == 22 && (x->synth ? x->b.p[0] != 0 && x->b.p[0] != 11 && x->b.p[0] != 14 : x->fromServer == (bool)g_pup->isClient);
        r = emit(x->type, &x->b, foreign);
    }
    if (drop) { }
    else if (hold) { buf_set(&held, m.p, m.n); heldType = type; hasHeld = true; }
    else {
        if (!r) { r = emit(type, &m, bad); } if (dup && !r) { r = emit(type, &m, bad); }
        if (hasHeld && !r) { hasHeld = false; r = emit(heldType, &held, false); }
    }
    buf_free(&m); if (type == 22) { g_expect = true; } else if (npend && ctx->hsCtx && ctx->hsCtx->verifyCtx) { flush(ctx->hsCtx->verifyCtx, g_dgram, VERIFY_TRANSCRIPT_RAW); }
    return r;
}
static bool pup_ctx(VerifyCtx *c) { return g_active && g_pup && g_pup->hsCtx && g_pup->hsCtx->verifyCtx == c && g_expect; }
int32_t __wrap_VERIFY_Append(VerifyCtx *c, const uint8_t *d, uint32_t n) { if (pup_ctx(c)) { g_expect = false; return flush(c, false, VERIFY_TRANSCRIPT_RAW); } return __real_VERIFY_Append(c, d, n); }
int32_t __wrap_VERIFY_AppendDtlsRaw(VerifyCtx *c, const uint8_t *d, uint32_t n, VERIFY_TranscriptStyle s) { if (pup_ctx(c)) { g_expect = false; return flush(c, true, s); } return __real_VERIFY_AppendDtlsRaw(c, d, n, s); }
int32_t __wrap_REC_ActivePendingState(TLS_Ctx *ctx, bool out)
{
    if (ctx == g_pup && g_active && out) { g_outAct++; }
    if (ctx == g_pup && g_active && out && g_plainFrom >= 0 && g_nact++ >= g_plainFrom) { g_plain = true; return HITLS_SUCCESS; }
    return __real_REC_ActivePendingState(ctx, out);
}
/* ------------------------------------------------------------------ the language of legal flights, as the victim receives them */
static void lang(const Flow *f, bool victimClient, char *re)
{
    int v = f->o.ver; bool t13 = v == V13 || v == VD13, tlcp = v == VTLCP || v == VDTLCP;
    if (t13) {
        if (victimClient) { sprintf(re, f->hrr ? "^rs%s$" : f->resume ? "^se%s$" : "^s%s$", f->resume ? "F" : "eq?CvF"); }
        else { sprintf(re, "^c%s%s%sF$", f->hrr ? "c" : "", "", f->o.clientAuth == 1 ? "Cv" : f->o.clientAuth == 2 ? "(E|Cv)" : ""); }
        return;
    }
    if (victimClient) {
        const char *kx = f->resume ? "" : f->o.psk ? "k?d" : !strcmp(f->name, "t12-anon") ? "kd" : !strcmp(f->name, "t12-rsa") ? "Cq?d" : tlcp ? "Ckq?d" : "Ckq?d";
        sprintf(re, "^%ss%s%sXF$", v == VD12 || v == VDTLCP ? (f->o.cookie ? "V" : "V?") : "", kx, f->o.ticket ? (f->resume ? "N?" : "N") : "");
    } else {
        const char *a = f->resume ? "" : f->o.clientAuth == 1 ? "CKv" : f->o.clientAuth == 2 ? "(EK|CKv)" : "K";
        sprintf(re, "^c%s%sXF$", f->o.cookie ? "c+" : "", a);
    }
}
static bool legal(const Flow *f, bool victimClient, const char *log)
{
    char re[64], s[160]; lang(f, victimClient, re); int n = 0; bool t13 = f->o.ver == V13, any13 = t13 || f->o.ver == VD13, version = false, ccs = false, dg12 = f->o.ver == VD12 || f->o.ver == VDTLCP;
    regex_t rx; if (regcomp(&rx, re, REG_EXTENDED | REG_NOSUB)) { mc_fatal("regex %s", re); } bool ok = false;
    for (int i = 0; log[i] && !ok; i++) {
        char ch = log[i]; if (ch == '!') { break; }
        if (ch == 'X' && any13) { continue; }                                 /* compatibility CCS; a stray plaintext datagram in DTLS 1.3 */
        if (ch == 'H' && victimClient && (!any13 || !version)) { continue; }  /* HelloRequest is ignored while negotiating a version that has it */
        if (ch == 's' || ch == 'r') { version = true; }
        if (ch == 'X' && dg12) { ccs = true; continue; }                      /* datagrams may be reordered: a ChangeCipherSpec before Finished */
        if (ch == 'A' && (dg12 || f->o.ver == VD13)) { continue; }            /* early application datagram: dropped or kept for later */
        if (ch == 'F' && dg12 && ccs) { s[n++] = 'X'; }
        s[n++] = ch; s[n] = 0; ok = regexec(&rx, s, 0, NULL, 0) == 0;
    }
    regfree(&rx); return ok;
}
static bool puppet(const Flow *f, bool pupServer, bool expectOk)
{
    mc_rand_reseed(77); FlowRun r; g_active = false; if (!flow_open(f, &r)) { mc_fail("set-up"); return false; }
    Ep *p = pupServer ? r.l.s : r.l.c, *v = pupServer ? r.l.c : r.l.s; g_pup = p->ctx; g_dgram = tx_is_dgram(f->o.ver); g_expect = false; g_n = g_seq = g_nact = 0; g_plain = g_earlyPlain = false; g_outAct = 0; g_appAct = f->o.ver == VD13 ? 2 : 1; nlog = 0; slog[0] = 0; hasHeld = false; npend = 0; g_active = true;
    tx_handshake(&r.l);
    bool ok = v->done, lg = legal(f, pupServer, slog); uint8_t b[64]; uint32_t got = 0;
    if (mc_replaying) { mc_note("peer sent %s; victim %s %x, peer %s %x", slog, v->done ? "done" : "open", v->ret, p->done ? "done" : "open", p->ret); }
    if (ok && !lg) { mc_fail("the %s completed the handshake although the peer sent the sequence %s", v->name, slog); }
    if (!ok && !lg) {
        for (int k = 0; k < 2 && !mc_failed(); k++) { int32_t e = HITLS_Read(v->ctx, b, sizeof b, &got); if (e == HITLS_SUCCESS && got) { mc_fail("application data handed out although the peer sent only %s", slog); } }
        uint8_t st = 0; bool fin = false; if (HITLS_IsHandShakeDone(v->ctx, (uint8_t *)&fin) == HITLS_SUCCESS && fin) { mc_fail("handshake reported done although the peer sent the sequence %s", slog); } (void)st;
    }
    if (ok && g_earlyPlain && g_dgram) { v->app.n = 0; for (int k = 0; k < 6; k++) { tx_drain(v); } if (v->app.n >= 5 && memmem(v->app.p, v->app.n, "early", 5)) { mc_fail("application data sent before the application keys were in use was handed out (%s)", slog); } }
    if (expectOk && !ok) { mc_fail("the %s did not complete the legal flow %s: %x", v->name, slog, v->ret); }
    char oc[200]; int on = snprintf(oc, sizeof oc, "%s/%d/%d/%x/%s", f->name, pupServer, v->done, v->done ? 0 : v->ret, slog); mc_outcome(oc, on); mc_state(mc_hash(oc, on)); mc_trace(1);
    g_active = false; g_pup = NULL; flow_close(&r); return ok;
}
static int count_msgs(const Flow *f, bool ps, char *log) { ndev = 0; dropMask = 0; g_plainFrom = -1; mc_mute = true; bool ok = puppet(f, ps, false); mc_mute = false; if (!ok) { mc_fatal("baseline of %s fails", f->name); } strcpy(log, slog); return g_n; }
static void capture(const Flow *f)
{
    mc_mute = true; for (int i = 0; i < ncat; i++) { cat[i].b.n = 0; } ncat = 0; mc_rand_reseed(77); FlowRun r; if (!flow_open(f, &r)) { mc_fatal("open"); } g_recA = r.l.c->ctx; g_recB = r.l.s->ctx; tx_handshake(&r.l); g_recA = g_recB = NULL; flow_close(&r); mc_mute = false;
    g_dgram = tx_is_dgram(f->o.ver);
    static const int ty[] = {0, 1, 2, 3, 4, 5, 8, 11, 12, 13, 14, 15, 16, 20, 22, 23, 24, 99};
    for (unsigned i = 0; i < MC_LEN(ty) && ncat < 60; i++) { Cat *c = &cat[ncat++]; c->type = 22; c->synth = true; c->b.n = 0; for (int z = 0; z < hdr(); z++) { buf_u8(&c->b, z ? 0 : ty[i]); } if (ty[i] == 24) { buf_u8(&c->b, 0); fixlen(&c->b); } if (ty[i] == 11) { for (int z = 0; z < (f->o.ver == V13 || f->o.ver == VD13 ? 4 : 3); z++) { buf_u8(&c->b, 0); } fixlen(&c->b); } sprintf(c->name, "empty%d", ty[i]); }
    { Cat *c = &cat[ncat++]; c->type = 20; c->b.n = 0; buf_u8(&c->b, 1); strcpy(c->name, "ccs"); }
    { Cat *c = &cat[ncat++]; c->type = 23; c->b.n = 0; buf_put(&c->b, "early", 5); strcpy(c->name, "app"); }
}
static const char *KN[] = {"drop", "dup", "swap", "inject", "type", "flip", "cut", "grow", "plain", "ccsval"};
static void one(const Flow *f, bool ps, int idx, DevK k, int a)
{
    if (k == V_INJ) { if (!mc_case("%s vs %s: before %d inject %s", f->name, ps ? "client" : "server", idx, cat[a].name)) { return; } }
    else if (!mc_case("%s vs %s: %s %d (%d)", f->name, ps ? "client" : "server", KN[k], idx, a)) { return; }
    dropMask = 0; g_plainFrom = k == V_PLAIN ? idx : -1; dev[0] = (Dev){idx, k, a}; ndev = 1; puppet(f, ps, false);
}
static void post(const Flow *f, bool ps, int c)
{   /* after completion: an unexpected handshake message, then data */
    int t = cat[c].type == 22 ? cat[c].b.p[0] : cat[c].type + 200; bool t13 = f->o.ver == V13;
    if (!mc_case("%s vs %s: after completion %s", f->name, ps ? "client" : "server", cat[c].name)) { return; }
    bool may = t13 ? (t == 24 || (ps && t == 4) || t == 223) : ((ps && t == 0) || (!ps && t == 1) || t == 223);
    mc_rand_reseed(77); FlowRun r; g_active = false; if (!flow_open(f, &r)) { mc_fail("set-up"); return; } tx_handshake(&r.l);
    if (!tx_both(&r.l)) { mc_fail("handshake"); flow_close(&r); return; }
    Ep *p = ps ? r.l.s : r.l.c, *v = ps ? r.l.c : r.l.s; for (int k = 0; k < 2; k++) { tx_move(&r.l, p); tx_drain(v); tx_move(&r.l, v); tx_drain(p); } v->app.n = 0;
    __real_REC_Write(p->ctx, cat[c].type, cat[c].b.p, cat[c].b.n); int32_t e = tx_write(p, "after", 5); (void)e; tx_move(&r.l, p);
    int32_t e1 = 0; for (int k = 0; k < 3; k++) { e1 = tx_drain(v); }
    bool got = v->app.n >= 5 && !memcmp(v->app.p + v->app.n - 5, "after", 5);
    if (got && !may) { mc_fail("data handed out after the unexpected message %s", cat[c].name); }
    char oc[120]; int on = sprintf(oc, "post %s %d %d %d %x", f->name, ps, t, got, e1); mc_outcome(oc, on); mc_trace(1); mc_transitions(2); flow_close(&r);
}
void mc_explore(void)
{
    tx_init(); static Flow fl[48]; int nf = 0;
    for (int i = 0; i < tx_nflows; i++) { if (!tx_flows[i].slow || mc_thorough) { fl[nf++] = tx_flows[i]; } }
    const Flow *b12 = flow_by_name("t12"), *b13 = flow_by_name("t13"), *bt = flow_by_name("tlcp"), *bh = flow_by_name("t13-auth");
#define VAR(base, nm, ...) do { Flow *x = &fl[nf++]; *x = *(base); x->name = nm; __VA_ARGS__; } while (0)
    VAR(b12, "t12-auth", x->o.clientAuth = 1); VAR(b12, "t12-optauth", x->o.clientAuth = 2); VAR(b12, "t12-optauth-nocert", x->o.clientAuth = 2; x->cliNoCert = 1); VAR(b12, "t12-noems", x->noEms = 1);
    VAR(b13, "t13-optauth", x->o.clientAuth = 2); VAR(b13, "t13-optauth-nocert", x->o.clientAuth = 2; x->cliNoCert = 1); VAR(bh, "t13-hrr-auth", x->hrr = 1); VAR(bt, "tlcp-auth", x->o.clientAuth = 1); VAR(bt, "tlcp-optauth-nocert", x->o.clientAuth = 2; x->cliNoCert = 1);
    VAR(flow_by_name("t12-resume-ticket"), "t12-resume-auth", x->o.clientAuth = 1); VAR(flow_by_name("dtlcp"), "dtlcp-auth", x->o.clientAuth = 1);
    for (int fi = 0; fi < nf; fi++) {
        const Flow *f = &fl[fi]; mc_space(f->name); capture(f);
        for (int ps = 0; ps < 2; ps++) {
            char base[160]; int n = count_msgs(f, ps, base); if (n < 2) { mc_fatal("no messages seen in %s", f->name); }
            if (mc_case("%s vs %s: legal flow %s", f->name, ps ? "client" : "server", base)) { ndev = 0; dropMask = 0; g_plainFrom = -1; puppet(f, ps, true); if (!mc_failed() && !legal(f, ps, slog)) { mc_fatal("oracle rejects the legal flow %s of %s", slog, f->name); } }
            for (uint32_t m = 1; m < 1u << n && n < 12; m++) { if (mc_case("%s vs %s: skip set %x", f->name, ps ? "client" : "server", m)) { dropMask = m; ndev = 0; g_plainFrom = -1; puppet(f, ps, false); } }
            for (int p = 0; p < 2; p++) { one(f, ps, p, V_PLAIN, 0); }
            for (int i = 0; i < n; i++) {
                one(f, ps, i, V_DUP, 0); one(f, ps, i, V_SWAP, 0);
                for (int c = 0; c < ncat; c++) { one(f, ps, i, V_INJ, c); }
                for (int t = 0; t < 26; t++) { one(f, ps, i, V_TYPE, t == 25 ? 99 : t); }
                one(f, ps, i, V_CCSVAL, 0); one(f, ps, i, V_CCSVAL, 2); one(f, ps, i, V_CCSVAL, 257);
            }
            for (int p = 0; p < 2; p++) for (uint32_t m = 1; m < 1u << n && n < 12; m++) { if (mc_case("%s vs %s: plain %d skip set %x", f->name, ps ? "client" : "server", p, m)) { dropMask = m; ndev = 0; g_plainFrom = p; puppet(f, ps, false); } }
            /* proofs: Finished, CertificateVerify, ServerKeyExchange */
            int k = 0; for (int i = 0; base[i]; i++, k++) {
                char s = base[i]; if (s != 'F' && s != 'v' && s != 'k' && s != 'C') { continue; }
                int lim = s == 'F' ? 48 : s == 'v' ? 84 : s == 'k' ? 150 : 8;
                for (int y = 0; y < lim; y++) { if ((s == 'F' || s == 'v') || y % 5 == 0 || mc_thorough) { one(f, ps, k, V_FLIP, y << 8 | 1 << y % 8); } }
                if (s == 'F') { for (int y = 1; y <= 48; y++) { one(f, ps, k, V_CUT, y); } for (int y = 1; y <= 4; y++) { one(f, ps, k, V_GROW, y); } }
                else { for (int y = 1; y <= 6; y++) { one(f, ps, k, V_CUT, y * y * 3); one(f, ps, k, V_GROW, y); } }
            }
            /* pairs of structural deviations */
            for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) for (int a = 0; a < 3; a++) for (int b = 0; b < 3; b++) {
                if (i == j || (a == b && i > j) || (a == V_DROP && b == V_DROP)) { continue; }
                if (mc_case("%s vs %s: %s %d + %s %d", f->name, ps ? "client" : "server", KN[a], i, KN[b], j)) { dropMask = 0; g_plainFrom = -1; dev[0] = (Dev){i, a, 0}; dev[1] = (Dev){j, b, 0}; ndev = 2; puppet(f, ps, false); }
            }
            for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) for (int c = 0; c < ncat; c++) {
                bool keep = mc_thorough || (cat[c].name[1] == ':' ? j == i || j == i - 1 : 0); if (!keep) { continue; }
                if (mc_case("%s vs %s: drop %d + before %d inject %s", f->name, ps ? "client" : "server", i, j, cat[c].name)) { dropMask = 1u << i; g_plainFrom = -1; dev[0] = (Dev){j, V_INJ, c}; ndev = 1; puppet(f, ps, false); }
            }
            if (!tx_is_dgram(f->o.ver)) { for (int c = 0; c < ncat; c++) { post(f, ps, c); } }
        }
    }
}
