/* C14: decoders survive every malformed input.  Every seed encoding is altered in every enumerated way; the parser runs on an
 * exact-size heap copy under AddressSanitizer, the allocation balance must return to where it was, a parsed object is used
 * (getters, printing, verification, re-encoding), and the pristine encoding must parse and re-encode as before afterwards. */
#include "objs.h"
static uint64_t acc, rej;
static const Obj *cur;
static bool one(const Obj *o, const uint8_t *p, size_t n, const char *what, int a, int b)
{
    uint8_t *c = malloc(n ? n : 1); if (n) { memcpy(c, p, n); }
    int64_t before = hx_live; void *h = NULL;
    int32_t r = obj_parse(o, c, n, &h);
    bool ok = true;
    if (r == 0) {
        if (!h) { mc_fail("%s[%d,%d]: success without an object", what, a, b); ok = false; }
        obj_use(o, h); acc++;
    } else { rej++; if (h) { mc_fail("%s[%d,%d]: error %x with an object returned", what, a, b, r); ok = false; } }
    obj_free(o, h); free(c); BSL_ERR_ClearError();
    if (hx_live != before) { mc_fail("%s[%d,%d]: %ld blocks leaked (result %x) input %s", what, a, b, (long)(hx_live - before), r, mc_hex(p, n)); ok = false; }
    mc_outcome(&r, sizeof r);
    return ok;
}
static void still(const Obj *o)
{
    void *h = NULL; int32_t r = obj_parse(o, o->enc.p, o->enc.n, &h);
    if (r) { mc_fail("the unaltered encoding no longer parses: %x", r); return; }
    if (o->kind == OB_CERT || o->kind == OB_CRL || o->kind == OB_CSR) { Buf e = {0}; r = obj_encode(o, h, &e); if (r || (o->fmt == BSL_FORMAT_ASN1 && (e.n != o->enc.n || memcmp(e.p, o->enc.p, e.n)))) { mc_fail("the unaltered object encodes differently: %x", r); } buf_free(&e); }
    obj_free(o, h); BSL_ERR_ClearError();
}
static void trunc(const Obj *o)
{
    for (size_t i = 0; i < o->enc.n; i += 128) {
        if (!mc_case("trunc %s %zu", o->name, i)) { continue; }
        for (size_t n = i; n < i + 128 && n < o->enc.n && !mc_failed(); n++) { one(o, o->enc.p, n, "truncated", n, 0); mc_transitions(1); }
        still(o);
    }
    if (mc_case("extend %s", o->name)) { Buf b = {0}; buf_buf(&b, &o->enc); for (int k = 1; k < 40 && !mc_failed(); k++) { buf_u8(&b, k & 1 ? 0x30 : 0); one(o, b.p, b.n, "extended", k, 0); } buf_free(&b); still(o); }
}
static void bytes(const Obj *o, int step)
{
    static const uint8_t V[] = {0, 1, 0x7f, 0x80, 0x81, 0x82, 0x84, 0xff, 0x30}; static const char W[] = {'\0', '-', '\n', '=', 'A', ' ', (char)0xff, '\r', '/'};
    uint8_t *c = malloc(o->enc.n);
    for (size_t i = 0; i < o->enc.n; i += 32 * step) {
        if (!mc_case("bytes %s %zu", o->name, i)) { continue; }
        mc_case_cost(60);
        for (size_t k = i; k < i + 32 * step && k < o->enc.n && !mc_failed(); k += step) {
            memcpy(c, o->enc.p, o->enc.n);
            for (int v = 0; v < 9 + 10 && !mc_failed(); v++) {
                uint8_t x = v < 9 ? (o->fmt == BSL_FORMAT_PEM ? (uint8_t)W[v] : V[v]) : v < 17 ? o->enc.p[k] ^ (1 << (v - 9)) : v == 17 ? o->enc.p[k] + 1 : o->enc.p[k] - 1;
                if (x == o->enc.p[k]) { continue; }
                c[k] = x; one(o, c, o->enc.n, "byte", k, x); mc_transitions(1);
            }
        }
        still(o);
    }
    free(c);
}
static void tree(const Obj *o)
{
    int n; Node *t = der_tree(o->enc.p, o->enc.n, &n, true); if (!t) { return; }
    Buf b = {0};
    der_emit(t, -1, MU_NONE, 0, &b); if (b.n != o->enc.n || memcmp(b.p, o->enc.p, b.n)) { mc_fatal("tree of %s does not rebuild", o->name); }
    for (int id = 0; id < n; id++) {
        if (!mc_case("node %s %d", o->name, id)) { continue; }
        mc_case_cost(60);
        for (int mu = 1; mu < MU_MAX && !mc_failed(); mu++) { for (int a = 0; a < der_mu_args(mu) && !mc_failed(); a++) { if (der_emit(t, id, mu, a, &b)) { one(o, b.p, b.n, "element", mu, a); mc_transitions(1); } } }
        still(o);
    }
    buf_free(&b); der_tree_free(t);
}
/* two elements altered together: every pair of nodes, a few alterations each */
static void pairs(const Obj *o, int lim)
{
    int n; Node *t = der_tree(o->enc.p, o->enc.n, &n, true); if (!t) { return; }
    static const int M[] = {MU_DEL, MU_EMPTY, MU_DUP}; Buf b = {0}, c = {0}; if (n > lim) { n = lim; }
    for (int i = 0; i < n; i++) {
        if (!mc_case("pair %s %d", o->name, i)) { continue; }
        mc_case_cost(60);
        for (int m = 0; m < 3; m++) {
            if (!der_emit(t, i, M[m], 0, &b)) { continue; }
            int n2; Node *u = der_tree(b.p, b.n, &n2, true); if (!u) { continue; }
            for (int j = 0; j < n2 && !mc_failed(); j++) { for (int k = 0; k < 3 && !mc_failed(); k++) { if (der_emit(u, j, M[k], 0, &c)) { one(o, c.p, c.n, "pair", j, m * 3 + k); mc_transitions(1); } } }
            der_tree_free(u);
        }
        still(o);
    }
    buf_free(&b); buf_free(&c); der_tree_free(t);
}
/* every string over a small alphabet, to every parser and format */
static void strings(const Obj *o, int len)
{
    static const uint8_t A[] = {0x30, 0x02, 0x00, 0x01, 0x80, 0x81, 0x84, 0xa0, 0x04, 0xff}; int base = sizeof A; long tot = 1;
    for (int l = 0; l <= len; l++, tot *= base) {
        for (long blk = 0; blk < tot; blk += 2000) {
            if (!mc_case("strings %s %d %ld", o->name, l, blk)) { continue; }
            for (long v = blk; v < tot && v < blk + 2000 && !mc_failed(); v++) { uint8_t s[8]; long x = v; for (int i = 0; i < l; i++, x /= base) { s[i] = A[x % base]; } one(o, s, l, "string", l, (int)v); }
        }
    }
}
void mc_explore(void)
{
    hx_init(); objs_init();
    for (int i = 0; i < nobjs; i++) {
        Obj *o = &objs[i]; cur = o; mc_mute = true;
        { int64_t b0; void *h = NULL; obj_parse(o, o->enc.p, o->enc.n, &h); obj_use(o, h); obj_free(o, h); b0 = hx_live; (void)b0; obj_parse(o, o->enc.p, o->enc.n / 2, &h); obj_free(o, h); }
        mc_mute = false;
        bool slow = o->pwd != NULL, big = o->enc.n > 1500;
        if (mc_case("seed %s", o->name)) { void *h = NULL; int32_t r = obj_parse(o, o->enc.p, o->enc.n, &h); MC_CHECK(r == 0, "the seed itself is refused: %x", r); obj_free(o, h); still(o); mc_sample("%s: %zu bytes", o->name, o->enc.n); }
        mc_space("truncation"); trunc(o);
        mc_space("bytes"); bytes(o, mc_thorough ? 1 : slow || big ? 7 : o->fmt == BSL_FORMAT_PEM ? 3 : 2);
        if (o->fmt == BSL_FORMAT_ASN1) {
            mc_space("elements"); tree(o);
            if (!slow && (mc_thorough || !strcmp(o->name, "pub-ecdsa-p256"))) { mc_space("pairs"); pairs(o, mc_thorough ? 400 : 60); }
            mc_space("strings"); strings(o, mc_thorough ? 5 : 3);
        }
    }
}
