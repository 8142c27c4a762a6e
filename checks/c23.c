/* C23: contexts under every call order.  Oracle: a fresh context given only the effective calls (those that succeeded since
 * the last initialisation).  Two slots: B is made from A by duplicating or copying, W exchanges them. */
#include "pk.h"
#include "crypt_eal_kdf.h"
#define OUTMAX 20000
enum { K_INIT, K_ADD, K_PURE, K_RESET, K_REINIT, K_SET, K_REPL, K_KEEP };   /* what a successful call does to the effective history */
typedef struct { char c; int kind; } Op;
typedef struct Fam Fam;
struct Fam {
    const char *name; void *(*nw)(const Fam *); void (*fr)(void *); void *(*dup)(const void *); int32_t (*copy)(void *, const void *);
    int32_t (*op)(const Fam *, void *, char, uint8_t *, uint32_t *); const char *probe;
    int id, x, y; Op ops[24]; int nops; const void *u; bool late;   /* late: settings need an initialised context and outlive the next initialisation */
};
typedef struct { void *c; char h[24]; bool unk; char set; } Slot;
/* ---------- expectations, from a fresh context, remembered ---------- */
typedef struct { uint64_t key; uint64_t out; uint32_t len; bool used, ok; } Memo;
#define NMEMO (1u << 20)
static Memo *memo; static uint8_t ob[OUTMAX]; static uint64_t nmemo;
static int kindOf(const Fam *f, char c) { for (int i = 0; i < f->nops; i++) { if (f->ops[i].c == c) { return f->ops[i].kind; } } mc_fatal("op %c", c); }
static const Memo *expect(const Fam *f, const char *h, char c)
{
    char k[64]; int n = snprintf(k, sizeof(k), "%s|%d|%d|%d|%s|%c", f->name, f->id, f->x, f->y, h, c); uint64_t key = mc_hash(k, n);
    uint32_t i = key & (NMEMO - 1); while (memo[i].used && memo[i].key != key) { i = (i + 1) & (NMEMO - 1); }
    if (memo[i].used) { return &memo[i]; }
    if (++nmemo > NMEMO * 3 / 4) { mc_fatal("memo full"); }
    void *x = f->nw(f); uint32_t l = OUTMAX; if (!x) { mc_fatal("new context %s", f->name); }
    for (const char *p = h; *p; p++) { l = OUTMAX; int32_t r = f->op(f, x, *p, ob, &l); if (r && f->name[0] == 'K') { f->fr(x); nmemo--; return NULL; } /* keys of a different order: not comparable */ if (r) { mc_fatal("%s: replay of effective history %s refuses %c (%x)", f->name, h, *p, r); } }
    l = OUTMAX; memset(ob, 0, 256); int32_t r = f->op(f, x, c, ob, &l); f->fr(x);
    memo[i] = (Memo){key, r || !l ? 0 : mc_hash(ob, l), r ? 0 : l, true, r == 0}; mc_state(key); return &memo[i];
}
/* ---------- one call ---------- */
static int cls(const Fam *f, char c) { return f->name[0] != 'K' ? c : c == 's' || c == 'S' ? 1 : c == 'p' || c == 'q' ? 2 : c; }
static void drop(char *h, const Fam *f, bool keepInit)   /* keep settings (each once, the last one) and possibly the initialisation */
{
    char o[24]; int n = 0; char init = 0; for (char *p = h; *p; p++) { int k = kindOf(f, *p); if (k == K_SET) { o[n++] = *p; } if (k == K_INIT) { init = *p; } }
    if (n > 1) { o[0] = o[n - 1]; n = 1; }
    if (keepInit && init) { o[n++] = init; } o[n] = 0; strcpy(h, o);
}
static void put(const Fam *f, char *h, char c) { size_t n = strlen(h); if (f->late) { memmove(h + 1, h, n + 1); h[0] = c; } else { h[n] = c; h[n + 1] = 0; } }
static bool derives(const Fam *f) { return !strcmp(f->name, "K/sm2") || !strcmp(f->name, "K/ed25519"); }
/* what the documented life of a context refuses whatever the implementation's own state tracking says (independent of the
 * fresh context): h is the effective history */
static bool has(const char *h, const char *set) { return strpbrk(h, set) != NULL; }
static bool mustFail(const Fam *f, const char *h, char c)
{
    bool use;
    switch (f->name[0]) {
        case 'H': use = strchr("uvFfq", c) != NULL; if (c == 'z') { return true; }
            if (!use) { return false; } if (!has(h, "I") || has(h, "F")) { return true; } return has(h, "q") && c != 'q';
        case 'M': use = strchr("uvFf", c) != NULL; if (c == 'x' || c == 'f') { return true; } return use && (!has(h, "eEb") || has(h, "F"));
        case 'C': use = strchr("uvcF", c) != NULL; if (c == 'x') { return strstr(f->name, "hctr") == NULL; }
            if (use && (!has(h, "eEd123") || has(h, "F"))) { return true; }
            if (c == 'a' && has(h, "uvcF")) { return true; }                     /* associated data after text */
            return false;
        case 'D': return strchr("gG", c) ? !h[0] : strchr("hx", c) != NULL;
        case 'K': if (strchr("ghy", c)) { return !has(h, "sSnbr") && !(c == 'y' && strstr(f->name, "sm9")); }
            if (strchr("vVw", c)) { return !has(h, "pqnBRsSbr") && !(c == 'w' && strstr(f->name, "sm9")); } return false;
        default: return false;
    }
}
static bool act(const Fam *f, Slot *s, char c, const char *seq, int at)
{
    static uint8_t out[OUTMAX]; uint32_t l = OUTMAX; const Memo *e = s->unk ? NULL : expect(f, s->h, c); int kind = kindOf(f, c);
    memset(out, 0, 256); int32_t r = f->op(f, s->c, c, out, &l); mc_transitions(1);
    if (e && !e->ok && !r && derives(f) && strchr("wvVe", c) && !strpbrk(s->h, "pqn")) { return true; }   /* signing may derive the public key, also when it fails */
    if (e && e->ok && mustFail(f, s->h, c)) { mc_fail("%s sequence %s call %d (%c): must be refused after effective history \"%s\" but a fresh context accepts it", f->name, seq, at, c, s->h); return false; }
    if (e && (r == 0) != e->ok) { mc_fail("%s sequence %s call %d (%c): %s (%x), but on a fresh context with history \"%s\" it %s", f->name, seq, at, c, r ? "fails" : "succeeds", r, s->h, e->ok ? "succeeds" : "fails"); return false; }
    if (e && !r && (l != e->len || (l && mc_hash(out, l) != e->out))) { mc_fail("%s sequence %s call %d (%c): result %u bytes %s differs from that of a fresh context with history \"%s\" (%u bytes)", f->name, seq, at, c, l, mc_hex(out, l > 32 ? 32 : l), s->h, e->len); return false; }
    if (!r && l && kind != K_RESET) { mc_outcome(out, l); }
    if (r) { if (kind == K_INIT || kind == K_REINIT) { s->unk = true; } return true; }
    size_t n = strlen(s->h);
    switch (kind) {
        case K_INIT: drop(s->h, f, false); s->unk = false; put(f, s->h, c); if (f->late && s->set && !s->h[1]) { s->h[1] = s->set; s->h[2] = 0; } break;
        case K_SET: s->set = c; /* fall through */ case K_ADD: case K_KEEP: if (n > 20) { mc_fatal("history"); } s->h[n] = c; s->h[n + 1] = 0; break;
        case K_RESET: s->h[0] = 0; s->unk = false; break;
        case K_REPL: { char o[24]; int m = 0; for (char *p = s->h; *p; p++) { if (cls(f, *p) != cls(f, c) && !(cls(f, c) == 1 && *p == 'g') && !(f->name[0] == 'K' && c == 'n' && strchr("sSpqg", *p))) { o[m++] = *p; } }   /* what signing derived from a private key goes with it */ o[m++] = c; o[m] = 0; strcpy(s->h, o); break; }
        case K_REINIT: if (s->unk) { break; } { char i = 0, kp = 0; for (char *p = s->h; *p; p++) { if (kindOf(f, *p) == K_KEEP) { kp = *p; } } for (char *p = s->h; *p; p++) { if (kindOf(f, *p) == K_INIT) { i = *p; } } drop(s->h, f, false); put(f, s->h, f->name[0] == 'M' ? i : i == 'e' ? '1' : i == 'E' ? '2' : i == 'd' ? '3' : i); if (kp) { n = strlen(s->h); s->h[n] = kp; s->h[n + 1] = 0; } } break;
        default: break;
    }
    return true;
}
static void seqRun(const Fam *f, const char *seq)
{
    Slot a = {f->nw(f), "", false, 0}, b = {NULL, "", false, 0}; bool ok = a.c != NULL; int64_t live = hx_live; (void)live;
    if (!a.c) { mc_fail("%s: no context", f->name); return; }
    for (int i = 0; seq[i] && ok; i++) {
        switch (seq[i]) {
            case 'P': { void *d = f->dup(a.c); if (!d) { mc_fail("%s sequence %s call %d: duplicating fails", f->name, seq, i); ok = false; break; } if (b.c) { f->fr(b.c); } b = a; b.c = d; break; }
            case 'C': { if (!b.c) { b.c = f->nw(f); b.h[0] = 0; b.unk = false; } int32_t r = f->copy(b.c, a.c); if (r) { mc_fail("%s sequence %s call %d: copying fails (%x)", f->name, seq, i, r); ok = false; break; } void *k = b.c; b = a; b.c = k; break; }
            case 'W': { Slot t = a; a = b; b = t; break; }
            default: ok = act(f, &a, seq[i], seq, i); break;
        }
    }
    char n2[40]; snprintf(n2, sizeof(n2), "%s+", seq);
    for (const char *p = f->probe; *p && ok; p++) { ok = act(f, &a, *p, n2, 100 + (int)(p - f->probe)); }
    for (const char *p = f->probe; *p && ok && b.c; p++) { ok = act(f, &b, *p, n2, 200 + (int)(p - f->probe)); }
    f->fr(a.c); if (b.c) { f->fr(b.c); }
    BSL_ERR_ClearError();
}
static void walk(const Fam *f, char *seq, int n, int depth, bool hasB)
{
    if (mc_failed()) { return; }
    if (n == depth) { seqRun(f, seq); return; }
    for (int i = 0; i < f->nops + 3; i++) {
        char c = i < f->nops ? f->ops[i].c : "PCW"[i - f->nops]; if (c >= '1' && c <= '9') { continue; }
        if (c == 'W' && (!hasB || (n && (seq[n - 1] == 'W' || seq[n - 1] == 'P' || seq[n - 1] == 'C')))) { continue; }
        if ((c == 'P' || c == 'C') && n && (seq[n - 1] == 'P' || seq[n - 1] == 'C')) { continue; }
        if ((c == 'P' && !f->dup) || (c == 'C' && !f->copy)) { continue; }
        if (n == 0 && c == 'D') { continue; }
        seq[n] = c; seq[n + 1] = 0; walk(f, seq, n + 1, depth, hasB || c == 'P' || c == 'C'); seq[n] = 0;
    }
}
static void explore(const Fam *f, int depth)
{
    char s[32]; int split = depth >= 5 ? 2 : 1; char sp[64]; snprintf(sp, sizeof(sp), "%s", f->name); mc_space(sp);
    int tot = f->nops + 3;
    for (int i = 0; i < tot; i++) { for (int j = 0; j < (split > 1 ? tot : 1); j++) {
        char c = i < f->nops ? f->ops[i].c : "PCW"[i - f->nops], d = j < f->nops ? f->ops[j].c : "PCW"[j - f->nops];
        if (c == 'W' || c == 'D' || (c >= '1' && c <= '9')) { continue; }
        if ((c == 'P' && !f->dup) || (c == 'C' && !f->copy)) { continue; }
        bool hb = c == 'P' || c == 'C';
        if (split > 1) { if ((d >= '1' && d <= '9') || d == 'W' || ((d == 'P' || d == 'C') && hb) || (d == 'P' && !f->dup) || (d == 'C' && !f->copy)) { continue; } hb = hb || d == 'P' || d == 'C'; }
        s[0] = c; s[1] = split > 1 ? d : 0; s[2] = 0;
        if (!mc_case("%s depth %d first %s", f->name, depth, s)) { continue; }
        memset(memo, 0, sizeof(Memo) * NMEMO * (nmemo > NMEMO / 2)); if (nmemo > NMEMO / 2) { nmemo = 0; }
        walk(f, s, split, depth, hb);
    } }
}
static void addop(Fam *f, const char *cs, int kind) { for (; *cs; cs++) { f->ops[f->nops++] = (Op){*cs, kind}; } }
static uint8_t dat[256], K1[200], K2[200], IV1[32], IV2[32];
/* ---------- hashes ---------- */
static void *md_new(const Fam *f) { return CRYPT_EAL_MdNewCtx(f->id); }
static void md_free(void *c) { CRYPT_EAL_MdFreeCtx(c); }
static void *md_dup(const void *c) { return CRYPT_EAL_MdDupCtx(c); }
static int32_t md_copy(void *t, const void *f) { return CRYPT_EAL_MdCopyCtx(t, f); }
static int32_t md_op(const Fam *f, void *c, char o, uint8_t *out, uint32_t *l)
{
    uint32_t cap = *l; *l = 0; uint32_t dl = f->x;
    switch (o) {
        case 'I': return CRYPT_EAL_MdInit(c);
        case 'u': return CRYPT_EAL_MdUpdate(c, dat, 7);
        case 'v': return CRYPT_EAL_MdUpdate(c, dat + 7, f->y + 1);
        case 'z': return CRYPT_EAL_MdUpdate(c, NULL, 5);
        case 'F': { *l = f->x; int32_t r = CRYPT_EAL_MdFinal(c, out, l); (void)cap; return r; }
        case 'f': { uint32_t s = dl - 1; *l = 0; return CRYPT_EAL_MdFinal(c, out, &s); }
        case 'q': { *l = 0; int32_t r = CRYPT_EAL_MdSqueeze(c, out, 45); if (!r) { *l = 45; } return r; }
        case 'D': return CRYPT_EAL_MdDeinit(c);
        default: mc_fatal("op");
    }
}
static void mds(void)
{
    for (int i = 0; i < hx_nmd; i++) {
        bool xof = hx_md[i].ref == R_SHAKE128 || hx_md[i].ref == R_SHAKE256; char nm[32]; snprintf(nm, sizeof(nm), "H/%s", hx_md[i].name);
        Fam f = {nm, md_new, md_free, md_dup, md_copy, md_op, "FIuF", hx_md[i].id, (int)ref_mdlen(hx_md[i].ref), (int)ref_mdblock(hx_md[i].ref)}; if (xof) { f.x = 40; }
        addop(&f, "I", K_INIT); addop(&f, "uvzF", K_ADD); if (!xof) { addop(&f, "f", K_ADD); } addop(&f, "q", K_ADD); addop(&f, "D", K_RESET);
        explore(&f, mc_thorough ? 6 : 5);
    }
}
/* ---------- MACs ---------- */
static void *mac_new(const Fam *f) { return CRYPT_EAL_MacNewCtx(f->id); }
static void mac_free(void *c) { CRYPT_EAL_MacFreeCtx(c); }
static void *mac_dup(const void *c) { return CRYPT_EAL_MacDupCtx(c); }
static int32_t mac_copy(void *t, const void *f) { return CRYPT_EAL_MacCopyCtx(t, f); }
static int32_t mac_op(const Fam *f, void *c, char o, uint8_t *out, uint32_t *l)
{
    *l = 0; bool any = f->y;
    switch (o) {
        case 'e': return CRYPT_EAL_MacInit(c, K1, f->x);
        case 'E': return CRYPT_EAL_MacInit(c, K2, any ? f->x * 4 + 9 : f->x);
        case 'b': return CRYPT_EAL_MacInit(c, K2, any ? 0 : f->x - 1);
        case 'u': return CRYPT_EAL_MacUpdate(c, dat, 7);
        case 'v': return CRYPT_EAL_MacUpdate(c, dat + 7, 33);
        case 'x': return CRYPT_EAL_MacUpdate(c, NULL, 5);
        case 'i': return CRYPT_EAL_MacCtrl(c, CRYPT_CTRL_SET_IV, IV1, 12);
        case 't': { uint32_t t = 12; return CRYPT_EAL_MacCtrl(c, CRYPT_CTRL_SET_TAGLEN, &t, 4); }
        case 'z': { int32_t t = CRYPT_PADDING_ZEROS; return CRYPT_EAL_MacCtrl(c, CRYPT_CTRL_SET_CBC_MAC_PADDING, &t, sizeof(t)); }
        case 'F': { *l = 64; int32_t r = CRYPT_EAL_MacFinal(c, out, l); if (f->id == CRYPT_MAC_GMAC_AES128 && r) { *l = 12; r = CRYPT_EAL_MacFinal(c, out, l); } return r; }
        case 'f': { uint32_t s = 3; return CRYPT_EAL_MacFinal(c, out, &s); }
        case 'L': { uint32_t n = CRYPT_EAL_GetMacLen(c); memcpy(out, &n, 4); *l = 4; return 0; }
        case 'R': return CRYPT_EAL_MacReinit(c);
        case 'D': CRYPT_EAL_MacDeinit(c); return 0;
        default: mc_fatal("op");
    }
}
static void macs(void)
{
    static const struct { int id; const char *n; int kl, any; } m[] = {
        {CRYPT_MAC_HMAC_MD5, "hmac-md5", 16, 1}, {CRYPT_MAC_HMAC_SHA1, "hmac-sha1", 16, 1}, {CRYPT_MAC_HMAC_SHA224, "hmac-sha224", 16, 1}, {CRYPT_MAC_HMAC_SHA256, "hmac-sha256", 16, 1},
        {CRYPT_MAC_HMAC_SHA384, "hmac-sha384", 32, 1}, {CRYPT_MAC_HMAC_SHA512, "hmac-sha512", 32, 1}, {CRYPT_MAC_HMAC_SHA3_256, "hmac-sha3-256", 34, 1}, {CRYPT_MAC_HMAC_SHA3_512, "hmac-sha3-512", 34, 1}, {CRYPT_MAC_HMAC_SM3, "hmac-sm3", 16, 1},
        {CRYPT_MAC_CMAC_AES128, "cmac-aes128", 16, 0}, {CRYPT_MAC_CMAC_AES256, "cmac-aes256", 32, 0}, {CRYPT_MAC_CMAC_SM4, "cmac-sm4", 16, 0}, {CRYPT_MAC_CBC_MAC_SM4, "cbcmac-sm4", 16, 0},
        {CRYPT_MAC_GMAC_AES128, "gmac-aes128", 16, 0}, {CRYPT_MAC_SIPHASH64, "siphash64", 16, 0}, {CRYPT_MAC_SIPHASH128, "siphash128", 16, 0}};
    for (unsigned i = 0; i < MC_LEN(m); i++) {
        char nm[32]; snprintf(nm, sizeof(nm), "M/%s", m[i].n); bool g = !strncmp(m[i].n, "gmac", 4), cb = !strncmp(m[i].n, "cbc", 3);
        Fam f = {nm, mac_new, mac_free, mac_dup, mac_copy, mac_op, g ? "FeiuF" : cb ? "FezuF" : "FEuF", m[i].id, m[i].kl, m[i].any};
        addop(&f, "e", K_INIT); addop(&f, "E", K_INIT); if (!m[i].any) { addop(&f, "b", K_INIT); } addop(&f, "uvF", K_ADD); if (!g) { addop(&f, "f", K_ADD); } addop(&f, "x", K_ADD); addop(&f, "L", K_PURE);
        if (g) { addop(&f, "it", K_ADD); } if (cb) { addop(&f, "z", K_SET); f.late = true; }
        addop(&f, "R", K_REINIT); addop(&f, "D", K_RESET);
        explore(&f, mc_thorough ? 6 : 5);
    }
}
/* ---------- ciphers ---------- */
typedef struct { const char *n; int id, kl, ivl; char kind; } Ci;   /* kind b block with padding, s stream, x xts, g gcm, c ccm, p chachapoly, w wrap, h hctr */
static uint8_t ct[64], tagv[16]; static uint32_t ctl;
static void *ci_new(const Fam *f) { return CRYPT_EAL_CipherNewCtx(f->id); }
static void ci_free(void *c) { CRYPT_EAL_CipherFreeCtx(c); }
static void *ci_dup(const void *c) { return CRYPT_EAL_CipherDupCtx(c); }
static int32_t ci_copy(void *t, const void *f) { return CRYPT_EAL_CipherCopyCtx(t, f); }
static int32_t ci_op(const Fam *f, void *c, char o, uint8_t *out, uint32_t *l)
{
    const Ci *ci = f->u; uint32_t cap = *l, z = 0; *l = 0; int32_t r; uint32_t il = ci->ivl; const uint8_t *i1 = il ? IV1 : NULL, *i2 = il ? IV2 : NULL; uint64_t m64; uint32_t t32;
    switch (o) {
        case 'e': return CRYPT_EAL_CipherInit(c, K1, ci->kl, i1, il, true);
        case 'E': return CRYPT_EAL_CipherInit(c, K2, ci->kl, i2, il, true);
        case 'd': return CRYPT_EAL_CipherInit(c, K1, ci->kl, i1, il, false);
        case '1': return CRYPT_EAL_CipherInit(c, K1, ci->kl, i2, il, true);     /* what 'r' amounts to */
        case '2': return CRYPT_EAL_CipherInit(c, K2, ci->kl, i2, il, true);
        case '3': return CRYPT_EAL_CipherInit(c, K1, ci->kl, i2, il, false);
        case 'b': return CRYPT_EAL_CipherInit(c, K2, ci->kl - 1, i2, il, true);
        case 'r': return CRYPT_EAL_CipherReinit(c, il ? IV2 : NULL, il);
        case 'u': *l = cap; return CRYPT_EAL_CipherUpdate(c, dat, 7, out, l);
        case 'v': *l = cap; return CRYPT_EAL_CipherUpdate(c, dat + 7, ci->kind == 'w' ? 32 : 33, out, l);
        case 'c': *l = cap; return CRYPT_EAL_CipherUpdate(c, ct, ctl, out, l);
        case 'x': return CRYPT_EAL_CipherUpdate(c, dat, 32, out, &z);
        case 'F': *l = cap; r = CRYPT_EAL_CipherFinal(c, out, l); return r;
        case 'f': return CRYPT_EAL_CipherFinal(c, out, &z);
        case 'D': CRYPT_EAL_CipherDeinit(c); return 0;
        case 'p': return CRYPT_EAL_CipherSetPadding(c, CRYPT_PADDING_PKCS7);
        case 'n': return CRYPT_EAL_CipherSetPadding(c, CRYPT_PADDING_NONE);
        case 'N': *l = 4; t32 = CRYPT_EAL_CipherGetPadding(c); memcpy(out, &t32, 4); return 0;
        case 'a': return CRYPT_EAL_CipherCtrl(c, CRYPT_CTRL_SET_AAD, dat + 100, 13);
        case 't': t32 = 12; return CRYPT_EAL_CipherCtrl(c, CRYPT_CTRL_SET_TAGLEN, &t32, 4);
        case 'm': m64 = 21; return CRYPT_EAL_CipherCtrl(c, CRYPT_CTRL_SET_MSGLEN, &m64, 8);
        case 'T': return CRYPT_EAL_CipherCtrl(c, CRYPT_CTRL_SET_TAG, tagv, 16);
        case 'G': r = CRYPT_EAL_CipherCtrl(c, CRYPT_CTRL_GET_TAG, out, 16); *l = 16; if (r) { r = CRYPT_EAL_CipherCtrl(c, CRYPT_CTRL_GET_TAG, out, 12); *l = r ? 0 : 12; } return r;
        case 'V': r = CRYPT_EAL_CipherCtrl(c, CRYPT_CTRL_GET_IV, out, ci->ivl); *l = r ? 0 : ci->ivl; return r;
        default: mc_fatal("op %c", o);
    }
}
static void ciphers(void)
{
    static const Ci t[] = {
        {"aes128-ecb", CRYPT_CIPHER_AES128_ECB, 16, 0, 'b'}, {"aes128-cbc", CRYPT_CIPHER_AES128_CBC, 16, 16, 'b'}, {"aes256-ctr", CRYPT_CIPHER_AES256_CTR, 32, 16, 's'},
        {"aes128-cfb", CRYPT_CIPHER_AES128_CFB, 16, 16, 's'}, {"aes128-ofb", CRYPT_CIPHER_AES128_OFB, 16, 16, 's'}, {"aes128-xts", CRYPT_CIPHER_AES128_XTS, 32, 16, 'x'},
        {"aes128-gcm", CRYPT_CIPHER_AES128_GCM, 16, 12, 'g'}, {"aes128-ccm", CRYPT_CIPHER_AES128_CCM, 16, 12, 'c'}, {"aes128-wrap", CRYPT_CIPHER_AES128_WRAP_NOPAD, 16, 8, 'w'},
        {"chacha20", CRYPT_CIPHER_CHACHA20, 32, 12, 's'}, {"chachapoly", CRYPT_CIPHER_CHACHA20_POLY1305, 32, 12, 'p'},
        {"sm4-ecb", CRYPT_CIPHER_SM4_ECB, 16, 0, 'b'}, {"sm4-cbc", CRYPT_CIPHER_SM4_CBC, 16, 16, 'b'}, {"sm4-ctr", CRYPT_CIPHER_SM4_CTR, 16, 16, 's'}, {"sm4-cfb", CRYPT_CIPHER_SM4_CFB, 16, 16, 's'},
        {"sm4-ofb", CRYPT_CIPHER_SM4_OFB, 16, 16, 's'}, {"sm4-xts", CRYPT_CIPHER_SM4_XTS, 32, 16, 'x'}, {"sm4-gcm", CRYPT_CIPHER_SM4_GCM, 16, 12, 'g'}, {"sm4-ccm", CRYPT_CIPHER_SM4_CCM, 16, 12, 'c'}, {"sm4-hctr", CRYPT_CIPHER_SM4_HCTR, 32, 16, 'h'}};
    for (unsigned i = 0; i < MC_LEN(t); i++) {
        const Ci *c = &t[i]; char nm[32]; snprintf(nm, sizeof(nm), "C/%s", c->n); bool aead = strchr("gcp", c->kind), blk = c->kind == 'b';
        Fam f = {nm, ci_new, ci_free, ci_dup, ci_copy, ci_op, c->kind == 'c' ? "FemavG" : aead ? "FeaucFG" : c->kind == 'x' ? "FevF" : "FevF", c->id}; f.u = c;
        /* ciphertext of a 21 byte text under key 1, iv 1 */
        CRYPT_EAL_CipherCtx *x = CRYPT_EAL_CipherNewCtx(c->id); uint8_t o[80]; uint32_t l = sizeof(o), l2; uint64_t ml = 21; if (!x || CRYPT_EAL_CipherInit(x, K1, c->kl, c->ivl ? IV1 : NULL, c->ivl, true)) { mc_fatal("cipher %s", c->n); }
        if (blk) { CRYPT_EAL_CipherSetPadding(x, CRYPT_PADDING_PKCS7); } if (c->kind == 'c') { CRYPT_EAL_CipherCtrl(x, CRYPT_CTRL_SET_MSGLEN, &ml, 8); } if (aead) { CRYPT_EAL_CipherCtrl(x, CRYPT_CTRL_SET_AAD, dat + 100, 13); }
        if (CRYPT_EAL_CipherUpdate(x, dat, c->kind == 'w' ? 24 : 21, o, &l)) { mc_fatal("cipher %s update", c->n); } l2 = sizeof(o) - l; if (c->kind != 'c' && CRYPT_EAL_CipherFinal(x, o + l, &l2) == 0) { l += l2; }
        if (aead && CRYPT_EAL_CipherCtrl(x, CRYPT_CTRL_GET_TAG, tagv, 16)) { mc_fatal("tag %s", c->n); } CRYPT_EAL_CipherFreeCtx(x); memcpy(ct, o, l); ctl = l;
        addop(&f, "eEd", K_INIT); addop(&f, "123", K_INIT); addop(&f, "b", K_INIT); addop(&f, "r", K_REINIT); addop(&f, "v", K_ADD); if (c->kind != 'x') { addop(&f, "u", K_ADD); } addop(&f, "c", K_ADD); addop(&f, "F", K_ADD); addop(&f, "x", K_ADD); addop(&f, "D", K_RESET);
        if (blk) { addop(&f, "p", K_SET); addop(&f, "n", K_SET); addop(&f, "f", K_ADD); }
        if (aead) { addop(&f, "a", K_ADD); addop(&f, "T", K_ADD); addop(&f, "G", c->kind == 'g' ? K_PURE : K_ADD); if (c->kind != 'p') { addop(&f, "t", K_KEEP); } if (c->kind == 'c') { addop(&f, "m", K_ADD); } }
        explore(&f, (!strncmp(c->n, "sm4", 3) && c->kind != 'h' ? 4 : 5) + (mc_thorough ? 1 : 0));
    }
}
/* ---------- key derivation ---------- */
static void *kd_new(const Fam *f) { return CRYPT_EAL_KdfNewCtx(f->id); }
static void kd_free(void *c) { CRYPT_EAL_KdfFreeCtx(c); }
static void *kd_dup(const void *c) { return CRYPT_EAL_KdfDupCtx(c); }
static int32_t kd_copy(void *t, const void *f) { return CRYPT_EAL_KdfCopyCtx(t, f); }
typedef struct { BSL_Param p[8]; int n; uint32_t v[8]; } Kp;
static void ku(Kp *k, int key, uint32_t v) { k->v[k->n] = v; BSL_PARAM_InitValue(&k->p[k->n], key, BSL_PARAM_TYPE_UINT32, &k->v[k->n], 4); k->n++; k->p[k->n] = (BSL_Param)BSL_PARAM_END; }
static void ko(Kp *k, int key, const uint8_t *p, uint32_t n) { BSL_PARAM_InitValue(&k->p[k->n], key, BSL_PARAM_TYPE_OCTETS, (void *)(uintptr_t)p, n); k->n++; k->p[k->n] = (BSL_Param)BSL_PARAM_END; }
static int32_t kd_op(const Fam *f, void *c, char o, uint8_t *out, uint32_t *l)
{
    Kp k = {0}; *l = 0; bool two = o == 'B'; const uint8_t *key = two ? K2 : K1; uint32_t kl = two ? 150 : 20;
    int keyId = f->id == CRYPT_KDF_HKDF || f->id == CRYPT_KDF_KDFTLS12 ? CRYPT_PARAM_KDF_KEY : CRYPT_PARAM_KDF_PASSWORD, saltId = f->id == CRYPT_KDF_KDFTLS12 ? CRYPT_PARAM_KDF_SEED : CRYPT_PARAM_KDF_SALT;
    switch (o) {
        case 'A': case 'B':
            if (f->id != CRYPT_KDF_SCRYPT) { ku(&k, CRYPT_PARAM_KDF_MAC_ID, two ? CRYPT_MAC_HMAC_SHA512 : CRYPT_MAC_HMAC_SHA256); }
            ko(&k, keyId, key, kl); ko(&k, saltId, two ? dat : dat + 50, two ? 40 : 9);
            if (f->id == CRYPT_KDF_HKDF) { ku(&k, CRYPT_PARAM_KDF_MODE, CRYPT_KDF_HKDF_MODE_FULL); ko(&k, CRYPT_PARAM_KDF_INFO, dat + 100, two ? 20 : 10); }
            if (f->id == CRYPT_KDF_PBKDF2) { ku(&k, CRYPT_PARAM_KDF_ITER, two ? 2 : 3); }
            if (f->id == CRYPT_KDF_KDFTLS12) { ko(&k, CRYPT_PARAM_KDF_LABEL, dat + 100, two ? 20 : 10); }
            if (f->id == CRYPT_KDF_SCRYPT) { ku(&k, CRYPT_PARAM_KDF_N, two ? 4 : 2); ku(&k, CRYPT_PARAM_KDF_R, 1); ku(&k, CRYPT_PARAM_KDF_P, two ? 2 : 1); }
            return CRYPT_EAL_KdfSetParam(c, k.p);
        case 's': ko(&k, saltId, dat + 60, 77); return CRYPT_EAL_KdfSetParam(c, k.p);
        case 'k': ko(&k, keyId, K2 + 9, 3); return CRYPT_EAL_KdfSetParam(c, k.p);
        case 'm': if (f->id == CRYPT_KDF_SCRYPT) { ku(&k, CRYPT_PARAM_KDF_N, 8); } else { ku(&k, CRYPT_PARAM_KDF_MAC_ID, CRYPT_MAC_HMAC_SHA384); } return CRYPT_EAL_KdfSetParam(c, k.p);
        case 'i': if (f->id == CRYPT_KDF_HKDF) { ko(&k, CRYPT_PARAM_KDF_INFO, dat, 200); } else if (f->id == CRYPT_KDF_PBKDF2) { ku(&k, CRYPT_PARAM_KDF_ITER, 1); } else if (f->id == CRYPT_KDF_KDFTLS12) { ko(&k, CRYPT_PARAM_KDF_LABEL, dat, 60); } else { ku(&k, CRYPT_PARAM_KDF_R, 2); } return CRYPT_EAL_KdfSetParam(c, k.p);
        case 'x': if (f->id == CRYPT_KDF_SCRYPT) { ku(&k, CRYPT_PARAM_KDF_N, 3); } else { ku(&k, CRYPT_PARAM_KDF_MAC_ID, CRYPT_MAC_MAX); } return CRYPT_EAL_KdfSetParam(c, k.p);
        case 'y': if (f->id == CRYPT_KDF_PBKDF2) { ku(&k, CRYPT_PARAM_KDF_ITER, 0); } else { ko(&k, keyId, NULL, 5); } return CRYPT_EAL_KdfSetParam(c, k.p);
        case 'g': *l = 33; return CRYPT_EAL_KdfDerive(c, out, 33);
        case 'G': *l = 150; return CRYPT_EAL_KdfDerive(c, out, 150);
        case 'h': return CRYPT_EAL_KdfDerive(c, NULL, 10);
        case 'D': return CRYPT_EAL_KdfDeInitCtx(c);
        default: mc_fatal("op");
    }
}
static void kdfs(void)
{
    static const struct { const char *n; int id; } t[] = {{"D/hkdf", CRYPT_KDF_HKDF}, {"D/pbkdf2", CRYPT_KDF_PBKDF2}, {"D/tls12", CRYPT_KDF_KDFTLS12}, {"D/scrypt", CRYPT_KDF_SCRYPT}};
    for (unsigned i = 0; i < MC_LEN(t); i++) {
        Fam f = {t[i].n, kd_new, kd_free, kd_dup, kd_copy, kd_op, "gAg", t[i].id};
        addop(&f, "AB", K_INIT); addop(&f, "skmi", K_REPL); addop(&f, "xy", K_REPL); addop(&f, "gGh", K_PURE); addop(&f, "D", K_RESET);
        explore(&f, mc_thorough ? 6 : 5);
    }
}
/* ---------- public keys ---------- */
typedef struct { const PkAlg *a; PkVal prv[2], pub[2]; uint8_t sig[2][20000]; uint32_t sl[2]; int md; PkSig s; bool sign; } Pu;
static void *pu_new(const Fam *f) { const Pu *u = f->u; CRYPT_EAL_PkeyCtx *c = pk_new(u->a); if (c && u->sign) { pk_pad(c, &u->s); } return c; }
static void pu_free(void *c) { CRYPT_EAL_PkeyFreeCtx(c); }
static void *pu_dup(const void *c) { return CRYPT_EAL_PkeyDupCtx(c); }
static int32_t pu_copy(void *t, const void *f) { return CRYPT_EAL_PkeyCopyCtx(t, f); }
static CRYPT_EAL_PkeyCtx *dhPeer;   /* public key for which the shared secret of key 0 begins with a zero byte, if one was found */
static int32_t getAll(CRYPT_EAL_PkeyCtx *c, const int *ids, bool pub, uint8_t *out, uint32_t *l)
{
    static PkVal v; int32_t r = pk_get(c, ids, &v, pub); *l = 0; if (r) { return r; }
    for (int i = 0; i < v.n; i++) { uint32_t n = v.p[i].valueLen; if (*l + n > OUTMAX) { mc_fatal("size"); } memcpy(out + *l, v.p[i].value, n); *l += n; } return 0;
}
/* settings c and l, and the operation e that depends on them */
static int32_t pu_set(const Pu *u, void *c, char o, uint8_t *out, uint32_t *l, uint32_t cap)
{
    int32_t a = CRYPT_MD_SHA384, one = 1; uint32_t fl = CRYPT_DH_NO_PADZERO; CRYPT_PKEY_PointFormat pf = CRYPT_POINT_COMPRESSED; int32_t r;
    switch (u->a->alg) {
        case CRYPT_PKEY_RSA: { int32_t m = CRYPT_MD_SHA256; BSL_Param p[3] = {{CRYPT_PARAM_RSA_MD_ID, BSL_PARAM_TYPE_INT32, &m, 4, 0}, {CRYPT_PARAM_RSA_MGF1_ID, BSL_PARAM_TYPE_INT32, &m, 4, 0}, BSL_PARAM_END};
            if (o == 'c') { return CRYPT_EAL_PkeyCtrl(c, CRYPT_CTRL_SET_RSA_RSAES_OAEP, p, 0); } if (o == 'l') { return CRYPT_EAL_PkeyCtrl(c, CRYPT_CTRL_SET_RSA_OAEP_LABEL, dat + 9, 5); }
            *l = cap; r = CRYPT_EAL_PkeyEncrypt(c, dat, 20, out, l); if (r) { *l = 0; } return r; }
        case CRYPT_PKEY_DSA: case CRYPT_PKEY_ECDSA: if (o == 'c') { return CRYPT_EAL_PkeyCtrl(c, CRYPT_CTRL_SET_SIGN_MD, &a, 4); } if (o == 'e') { *l = cap; r = CRYPT_EAL_PkeySignData(c, dat, 32, out, l); if (r) { *l = 0; } return r; }
            if (u->a->alg == CRYPT_PKEY_DSA) { return CRYPT_INVALID_ARG; } return CRYPT_EAL_PkeyCtrl(c, CRYPT_CTRL_SET_ECC_POINT_FORMAT, &pf, sizeof(pf));
        case CRYPT_PKEY_ECDH: if (o == 'c') { return CRYPT_EAL_PkeyCtrl(c, CRYPT_CTRL_SET_ECC_POINT_FORMAT, &pf, sizeof(pf)); } return CRYPT_INVALID_ARG;
        case CRYPT_PKEY_SM2: if (o == 'c') { return CRYPT_EAL_PkeyCtrl(c, CRYPT_CTRL_SET_SM2_USER_ID, dat + 3, 11); } if (o == 'l') { return CRYPT_EAL_PkeyCtrl(c, CRYPT_CTRL_SET_ECC_POINT_FORMAT, &pf, sizeof(pf)); } *l = cap; r = CRYPT_EAL_PkeyEncrypt(c, dat, 20, out, l); if (r) { *l = 0; } return r;
        case CRYPT_PKEY_ML_DSA: if (o == 'c') { return CRYPT_EAL_PkeyCtrl(c, CRYPT_CTRL_SET_CTX_INFO, dat + 3, 11); } if (o == 'l') { return CRYPT_EAL_PkeyCtrl(c, CRYPT_CTRL_SET_DETERMINISTIC_FLAG, &one, 4); } return CRYPT_INVALID_ARG;
        case CRYPT_PKEY_COMPOSITE: case CRYPT_PKEY_SLH_DSA: if (o == 'c') { return CRYPT_EAL_PkeyCtrl(c, CRYPT_CTRL_SET_CTX_INFO, dat + 3, 11); } return CRYPT_INVALID_ARG;
        case CRYPT_PKEY_ML_KEM: if (o == 'e') { uint32_t cl = 4000, kl = 100; memset(out, 0, 4100); if (CRYPT_EAL_PkeyEncapsInit(c, NULL)) { return 1; } r = CRYPT_EAL_PkeyEncaps(c, out, &cl, out + 4000, &kl); *l = r ? 0 : 4000 + kl; return r; } return CRYPT_INVALID_ARG;
        case CRYPT_PKEY_DH: if (o == 'c') { return CRYPT_EAL_PkeyCtrl(c, CRYPT_CTRL_SET_DH_FLAG, &fl, 4); } if (o == 'e') { static uint8_t shortG; (void)shortG; *l = cap; r = CRYPT_EAL_PkeyComputeShareKey(c, dhPeer, out, l); if (r) { *l = 0; } return r; } return CRYPT_INVALID_ARG;
        default: return CRYPT_INVALID_ARG;
    }
}
static int32_t pu_op(const Fam *f, void *c, char o, uint8_t *out, uint32_t *l)
{
    const Pu *u = f->u; int32_t r; uint32_t cap = *l; *l = 0; mc_rand_reseed(4711);
    switch (o) {
        case 's': return CRYPT_EAL_PkeySetPrvEx(c, u->prv[0].p);
        case 'S': return CRYPT_EAL_PkeySetPrvEx(c, u->prv[1].p);
        case 'p': return CRYPT_EAL_PkeySetPubEx(c, u->pub[0].p);
        case 'q': return CRYPT_EAL_PkeySetPubEx(c, u->pub[1].p);
        case 'n': return CRYPT_EAL_PkeyGen(c);
        case 'b': case 'B': { BSL_Param t[10]; const PkVal *v = o == 'b' ? &u->prv[1] : &u->pub[1]; memcpy(t, v->p, sizeof(t)); t[v->n - 1].valueLen = 0; return o == 'b' ? CRYPT_EAL_PkeySetPrvEx(c, t) : CRYPT_EAL_PkeySetPubEx(c, t); }
        case 'r': case 'R': { BSL_Param t[10]; const PkVal *v = o == 'r' ? &u->prv[1] : &u->pub[1]; memcpy(t, v->p, sizeof(t)); t[v->n - 1].value = NULL; return o == 'r' ? CRYPT_EAL_PkeySetPrvEx(c, t) : CRYPT_EAL_PkeySetPubEx(c, t); }
        case 'g': *l = cap; r = CRYPT_EAL_PkeySign(c, u->md, dat, 30, out, l); if (r) { *l = 0; } return r;
        case 'h': *l = 3; r = CRYPT_EAL_PkeySign(c, u->md, dat, 30, out, l); return r;
        case 'v': return CRYPT_EAL_PkeyVerify(c, u->md, dat, 30, u->sig[0], u->sl[0]);
        case 'V': return CRYPT_EAL_PkeyVerify(c, u->md, dat, 30, u->sig[1], u->sl[1]);
        case 'w': return getAll(c, u->a->pubIds, true, out, l);
        case 'y': return getAll(c, u->a->prvIds, false, out, l);
        case 'c': case 'l': case 'e': return pu_set(u, c, o, out, l, cap);
        default: mc_fatal("op");
    }
}
static void pkeys(void)
{
    static const char *const t[] = {"ecdsa-p256", "sm2", "ed25519", "dsa1024", "rsa1024", "mldsa44", "x25519", "mlkem512", "ecdh-p256", "dh2048", "sm9-sign", "comp-44-ed25519"}; static Pu u;
    for (unsigned i = 0; i < MC_LEN(t); i++) {
        const PkAlg *a = pk_find(t[i]); if (!a) { mc_note("no %s", t[i]); continue; } memset(&u, 0, sizeof(u)); u.a = a; char nm[40]; snprintf(nm, sizeof(nm), "K/%s", t[i]);
        static PkSig S[600]; static int nS; if (!nS) { pk_sigs(S, 600, &nS); } for (int j = 0; j < nS; j++) { if (S[j].a == a) { u.s = S[j]; u.md = S[j].md; u.sign = true; break; } }
        Fam f = {nm, pu_new, pu_free, pu_dup, pu_copy, pu_op, u.sign ? "wyegSgepvw" : "wyeSepw", a->alg}; f.u = &u;
        addop(&f, "sSpq", K_REPL); addop(&f, "bBrR", K_REPL); addop(&f, "n", K_REPL); addop(&f, "cl", K_REPL); addop(&f, "wye", K_PURE); if (u.sign) { addop(&f, "g", a->alg == CRYPT_PKEY_SM2 || a->alg == CRYPT_PKEY_ED25519 ? K_REPL : K_PURE); addop(&f, "hvV", K_PURE); }
        bool slow = a->kind == PK_RSA || strstr(t[i], "comp") || strstr(t[i], "sm9") || strstr(t[i], "dsa1024") || strstr(t[i], "dh2048") || a->alg == CRYPT_PKEY_ML_DSA;
        mc_mute = true; for (int k = 0; k < 2; k++) { CRYPT_EAL_PkeyCtx *x = pk_key(a, k); pk_get(x, a->pubIds, &u.pub[k], true); pk_get(x, a->prvIds, &u.prv[k], false); if (u.sign) { pk_pad(x, &u.s); u.sl[k] = sizeof(u.sig[k]); mc_rand_reseed(k); if (CRYPT_EAL_PkeySign(x, u.md, dat, 30, u.sig[k], &u.sl[k])) { mc_fatal("sign %s", t[i]); } } } mc_mute = false;
        if (a->alg == CRYPT_PKEY_DH) { CRYPT_EAL_PkeyCtx *k0 = pk_prv(a, pk_key(a, 0)); uint8_t o1[400]; for (int t2 = 0; t2 < 3000; t2++) { mc_rand_reseed(7000 + t2); CRYPT_EAL_PkeyCtx *g = pk_new(a); if (!g || CRYPT_EAL_PkeyGen(g)) { mc_fatal("dh"); } uint32_t l1 = sizeof(o1); if (CRYPT_EAL_PkeyComputeShareKey(k0, g, o1, &l1) == 0 && o1[0] == 0) { dhPeer = g; break; } CRYPT_EAL_PkeyFreeCtx(g); } CRYPT_EAL_PkeyFreeCtx(k0); if (!dhPeer) { mc_fatal("no short secret"); } }
        explore(&f, (slow ? 2 : 3) + (mc_thorough ? 1 : 0));
    }
}
void mc_explore(void)
{
    hx_init(); memo = calloc(NMEMO, sizeof(Memo)); mc_fill(dat, sizeof(dat), 1); mc_fill(K1, sizeof(K1), 2); mc_fill(K2, sizeof(K2), 3); mc_fill(IV1, 32, 4); mc_fill(IV2, 32, 5);
    const char *only = getenv("C23_ONLY"); if (!only || strchr(only, 'H')) { mds(); } if (!only || strchr(only, 'M')) { macs(); } if (!only || strchr(only, 'C')) { ciphers(); } if (!only || strchr(only, 'D')) { kdfs(); } if (!only || strchr(only, 'K')) { pkeys(); }
}
