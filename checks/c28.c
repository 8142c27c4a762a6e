/* C28: base64, PEM, object identifiers, dates, IP addresses and ASN.1 primitives against independent definitions. */
#define _GNU_SOURCE
#include "hx.h"
#include "bsl_base64.h"
#include "bsl_obj.h"
#include "bsl_asn1_internal.h"
#include "bsl_pem_internal.h"
#include "sal_time.h"
#include "sal_ip_util.h"
#include <arpa/inet.h>
#include <time.h>
/* ---------- base64 ---------- */
static const char AL[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
static uint32_t b64e(const uint8_t *p, uint32_t n, char *o, uint32_t line)
{
    uint32_t k = 0, col = 0;
    for (uint32_t i = 0; i < n; i += 3) {
        uint32_t v = p[i] << 16 | (i + 1 < n ? p[i + 1] << 8 : 0) | (i + 2 < n ? p[i + 2] : 0);
        o[k++] = AL[v >> 18]; o[k++] = AL[v >> 12 & 63]; o[k++] = i + 1 < n ? AL[v >> 6 & 63] : '='; o[k++] = i + 2 < n ? AL[v & 63] : '=';
        col += 4; if (line && (col == line || i + 3 >= n)) { o[k++] = '\n'; col = 0; }
    }
    o[k] = 0; return k;
}
/* -1 malformed, -2 unused bits of the last group set (either answer is fine), else length */
static int b64d(const char *s, uint32_t n, uint8_t *o)
{
    uint32_t acc = 0, pad = 0, k = 0, l = 0; bool dirty = false;
    for (uint32_t i = 0; i < n; i++) {
        char c = s[i]; if (c == ' ' || c == '\r' || c == '\n') { continue; }
        const char *q = c ? strchr(AL, c) : NULL;
        if (c == '=') { pad++; } else if (!q || pad) { return -1; }
        acc = acc << 6 | (c == '=' ? 0 : q - AL); l++;
        if (l % 4 == 0) { if (pad > 2) { return -1; } if (pad && (acc & ((1 << 8 * pad) - 1))) { dirty = true; } o[k++] = acc >> 16; if (pad < 2) { o[k++] = acc >> 8; } if (pad < 1) { o[k++] = acc; } acc = 0; if (pad && pad != 1 && pad != 2) { return -1; } }
    }
    if (l % 4 || l == 0) { return -1; } (void)dirty;
    return k;
}
static void b64_enc_one(const uint8_t *p, uint32_t n)
{
    char o[1200], r[1200]; uint32_t ol = sizeof o; memset(o, 1, sizeof o); int32_t e = BSL_BASE64_Encode(p, n, o, &ol); uint32_t rl = b64e(p, n, r, 0);
    if (e || ol != rl || memcmp(o, r, rl + 1)) { mc_fail("encoding %s: %x %.40s, expected %.40s", mc_hex(p, n), e, o, r); return; }
    uint8_t d[1200]; uint32_t dl = sizeof d; e = BSL_BASE64_Decode(o, ol, d, &dl); if (e || dl != n || memcmp(d, p, n)) { mc_fail("decoding %.40s: %x %s", o, e, mc_hex(d, dl)); }
}
static void b64_dec_one(const char *s, uint32_t n)
{
    uint8_t r[700], d[700]; int rl = b64d(s, n, r); uint32_t dl = sizeof d; int32_t e = BSL_BASE64_Decode(s, n, d, &dl);
    if (rl < 0 ? e == 0 : (e != 0 || dl != (uint32_t)rl || memcmp(d, r, rl))) { mc_fail("one-shot decoding of %s: result %x %u bytes, expected %d", mc_hex(s, n), e, dl, rl); return; }
    uint64_t h = rl < 0 ? 0 : mc_hash(d, dl); mc_outcome(&h, 8);
}
static void b64_dec_stream(const char *s, uint32_t n, uint32_t a, uint32_t b)
{
    uint8_t r[700], d[700]; int rl = b64d(s, n, r); bool blank = true; for (uint32_t i = 0; i < n; i++) { blank &= s[i] == ' ' || s[i] == '\n' || s[i] == '\r'; } if (blank) { rl = 0; }
    BSL_Base64Ctx *c = BSL_BASE64_CtxNew(); BSL_BASE64_DecodeInit(c); uint32_t at[4] = {0, a, b, n}, k = 0; int32_t e = 0;
    for (int i = 0; i < 3 && !e; i++) { if (at[i + 1] > at[i]) { uint32_t l = sizeof d - k; e = BSL_BASE64_DecodeUpdate(c, s + at[i], at[i + 1] - at[i], d + k, &l); if (!e) { k += l; } } }
    if (!e) { uint32_t l = sizeof d - k; e = BSL_BASE64_DecodeFinal(c, d + k, &l); if (!e) { k += l; } }
    BSL_BASE64_CtxFree(c);
    if (rl < 0 ? e == 0 : (e != 0 || k != (uint32_t)rl || memcmp(d, r, rl))) { mc_fail("streamed decoding of %s split %u,%u: result %x %u bytes, expected %d", mc_hex(s, n), a, b, e, k, rl); }
}
static void b64_enc_stream(const uint8_t *p, uint32_t n, uint32_t a, uint32_t b, uint32_t fl)
{
    char o[1500], r[1500]; uint32_t k = 0, at[4] = {0, a, b, n}; BSL_Base64Ctx *c = BSL_BASE64_CtxNew(); BSL_BASE64_EncodeInit(c); if (fl) { BSL_BASE64_SetFlags(c, BSL_BASE64_FLAGS_NO_NEWLINE); } int32_t e = 0;
    for (int i = 0; i < 3 && !e; i++) { if (at[i + 1] > at[i]) { uint32_t l = sizeof o - k; e = BSL_BASE64_EncodeUpdate(c, p + at[i], at[i + 1] - at[i], o + k, &l); k += l; } }
    if (!e) { uint32_t l = sizeof o - k; e = BSL_BASE64_EncodeFinal(c, o + k, &l); k += l; } BSL_BASE64_CtxFree(c);
    uint32_t rl = b64e(p, n, r, fl ? 0 : 64); if (e || k != rl || memcmp(o, r, rl)) { mc_fail("streamed encoding of %u bytes split %u,%u: %x %u bytes, expected %u", n, a, b, e, k, rl); }
}
static void base64_all(void)
{
    static uint8_t P[600]; mc_fill(P, sizeof P, 28);
    mc_space("base64 values");
    for (int a = 0; a < 256; a++) { if (mc_case("b64 bytes %d", a)) { uint8_t t[3] = {a}; b64_enc_one(t, 1); for (int b = 0; b < 256 && !mc_failed(); b++) { t[1] = b; b64_enc_one(t, 2); for (int c = 0; c < 256 && !mc_failed(); c++) { t[2] = c; b64_enc_one(t, 3); } } mc_transitions(65793); } }
    for (uint32_t n = 1; n <= 600; n++) { if (mc_case("b64 len %u", n)) { b64_enc_one(P, n); char o[900]; for (uint32_t cap = 0; cap <= (n + 2) / 3 * 4 + 2; cap++) { uint32_t l = cap; memset(o, 0x7e, sizeof o); int32_t e = BSL_BASE64_Encode(P, n, o, &l); bool fit = cap >= (n + 2) / 3 * 4 + 1; if ((e == 0) != fit || o[cap] != 0x7e) { mc_fail("capacity %u for %u bytes: %x", cap, n, e); break; } } } }
    mc_space("base64 texts"); static const char sy[] = {'A', 'Q', '/', 'g', '=', '\n', ' ', '-', '!'}; int D = mc_thorough ? 8 : 7;
    char s[16];
    for (int n = 0; n <= D; n++) { long tot = 1; for (int i = 0; i < n; i++) { tot *= 9; } for (long hi = 0; hi < tot; hi += 6561) { if (!mc_case("b64 texts %d/%ld", n, hi)) { continue; } for (long v = hi; v < tot && v < hi + 6561 && !mc_failed(); v++) { long w = v; for (int i = 0; i < n; i++) { s[i] = sy[w % 9]; w /= 9; } b64_dec_one(s, n); b64_dec_stream(s, n, n / 2, n); mc_transitions(2); } } }
    mc_space("base64 characters");
    for (int n = 4; n <= 12; n += 4) { for (int pos = 0; pos < n; pos++) { if (mc_case("b64 char %d/%d", n, pos)) { for (int c = 0; c < 256; c++) { for (int base = 0; base < 3; base++) { memset(s, 'k', n); if (base) { s[n - 1] = '='; } if (base == 2) { s[n - 2] = '='; } s[pos] = c; b64_dec_one(s, n); b64_dec_stream(s, n, pos, pos + 1 > n ? n : pos + 1); } } } } }
    mc_space("base64 streaming");
    uint32_t M = mc_thorough ? 300 : 150; char t[1200];
    for (uint32_t n = 0; n <= M; n++) { if (mc_case("b64 stream enc %u", n)) { for (uint32_t a = 0; a <= n && !mc_failed(); a++) { for (uint32_t b = a; b <= n && !mc_failed(); b += 1 + (b > a + 6 && b + 6 < n ? 5 : 0)) { b64_enc_stream(P, n, a, b, 0); b64_enc_stream(P, n, a, b, 1); mc_transitions(2); } } } }
    for (uint32_t n = 1; n <= M; n++) { for (int fl = 0; fl < 2; fl++) { if (mc_case("b64 stream dec %u %d", n, fl)) { uint32_t l = b64e(P, n, t, fl ? 0 : 64); for (uint32_t a = 0; a <= l && !mc_failed(); a++) { for (uint32_t b = a; b <= l && !mc_failed(); b += 1 + (b > a + 4 && b + 4 < l ? 11 : 0)) { b64_dec_stream(t, l, a, b); mc_transitions(1); } } } } }
}
/* ---------- PEM ---------- */
static void pem_all(void)
{
    static uint8_t P[400]; mc_fill(P, sizeof P, 29); BSL_PEM_Symbol sym = {"-----BEGIN THING-----", "-----END THING-----"}; BSL_PEM_Symbol other = {"-----BEGIN OTHER-----", "-----END OTHER-----"};
    mc_space("pem");
    for (uint32_t n = 1; n <= 400; n++) {
        if (!mc_case("pem len %u", n)) { continue; }
        char *e = NULL; uint32_t el = 0; int32_t r = BSL_PEM_EncodeAsn1ToPem(P, n, &sym, &e, &el); char x[1200], b[1000]; b64e(P, n, b, 64); sprintf(x, "%s\n%s%s\n", sym.head, b, sym.tail);
        if (r || el != strlen(x) || strcmp(e, x)) { mc_fail("PEM text differs: %x %u", r, el); free(e); continue; }
        for (int v = 0; v < 6; v++) { /* text before, after, twice, cut, CRLF, wrong label */
            char y[3000]; char *in = y; int expect = 1; if (v == 0) { sprintf(y, "%s", x); } else if (v == 1) { sprintf(y, "junk = text\n%s", x); } else if (v == 2) { sprintf(y, "%s%s", x, x); expect = 2; } else if (v == 3) { sprintf(y, "%.*s", (int)strlen(x) - 5, x); expect = 0; } else if (v == 4) { char *o = y; for (char *q = x; *q; q++) { if (*q == '\n') { *o++ = '\r'; } *o++ = *q; } *o = 0; } else { sprintf(y, "%s", x); expect = 0; }
            uint32_t il = strlen(y); char *ex = malloc(il); memcpy(ex, y, il); in = ex; int got = 0; uint8_t *d = NULL; uint32_t dl = 0;
            while (il && got < 4 && BSL_PEM_DecodePemToAsn1(&in, &il, v == 5 ? &other : &sym, &d, &dl) == 0) { got++; if (dl != n || memcmp(d, P, n)) { mc_fail("variant %d: block %d differs", v, got); } BSL_SAL_Free(d); d = NULL; }
            if (got != expect) { mc_fail("variant %d: %d blocks decoded, expected %d", v, got, expect); } if (v == 0 && !BSL_PEM_IsPemFormat(ex, strlen(y))) { mc_fail("not recognised as PEM"); } free(ex);
        }
        if (n <= 60) { /* every truncation, and every single altered character of the frame */
            uint32_t xl = strlen(x); for (uint32_t c = 0; c < xl; c++) { char *ex = malloc(c + 1); memcpy(ex, x, c); char *in = ex; uint32_t il = c; uint8_t *d = NULL; uint32_t dl = 0; int32_t q = BSL_PEM_DecodePemToAsn1(&in, &il, &sym, &d, &dl); if ((q == 0) != (c == xl - 1)) { mc_fail("cut at %u of %u: %x", c, xl, q); } BSL_SAL_Free(d); free(ex); }
            for (uint32_t c = 0; c < xl; c++) { char *ex = malloc(xl); memcpy(ex, x, xl); ex[c] = '!'; char *in = ex; uint32_t il = xl; uint8_t *d = NULL; uint32_t dl = 0; int32_t q = BSL_PEM_DecodePemToAsn1(&in, &il, &sym, &d, &dl); if ((q == 0) != (c == xl - 1)) { mc_fail("character %u altered: %x", c, q); } BSL_SAL_Free(d); free(ex); }
        }
        BSL_SAL_Free(e); mc_outcome(x, strlen(x)); mc_transitions(8);
    }
    static const char *types[][2] = {{"PRIKEY_RSA", "RSA PRIVATE KEY"}, {"PRIKEY_ECC", "EC PRIVATE KEY"}, {"PRIKEY_PKCS8_UNENCRYPT", "PRIVATE KEY"}, {"PRIKEY_PKCS8_ENCRYPT", "ENCRYPTED PRIVATE KEY"}, {"PUBKEY_SUBKEY", "PUBLIC KEY"}, {"PUBKEY_RSA", "RSA PUBLIC KEY"}, {"CERT", "CERTIFICATE"}, {"CRL", "X509 CRL"}, {"CSR", "CERTIFICATE REQUEST"}};
    for (unsigned i = 0; i < 9; i++) { for (unsigned j = 0; j < 9; j++) { if (mc_case("pem type %u %u", i, j)) { char y[300]; sprintf(y, "-----BEGIN %s-----\nAAAA\n-----END %s-----\n", types[i][1], types[j][1]); BSL_PEM_Symbol s = {0}; const char *ty = NULL; int32_t r = BSL_PEM_GetSymbolAndType(y, strlen(y), &s, &ty); if ((r == 0) != (i == j) || (r == 0 && strcmp(ty, types[i][0]))) { mc_fail("labels %s / %s give %x %s", types[i][1], types[j][1], r, ty ? ty : ""); } } } }
}
/* ---------- object identifiers ---------- */
static void oid_one(const uint64_t *arc, int n)
{
    char s[300]; int k = 0; uint8_t d[200]; uint32_t dl = 0; d[dl++] = arc[0] * 40 + arc[1];
    for (int i = 0; i < n; i++) { k += sprintf(s + k, i ? ".%llu" : "%llu", (unsigned long long)arc[i]); if (i > 1) { uint8_t t[10]; int c = 0; uint64_t v = arc[i]; do { t[c++] = v & 127; v >>= 7; } while (v); while (c--) { d[dl++] = t[c] | (c ? 128 : 0); } } }
    bool ok = n >= 2 && arc[0] <= 2 && arc[1] < 40; uint32_t ol = 0; uint8_t *o = BSL_OBJ_GetOidFromNumericString(s, k, &ol);
    if ((o != NULL) != ok || (o && (ol != dl || memcmp(o, d, dl)))) { mc_fail("%s encodes to %s, expected %s", s, o ? mc_hex(o, ol) : "-", ok ? mc_hex(d, dl) : "-"); }
    if (ok) { bool big = false; for (int i = 2; i < n; i++) { big |= arc[i] >= 1000000000000000000ull; } char *t = BSL_OBJ_GetOidNumericString(d, dl); if (!t ? !(big || k > 250) : strcmp(t, s)) { mc_fail("%s decodes to %s, expected %s", mc_hex(d, dl), t ? t : "-", s); } BSL_SAL_Free(t); mc_outcome(d, dl); }
    BSL_SAL_Free(o); mc_transitions(2);
}
static void oid_all(void)
{
    static const uint64_t v[] = {0, 1, 39, 40, 79, 80, 126, 127, 128, 129, 255, 256, 16383, 16384, 16385, 2097151, 2097152, 268435455, 268435456, 0xffffffff, 0x100000000ull, 34359738367ull, 34359738368ull, 4398046511103ull, 4398046511104ull, 562949953421311ull, 562949953421312ull, 72057594037927935ull, 72057594037927936ull, 999999999999999999ull, 1000000000000000000ull, 9223372036854775807ull, 9223372036854775808ull, 18446744073709551615ull}; const int nv = MC_LEN(v);
    mc_space("object identifiers");
    for (uint64_t a = 0; a < 4; a++) { for (uint64_t b = 0; b < 50; b++) { if (mc_case("oid %d.%d", (int)a, (int)b)) { uint64_t x[5] = {a, b}; oid_one(x, 2); for (int i = 0; i < nv; i++) { x[2] = v[i]; oid_one(x, 3); for (int j = 0; j < nv; j++) { x[3] = v[j]; oid_one(x, 4); } } } } }
    for (int n = 3; n <= 60; n++) { for (int i = 0; i < nv; i++) { if (mc_case("oid arcs %d value %d", n, i)) { uint64_t x[64] = {1, 2}; char t[30]; if ((int)sprintf(t, ".%llu", (unsigned long long)v[i]) * n < 280) { for (int k = 2; k < n; k++) { x[k] = v[i]; } oid_one(x, n); } } } }
    for (uint64_t a = 0; a < (mc_thorough ? 3000000ull : 300000ull); a += 1000) { if (mc_case("oid arc range %d", (int)a)) { for (uint64_t q = a; q < a + 1000 && !mc_failed(); q++) { uint64_t x[3] = {2, 5, q}; oid_one(x, 3); } } }
    mc_space("object identifier bytes"); /* every byte string up to length 4 over the interesting bytes */
    static const uint8_t by[] = {0x2a, 0x00, 0x01, 0x7f, 0x80, 0x81, 0xff, 0x77, 0x78};
    for (int n = 1; n <= 6; n++) { int tot = 1; for (int i = 0; i < n; i++) { tot *= 9; } for (int hi = 0; hi < tot; hi += 2187) { if (!mc_case("oid bytes %d/%d", n, hi)) { continue; } for (int q = hi; q < tot && q < hi + 2187 && !mc_failed(); q++) {
        uint8_t d[8]; int w = q; for (int i = 0; i < n; i++) { d[i] = by[w % 9]; w /= 9; } char x[100]; bool ok = d[0] < 120; int k = sprintf(x, "%d.%d", d[0] / 40, d[0] % 40); uint64_t val = 0; bool in = false;
        for (int i = 1; i < n && ok; i++) { if (!in && d[i] == 0x80) { ok = false; } val = val << 7 | (d[i] & 127); in = d[i] & 128; if (!in) { k += sprintf(x + k, ".%llu", (unsigned long long)val); val = 0; } } if (in) { ok = false; }
        uint8_t *e = malloc(n); memcpy(e, d, n); char *t = BSL_OBJ_GetOidNumericString(e, n); if (!t ? ok : (!ok || strcmp(t, x))) { mc_fail("%s decodes to %s, expected %s", mc_hex(d, n), t ? t : "-", ok ? x : "-"); } BSL_SAL_Free(t); free(e); mc_transitions(1); } } }
    mc_space("object identifier texts"); static const char sy[] = {'1', '2', '0', '.', '9', 'a', '-'}; char s[16];
    for (int n = 1; n <= 7; n++) { int tot = 1; for (int i = 0; i < n; i++) { tot *= 7; } for (int hi = 0; hi < tot; hi += 2401) { if (!mc_case("oid texts %d/%d", n, hi)) { continue; } for (int q = hi; q < tot && q < hi + 2401 && !mc_failed(); q++) {
        int w = q; for (int i = 0; i < n; i++) { s[i] = sy[w % 7]; w /= 7; } bool ok = true, lz = false; uint64_t arc[10]; int c = 0; for (int i = 0; i <= n && ok;) { int st = i; uint64_t val = 0; while (i < n && s[i] >= '0' && s[i] <= '9') { val = val * 10 + s[i++] - '0'; } if (i == st || (i < n && s[i] != '.')) { ok = false; } if (i - st > 1 && s[st] == '0') { lz = true; } arc[c++] = val; i++; }
        ok = ok && c >= 2 && arc[0] <= 2 && arc[1] < 40; uint32_t ol = 0; uint8_t *o = BSL_OBJ_GetOidFromNumericString(s, n, &ol); if (!lz && (o != NULL) != ok) { mc_fail("text %.*s %s", n, s, o ? "accepted" : "refused"); } BSL_SAL_Free(o); mc_transitions(1); } } }
}
/* ---------- dates ---------- */
static int64_t days(int y, int m, int d) { y -= m <= 2; int64_t era = y / 400; int yoe = y - era * 400, doy = (153 * (m + (m > 2 ? -3 : 9)) + 2) / 5 + d - 1, doe = yoe * 365 + yoe / 4 - yoe / 100 + doy; return era * 146097 + doe - 719468; }
static int mdays(int y, int m) { static const int t[] = {31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31}; return m == 2 && ((y % 4 == 0 && y % 100) || y % 400 == 0) ? 29 : t[m - 1]; }
static void date_one(int y, int m, int d, int H, int M, int S)
{
    BSL_TIME t = {0}; t.year = y; t.month = m; t.day = d; t.hour = H; t.minute = M; t.second = S; int64_t u = -7; int32_t r = BSL_SAL_DateToUtcTimeConvert(&t, &u);
    bool ok = y >= 1970 && m >= 1 && m <= 12 && d >= 1 && d <= mdays(y, m) && H < 24 && M < 60 && S < 60; int64_t e = ok ? days(y, m, d) * 86400 + H * 3600 + M * 60 + S : 0;
    if ((r == 0) != ok || (ok && u != e)) { mc_fail("%d-%d-%d %d:%d:%d gives %x %lld, expected %lld", y, m, d, H, M, S, r, (long long)u, (long long)e); return; }
    if (ok && y <= 9999) { BSL_TIME b = {0}; r = BSL_SAL_UtcTimeToDateConvert(e, &b); if (r || b.year != y || b.month != m || b.day != d || b.hour != H || b.minute != M || b.second != S) { mc_fail("%lld gives %x %d-%d-%d %d:%d:%d", (long long)e, r, b.year, b.month, b.day, b.hour, b.minute, b.second); } mc_outcome(&e, 8); }
    mc_transitions(2);
}
static int32_t asn_enc(uint8_t tag, void *p, uint32_t n, uint8_t **o, uint32_t *ol)
{
    BSL_ASN1_TemplateItem it[] = {{tag, 0, 0}}; BSL_ASN1_Template tp = {it, 1}; BSL_ASN1_Buffer b = {tag, n, p}; *o = NULL; *ol = 0; return BSL_ASN1_EncodeTemplate(&tp, &b, 1, o, ol);
}
static int32_t asn_dec(uint8_t tag, const uint8_t *p, uint32_t n, BSL_ASN1_Buffer *b, uint32_t *rest)
{
    BSL_ASN1_TemplateItem it[] = {{tag, 0, 0}}; BSL_ASN1_Template tp = {it, 1}; uint8_t *q = (uint8_t *)p; uint32_t l = n; int32_t r = BSL_ASN1_DecodeTemplate(&tp, NULL, &q, &l, b, 1); *rest = l; return r;
}
static void time_one(uint8_t tag, int y, int m, int d, int H, int M, int S)
{
    BSL_TIME t = {0}; t.year = y; t.month = m; t.day = d; t.hour = H; t.minute = M; t.second = S; uint8_t *o; uint32_t ol; int32_t r = asn_enc(tag, &t, sizeof t, &o, &ol); char x[40]; bool g = tag == BSL_ASN1_TAG_GENERALIZEDTIME;
    bool valid = m >= 1 && m <= 12 && d >= 1 && d <= mdays(y, m) && H < 24 && M < 60 && S < 60; bool ok = valid && (g ? y >= 1970 && y <= 9999 : y >= 2000 && y <= 2049);
    if (g) { sprintf(x, "%04d%02d%02d%02d%02d%02dZ", y, m, d, H, M, S); } else { sprintf(x, "%02d%02d%02d%02d%02d%02dZ", y % 100, m, d, H, M, S); } uint32_t xl = strlen(x);
    if ((r == 0) != ok) { mc_fail("encoding time %s: %x", x, r); return; } if (ok && (ol != xl + 2 || o[0] != tag || o[1] != xl || memcmp(o + 2, x, xl))) { mc_fail("time %s encodes to %s", x, mc_hex(o, ol)); }
    BSL_SAL_Free(o); if (y > 9999 || m > 99 || d > 99 || H > 99 || M > 99 || S > 99) { return; }
    for (int z = 0; z < 2; z++) { BSL_ASN1_Buffer b = {tag, xl - z, (uint8_t *)x}; BSL_TIME q = {0}; r = BSL_ASN1_DecodePrimitiveItem(&b, &q); int yy = g ? y : y % 100 < 50 ? 2000 + y % 100 : 1900 + y % 100; bool k = yy >= 1970 && m >= 1 && m <= 12 && d >= 1 && d <= mdays(yy, m) && H < 24 && M < 60 && S < 60;
        if (z && !k && r) { continue; } if (z) { if (r == 0 && (!k || q.year != yy || q.second != S)) { mc_fail("time without zone %s", x); } continue; } /* the zone-less form may be accepted or refused */
        if ((r == 0) != k || (k && (q.year != yy || q.month != m || q.day != d || q.hour != H || q.minute != M || q.second != S))) { mc_fail("decoding %s: %x %d-%d-%d %d:%d:%d", x, r, q.year, q.month, q.day, q.hour, q.minute, q.second); } }
    mc_transitions(3);
}
static void dates_all(void)
{
    mc_space("dates");
    for (int y = 1960; y <= 10010; y++) { if (mc_case("date year %d", y)) { bool full = y <= (mc_thorough ? 3000 : 2110); for (int m = 0; m <= 13; m++) { for (int d = 0; d <= 32; d++) { if (full || d == 0 || d == 1 || d >= 28) { date_one(y, m, d, 0, 0, 0); date_one(y, m, d, 23, 59, 59); time_one(BSL_ASN1_TAG_GENERALIZEDTIME, y, m, d, 12, 34, 56); if (y >= 1960 && y < 2100) { time_one(BSL_ASN1_TAG_UTCTIME, y, m, d, 1, 2, 3); } } } } } }
    for (int H = 0; H < 26; H++) { for (int M = 0; M < 62; M++) { if (mc_case("date time %d:%d", H, M)) { for (int S = 0; S < 62; S++) { date_one(2024, 2, 29, H, M, S); time_one(BSL_ASN1_TAG_GENERALIZEDTIME, 2024, 2, 29, H, M, S); time_one(BSL_ASN1_TAG_UTCTIME, 2024, 2, 29, H, M, S); } } } }
    for (int f = 0; f < 5; f++) { if (mc_case("date field %d", f)) { for (int v = 0; v < 256; v++) { date_one(2023, f == 0 ? v : 5, f == 1 ? v : 6, f == 2 ? v : 7, f == 3 ? v : 8, f == 4 ? v : 9); time_one(BSL_ASN1_TAG_GENERALIZEDTIME, 2023, f == 0 ? v : 5, f == 1 ? v : 6, f == 2 ? v : 7, f == 3 ? v : 8, f == 4 ? v : 9); } } }
    for (int tag = 0x17; tag <= 0x18; tag++) { for (int pos = 0; pos < 16; pos++) { if (mc_case("time text %x %d", tag, pos)) { for (int c = 0; c < 256; c++) { char x[20]; strcpy(x, tag == 0x17 ? "200229112233Z" : "20200229112233Z"); int l = strlen(x); if (pos > l) { continue; } if (pos < l) { x[pos] = c; } BSL_ASN1_Buffer b = {tag, l + (pos == l ? 1 : 0), (uint8_t *)x}; if (pos == l) { x[l] = c; } BSL_TIME q = {0}; int32_t r = BSL_ASN1_DecodePrimitiveItem(&b, &q); bool dig = c >= '0' && c <= '9'; if (r == 0 && (pos >= l || (pos == l - 1 ? c != 'Z' : !dig))) { mc_fail("malformed time text %.16s accepted", x); } } } }
        for (int l = 0; l < 20; l++) { if (mc_case("time length %x %d", tag, l)) { int full = tag == 0x17 ? 13 : 15; BSL_ASN1_Buffer b = {tag, l, (uint8_t *)"20200229112233Z20202020"}; BSL_TIME q = {0}; if (l != full && l != full - 1 && BSL_ASN1_DecodePrimitiveItem(&b, &q) == 0) { mc_fail("time of length %d accepted", l); } } } }
    mc_space("date arithmetic");
    static const int dt[][6] = {{1970, 1, 1, 0, 0, 0}, {1999, 12, 31, 23, 59, 59}, {2000, 2, 28, 23, 59, 59}, {2000, 2, 29, 23, 59, 59}, {2100, 2, 28, 23, 59, 59}, {2024, 2, 29, 12, 0, 0}, {2038, 1, 19, 3, 14, 7}, {2049, 12, 31, 23, 59, 59}, {2400, 2, 29, 0, 0, 0}, {9999, 12, 31, 23, 59, 59}};
    static const int64_t off[] = {0, 1, -1, 59, 60, 61, 3599, 3600, 86399, 86400, 86401, -86400, -86401, 31535999, 31536000, 31622400, 2147483647, -2147483648ll, 4294967296ll, 100000000000ll, -100000000000ll};
    for (unsigned i = 0; i < MC_LEN(dt); i++) { for (unsigned j = 0; j < MC_LEN(dt); j++) { if (mc_case("date cmp %u %u", i, j)) { for (int ms = 0; ms < 9; ms++) { BSL_TIME a = {dt[i][0], dt[i][1], dt[i][2], dt[i][3], dt[i][4], ms % 3, dt[i][5], ms / 3}, b = {dt[j][0], dt[j][1], dt[j][2], dt[j][3], dt[j][4], 1, dt[j][5], 1}; a.millSec = ms % 3; a.microSec = ms / 3; b.millSec = 1; b.microSec = 1;
        int64_t ea = days(dt[i][0], dt[i][1], dt[i][2]) * 86400 + dt[i][3] * 3600 + dt[i][4] * 60 + dt[i][5], eb = days(dt[j][0], dt[j][1], dt[j][2]) * 86400 + dt[j][3] * 3600 + dt[j][4] * 60 + dt[j][5], df = 0; a.second = dt[i][5]; b.second = dt[j][5];
        int32_t r = BSL_SAL_DateTimeCompare(&a, &b, &df); if (df != ea - eb || r != (ea < eb ? BSL_TIME_DATE_BEFORE : ea > eb ? BSL_TIME_DATE_AFTER : BSL_TIME_CMP_EQUAL)) { mc_fail("comparison gives %d difference %lld, expected %lld", r, (long long)df, (long long)(ea - eb)); }
        int64_t ua = ea * 1000000 + a.millSec * 1000 + a.microSec, ub = eb * 1000000 + 1001; r = BSL_SAL_DateTimeCompareByUs(&a, &b); if (r != (ua < ub ? BSL_TIME_DATE_BEFORE : ua > ub ? BSL_TIME_DATE_AFTER : BSL_TIME_CMP_EQUAL)) { mc_fail("microsecond comparison gives %d", r); } } } } }
    for (unsigned i = 0; i < MC_LEN(dt); i++) { for (unsigned j = 0; j < MC_LEN(off); j++) { for (int dd = -1; dd <= 400; dd += 1 + (dd > 1) * 132) { if (mc_case("date add %u %u %d", i, j, dd)) { BSL_TIME a = {0}, q = {0}; a.year = dt[i][0]; a.month = dt[i][1]; a.day = dt[i][2]; a.hour = dt[i][3]; a.minute = dt[i][4]; a.second = dt[i][5]; a.millSec = 7; a.microSec = 8; int64_t e = days(dt[i][0], dt[i][1], dt[i][2]) * 86400 + dt[i][3] * 3600 + dt[i][4] * 60 + dt[i][5] + dd * 86400ll + off[j];
        int32_t r = BSL_DateTimeAddDaySecond(&q, &a, dd, off[j]); int64_t g = -1; if (e >= 0 && e <= 253402300799ll) { if (r || BSL_SAL_DateToUtcTimeConvert(&q, &g) || g != e || q.millSec != 7 || q.microSec != 8) { mc_fail("adding %d days %lld s: %x %lld, expected %lld", dd, (long long)off[j], r, (long long)g, (long long)e); } } } } } }
    static const uint32_t us[] = {0, 1, 991, 992, 993, 999, 1000, 1001, 991991, 991992, 991993, 992992, 999999, 1000000, 59000000, 60000000, 3599999999u, 3600000000u, 4294966295u, 4294966296u, 4294966303u, 4294966304u, 4294967294u, 4294967295u};
    for (unsigned i = 0; i < MC_LEN(dt) - 1; i++) { for (unsigned j = 0; j < MC_LEN(us); j++) { if (mc_case("date addus %u %u", i, us[j])) { BSL_TIME a = {0}, q = {0}; a.year = dt[i][0]; a.month = dt[i][1]; a.day = dt[i][2]; a.hour = dt[i][3]; a.minute = dt[i][4]; a.second = dt[i][5]; a.millSec = 7; a.microSec = 8; int64_t e = (days(dt[i][0], dt[i][1], dt[i][2]) * 86400 + dt[i][3] * 3600 + dt[i][4] * 60 + dt[i][5]) * 1000000 + 7008 + us[j], g = 0;
        int32_t r = BSL_DateTimeAddUs(&q, &a, us[j]); if (r || BSL_SAL_DateToUtcTimeConvert(&q, &g) || g * 1000000 + q.millSec * 1000 + q.microSec != e) { mc_fail("adding %u us: %x %lld %u %u, expected %lld", us[j], r, (long long)g, q.millSec, q.microSec, (long long)e); } } } }
    for (int64_t u = 0; u < 86400 * 800; u += 86400) { if (mc_case("date seconds %lld", (long long)u)) { for (int64_t s = u; s < u + 86400; s += mc_thorough ? 61 : 3599) { int y = 1970; int64_t d = s / 86400; while (d >= 365 + (mdays(y, 2) == 29)) { d -= 365 + (mdays(y, 2) == 29); y++; } int m = 1; while (d >= mdays(y, m)) { d -= mdays(y, m); m++; } date_one(y, m, d + 1, s / 3600 % 24, s / 60 % 60, s % 60); } } }
}
/* ---------- IP addresses ---------- */
static void ip_one(const char *s)
{
    uint8_t o[16], r[16]; int32_t ol = 16; int32_t e = SAL_ParseIp(s, o, &ol); int fam = strchr(s, ':') ? AF_INET6 : AF_INET, k = inet_pton(fam, s, r), rl = fam == AF_INET6 ? 16 : 4;
    if ((e == 0) != (k == 1) || (e == 0 && (ol != rl || memcmp(o, r, rl)))) { mc_fail("\"%s\": %s %s, expected %s", s, e ? "refused" : "accepted as", e ? "" : mc_hex(o, ol), k == 1 ? mc_hex(r, rl) : "refusal"); } mc_transitions(1); if (!e) { mc_outcome(o, ol); }
}
static void ip_all(void)
{
    mc_space("ip texts"); static const char sy[] = {':', '.', '1', '0', 'f', '2', 'g'}; int D = mc_thorough ? 9 : 8; char s[64];
    for (int n = 0; n <= D; n++) { int tot = 1; for (int i = 0; i < n; i++) { tot *= 7; } for (int hi = 0; hi < tot; hi += 16807) { if (!mc_case("ip texts %d/%d", n, hi)) { continue; } for (int q = hi; q < tot && q < hi + 16807 && !mc_failed(); q++) { int w = q; for (int i = 0; i < n; i++) { s[i] = sy[w % 7]; w /= 7; } s[n] = 0; ip_one(s); } } }
    mc_space("ip groups"); /* every choice of up to 9 groups, with "::" at any place, and IPv4 tails */
    static const char *tails[] = {"", "1.2.3.4", "255.255.255.255", "1.2.3", "1.2.3.256", "01.2.3.4", "1.2.3.4.5", "0.0.0.0"};
    for (int n = 0; n <= 9; n++) { for (int dc = -1; dc <= n; dc++) { for (unsigned t = 0; t < MC_LEN(tails); t++) { for (int w = 1; w <= 5; w++) { if (mc_case("ip groups %d %d %u %d", n, dc, t, w)) { char x[120]; int k = 0; for (int i = 0; i <= n; i++) { if (i == dc) { k += sprintf(x + k, i ? ":" : "::"); } if (i < n) { k += sprintf(x + k, "%.*x%s", w, i + 0xa0, (i + 1 < n || (t && 1)) || i + 1 == dc ? ":" : ""); } } if (t) { k += sprintf(x + k, "%s", tails[t]); } x[k] = 0; if (k < 60) { ip_one(x); char y[130]; sprintf(y, "%s:", x); ip_one(y); sprintf(y, ":%s", x); ip_one(y); sprintf(y, "%s::", x); ip_one(y); sprintf(y, "::%s", x); ip_one(y); } } } } } }
    for (int a = 0; a < 1100; a++) { if (mc_case("ip octet %d", a)) { for (int p = 0; p < 4; p++) { for (int w = 1; w < 5; w++) { int k = 0; for (int i = 0; i < 4; i++) { k += i == p ? sprintf(s + k, "%s%0*d", i ? "." : "", w, a) : sprintf(s + k, "%s%d", i ? "." : "", i + 3); } ip_one(s); char y[80]; sprintf(y, "::%s", s); ip_one(y); sprintf(y, "::ffff:%s", s); ip_one(y); } } } }
    for (int cap = 0; cap < 20; cap++) { if (mc_case("ip capacity %d", cap)) { uint8_t o[32]; for (int v = 0; v < 2; v++) { memset(o, 0x5a, 32); int32_t l = cap; int need = v ? 16 : 4; int32_t e = SAL_ParseIp(v ? "1::2" : "1.2.3.4", o, &l); if ((e == 0) != (cap >= need) || o[cap > need ? need : cap] != 0x5a) { mc_fail("capacity %d: %x", cap, e); } } } }
}
/* ---------- ASN.1 ---------- */
static void tlv_len(uint32_t n)
{
    static uint8_t *big; if (!big) { big = calloc(1, 17000000); } uint8_t h[8]; int hl = 0; h[hl++] = 4; if (n < 128) { h[hl++] = n; } else { int k = n > 0xffffff ? 4 : n > 0xffff ? 3 : n > 0xff ? 2 : 1; h[hl++] = 0x80 | k; while (k--) { h[hl++] = n >> 8 * k; } }
    uint8_t *o; uint32_t ol; int32_t r = asn_enc(4, big, n, &o, &ol); uint32_t el = 0;
    if (r || ol != hl + n || memcmp(o, h, hl)) { mc_fail("octet string of %u bytes: %x %u %s", n, r, ol, o ? mc_hex(o, hl) : ""); BSL_SAL_Free(o); return; }
    if (BSL_ASN1_GetEncodeLen(n, &el) || el != ol) { mc_fail("computed length %u for %u bytes", el, n); }
    BSL_ASN1_Buffer b = {0}; uint32_t rest; if (asn_dec(4, o, ol, &b, &rest) || b.len != n || (n && b.buff != o + hl) || rest) { mc_fail("decoding %u bytes gives %u rest %u", n, b.len, rest); }
    uint32_t cl = ol; if (BSL_ASN1_GetCompleteLen(o, &cl) || cl != ol) { mc_fail("complete length %u of %u", cl, ol); }
    if (n && asn_dec(4, o, ol - 1, &b, &rest) == 0) { mc_fail("truncated value of %u bytes accepted", n); } cl = ol - 1; if (n && BSL_ASN1_GetCompleteLen(o, &cl) == 0) { mc_fail("truncated value of %u bytes has a complete length", n); }
    uint8_t *p = o; uint32_t pl = ol, vl = 0; if (BSL_ASN1_DecodeTagLen(4, &p, &pl, &vl) || vl != n || p != o + hl || pl != n) { mc_fail("tag/length of %u", n); } p = o; pl = ol; if (BSL_ASN1_DecodeTagLen(5, &p, &pl, &vl) == 0) { mc_fail("wrong tag accepted"); }
    p = o; pl = ol; if (BSL_ASN1_DecodeItem(&p, &pl, &b) || b.tag != 4 || b.len != n || pl) { mc_fail("item of %u", n); }
    BSL_SAL_Free(o); mc_transitions(6); mc_outcome(h, hl);
}
/* reference for the tag/length header: 0 malformed, 1 fine, 2 legal BER but not minimal */
static int ref_tl(const uint8_t *p, uint32_t n, uint32_t *hl, uint32_t *vl)
{
    if (n < 2) { return 0; } if (p[1] < 128) { *hl = 2; *vl = p[1]; return *vl <= n - 2; } uint32_t k = p[1] & 127; if (!k || k > 4 || n - 2 < k) { return 0; }
    uint64_t v = 0; for (uint32_t i = 0; i < k; i++) { v = v << 8 | p[2 + i]; } *hl = 2 + k; if (v > n - *hl) { return 0; } *vl = v; return v < 128 || p[2] == 0 ? 2 : 1;
}
/* SEQUENCE { INTEGER, OCTET STRING OPTIONAL, SEQUENCE { INTEGER, BOOLEAN OPTIONAL } OPTIONAL }: verdict and fields; 2 = tolerated either way */
typedef struct { int st[4]; uint32_t off[4], len[4]; } Ref;
static int ref_int(const uint8_t *p, uint32_t n, uint32_t *off, uint32_t *len) { if (n == 0) { *len = 0; return 2; } if (p[0] & 128) { return 0; } if (n > 1 && p[0] == 0 && !(p[1] & 128)) { return 0; } if (n > 1 && p[0] == 0) { (*off)++; n--; } *len = n; return 1; }
static int ref_seq(const uint8_t *b, uint32_t n, Ref *f)
{
    int v = 1, k; uint32_t h, l, e, e2, q; memset(f, 0, sizeof *f); if (n < 1 || b[0] != 0x30 || !(k = ref_tl(b, n, &h, &l))) { return 0; } if (k == 2) { v = 2; } q = h; e = h + l; if (e != n) { v = 2; }
    if (q >= e || b[q] != 2 || !(k = ref_tl(b + q, e - q, &h, &l))) { return 0; } if (k == 2) { v = 2; } f->st[0] = 1; f->off[0] = q + h; k = ref_int(b + q + h, l, &f->off[0], &f->len[0]); if (!k) { return 0; } if (k == 2) { v = 2; } q += h + l;
    if (q < e && b[q] == 4) { if (!(k = ref_tl(b + q, e - q, &h, &l))) { return 0; } if (k == 2) { v = 2; } f->st[1] = 1; f->off[1] = q + h; f->len[1] = l; q += h + l; }
    if (q < e && b[q] == 0x30) { if (!(k = ref_tl(b + q, e - q, &h, &l))) { return 0; } if (k == 2) { v = 2; } e2 = q + h + l; q += h; if (q >= e2 || b[q] != 2 || !(k = ref_tl(b + q, e2 - q, &h, &l))) { return 0; } if (k == 2) { v = 2; } f->st[2] = 1; f->off[2] = q + h; k = ref_int(b + q + h, l, &f->off[2], &f->len[2]); if (!k) { return 0; } if (k == 2) { v = 2; } q += h + l;
        if (q < e2 && b[q] == 1) { if (!(k = ref_tl(b + q, e2 - q, &h, &l))) { return 0; } if (k == 2) { v = 2; } f->st[3] = 1; f->off[3] = q + h; f->len[3] = l; q += h + l; } if (q != e2) { v = 2; } }
    if (q != e) { v = 2; } return v;
}
static void tmpl_one(const uint8_t *d, uint32_t n)
{
    static BSL_ASN1_TemplateItem it[] = {{0x30, 0, 0}, {2, 0, 1}, {4, BSL_ASN1_FLAG_OPTIONAL, 1}, {0x30, BSL_ASN1_FLAG_OPTIONAL, 1}, {2, 0, 2}, {1, BSL_ASN1_FLAG_OPTIONAL, 2}}; BSL_ASN1_Template tp = {it, 6};
    BSL_ASN1_Buffer b[4]; memset(b, 0, sizeof b); uint8_t *e = (uint8_t *)d; uint32_t l = n; int32_t r = BSL_ASN1_DecodeTemplate(&tp, NULL, &e, &l, b, 4); Ref f; int v = ref_seq(d, n, &f);
    if (v == 2 ? 0 : (r == 0) != (v == 1)) { mc_fail("%s is %s", mc_hex(d, n), r == 0 ? "accepted" : "refused"); return; }
    if (r == 0 && v) { for (int i = 0; i < 4; i++) { if ((b[i].tag != 0) != f.st[i] || (f.st[i] && (b[i].len != f.len[i] || (b[i].len && b[i].buff != d + f.off[i])))) { mc_fail("%s: field %d wrong", mc_hex(d, n), i); return; } } if (v == 1 && (l != 0 || e != d + n)) { mc_fail("%s: consumed to %u", mc_hex(d, n), l); } }
    if (v == 1 && !(f.st[1] && !f.len[1])) { /* an empty optional value means absent to the encoder */ uint8_t *o = NULL; uint32_t ol = 0; uint8_t bl = b[3].tag ? (b[3].len == 1 && *b[3].buff ? 1 : 0) : 0; if (b[3].tag && (b[3].len != 1 || (*b[3].buff != 0xff && *b[3].buff != 0))) { return; } if (b[3].tag) { b[3].buff = &bl; b[3].len = 1; } r = BSL_ASN1_EncodeTemplate(&tp, b, 4, &o, &ol); if (r || ol != n || memcmp(o, d, n)) { mc_fail("%s encodes back to %x %s", mc_hex(d, n), r, o ? mc_hex(o, ol) : "-"); } BSL_SAL_Free(o); mc_outcome(d, n); mc_state(mc_hash(d, n)); }
}
static uint8_t TB[64]; static int TD;
static void tmpl_rec(int n)
{
    static const uint8_t by[] = {0x30, 2, 4, 1, 0, 3, 5, 0x80, 0x81, 0xff}; if (n > 0) { uint8_t *x = malloc(n); memcpy(x, TB, n); tmpl_one(x, n); free(x); mc_transitions(1); }
    if (n == TD || mc_failed()) { return; } for (unsigned i = 0; i < MC_LEN(by); i++) { TB[n] = by[i]; tmpl_rec(n + 1); }
}
static void asn_all(void)
{
    mc_space("asn1 lengths");
    for (uint32_t n = 0; n <= 70000; n += 500) { if (mc_case("asn1 len %u", n)) { for (uint32_t q = n; q < n + 500 && !mc_failed(); q += n < 1500 || n == 65500 || n == 65000 || mc_thorough ? 1 : 7) { tlv_len(q); } } }
    static const uint32_t bl[] = {16777214, 16777215, 16777216, 16777217}; for (int i = 0; i < 4; i++) { if (mc_case("asn1 len %u", bl[i])) { tlv_len(bl[i]); } }
    for (uint32_t k = 0; k < 256; k++) { if (mc_case("asn1 header %u", k)) { uint8_t x[12]; static const uint8_t by[] = {0, 1, 2, 3, 0x7f, 0x80, 0xff}; for (int w = 0; w < 2401; w++) { int q = w; x[0] = 4; x[1] = k; for (int i = 0; i < 4; i++) { x[2 + i] = by[q % 7]; q /= 7; } for (uint32_t n = 0; n <= 8; n++) { uint8_t *e = malloc(n + !n); memcpy(e, x, n); memset(e + (n > 6 ? 6 : n), 0, n > 6 ? n - 6 : 0); uint8_t *p = e; uint32_t l = n, h = 0, v = 0; BSL_ASN1_Buffer b; int ok = ref_tl(e, n, &h, &v); int32_t r = BSL_ASN1_DecodeItem(&p, &l, &b); if (ok == 2 ? (r == 0 && b.len != v) : ((r == 0) != ok || (ok && (b.len != v || l != n - h - v)))) { mc_fail("header %s: %x", mc_hex(e, n), r); } free(e); mc_transitions(1); } } } }
    mc_space("asn1 integers");
    for (int sh = 0; sh < 64; sh++) { if (mc_case("asn1 int 2^%d", sh)) { for (int64_t dlt = -300; dlt <= 300; dlt++) { uint64_t v = (1ull << sh) + dlt; BSL_ASN1_Buffer a = {0}; if (BSL_ASN1_EncodeLimb(2, v, &a)) { mc_fail("limb"); continue; } uint8_t x[12]; int k = 0; for (int i = 7; i >= 0; i--) { uint8_t c = v >> 8 * i; if (k || c || !i) { x[k++] = c; } } if (a.len != (uint32_t)k || memcmp(a.buff, x, k)) { mc_fail("limb %llx is %s", (unsigned long long)v, mc_hex(a.buff, a.len)); }
        uint8_t pad[20] = {0}; for (int z = 0; z < 3; z++) { memset(pad, 0, z); memcpy(pad + z, x, k); uint8_t *o; uint32_t ol; int32_t r = asn_enc(2, pad, k + z, &o, &ol); int ng = x[0] >> 7; if (r || ol != (uint32_t)(2 + ng + k) || o[1] != ng + k || (ng && o[2]) || memcmp(o + 2 + ng, x, k)) { mc_fail("integer %llx encodes to %s", (unsigned long long)v, o ? mc_hex(o, ol) : "-"); BSL_SAL_Free(o); break; }
            BSL_ASN1_Buffer b = {0}; uint32_t rest; int iv = -1; if (asn_dec(2, o, ol, &b, &rest) || b.len != (uint32_t)k || memcmp(b.buff, x, k)) { mc_fail("integer %llx does not decode", (unsigned long long)v); } else { r = BSL_ASN1_DecodePrimitiveItem(&b, &iv); if ((r == 0) != (v <= 0x7fffffff) || (r == 0 && (uint64_t)iv != v)) { mc_fail("integer value %d for %llx", iv, (unsigned long long)v); } } BSL_SAL_Free(o); }
        BSL_SAL_Free(a.buff); mc_transitions(4); } } }
    for (int a = 0; a < 256; a++) { if (mc_case("asn1 int bytes %d", a)) { for (int n = 0; n <= 3; n++) { for (int w = 0; w < 65536; w += n == 3 ? 1 : 257) { uint8_t x[5] = {2, n, a, w >> 8, w}; uint32_t off = 0, l = 0, rest; int k = n ? ref_int(x + 2, n, &off, &l) : 2; BSL_ASN1_Buffer b = {0}; int32_t r = asn_dec(2, x, 2 + n, &b, &rest); if (k != 2 && ((r == 0) != k || (k && (b.len != l || b.buff != x + 2 + off)))) { mc_fail("integer bytes %s: %x", mc_hex(x, 2 + n), r); } mc_transitions(1); } } } }
    mc_space("asn1 bit strings");
    for (uint32_t n = 0; n <= 40; n++) { for (int u = 0; u < 10; u++) { if (mc_case("asn1 bits %u %d", n, u)) { uint8_t d[40]; memset(d, 0xff, 40); BSL_ASN1_BitString bs = {d, n, u}; uint8_t *o; uint32_t ol; int32_t r = asn_enc(3, &bs, sizeof bs, &o, &ol); if ((r == 0) != (u < 8)) { mc_fail("bit string with %d unused bits: %x", u, r); } if (r == 0) { bool ok = ol == 3 + n && o[1] == n + 1 && (n == 0 || o[2] == u); for (uint32_t i = 0; i < n && ok; i++) { ok = o[3 + i] == (i + 1 == n ? (uint8_t)(0xff << u) : 0xff); } if (!ok) { mc_fail("bit string encodes to %s", mc_hex(o, ol)); } BSL_ASN1_Buffer b = {0}; uint32_t rest; BSL_ASN1_BitString q = {0}; if (asn_dec(3, o, ol, &b, &rest) || BSL_ASN1_DecodePrimitiveItem(&b, &q) || q.len != n || (n && q.unusedBits != u)) { mc_fail("bit string does not decode"); } } BSL_SAL_Free(o); uint8_t raw[3] = {u, 0xf0, 0}; BSL_ASN1_Buffer b = {3, 1 + (n & 1), raw}; BSL_ASN1_BitString q; r = BSL_ASN1_DecodePrimitiveItem(&b, &q); if ((r == 0) != (u < 8)) { mc_fail("decoding %d unused bits: %x", u, r); } } } }
    for (int v = 0; v < 2; v++) { if (mc_case("asn1 bool %d", v)) { bool x = v, y = !v; uint8_t *o; uint32_t ol, rest; BSL_ASN1_Buffer b = {0}; if (asn_enc(1, &x, 1, &o, &ol) || ol != 3 || o[1] != 1 || o[2] != (v ? 0xff : 0) || asn_dec(1, o, 3, &b, &rest) || BSL_ASN1_DecodePrimitiveItem(&b, &y) || y != x) { mc_fail("boolean"); } b.len = 0; if (BSL_ASN1_DecodePrimitiveItem(&b, &y) == 0) { mc_fail("empty boolean"); } b.len = 2; if (BSL_ASN1_DecodePrimitiveItem(&b, &y) == 0) { mc_fail("long boolean"); } BSL_SAL_Free(o); } }
    mc_space("asn1 strings");
    for (uint32_t hi = 0; hi < 0x110000 + 0x1000; hi += 256) { if (mc_case("asn1 char %x", hi)) { for (uint32_t c = hi; c < hi + 256 && !mc_failed(); c++) { for (int w = 1; w <= 4; w *= 2) { if (w < 4 && c >> 8 * w) { continue; } uint8_t in[12], x[4]; int k = 0; for (int z = 0; z < 2; z++) { for (int i = 0; i < w; i++) { in[z * w + i] = c >> 8 * (w - 1 - i); } } if (c < 0x80) { x[k++] = c; } else if (c < 0x800) { x[k++] = 0xc0 | c >> 6; x[k++] = 0x80 | (c & 63); } else if (c < 0x10000) { x[k++] = 0xe0 | c >> 12; x[k++] = 0x80 | (c >> 6 & 63); x[k++] = 0x80 | (c & 63); } else { x[k++] = 0xf0 | c >> 18; x[k++] = 0x80 | (c >> 12 & 63); x[k++] = 0x80 | (c >> 6 & 63); x[k++] = 0x80 | (c & 63); }
        bool ok = c < 0x110000 && (c < 0xd800 || c > 0xdfff); BSL_ASN1_Buffer b = {w == 1 ? BSL_ASN1_TAG_T61STRING : w == 2 ? BSL_ASN1_TAG_BMPSTRING : BSL_ASN1_TAG_UNIVERSALSTRING, 2 * w, in}, o = {0}; int32_t r = BSL_ASN1_ToUtf8String(&b, &o); if ((r == 0) != ok || (ok && (o.len != (uint32_t)(2 * k) || memcmp(o.buff, x, k) || memcmp(o.buff + k, x, k)))) { mc_fail("character %x width %d: %x %s", c, w, r, o.buff ? mc_hex(o.buff, o.len) : "-"); } BSL_SAL_Free(o.buff); if (w > 1) { BSL_ASN1_Buffer o2 = {0}; for (int cut = 1; cut < w; cut++) { b.len = 2 * w - cut; if (BSL_ASN1_ToUtf8String(&b, &o2) == 0) { mc_fail("cut character accepted"); BSL_SAL_Free(o2.buff); } } } mc_transitions(1); } } } }
    for (int c = 0; c < 256; c++) { if (mc_case("asn1 bmp %d", c)) { uint8_t in[3] = {'a', c, 'b'}; uint8_t *o; uint32_t ol; int32_t r = asn_enc(BSL_ASN1_TAG_BMPSTRING, in, 3, &o, &ol); if (r ? c < 128 : (ol != 8 || o[2] || o[3] != 'a' || o[4] || o[5] != c || o[7] != 'b')) { mc_fail("BMP encoding of %d", c); } if (!r) { BSL_ASN1_Buffer b = {BSL_ASN1_TAG_BMPSTRING, 6, o + 2}, q = {0}; if (BSL_ASN1_DecodePrimitiveItem(&b, &q) || q.len != 3 || memcmp(q.buff, in, 3)) { mc_fail("BMP decoding of %d", c); } BSL_SAL_Free(q.buff); } BSL_SAL_Free(o); } }
    for (int h = 1; h < 256; h += 51) { if (mc_case("asn1 bmp wide U+%02xXX", h)) { uint8_t in[4] = {0, 'a', h, 'b'}; BSL_ASN1_Buffer b = {BSL_ASN1_TAG_BMPSTRING, 4, in}, q = {0}; int32_t r = BSL_ASN1_DecodePrimitiveItem(&b, &q); if (r == 0 && q.len == 2 && !memcmp(q.buff, "ab", 2)) { mc_fail("BMP string with U+%02x62 decodes to \"ab\"", h); } BSL_SAL_Free(q.buff); } }
    mc_space("asn1 sets"); /* SET OF: any order of insertion gives the same, sorted encoding */
    for (int w = 0; w < 4096; w++) { if (mc_case("asn1 set %d", w)) { static uint8_t el[8][4] = {{1}, {1, 2}, {2}, {0}, {0, 0}, {0x80}, {1, 1, 1}, {}}; static const int ll[8] = {1, 2, 1, 1, 2, 1, 3, 0}; BSL_ASN1_TemplateItem it[] = {{4, 0, 0}}; BSL_ASN1_Template tp = {it, 1}; BSL_ASN1_Buffer a[4]; int ix[4], q = w; for (int i = 0; i < 4; i++) { ix[i] = q % 8; q /= 8; a[i] = (BSL_ASN1_Buffer){4, ll[ix[i]], el[ix[i]]}; } BSL_ASN1_Buffer o = {0}; int32_t r = BSL_ASN1_EncodeListItem(BSL_ASN1_TAG_SET, 4, &tp, a, 4, &o);
        uint8_t x[40]; int xl = 0; bool used[4] = {0}; for (int k = 0; k < 4; k++) { int b = -1; for (int i = 0; i < 4; i++) { if (used[i]) { continue; } if (b < 0) { b = i; continue; } uint8_t ti[8] = {4, ll[ix[i]]}, tb[8] = {4, ll[ix[b]]}; memcpy(ti + 2, el[ix[i]], ll[ix[i]]); memcpy(tb + 2, el[ix[b]], ll[ix[b]]); if (memcmp(ti, tb, 8) < 0) { b = i; } } used[b] = true; x[xl++] = 4; x[xl++] = ll[ix[b]]; memcpy(x + xl, el[ix[b]], ll[ix[b]]); xl += ll[ix[b]]; }
        if (r || o.len != (uint32_t)xl || memcmp(o.buff, x, xl)) { mc_fail("set gives %x %s, expected %s", r, o.buff ? mc_hex(o.buff, o.len) : "-", mc_hex(x, xl)); } BSL_SAL_Free(o.buff); mc_transitions(1); } }
    mc_space("asn1 template"); TD = mc_thorough ? 8 : 7; static const uint8_t by[] = {0x30, 2, 4, 1, 0, 3, 5, 0x80, 0x81, 0xff};
    for (unsigned a = 0; a < 10; a++) { for (unsigned b = 0; b < 10; b++) { for (unsigned c = 0; c < 10; c++) { if (mc_case("asn1 template %x %x %x", by[a], by[b], by[c])) { TB[0] = by[a]; TB[1] = by[b]; TB[2] = by[c]; tmpl_rec(3); } } } }
    TD = mc_thorough ? 14 : 13; for (int il = 0; il < 8; il++) { for (int l2 = 0; l2 < 7; l2++) { if (mc_case("asn1 nested %d %d", il, l2)) { TB[0] = 0x30; TB[1] = il + l2 + 5; TB[2] = 2; TB[3] = 1; TB[4] = 5; TB[5] = 0x30; TB[6] = il; TB[7] = 2; TB[8] = l2; tmpl_rec(9); } } }
}
void mc_explore(void) { base64_all(); pem_all(); oid_all(); dates_all(); ip_all(); asn_all(); }
