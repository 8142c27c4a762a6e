/* C12: identity matching.  Every (presented names, reference identity) pair of the enumerated spaces is judged by an
 * independent definition with three answers: covered, not covered, or left open by the property (-1). */
#include "hx.h"
#include "pkix.h"
#include "hitls_pki_x509.h"
#include "hitls_pki_cert.h"
#include "hitls_pki_types.h"
#include "hitls_pki_errno.h"
#include "bsl_types.h"
#include <arpa/inet.h>
#define PART HITLS_X509_FLAG_VFY_WITH_PARTIAL_WILDCARD
typedef struct { int type; const char *p; int n; } GN;     /* type: context tag number; 0 = SRV-ID */

static char low(char c) { return c >= 'A' && c <= 'Z' ? (char)(c + 32) : c; }
static bool ieq(const char *a, int an, const char *b, int bn)
{
    if (an != bn) { return false; }
    for (int i = 0; i < an; i++) { if (low(a[i]) != low(b[i])) { return false; } }
    return true;
}
static bool has_empty_label(const char *p, int n)
{
    bool e = true;
    for (int i = 0; i < n; i++) { if (p[i] == '.') { if (e) { return true; } e = true; } else { e = false; } }
    return e;
}
static int match(const char *p, int pn, const char *h, int hn, bool partial)
{
    if (pn == 0 || hn == 0 || memchr(p, 0, (size_t)pn)) { return 0; }
    int stars = 0, first = -1;
    for (int i = 0; i < pn; i++) { if (p[i] == '*') { stars++; if (first < 0) { first = i; } } }
    if (ieq(p, pn, h, hn)) { return stars || has_empty_label(p, pn) ? -1 : 1; }
    if (stars && memchr(h, '*', (size_t)hn)) { return -1; }       /* no host name contains an asterisk */
    if (stars != 1) { return 0; }
    const char *pd = memchr(p, '.', (size_t)pn), *hd = memchr(h, '.', (size_t)hn);
    int pl = pd ? (int)(pd - p) : pn, hl = hd ? (int)(hd - h) : hn;
    if (first >= pl) { return 0; }
    if (!ieq(p + pl, pn - pl, h + hl, hn - hl)) { return 0; }
    int pre = first, suf = pl - first - 1;
    if (hl == 0 && pre + suf == 0) { return -1; }                 /* "*.a.b" and ".a.b": existing behaviour, not a host name */
    if (pre + suf > 0) {
        if (!partial) { return 0; }
        if (hl < pre + suf || !ieq(p, pre, h, pre) || !ieq(p + first + 1, suf, h + hl - suf, suf)) { return 0; }
        if (hl == pre + suf) { return -1; }
        if ((pre >= 4 && ieq(p, 4, "xn--", 4)) || (hl >= 4 && ieq(h, 4, "xn--", 4))) { return -1; }
    }
    if (pd == NULL || has_empty_label(p + pl + 1, pn - pl - 1)) { return -1; }
    return memchr(p + pl + 1, '.', (size_t)(pn - pl - 1)) ? 1 : -1;
}

static HITLS_X509_Cert *mk(const GN *g, int ng, const char *cn, int cnLen, int cnTag)
{
    Buf ex = {0}, seq = {0}, inner = {0};
    for (int i = 0; i < ng; i++) {
        if (g[i].type == 0) {
            Buf o = {0}, v = {0};
            der_oid(&o, "1.3.6.1.5.5.7.8.7");
            der_tlv(&v, 0x16, g[i].p, (size_t)g[i].n);
            der_wrap(&o, 0xA0, &v);
            der_wrap(&inner, 0xA0, &o);
        } else { der_tlv(&inner, 0x80 | g[i].type, g[i].p, (size_t)g[i].n); }
    }
    if (ng > 0) {
        Buf e = {0};
        der_wrap(&seq, 0x30, &inner);
        der_oid(&e, "2.5.29.17");
        der_tlv(&e, 0x04, seq.p, seq.n);
        buf_free(&seq);
        der_wrap(&ex, 0x30, &e);
    }
    Buf subj = {0};
    if (cn) {
        Buf a = {0}, s = {0}, n = {0};
        der_oid(&a, "2.5.4.3");
        der_tlv(&a, cnTag, cn, (size_t)cnLen);
        der_wrap(&s, 0x30, &a);
        der_wrap(&n, 0x31, &s);
        der_wrap(&subj, 0x30, &n);
    } else {
        Buf a = {0}, s = {0}, n = {0};
        der_oid(&a, "2.5.4.10");
        der_tlv(&a, 0x0c, "org", 3);
        der_wrap(&s, 0x30, &a);
        der_wrap(&n, 0x31, &s);
        der_wrap(&subj, 0x30, &n);
    }
    Buf der = {0};
    PxCert c = { .serial = 5, .issuer = "issuer", .subject = "x", .from = 1500000000, .to = 4000000000, .pub = px_key(PK_EC256, 0),
        .signer = px_key(PK_EC256, 0), .bcons = -1, .pathlen = -1, .rawExt = ng > 0 ? &ex : NULL, .rawSubject = &subj };
    px_cert(&c, &der);
    HITLS_X509_Cert *x = NULL;
    BSL_Buffer b = { der.p, (uint32_t)der.n };
    if (HITLS_X509_CertParseBuff(BSL_FORMAT_ASN1, &b, &x) != 0) { x = NULL; }
    buf_free(&der); buf_free(&ex); buf_free(&subj);
    return x;
}
static uint64_t nacc, nrej;
static void judge(HITLS_X509_Cert *x, uint32_t flags, uint32_t type, const char *h, int want, const char *what)
{
    int32_t r = HITLS_X509_VerifyIdentity(x, flags, type, h, (uint32_t)strlen(h));
    BSL_ERR_ClearError();
    mc_transitions(1);
    if (r == 0) { nacc++; } else { nrej++; }
    if (mc_replaying) { mc_note("type %u flags %u %s vs \"%s\" -> %x want %d", type, flags, what, h, (unsigned)r, want); }
    if (want == 1) { MC_CHECK(r == 0, "%s covers \"%s\" (type %u, flags %u) but was refused: %x", what, h, type, flags, (unsigned)r); }
    if (want == 0) { MC_CHECK(r != 0, "%s does not cover \"%s\" (type %u, flags %u) but was accepted", what, h, type, flags); }
}
static char hosts[4096][12]; static int nhosts;
static void gen_hosts(const char *al, int maxn)
{
    int k = (int)strlen(al);
    for (int n = 1; n <= maxn; n++) {
        long tot = 1; for (int i = 0; i < n; i++) { tot *= k; }
        for (long v = 0; v < tot && nhosts < 4096; v++) {
            long w = v; for (int i = 0; i < n; i++) { hosts[nhosts][i] = al[w % k]; w /= k; }
            hosts[nhosts][n] = 0; nhosts++;
        }
    }
}
static void run_hosts(HITLS_X509_Cert *x, const GN *g, int ng, const char *what)
{
    for (uint32_t fl = 0; fl <= 1; fl++) {
        for (int i = 0; i < nhosts; i++) {
            int want = 0, l = (int)strlen(hosts[i]);
            for (int j = 0; j < ng && want != 1; j++) { if (g[j].type == 2) { int m = match(g[j].p, g[j].n, hosts[i], l, fl != 0); want = m == 1 ? 1 : m == -1 ? -1 : want; } }
            judge(x, fl ? PART : 0, HITLS_GEN_DNS, hosts[i], want, what);
        }
    }
}
static void patterns(void)
{
    mc_space("patterns");
    nhosts = 0; gen_hosts("a.", mc_thorough ? 9 : 7); gen_hosts("aAb.", mc_thorough ? 5 : 4); gen_hosts("a*.", 5);
    const char *al = "a*."; int maxn = mc_thorough ? 7 : 6;
    for (int n = 1; n <= maxn; n++) {
        long tot = 1; for (int i = 0; i < n; i++) { tot *= 3; }
        for (long v = 0; v < tot; v++) {
            char p[12] = {0}; long w = v; for (int i = 0; i < n; i++) { p[i] = al[w % 3]; w /= 3; }
            if (mc_case("pattern %s", p)) {
                GN g = { 2, p, n };
                char what[32]; snprintf(what, sizeof what, "DNS \"%s\"", p);
                HITLS_X509_Cert *x = mk(&g, 1, NULL, 0, 0);
                if (!x) { continue; }
                run_hosts(x, &g, 1, what);
                HITLS_X509_CertFree(x);
                mc_outcome(&nacc, 8); mc_trace(1);
            }
            if (n <= 4 && mc_case("cn %s", p)) {
                /* the common name counts without alternative DNS names only */
                char what[40];
                static const uint8_t ip4[4] = { 1, 2, 3, 4 };
                GN gip = { 7, (const char *)ip4, 4 }, go[2] = { { 2, "other.example", 13 }, { 7, (const char *)ip4, 4 } }, gem = { 1, "a@b.c", 5 };
                struct { const GN *g; int n; bool cn; const char *t; } v2[] = { { NULL, 0, true, "no SAN" }, { &gip, 1, true, "IP SAN" }, { &gem, 1, true, "mail SAN" }, { go, 2, false, "DNS SAN" } };
                for (int k = 0; k < 4; k++) {
                    snprintf(what, sizeof what, "CN \"%s\" with %s", p, v2[k].t);
                    HITLS_X509_Cert *x = mk(v2[k].g, v2[k].n, p, n, 0x0c);
                    if (!x) { continue; }
                    for (uint32_t fl = 0; fl <= 1; fl++) {
                        for (int i = 0; i < nhosts; i++) { judge(x, fl ? PART : 0, HITLS_GEN_DNS, hosts[i], v2[k].cn ? match(p, n, hosts[i], (int)strlen(hosts[i]), fl) : 0, what); }
                    }
                    HITLS_X509_CertFree(x);
                }
                mc_outcome(&nacc, 8); mc_trace(1);
            }
        }
    }
}
static void labels(void)
{
    mc_space("labels");
    static const char *pl[] = { "", "a", "ab", "*", "a*", "*b", "a*b", "**", "xn--a", "1", "*a*" };
    static const char *hl[] = { "", "a", "AB", "b", "aab", "xn--a", "1", "*", "a-b_c" };
    int P = MC_LEN(pl), H = MC_LEN(hl), dep = mc_thorough ? 4 : 3;
    for (int n = 1; n <= dep; n++) {
        long tot = 1; for (int i = 0; i < n; i++) { tot *= P; }
        for (long v = 0; v < tot; v++) {
            char p[64] = ""; long w = v;
            for (int i = 0; i < n; i++) { if (i) { strcat(p, "."); } strcat(p, pl[w % P]); w /= P; }
            if (p[0] == 0 || !mc_case("labels %s", p)) { continue; }
            GN g = { 2, p, (int)strlen(p) };
            char what[80]; snprintf(what, sizeof what, "DNS \"%s\"", p);
            HITLS_X509_Cert *x = mk(&g, 1, NULL, 0, 0);
            if (!x) { continue; }
            for (int m = 1; m <= 3; m++) {
                long ht = 1; for (int i = 0; i < m; i++) { ht *= H; }
                for (long u = 0; u < ht; u++) {
                    char h[64] = ""; long q = u;
                    for (int i = 0; i < m; i++) { if (i) { strcat(h, "."); } strcat(h, hl[q % H]); q /= H; }
                    if (h[0] == 0) { continue; }
                    for (uint32_t fl = 0; fl <= 1; fl++) { judge(x, fl ? PART : 0, HITLS_GEN_DNS, h, match(p, g.n, h, (int)strlen(h), fl), what); }
                }
            }
            HITLS_X509_CertFree(x);
            mc_outcome(&nacc, 8); mc_trace(1);
        }
    }
}
static void lists(void)
{
    mc_space("name lists");
    static const uint8_t ip4[4] = { 10, 0, 0, 1 };
    static const GN pool[] = { { 2, "host.example.com", 16 }, { 2, "*.example.com", 13 }, { 2, "other.org", 9 }, { 2, "host.example.com\0.evil", 22 }, { 2, "*.example.com\0", 14 },
        { 1, "host.example.com", 16 }, { 6, "https://host.example.com", 24 }, { 7, (const char *)ip4, 4 }, { 7, "host", 4 }, { 0, "_x.host.example.com", 19 }, { 2, "10.0.0.1", 8 }, { 6, "host.example.com", 16 }, { 2, "", 0 } };
    static const char *ref[] = { "host.example.com", "HOST.EXAMPLE.COM", "foo.example.com", "a.host.example.com", "example.com", ".example.com", "other.org", "evil", "host.example.com.", "10.0.0.1" };
    int P = MC_LEN(pool), dep = mc_thorough ? 4 : 3;
    for (int n = 0; n <= dep; n++) {
        long tot = 1; for (int i = 0; i < n; i++) { tot *= P; }
        for (long v = 0; v < tot; v++) {
            for (int cn = 0; cn < 2; cn++) {
                if (!mc_case("list %d:%ld cn %d", n, v, cn)) { continue; }
                GN g[4]; long w = v; bool empty = false, dns = false;
                char what[128] = "";
                for (int i = 0; i < n; i++) { g[i] = pool[w % P]; snprintf(what + strlen(what), 20, "%d,", (int)(w % P)); w /= P; empty |= g[i].n == 0; dns |= g[i].type == 2; }
                HITLS_X509_Cert *x = mk(g, n, cn ? "host.example.com" : NULL, 16, 0x0c);
                if (!x) { continue; }
                for (int r = 0; r < (int)MC_LEN(ref); r++) {
                    for (uint32_t fl = 0; fl <= 1; fl++) {
                        int want = 0, l = (int)strlen(ref[r]);
                        for (int i = 0; i < n && want != 1; i++) { if (g[i].type == 2) { int m = match(g[i].p, g[i].n, ref[r], l, fl); want = m ? m : want; } }
                        if (!dns && cn) { want = match("host.example.com", 16, ref[r], l, fl); }
                        if (want == 1 && empty) { want = -1; }
                        judge(x, fl ? PART : 0, HITLS_GEN_DNS, ref[r], want, what);
                    }
                    int wip = 0;
                    if (r == 9) { for (int i = 0; i < n; i++) { if (g[i].type == 7 && g[i].n == 4 && memcmp(g[i].p, ip4, 4) == 0) { wip = empty ? -1 : 1; } } }
                    judge(x, 0, HITLS_GEN_IP, ref[r], wip, what);
                }
                HITLS_X509_CertFree(x);
                mc_outcome(&nacc, 8); mc_trace(1);
            }
        }
    }
}
static void nul(void)
{
    mc_space("embedded NUL");
    static const char *names[] = { "a.example.com", "*.example.com", "www.bank.com" };
    for (int t = 0; t < 5; t++) {
        for (int k = 0; k < 3; k++) {
            int L = (int)strlen(names[k]);
            for (int pos = 0; pos <= L; pos++) {
                for (int rep = 0; rep < 2; rep++) {
                    if (rep && pos == L) { continue; }
                    if (!mc_case("nul type %d name %d pos %d rep %d", t, k, pos, rep)) { continue; }
                    char b[64] = {0}, b2[64]; int n = 0;
                    memcpy(b, names[k], (size_t)pos); n = pos; b[n++] = 0; memcpy(b + n, names[k] + pos + rep, (size_t)(L - pos - rep)); n += L - pos - rep;
                    const char *pfx = t == 2 ? "https://" : t == 3 ? "_x." : "";
                    int pn = (int)strlen(pfx); memcpy(b2, pfx, (size_t)pn); memcpy(b2 + pn, b, (size_t)n); b2[pn + n] = 0;
                    GN g = { t == 0 ? 2 : t == 2 ? 6 : 0, b2, pn + n };
                    int tags[] = { 0x0c, 0x13, 0x14, 0x16 };
                    HITLS_X509_Cert *x = t == 1 || t == 4 ? mk(NULL, 0, b, n, t == 4 ? tags[1 + k % 3] : 0x0c) : mk(&g, 1, NULL, 0, 0);
                    if (!x) { continue; }
                    char h[80]; char what[64]; snprintf(what, sizeof what, "name %s with NUL at %d", names[k], pos);
                    /* references: everything a C string comparison could confuse the name with */
                    char cand[6][64] = { "", "", "", "a.example.com", "www.bank.com", "b.example.com" };
                    memcpy(cand[0], names[k], (size_t)pos); memcpy(cand[1], names[k], (size_t)L); strcpy(cand[2], names[k] + pos + rep);
                    for (int c = 0; c < 6; c++) {
                        if (!cand[c][0]) { continue; }
                        snprintf(h, sizeof h, "%s%s", pfx, cand[c]);
                        for (uint32_t fl = 0; fl <= 1; fl++) { judge(x, fl ? PART : 0, t == 2 ? HITLS_GEN_URI : t == 3 ? HITLS_GEN_SRV : HITLS_GEN_DNS, h, 0, what); }
                    }
                    HITLS_X509_CertFree(x);
                    mc_outcome(&nrej, 8); mc_trace(1);
                }
            }
        }
    }
}
static void ips(void)
{
    mc_space("addresses");
    static const char *txt[] = { "0.0.0.0", "1.2.3.4", "255.255.255.255", "127.0.0.1", "::", "::1", "2001:db8::1", "::ffff:1.2.3.4", "fe80:1:2:3:4:5:6:7", "2001:DB8::1", "::1.2.3.4",
        "1:2:3:4:5:6:7::", "1::8", "01.2.3.4", "1.2.3", "1.2.3.4.5", "1.2.3.256", "1.2.3.4 ", " 1.2.3.4", "1.2.3.4/8", "0x1.2.3.4", "1::2::3", ":::", "12345::", "1:2:3:4:5:6:7:8:9", "::g", "[::1]", "1.2.3.", "*.2.3.4", "a" };
    int T = MC_LEN(txt);
    for (int a = 0; a < 13; a++) {
        uint8_t v[17] = {0}; int n = strchr(txt[a], ':') ? 16 : 4;
        if (inet_pton(n == 16 ? AF_INET6 : AF_INET, txt[a], v) != 1) { mc_fatal("pton %s", txt[a]); }
        for (int m = -2; m < n * 8; m++) {
            for (int len = m == -2 ? 0 : n; len <= (m == -2 ? 17 : n); len++) {
                if (!mc_case("ip %s change %d length %d", txt[a], m, len)) { continue; }
                uint8_t w[32] = {0}; memcpy(w, v, 16);
                if (m >= 0) { w[m / 8] ^= (uint8_t)(0x80 >> (m % 8)); }
                /* the same text as a DNS name or URI is no address */
                GN g[4] = { { 7, (const char *)w, len }, { 2, txt[a], (int)strlen(txt[a]) }, { 6, txt[a], (int)strlen(txt[a]) }, { 1, txt[a], (int)strlen(txt[a]) } };
                for (int only = 0; only < 2; only++) {
                    HITLS_X509_Cert *x = mk(g + only, only ? 3 : 1, txt[a], (int)strlen(txt[a]), 0x0c);
                    if (!x) { continue; }
                    for (int t = 0; t < T; t++) {
                        uint8_t u[16]; int un = 0;
                        if (inet_pton(AF_INET6, txt[t], u) == 1) { un = 16; } else if (inet_pton(AF_INET, txt[t], u) == 1) { un = 4; }
                        int want = !only && un == len && un != 0 && memcmp(u, w, (size_t)un) == 0;
                        judge(x, 0, HITLS_GEN_IP, txt[t], want, only ? "address text in other name types" : "address");
                    }
                    HITLS_X509_CertFree(x);
                }
                mc_outcome(&nacc, 8); mc_trace(1);
            }
        }
    }
}
/* URI and SRV identities: scheme or service must be equal (ASCII case ignored) and the host part must be covered */
static bool uri_split(const char *u, int n, int *sn, const char **h, int *hn)
{
    const char *c = memchr(u, ':', (size_t)n);
    if (!c || c == u) { return false; }
    *sn = (int)(c - u);
    const char *p = c + 1, *end = u + n;
    bool auth = end - p >= 2 && p[0] == '/' && p[1] == '/';
    if (auth) { p += 2; }
    const char *e = p;
    while (e < end && *e != '?' && *e != '#' && *e != '/' && (auth || *e != ';')) { e++; }
    for (const char *q = p; q < e; q++) { if (*q == '@') { p = q + 1; } }
    const char *co = memchr(p, ':', (size_t)(e - p));
    if (co) {
        int v = 0;
        if (co + 1 == e) { return false; }
        for (const char *q = co + 1; q < e; q++) { if (*q < '0' || *q > '9' || (v = v * 10 + *q - '0') > 65535) { return false; } }
        e = co;
    }
    if (e == p) { return false; }
    *h = p; *hn = (int)(e - p);
    return true;
}
static void uris(void)
{
    mc_space("URI and SRV names");
    static const char *sch[] = { "http", "HTTP", "https", "sip", "" };
    static const char *user[] = { "", "u@", "a.b.c@", "a@b@" };
    static const char *host[] = { "a.b.c", "x.b.c", "*.b.c", "x*.b.c", "", ".b.c", "b.c", "a.b.c.evil", "A.B.C", "xy.b.c" };
    static const char *tail[] = { "", ":80", ":65536", ":", "/p", "?a.b.c", "#@x.b.c", "/@x.b.c", ";t", ":80/@a.b.c", "\\@a.b.c" };
    static char all[2048][48]; int na = 0;
    for (int s = 0; s < 5; s++) { for (int sep = 0; sep < 2; sep++) { for (int u = 0; u < 4; u++) { for (int h = 0; h < 10; h++) { for (int t = 0; t < 11; t++) {
        if (u > 1 && t > 1 && !mc_thorough) { continue; }
        if (s == 4 && (u || t)) { continue; }
        if (na < 2048 && snprintf(all[na], 48, "%s:%s%s%s%s", sch[s], sep ? "//" : "", user[u], host[h], tail[t]) > 0) { na++; }
    } } } } }
    /* a backslash has no agreed meaning in a URI; a pair is judged without it only */
    for (int i = 0; i < na; i++) {
        if (!mc_case("uri %s", all[i])) { continue; }
        GN g = { 6, all[i], (int)strlen(all[i]) };
        HITLS_X509_Cert *x = mk(&g, 1, "a.b.c", 5, 0x0c);
        if (!x) { continue; }
        int ps = 0, pn = 0, rs = 0, rn = 0; const char *ph = NULL, *rh = NULL;
        bool pok = uri_split(all[i], g.n, &ps, &ph, &pn);
        char what[80]; snprintf(what, sizeof what, "URI \"%s\"", all[i]);
        for (int j = 0; j < na; j++) {
            if (!mc_thorough && (i * 31 + j * 17) % 5 && j > 400) { continue; }
            bool rok = uri_split(all[j], (int)strlen(all[j]), &rs, &rh, &rn);
            for (uint32_t fl = 0; fl <= 1; fl++) {
                int want = pok && rok && ieq(all[i], ps, all[j], rs) ? match(ph, pn, rh, rn, fl) : 0;
                if (strchr(all[i], '\\') || strchr(all[j], '\\')) { want = -1; }
                judge(x, fl ? PART : 0, HITLS_GEN_URI, all[j], want, what);
            }
        }
        HITLS_X509_CertFree(x);
        mc_outcome(&nacc, 8); mc_trace(1);
    }
    static const char *svc[] = { "_x", "_X", "_xy", "_", "x", "", "_x._y", "__x" };
    static char sv[256][48]; int ns = 0;
    for (int s = 0; s < 8; s++) { for (int h = 0; h < 10; h++) { for (int d = 0; d < 2; d++) { snprintf(sv[ns++], 48, "%s%s%s", svc[s], d ? "" : ".", host[h]); } } }
    for (int i = 0; i < ns; i++) {
        if (!mc_case("srv %d %s", i, sv[i])) { continue; }
        GN g = { 0, sv[i], (int)strlen(sv[i]) };
        HITLS_X509_Cert *x = mk(&g, 1, "a.b.c", 5, 0x0c);
        if (!x) { continue; }
        char what[80]; snprintf(what, sizeof what, "SRV \"%s\"", sv[i]);
        for (int j = 0; j < ns; j++) {
            const char *pd = strchr(sv[i], '.'), *rd = strchr(sv[j], '.');
            bool ok = sv[i][0] == '_' && sv[j][0] == '_' && pd && rd && pd > sv[i] + 1 && rd > sv[j] + 1 && pd[1] && rd[1] && ieq(sv[i], (int)(pd - sv[i]), sv[j], (int)(rd - sv[j]));
            for (uint32_t fl = 0; fl <= 1; fl++) { if (sv[j][0]) { judge(x, fl ? PART : 0, HITLS_GEN_SRV, sv[j], ok ? match(pd + 1, (int)strlen(pd + 1), rd + 1, (int)strlen(rd + 1), fl) : 0, what); } }
        }
        HITLS_X509_CertFree(x);
        mc_outcome(&nacc, 8); mc_trace(1);
    }
}
/* the same decisions through a store: every sequence of settings up to the depth, then chain verification */
static void store(void)
{
    mc_space("store settings");
    static const uint8_t ip4[4] = { 1, 2, 3, 4 }, ip4b[4] = { 1, 2, 3, 5 };
    static const struct { int cmd; const char *v; } ops[] = { { HITLS_X509_STORECTX_SET_HOST, "a.b.c" }, { HITLS_X509_STORECTX_ADD_HOST, "xq.b.c" }, { HITLS_X509_STORECTX_SET_HOST, NULL },
        { HITLS_X509_STORECTX_SET_HOST, "1.2.3.4" }, { HITLS_X509_STORECTX_ADD_HOST, "1.2.3.5" }, { HITLS_X509_STORECTX_SET_URI_ID, "sip:a.b.c" }, { HITLS_X509_STORECTX_ADD_URI_ID, "sip:x.b.c" },
        { HITLS_X509_STORECTX_SET_SRV_ID, "_x.a.b.c" }, { HITLS_X509_STORECTX_SET_HOST_FLAG, "P" }, { HITLS_X509_STORECTX_SET_URI_ID, NULL }, { HITLS_X509_STORECTX_ADD_HOST, "y.q.r" } };
    static const GN c0[] = { { 2, "a.b.c", 5 } }, c1[] = { { 2, "xq.b.c", 6 }, { 7, (const char *)ip4, 4 } }, c2[] = { { 2, "*.b.c", 5 }, { 6, "sip:*.b.c", 9 }, { 7, (const char *)ip4b, 4 } }, c3[] = { { 2, "x*.b.c", 6 }, { 6, "sip:a.b.c", 9 }, { 0, "_x.a.b.c", 8 } },
        c4[] = { { 7, (const char *)ip4, 4 }, { 6, "sip:x.b.c", 9 } }, c5[] = { { 2, "1.2.3.4", 7 }, { 2, "y.q.r", 5 }, { 0, "_x.a.b.c", 8 } };
    static const struct { const GN *g; int n; const char *cn; } certs[] = { { c0, 1, NULL }, { c1, 2, NULL }, { c2, 3, NULL }, { c3, 3, "a.b.c" }, { c4, 2, "a.b.c" }, { c5, 3, NULL }, { NULL, 0, "a.b.c" }, { NULL, 0, "1.2.3.4" } };
    int N = MC_LEN(ops), C = MC_LEN(certs), dep = mc_thorough ? 4 : 3;
    Buf cad = {0};
    PxCert cac = { .serial = 1, .issuer = "issuer", .subject = "issuer", .from = 1500000000, .to = 4000000000, .pub = px_key(PK_EC256, 0), .signer = px_key(PK_EC256, 0), .bcons = 1, .pathlen = -1 };
    px_cert(&cac, &cad);
    BSL_Buffer cab = { cad.p, (uint32_t)cad.n };
    HITLS_X509_Cert *ca = NULL;
    if (HITLS_X509_CertParseBuff(BSL_FORMAT_ASN1, &cab, &ca) != 0) { mc_fatal("ca"); }
    for (int n = 0; n <= dep; n++) {
        long tot = 1; for (int i = 0; i < n; i++) { tot *= N; }
        for (long v = 0; v < tot; v++) {
            if (!mc_case("store %d:%ld", n, v)) { continue; }
            for (int c = 0; c < C; c++) {
                for (int dup = 0; dup < 2; dup++) {
                    HITLS_X509_Cert *x = mk(certs[c].g, certs[c].n, certs[c].cn, certs[c].cn ? (int)strlen(certs[c].cn) : 0, 0x0c);
                    HITLS_X509_StoreCtx *st = HITLS_X509_StoreCtxNew();
                    if (HITLS_X509_StoreCtxCtrl(st, HITLS_X509_STORECTX_DEEP_COPY_SET_CA, ca, 0) != 0) { mc_fatal("set ca"); }
                    const char *hl[8], *ul[8], *sl[8]; int hn = 0, un = 0, sn = 0; const uint8_t *ip = NULL; bool part = false;
                    long w = v;
                    for (int i = 0; i < n; i++) {
                        int o = (int)(w % N); w /= N;
                        int32_t r;
                        if (ops[o].cmd == HITLS_X509_STORECTX_SET_HOST_FLAG) { uint32_t f = PART; r = HITLS_X509_StoreCtxCtrl(st, ops[o].cmd, &f, sizeof f); part = true; MC_CHECK(r == 0, "flag %x", (unsigned)r); continue; }
                        r = HITLS_X509_StoreCtxCtrl(st, ops[o].cmd, (void *)(uintptr_t)ops[o].v, 0);
                        mc_transitions(1);
                        bool add2 = o == 4 && ip != NULL;
                        MC_CHECK((r == 0) == !add2, "setting %d answers %x", o, (unsigned)r);
                        switch (o) {
                            case 0: hn = 0; hl[hn++] = ops[o].v; break;
                            case 1: case 10: hl[hn++] = ops[o].v; break;
                            case 2: hn = 0; ip = NULL; break;
                            case 3: ip = ip4; break;
                            case 4: if (!ip) { ip = ip4b; } break;
                            case 5: un = 0; ul[un++] = ops[o].v; break;
                            case 6: ul[un++] = ops[o].v; break;
                            case 7: sn = 0; sl[sn++] = ops[o].v; break;
                            case 9: un = 0; break;
                            default: break;
                        }
                    }
                    if (dup) { HITLS_X509_StoreCtx *s2 = HITLS_X509_StoreCtxDup(st); if (!s2) { mc_fail("duplicate"); } else { HITLS_X509_StoreCtxFree(st); st = s2; } }
                    const GN *g = certs[c].g; int ng = certs[c].n; bool dns = false;
                    for (int i = 0; i < ng; i++) { dns |= g[i].type == 2; }
                    int want = 1;
                    if (hn) { int k = 0; for (int i = 0; i < hn; i++) { for (int j = 0; j < ng; j++) { if (g[j].type == 2 && match(g[j].p, g[j].n, hl[i], (int)strlen(hl[i]), part) == 1) { k = 1; } }
                        if (!dns && certs[c].cn && match(certs[c].cn, (int)strlen(certs[c].cn), hl[i], (int)strlen(hl[i]), part) == 1) { k = 1; } } want &= k; }
                    if (ip) { int k = 0; for (int j = 0; j < ng; j++) { if (g[j].type == 7 && memcmp(g[j].p, ip, 4) == 0) { k = 1; } } want &= k; }
                    if (un) { int k = 0; for (int i = 0; i < un; i++) { for (int j = 0; j < ng; j++) { if (g[j].type == 6 && match(g[j].p + 4, g[j].n - 4, ul[i] + 4, (int)strlen(ul[i]) - 4, part) == 1) { k = 1; } } } want &= k; }
                    if (sn) { int k = 0; for (int j = 0; j < ng; j++) { if (g[j].type == 0) { k = 1; } } want &= k; }
                    HITLS_X509_List *chain = BSL_LIST_New(sizeof(void *));
                    (void)BSL_LIST_AddElement(chain, x, BSL_LIST_POS_END);
                    int32_t r = HITLS_X509_CertVerify(st, chain);
                    BSL_ERR_ClearError();
                    mc_transitions(1);
                    if (mc_replaying) { mc_note("cert %d dup %d want %d -> %x", c, dup, want, (unsigned)r); }
                    MC_CHECK((r == 0) == (want != 0), "certificate %d, duplicated %d: should be %s, verification answers %x", c, dup, want ? "accepted" : "refused", (unsigned)r);
                    if (r == 0) { nacc++; } else { nrej++; }
                    BSL_LIST_FREE(chain, (BSL_LIST_PFUNC_FREE)HITLS_X509_CertFree);
                    HITLS_X509_StoreCtxFree(st);
                }
            }
            mc_outcome(&nacc, 8); mc_trace(1);
        }
    }
}
void mc_explore(void)
{
    hx_init();
    mc_case_cost(60);
    patterns();
    labels();
    lists();
    nul();
    ips();
    uris();
    store();
}
