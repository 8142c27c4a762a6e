/* C20: big-number arithmetic against schoolbook arithmetic on 32-bit digits, over all operands built from limb patterns. */
#include "hx.h"
#include "crypt_bn.h"
#include "zint.h"
/* ---- bridge ---- */
static uint8_t bb[4 * MAXW + 8];
static void toB(BN_BigNum *b, const Z *a) { for (int i = 0; i < a->n; i++) { int k = 4 * (a->n - 1 - i); bb[k] = a->d[i] >> 24; bb[k + 1] = a->d[i] >> 16; bb[k + 2] = a->d[i] >> 8; bb[k + 3] = a->d[i]; } if (a->n == 0) { BN_Zeroize(b); BN_SetSign(b, false); return; } if (BN_Bin2Bn(b, bb, 4 * a->n)) { mc_fatal("Bin2Bn"); } BN_SetSign(b, a->neg); }
static void toZ(Z *a, const BN_BigNum *b) { uint32_t l = (BN_Bytes(b) + 3) / 4 * 4; a->n = l / 4; a->neg = 0; if (l > 4 * MAXW) { mc_fatal("too large"); } if (l && BN_Bn2BinFixZero(b, bb, l)) { mc_fatal("Bn2Bin"); } for (int i = 0; i < a->n; i++) { int k = 4 * (a->n - 1 - i); a->d[i] = (uint32_t)bb[k] << 24 | bb[k + 1] << 16 | bb[k + 2] << 8 | bb[k + 3]; } a->neg = BN_IsNegative(b); if (a->n && a->d[a->n - 1] == 0) { mc_fail("value is not normalised"); } bool neg = a->neg; zn(a); if (neg && !a->n) { mc_fail("negative zero"); } if (BN_IsZero(b) != (a->n == 0) || BN_Bits(b) != (uint32_t)zbits(a)) { mc_fail("size does not fit the value"); } }
static BN_BigNum *A, *B, *M, *R, *Q; static BN_Optimizer *O;
static Z za, zb, zm, zr, zq, ze, zt;
static bool same(const BN_BigNum *b, const Z *e, const char *what, int32_t ret) { mc_transitions(1); if (ret) { mc_fail("%s failed with %x for %s, %s, %s", what, ret, zs(&za), zs(&zb), zs(&zm)); return false; } Z g; toZ(&g, b); if (g.neg != e->neg || zc(&g, e)) { mc_fail("%s gives %s, expected %s (operands %s, %s, %s)", what, zs(&g), zs(e), zs(&za), zs(&zb), zs(&zm)); return false; } return true; }
static bool cmpA(const char *what) { Z g; toZ(&g, A); if (g.neg != za.neg || zc(&g, &za)) { mc_fail("%s changed its operand", what); return false; } return true; }
static void ld(void) { toB(A, &za); toB(B, &zb); }
/* one operand */
static void unary(void)
{
    ld(); zmul(&ze, &za, &za); same(R, &ze, "square", BN_Sqr(R, A, O)); int32_t r;
    BN_BigNum *d = BN_Dup(A); if (!d) { mc_fail("dup"); } else { same(d, &za, "dup", 0); if (BN_Cmp(d, A)) { mc_fail("a duplicate compares unequal"); } BN_Destroy(d); }
    same(R, &za, "copy", BN_Copy(R, A));
    if (BN_IsOne(A) != (za.n == 1 && za.d[0] == 1 && !za.neg) || BN_IsOdd(A) != (za.n && (za.d[0] & 1))) { mc_fail("one/odd test of %s", zs(&za)); } if (BN_Bytes(A) != (uint32_t)(zbits(&za) + 7) / 8) { mc_fail("byte length of %s", zs(&za)); }
    static const uint32_t sh[] = {0, 1, 2, 31, 32, 33, 63, 64, 65, 127, 128, 129, 191, 192, 193, 320, 1000};
    for (unsigned i = 0; i < MC_LEN(sh); i++) { zshl(&ze, &za, sh[i]); same(R, &ze, "left shift", BN_Lshift(R, A, sh[i])); r = BN_Lshift(A, A, sh[i]); same(A, &ze, "left shift in place", r); toB(A, &za); zshr(&ze, &za, sh[i]); same(R, &ze, "right shift", BN_Rshift(R, A, sh[i])); r = BN_Rshift(A, A, sh[i]); same(A, &ze, "right shift in place", r); toB(A, &za);
        bool bit = (int)sh[i] / 32 < za.n && (za.d[sh[i] / 32] >> sh[i] % 32 & 1); if (BN_GetBit(A, sh[i]) != bit) { mc_fail("bit %u of %s", sh[i], zs(&za)); }
        if ((int)sh[i] < zbits(&za)) { Z t; zcp(&t, &za); t.d[sh[i] / 32] &= ~(1u << sh[i] % 32); zn(&t); r = BN_ClrBit(A, sh[i]); Z g; if (!r) { toZ(&g, A); g.neg = t.neg; if (zc(&g, &t)) { mc_fail("clearing bit %u of %s", sh[i], zs(&za)); } } toB(A, &za); zcp(&t, &za); t.d[sh[i] / 32] |= 1u << sh[i] % 32; same(A, &t, "set bit", BN_SetBit(A, sh[i])); toB(A, &za); zcp(&t, &za); int w = sh[i] / 32; t.n = w + 1 < t.n ? w + 1 : t.n; t.d[w] &= (1ull << sh[i] % 32) - 1; zn(&t); r = BN_MaskBit(A, sh[i]); if (!r) { toZ(&g, A); if (zc(&g, &t)) { mc_fail("masking %s to %u bits gives %s", zs(&za), sh[i], zs(&g)); } } toB(A, &za); } }
    char *h = BN_Bn2Hex(A), *dc = BN_Bn2Dec(A); if (!h || !dc) { mc_fail("text conversion failed"); } else { BN_BigNum *x = NULL; r = BN_Hex2Bn(&x, h); same(x, &za, "hex round trip", r); BN_Destroy(x); x = NULL; r = BN_Dec2Bn(&x, dc); same(x, &za, "decimal round trip", r); BN_Destroy(x); /* decimal text against repeated division */
        static char t[4000]; int k = sizeof t - 1; t[k] = 0; Z v, ten; zcp(&v, &za); v.neg = 0; ten.n = 1; ten.neg = 0; ten.d[0] = 1000000000; if (!v.n) { t[--k] = '0'; } while (v.n) { zdivm(&zq, &zr, &v, &ten); uint32_t low = zr.n ? zr.d[0] : 0; zcp(&v, &zq); for (int i = 0; i < 9 && (v.n || low); i++) { t[--k] = '0' + low % 10; low /= 10; } } if (za.neg) { t[--k] = '-'; } if (strcmp(t + k, dc)) { mc_fail("decimal text %s, expected %s", dc, t + k); } }
    BSL_SAL_Free(h); BSL_SAL_Free(dc);
    uint32_t need = BN_Bytes(A), l; uint8_t o[1700]; for (int x = -1; x <= 2; x++) { uint32_t cap = need + x; if ((int)need + x < 0) { continue; } l = cap; memset(o, 0x5a, need + 8); r = BN_Bn2Bin(A, o, &l); if (need && (r == 0) != (x >= 0)) { mc_fail("binary of %u bytes into %u: %x", need, cap, r); } if (!r && need && (l != need || o[need] != 0x5a)) { mc_fail("binary length %u of %u", l, need); } memset(o, 0x5a, need + 8); if (cap) { r = BN_Bn2BinFixZero(A, o, cap); if ((r == 0) != (x >= 0) || o[cap] != 0x5a) { mc_fail("fixed binary of %u bytes into %u: %x", need, cap, r); } if (!r) { Z g; BN_Bin2Bn(R, o, cap); BN_SetSign(R, false); toZ(&g, R); if (zc(&g, &za)) { mc_fail("fixed binary"); } } } }
    static const BN_UINT ws[] = {0, 1, 2, 3, 0x7fffffffffffffff, 0x8000000000000000, 0x8000000000000001, 0xfffffffffffffffe, 0xffffffffffffffff, 0x100000000};
    for (unsigned i = 0; i < MC_LEN(ws); i++) { zb.neg = 0; zb.n = 2; zb.d[0] = ws[i]; zb.d[1] = ws[i] >> 32; zn(&zb); zadd(&ze, &za, &zb); same(R, &ze, "add limb", BN_AddLimb(R, A, ws[i])); r = BN_AddLimb(A, A, ws[i]); same(A, &ze, "add limb in place", r); toB(A, &za); zsub(&ze, &za, &zb); same(R, &ze, "subtract limb", BN_SubLimb(R, A, ws[i])); r = BN_SubLimb(A, A, ws[i]); same(A, &ze, "subtract limb in place", r); toB(A, &za); zmul(&ze, &za, &zb); same(R, &ze, "multiply by limb", BN_MulLimb(R, A, ws[i])); r = BN_MulLimb(A, A, ws[i]); same(A, &ze, "multiply by limb in place", r); toB(A, &za);
        BN_UINT rem = 77; if (!ws[i]) { if (BN_DivLimb(R, &rem, A, 0) == 0 || BN_ModLimb(&rem, A, 0) == 0) { mc_fail("division by zero limb"); } continue; } zdivm(&zq, &zr, &za, &zb); zq.neg = za.neg; zn(&zq); BN_UINT er = (zr.n > 0 ? zr.d[0] : 0) | (zr.n > 1 ? (BN_UINT)zr.d[1] << 32 : 0); same(R, &zq, "divide by limb", BN_DivLimb(R, &rem, A, ws[i])); if (rem != er) { mc_fail("%s modulo limb %llx is %llx", zs(&za), (unsigned long long)ws[i], (unsigned long long)rem); } r = BN_DivLimb(A, &rem, A, ws[i]); same(A, &zq, "divide by limb in place", r); toB(A, &za); zmod(&zr, &za, &zb); er = (zr.n > 0 ? zr.d[0] : 0) | (zr.n > 1 ? (BN_UINT)zr.d[1] << 32 : 0); r = BN_ModLimb(&rem, A, ws[i]); if (r || rem != er) { mc_fail("%s mod limb %llx gives %llx, expected %llx", zs(&za), (unsigned long long)ws[i], (unsigned long long)rem, (unsigned long long)er); }
        if (BN_IsLimb(A, ws[i]) != (!za.neg && !zc(&za, &zb))) { mc_fail("limb comparison"); } }
    cmpA("unary operations"); uint64_t h2 = mc_hash(za.d, 4 * za.n) + za.neg; mc_outcome(&h2, 8); mc_state(h2);
}
static void binary(bool full)
{
    ld(); int32_t r; zadd(&ze, &za, &zb); same(R, &ze, "add", BN_Add(R, A, B)); if (full) { r = BN_Add(A, A, B); same(A, &ze, "add into first", r); toB(A, &za); r = BN_Add(B, A, B); same(B, &ze, "add into second", r); toB(B, &zb); }
    zsub(&ze, &za, &zb); same(R, &ze, "subtract", BN_Sub(R, A, B)); if (full) { r = BN_Sub(A, A, B); same(A, &ze, "subtract into first", r); toB(A, &za); r = BN_Sub(B, A, B); same(B, &ze, "subtract into second", r); toB(B, &zb); }
    zmul(&ze, &za, &zb); same(R, &ze, "multiply", BN_Mul(R, A, B, O)); if (full) { r = BN_Mul(A, A, B, O); same(A, &ze, "multiply into first", r); toB(A, &za); r = BN_Mul(B, A, B, O); same(B, &ze, "multiply into second", r); toB(B, &zb); }
    int c = za.neg != zb.neg ? (za.neg ? -1 : 1) : za.neg ? zc(&zb, &za) : zc(&za, &zb); int g = BN_Cmp(A, B); if ((g > 0) - (g < 0) != c) { mc_fail("comparison of %s and %s is %d", zs(&za), zs(&zb), g); }
    if (!zb.n) { if (BN_Div(Q, R, A, B, O) == 0 || BN_Mod(R, A, B, O) == 0) { mc_fail("division by zero succeeds"); } } else {
        zdivm(&zq, &zr, &za, &zb); zq.neg = za.neg ^ zb.neg; zn(&zq); zr.neg = za.neg; zn(&zr); r = BN_Div(Q, R, A, B, O); if (same(Q, &zq, "quotient", r)) { same(R, &zr, "remainder", 0); }
        if (full) { same(Q, &zq, "quotient alone", BN_Div(Q, NULL, A, B, O)); same(R, &zr, "remainder alone", BN_Div(NULL, R, A, B, O)); r = BN_Div(A, R, A, B, O); same(A, &zq, "quotient into dividend", r); same(R, &zr, "remainder beside it", 0); toB(A, &za); r = BN_Div(Q, A, A, B, O); same(A, &zr, "remainder into dividend", r); same(Q, &zq, "quotient beside it", 0); toB(A, &za); r = BN_Div(B, R, A, B, O); same(B, &zq, "quotient into divisor", r); toB(B, &zb); r = BN_Div(Q, B, A, B, O); same(B, &zr, "remainder into divisor", r); same(Q, &zq, "quotient beside divisor", 0); toB(B, &zb); }
        zmod(&ze, &za, &zb); same(R, &ze, "modulo", BN_Mod(R, A, B, O)); if (full) { r = BN_Mod(A, A, B, O); same(A, &ze, "modulo into first", r); toB(A, &za); }
        zmul(&zt, &za, &za); zmod(&ze, &zt, &zb); same(R, &ze, "modular square", BN_ModSqr(R, A, B, O)); if (full) { r = BN_ModSqr(A, A, B, O); same(A, &ze, "modular square in place", r); toB(A, &za); }
    }
    if (za.n && zb.n) { zgcd(&ze, &za, &zb); same(R, &ze, "gcd", BN_Gcd(R, A, B, O)); if (full) { r = BN_Gcd(A, A, B, O); same(A, &ze, "gcd into first", r); toB(A, &za); r = BN_Gcd(B, A, B, O); same(B, &ze, "gcd into second", r); toB(B, &zb); }
        bool one = ze.n == 1 && ze.d[0] == 1; if (!zb.neg && !(zb.n == 1 && zb.d[0] == 1)) { r = BN_ModInv(R, A, B, O); if ((r == 0) != one) { mc_fail("inverse of %s mod %s: %x", zs(&za), zs(&zb), r); } else if (!r) { toZ(&zq, R); zmul(&zt, &zq, &za); zmod(&zt, &zt, &zb); if (zt.n != 1 || zt.d[0] != 1 || zq.neg || zc(&zq, &zb) >= 0) { mc_fail("inverse of %s mod %s is %s", zs(&za), zs(&zb), zs(&zq)); } if (full) { zcp(&ze, &zq); r = BN_ModInv(A, A, B, O); same(A, &ze, "inverse in place", r); toB(A, &za); } } } }
    cmpA("binary operations"); mc_outcome(ze.d, 4 * ze.n);
}
static void ternary(void)
{
    ld(); toB(M, &zm); int32_t r; zadd(&zt, &za, &zb); zmod(&ze, &zt, &zm); same(R, &ze, "modular add", BN_ModAdd(R, A, B, M, O)); r = BN_ModAdd(A, A, B, M, O); same(A, &ze, "modular add into first", r); toB(A, &za); r = BN_ModAdd(B, A, B, M, O); same(B, &ze, "modular add into second", r); toB(B, &zb);
    zsub(&zt, &za, &zb); zmod(&ze, &zt, &zm); same(R, &ze, "modular subtract", BN_ModSub(R, A, B, M, O)); r = BN_ModSub(B, A, B, M, O); same(B, &ze, "modular subtract into second", r); toB(B, &zb);
    zmul(&zt, &za, &zb); zmod(&ze, &zt, &zm); same(R, &ze, "modular multiply", BN_ModMul(R, A, B, M, O)); r = BN_ModMul(A, A, B, M, O); same(A, &ze, "modular multiply into first", r); toB(A, &za);
    if (!za.neg && !zb.neg && !zm.neg && zc(&za, &zm) < 0 && zc(&zb, &zm) < 0) { BN_Extend(A, (zm.n + 1) / 2); BN_Extend(B, (zm.n + 1) / 2); zadd(&zt, &za, &zb); zmod(&ze, &zt, &zm); same(R, &ze, "quick modular add", BN_ModAddQuick(R, A, B, M, O)); zsub(&zt, &za, &zb); zmod(&ze, &zt, &zm); same(R, &ze, "quick modular subtract", BN_ModSubQuick(R, A, B, M, O)); }
    Z g; toZ(&g, M); if (zc(&g, &zm)) { mc_fail("modulus changed"); } mc_outcome(ze.d, 4 * ze.n);
}
static void expo(void)
{
    ld(); toB(M, &zm); if (zb.neg) { if (BN_ModExp(R, A, B, M, O) == 0) { mc_fail("negative exponent accepted"); } return; }
    zexp(&ze, &za, &zb, &zm); same(R, &ze, "modular power", BN_ModExp(R, A, B, M, O)); int32_t r = BN_ModExp(A, A, B, M, O); same(A, &ze, "modular power in place", r); toB(A, &za);
    if (zm.n && (zm.d[0] & 1) && !zm.neg) { BN_Mont *mo = BN_MontCreate(M); if (!mo) { mc_fail("no Montgomery context for %s", zs(&zm)); return; } same(R, &ze, "Montgomery power", BN_MontExp(R, A, B, mo, O)); BN_SetFlag(B, CRYPT_BN_FLAG_CONSTTIME); same(R, &ze, "flagged Montgomery power", BN_MontExp(R, A, B, mo, O)); same(R, &ze, "constant-time power", BN_MontExpConsttime(R, A, B, mo, O)); r = BN_MontExpConsttime(A, A, B, mo, O); same(A, &ze, "constant-time power in place", r); toB(A, &za);
        BN_Destroy(B); B = BN_Create(64); toB(B, &zb); if (!za.neg && za.n && zb.n && zc(&za, &zm) < 0 && zc(&zb, &zm) < 0) { zexp(&zt, &zb, &za, &zm); zmul(&zt, &zt, &ze); zmod(&zt, &zt, &zm); same(R, &zt, "double Montgomery power", BN_MontExpMul(R, A, B, B, A, mo, O)); } BN_MontDestroy(mo); }
    mc_outcome(ze.d, 4 * ze.n);
}
/* value number v of width n limbs over the limb alphabet */
static const uint64_t LA[] = {0, 1, 0xffffffffffffffff, 0x8000000000000000, 0xfffffffffffffffe, 0x7fffffffffffffff, 0x123456789abcdef1}; static const int NLA = 7;
static void mk(Z *z, int n, long v, int alpha) { z->neg = 0; z->n = 2 * n; for (int i = 0; i < n; i++) { uint64_t l = LA[v % alpha]; v /= alpha; z->d[2 * i] = l; z->d[2 * i + 1] = l >> 32; } zn(z); }
/* shaped number: n limbs, shape s */
static void shape(Z *z, int n, int s) { z->neg = 0; z->n = 2 * n; for (int i = 0; i < 2 * n; i++) { uint64_t r = mc_hash2(i * 977 + n, s); z->d[i] = s == 0 ? 0xffffffff : s == 1 ? (i == 2 * n - 1 ? 0x80000000 : 0) : s == 2 ? (i == 2 * n - 1 ? 0x80000000 : i ? 0 : 1) : s == 3 ? (i & 2 ? 0xffffffff : 0) : s == 4 ? (i & 2 ? 0 : 0xffffffff) : s == 5 ? (i == 2 * n - 1 ? 1 : 0xffffffff) : s == 6 ? (i < 2 ? 0xffffffff - (i == 0) : 0xffffffff) : (uint32_t)r; } if (s == 7 && n) { z->d[0] |= 1; z->d[2 * n - 1] |= 1; } zn(z); }
static void setup(void) { static bool done; if (done) { return; } done = true; A = BN_Create(64); B = BN_Create(64); M = BN_Create(64); R = BN_Create(64); Q = BN_Create(64); O = BN_OptimizerCreate(); }
void mc_explore(void)
{
    hx_init(); setup(); int al = 6, w2 = mc_thorough ? 4 : 3; long tot[6] = {1}; for (int i = 1; i < 6; i++) { tot[i] = tot[i - 1] * al; }
    mc_space("one operand"); for (int n = 0; n <= 5; n++) { long step = n == 5 && !mc_thorough ? 3 : 1; for (long v = 0; v < tot[n]; v += step) { for (int s = 0; s < 2; s++) { if (mc_case("unary %d %ld %d", n, v, s)) { mk(&za, n, v, al); za.neg = s && za.n; unary(); } } } }
    for (int n = 5; n <= 70; n += n < 20 ? 1 : 5) { for (int s = 0; s < 8; s++) { if (mc_case("unary shape %d %d", n, s)) { shape(&za, n, s); unary(); za.neg = 1; unary(); } } }
    mc_space("two operands"); for (int n = 0; n <= w2; n++) { for (int m = 0; m <= w2; m++) { if (n + m > (mc_thorough ? 7 : 5)) { continue; } for (long v = 0; v < tot[n]; v++) { if (mc_case("binary %d %d %ld", n, m, v)) { for (long w = 0; w < tot[m] && !mc_failed(); w++) { for (int s = 0; s < 4 && !mc_failed(); s++) { mk(&za, n, v, al); mk(&zb, m, w, al); za.neg = (s & 1) && za.n; zb.neg = (s & 2) && zb.n; binary(true); } } } } } }
    for (int n = 1; n <= 40; n += n < 24 ? 1 : 3) { for (int m = 1; m <= 40; m += m < 24 ? 1 : 3) { for (int s = 0; s < 8; s++) { if (mc_case("binary shape %d %d %d", n, m, s)) { for (int t = 0; t < 8 && !mc_failed(); t++) { shape(&za, n, s); shape(&zb, m, t); binary(n < 12 && m < 12); } } } } }
    for (int n = 60; n <= (mc_thorough ? 140 : 100); n += 4) { for (int m = 1; m <= n; m += n < 80 ? 3 : 9) { if (mc_case("binary wide %d %d", n, m)) { for (int s = 0; s < 8 && !mc_failed(); s++) { shape(&za, n, s); shape(&zb, m, (s * 3 + m) % 8); binary(false); } } } }
    mc_space("division steps"); /* quotient digits at the estimation limit: two-limb divisors against three and four limbs around multiples */
    for (long y = 0; y < NLA * NLA; y++) { for (long q = 0; q < NLA * NLA; q++) { if (mc_case("divstep %ld %ld", y, q)) { for (int d = -2; d <= 2 && !mc_failed(); d++) { for (int e = 0; e < 3; e++) { mk(&zb, 2, y, NLA); mk(&zq, 2, q, NLA); zmul(&za, &zb, &zq); zt.n = 1; zt.neg = d < 0; zt.d[0] = d < 0 ? -d : d; zn(&zt); zadd(&za, &za, &zt); if (e == 1) { zadd(&za, &za, &zb); } if (e == 2) { zshl(&za, &za, 64); } za.neg = 0; binary(false); } } } } }
    mc_space("modular"); for (int k = 1; k <= 2; k++) { for (long m = 1; m < tot[k]; m++) { if (mc_case("modular %d %ld", k, m)) { for (long v = 0; v < tot[2] && !mc_failed(); v += 1) { for (long w = 0; w < tot[2] && !mc_failed(); w += k == 2 && !mc_thorough ? 5 : 1) { for (int s = 0; s < 4 && !mc_failed(); s++) { mk(&zm, k, m, al); mk(&za, 2, v, al); mk(&zb, 2, w, al); if (!zm.n) { continue; } za.neg = (s & 1) && za.n; zb.neg = (s & 2) && zb.n; ternary(); } } } } } }
    for (int n = 1; n <= 34; n++) { for (int s = 0; s < 8; s++) { if (mc_case("modular shape %d %d", n, s)) { for (int t = 0; t < 8; t++) { for (int u = 0; u < 8; u += 3) { shape(&zm, n, s); shape(&za, n, t); shape(&zb, n, u); if (zm.n) { ternary(); } } } } } }
    mc_space("powers"); for (int k = 1; k <= 2; k++) { for (long m = 1; m < tot[k]; m++) { if (mc_case("power %d %ld", k, m)) { for (long v = 0; v < tot[2] && !mc_failed(); v += k) { for (long e = 0; e < tot[2] && !mc_failed(); e += mc_thorough ? 1 : 5) { mk(&zm, k, m, al); mk(&za, 2, v, al); mk(&zb, 2, e, al); if (zm.n && !(zm.n == 1 && zm.d[0] == 1)) { expo(); } } } } } }
    for (uint32_t m = 2; m <= 41; m++) { if (mc_case("power small %u", m)) { for (int a = -45; a <= 45; a++) { for (int e = -1; e <= 40; e++) { zm.neg = 0; zm.n = 1; zm.d[0] = m; za.n = 1; za.neg = a < 0; za.d[0] = a < 0 ? -a : a; zn(&za); zb.n = 1; zb.neg = e < 0; zb.d[0] = e < 0 ? 1 : e; zn(&zb); expo(); } } } }
    for (int n = 1; n <= (mc_thorough ? 34 : 18); n++) { for (int s = 0; s < 8; s++) { if (mc_case("power shape %d %d", n, s)) { static const int eb[] = {1, 2, 5, 8}; for (int t = 0; t < 8; t++) { shape(&zm, n, s); shape(&za, n, t); shape(&zb, 1 + (t & 1), (t + s) % 8); if (zb.n) { zshr(&zb, &zb, 64 - 8 * eb[t % 4]); } zm.d[0] |= t & 1; if (zm.n && !(zm.n == 1 && zm.d[0] == 1)) { expo(); } } } } }
    mc_space("curve fields"); /* fast reduction for the curve primes */
    static const char *P[] = {"ffffffffffffffffffffffffffffffff000000000000000000000001", "ffffffff00000001000000000000000000000000ffffffffffffffffffffffff", "fffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffeffffffff0000000000000000ffffffff", "1ffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff", "fffffffeffffffffffffffffffffffffffffffff00000000ffffffffffffffff", "fffffffffffffffffffffffffffffffeffffffffffffffff"};
    static const uint64_t FA[] = {0, 1, 0xffffffffffffffff, 0xffffffff00000000, 0xffffffff, 0x8000000000000000}; 
    for (int c = 0; c < 6; c++) { int nl = c == 0 || c == 1 || c == 4 ? 4 : c == 2 ? 6 : c == 3 ? 9 : 3; long nv = nl <= 4 ? 1296 : 729; for (long v = 0; v < nv; v++) { if (!mc_case("field %d %ld", c, v)) { continue; } BN_BigNum *p = NULL; if (BN_Hex2Bn(&p, P[c])) { mc_fatal("prime"); } toZ(&zm, p); BN_BigNum *fr = BN_Create(64 * nl), *fa = BN_Create(64 * nl), *fb = BN_Create(64 * nl);
        for (long w = 0; w < (nl <= 4 ? 1296 : 729) && !mc_failed(); w += mc_thorough ? 1 : nl <= 4 ? 7 : 5) { for (int k = 0; k < 2; k++) { Z *z = k ? &zb : &za; long x = k ? w : v; z->neg = 0; z->n = 2 * nl; for (int i = 0; i < nl; i++) { uint64_t l; if (nl <= 4) { l = FA[x % 6]; x /= 6; } else { static const int pw[] = {1, 3, 9, 27, 81, 243}; l = FA[x / pw[i % 6] % 3 * 2 + (i & 1)]; } if (i == nl - 1 && c == 3) { l &= 0x1ff; } if (i == 3 && c == 0) { l &= 0xffffffff; } z->d[2 * i] = l; z->d[2 * i + 1] = l >> 32; } zn(z); zmod(z, z, &zm); toB(k ? fb : fa, z); BN_Extend(k ? fb : fa, nl); }
            zmul(&zt, &za, &zb); zmod(&ze, &zt, &zm); int32_t r; if (c == 4) { r = BN_ModSm2EccMul(fr, fa, fb, p, O); } else { r = BN_ModNistEccMul(fr, fa, fb, p, O); } same(fr, &ze, "field multiplication", r); if (w == 0 || w % 35 == 0) { zmul(&zt, &za, &za); zmod(&ze, &zt, &zm); r = c == 4 ? BN_ModSm2EccSqr(fr, fa, p, O) : BN_ModNistEccSqr(fr, fa, p, O); same(fr, &ze, "field square", r); } zadd(&zt, &za, &zb); zmod(&ze, &zt, &zm); same(fr, &ze, "field add", BN_ModAddQuick(fr, fa, fb, p, O)); zsub(&zt, &za, &zb); zmod(&ze, &zt, &zm); same(fr, &ze, "field subtract", BN_ModSubQuick(fr, fa, fb, p, O)); }
        BN_Destroy(p); BN_Destroy(fr); BN_Destroy(fa); BN_Destroy(fb); } }
    mc_space("primes and roots"); for (uint32_t n = 0; n < (mc_thorough ? 20000 : 4000); n += 50) { if (mc_case("primes %u", n)) { for (uint32_t x = n; x < n + 50; x++) { bool pr = x > 1; for (uint32_t d = 2; d * d <= x; d++) { pr &= x % d != 0; } BN_SetLimb(A, x); BN_SetSign(A, false); int32_t r = BN_PrimeCheck(A, 20, O, NULL); if ((r == 0) != pr) { mc_fail("%u: prime test gives %x", x, r); } mc_transitions(1); } } }
    static const uint64_t car[] = {561, 1105, 1729, 2465, 2821, 6601, 8911, 29341, 3215031751ull, 3825123056546413051ull, 341550071728321ull, 2152302898747ull, 3474749660383ull, 18446744073709551557ull, 18446744073709551556ull, 9223372036854775783ull}; for (unsigned i = 0; i < MC_LEN(car); i++) { if (mc_case("pseudoprime %u", i)) { BN_SetLimb(A, car[i]); if ((BN_PrimeCheck(A, 30, O, NULL) == 0) != (i == 13 || i == 15)) { mc_fail("%llu misjudged", (unsigned long long)car[i]); } } }
    static const uint32_t sp[] = {3, 5, 7, 11, 13, 17, 41, 97, 193, 257, 641, 769, 7681, 12289, 65537}; for (unsigned i = 0; i < MC_LEN(sp); i++) { if (mc_case("root mod %u", sp[i])) { uint8_t *sq = calloc(1, sp[i]); for (uint64_t x = 0; x < sp[i]; x++) { sq[x * x % sp[i]] = 1; } BN_SetLimb(M, sp[i]); for (uint32_t a = 0; a < sp[i] && !mc_failed(); a += sp[i] > 1000 ? 7 : 1) { BN_SetLimb(A, a); int32_t r = BN_ModSqrt(R, A, M, O); uint64_t x = BN_GetLimb(R); if ((r == 0) != sq[a] || (r == 0 && x * x % sp[i] != a)) { mc_fail("root of %u mod %u: %x %llu", a, sp[i], r, (unsigned long long)x); } mc_transitions(1); } free(sq); } }
    mc_space("texts"); static const char sy[] = {'0', '1', '9', 'a', 'F', '-', 'g', ' '}; for (int n = 0; n <= 5; n++) { int t = 1; for (int i = 0; i < n; i++) { t *= 8; } for (int v = 0; v < t; v += 512) { if (mc_case("number texts %d/%d", n, v)) { for (int q = v; q < t && q < v + 512 && !mc_failed(); q++) { char s[8] = {0}; int w = q; for (int i = 0; i < n; i++) { s[i] = sy[w % 8]; w /= 8; } for (int base = 10; base <= 16; base += 6) { const char *d = s[0] == '-' ? s + 1 : s; bool ok = *d; long val = 0; for (const char *c = d; *c; c++) { int x = *c >= '0' && *c <= '9' ? *c - '0' : *c >= 'a' && *c <= 'f' ? *c - 'a' + 10 : *c >= 'A' && *c <= 'F' ? *c - 'A' + 10 : 99; if (x >= base) { ok = false; } val = val * base + x; } BN_BigNum *x = NULL; int32_t r = base == 10 ? BN_Dec2Bn(&x, s) : BN_Hex2Bn(&x, s); if ((r == 0) != ok) { mc_fail("text '%s' base %d: %x", s, base, r); } else if (ok) { if (BN_GetLimb(x) != (BN_UINT)val || BN_IsNegative(x) != (s[0] == '-' && val)) { mc_fail("text '%s' base %d gives %llu", s, base, (unsigned long long)BN_GetLimb(x)); } } BN_Destroy(x); } } } } }
}
