/* Elliptic curves (published parameters) and affine point arithmetic (the reference). */
#ifndef ZEC_H
#define ZEC_H
#include "zint.h"
typedef struct { const char *name; int id; const char *p, *a, *b, *gx, *gy, *n; } ZCurve;
static const ZCurve ZC[] = {
    {"nistp192", CRYPT_ECC_NISTP192, "00fffffffffffffffffffffffffffffffeffffffffffffffff", "00fffffffffffffffffffffffffffffffefffffffffffffffc", "64210519e59c80e70fa7e9ab72243049feb8deecc146b9b1", "188da80eb03090f67cbf20eb43a18800f4ff0afd82ff1012", "07192b95ffc8da78631011ed6b24cdd573f977a11e794811", "00ffffffffffffffffffffffff99def836146bc9b1b4d22831"},
    {"nistp224", CRYPT_ECC_NISTP224, "00ffffffffffffffffffffffffffffffff000000000000000000000001", "00fffffffffffffffffffffffffffffffefffffffffffffffffffffffe", "00b4050a850c04b3abf54132565044b0b7d7bfd8ba270b39432355ffb4", "b70e0cbd6bb4bf7f321390b94a03c1d356c21122343280d6115c1d21", "bd376388b5f723fb4c22dfe6cd4375a05a07476444d5819985007e34", "00ffffffffffffffffffffffffffff16a2e0b8f03e13dd29455c5c2a3d"},
    {"nistp256", CRYPT_ECC_NISTP256, "00ffffffff00000001000000000000000000000000ffffffffffffffffffffffff", "00ffffffff00000001000000000000000000000000fffffffffffffffffffffffc", "5ac635d8aa3a93e7b3ebbd55769886bc651d06b0cc53b0f63bce3c3e27d2604b", "6b17d1f2e12c4247f8bce6e563a440f277037d812deb33a0f4a13945d898c296", "4fe342e2fe1a7f9b8ee7eb4a7c0f9e162bce33576b315ececbb6406837bf51f5", "00ffffffff00000000ffffffffffffffffbce6faada7179e84f3b9cac2fc632551"},
    {"nistp384", CRYPT_ECC_NISTP384, "00fffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffeffffffff0000000000000000ffffffff", "00fffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffeffffffff0000000000000000fffffffc", "00b3312fa7e23ee7e4988e056be3f82d19181d9c6efe8141120314088f5013875ac656398d8a2ed19d2a85c8edd3ec2aef", "aa87ca22be8b05378eb1c71ef320ad746e1d3b628ba79b9859f741e082542a385502f25dbf55296c3a545e3872760ab7", "3617de4a96262c6f5d9e98bf9292dc29f8f41dbd289a147ce9da3113b5f0b8c00a60b1ce1d7e819d7a431d7c90ea0e5f", "00ffffffffffffffffffffffffffffffffffffffffffffffffc7634d81f4372ddf581a0db248b0a77aecec196accc52973"},
    {"nistp521", CRYPT_ECC_NISTP521, "01ffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff", "01fffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffc", "51953eb9618e1c9a1f929a21a0b68540eea2da725b99b315f3b8b489918ef109e156193951ec7e937b1652c0bd3bb1bf073573df883d2c34f1ef451fd46b503f00", "00c6858e06b70404e9cd9e3ecb662395b4429c648139053fb521f828af606b4d3dbaa14b5e77efe75928fe1dc127a2ffa8de3348b3c1856a429bf97e7e31c2e5bd66", "011839296a789a3bc0045c8a5fb42c7d1bd998f54449579b446817afbd17273e662c97ee72995ef42640c550b9013fad0761353c7086a272c24088be94769fd16650", "01fffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffa51868783bf2f966b7fcc0148f709a5d03bb5c9b8899c47aebb6fb71e91386409"},
    {"brainpoolp256r1", CRYPT_ECC_BRAINPOOLP256R1, "00a9fb57dba1eea9bc3e660a909d838d726e3bf623d52620282013481d1f6e5377", "7d5a0975fc2c3057eef67530417affe7fb8055c126dc5c6ce94a4b44f330b5d9", "26dc5c6ce94a4b44f330b5d9bbd77cbf958416295cf7e1ce6bccdc18ff8c07b6", "8bd2aeb9cb7e57cb2c4b482ffc81b7afb9de27e1e3bd23c23a4453bd9ace3262", "547ef835c3dac4fd97f8461a14611dc9c27745132ded8e545c1d54c72f046997", "00a9fb57dba1eea9bc3e660a909d838d718c397aa3b561a6f7901e0e82974856a7"},
    {"brainpoolp384r1", CRYPT_ECC_BRAINPOOLP384R1, "008cb91e82a3386d280f5d6f7e50e641df152f7109ed5456b412b1da197fb71123acd3a729901d1a71874700133107ec53", "7bc382c63d8c150c3c72080ace05afa0c2bea28e4fb22787139165efba91f90f8aa5814a503ad4eb04a8c7dd22ce2826", "04a8c7dd22ce28268b39b55416f0447c2fb77de107dcd2a62e880ea53eeb62d57cb4390295dbc9943ab78696fa504c11", "1d1c64f068cf45ffa2a63a81b7c13f6b8847a3e77ef14fe3db7fcafe0cbd10e8e826e03436d646aaef87b2e247d4af1e", "8abe1d7520f9c2a45cb1eb8e95cfd55262b70b29feec5864e19c054ff99129280e4646217791811142820341263c5315", "008cb91e82a3386d280f5d6f7e50e641df152f7109ed5456b31f166e6cac0425a7cf3ab6af6b7fc3103b883202e9046565"},
    {"brainpoolp512r1", CRYPT_ECC_BRAINPOOLP512R1, "00aadd9db8dbe9c48b3fd4e6ae33c9fc07cb308db3b3c9d20ed6639cca703308717d4d9b009bc66842aecda12ae6a380e62881ff2f2d82c68528aa6056583a48f3", "7830a3318b603b89e2327145ac234cc594cbdd8d3df91610a83441caea9863bc2ded5d5aa8253aa10a2ef1c98b9ac8b57f1117a72bf2c7b9e7c1ac4d77fc94ca", "3df91610a83441caea9863bc2ded5d5aa8253aa10a2ef1c98b9ac8b57f1117a72bf2c7b9e7c1ac4d77fc94cadc083e67984050b75ebae5dd2809bd638016f723", "81aee4bdd82ed9645a21322e9c4c6a9385ed9f70b5d916c1b43b62eef4d0098eff3b1f78e2d0d48d50d1687b93b97d5f7c6d5047406a5e688b352209bcb9f822", "7dde385d566332ecc0eabfa9cf7822fdf209f70024a57b1aa000c55b881f8111b2dcde494a5f485e5bca4bd88a2763aed1ca2b2fa8f0540678cd1e0f3ad80892", "00aadd9db8dbe9c48b3fd4e6ae33c9fc07cb308db3b3c9d20ed6639cca70330870553e5c414ca92619418661197fac10471db1d381085ddaddb58796829ca90069"},
    {"sm2", CRYPT_ECC_SM2, "00fffffffeffffffffffffffffffffffffffffffff00000000ffffffffffffffff", "00fffffffeffffffffffffffffffffffffffffffff00000000fffffffffffffffc", "28e9fa9e9d9f5e344d5a9e4bcf6509a7f39789f515ab8f92ddbcbd414d940e93", "32c4ae2c1f1981195f9904466a39c9948fe30bbff2660be1715a4589334c74c7", "bc3736a2f4f6779c59bdcee36b692153d0a9877cc62a474002df32e52139f0a0", "00fffffffeffffffffffffffffffffffff7203df6b21c6052b53bbf40939d54123"},
};
typedef struct { Z p, a, b, n; int len; } ZCv; typedef struct { Z x, y; bool inf; } ZPt;
static void zcv(ZCv *c, ZPt *g, const ZCurve *k) { zhex(&c->p, k->p); zhex(&c->a, k->a); zhex(&c->b, k->b); zhex(&c->n, k->n); zhex(&g->x, k->gx); zhex(&g->y, k->gy); g->inf = false; c->len = (zbits(&c->p) + 7) / 8; }
static void zpadd(ZPt *r, const ZPt *a, const ZPt *b, const ZCv *c) { if (a->inf) { *r = *b; return; } if (b->inf) { *r = *a; return; } Z l, t, u; if (zc(&a->x, &b->x) == 0) { zadd(&t, &a->y, &b->y); zmod(&t, &t, &c->p); if (!t.n) { r->inf = true; return; } zmulm(&l, &a->x, &a->x, &c->p); zset(&u, 3); zmul(&l, &l, &u); zadd(&l, &l, &c->a); zinvp(&t, &t, &c->p); zmulm(&l, &l, &t, &c->p); } else { zsub(&t, &b->x, &a->x); zmod(&t, &t, &c->p); zinvp(&t, &t, &c->p); zsub(&u, &b->y, &a->y); zmod(&u, &u, &c->p); zmulm(&l, &u, &t, &c->p); } Z x, y; zmul(&x, &l, &l); zsub(&x, &x, &a->x); zsub(&x, &x, &b->x); zmod(&x, &x, &c->p); zsub(&y, &a->x, &x); zmul(&y, &y, &l); zsub(&y, &y, &a->y); zmod(&y, &y, &c->p); r->inf = false; zcp(&r->x, &x); zcp(&r->y, &y); }
static void zpmul(ZPt *r, const ZPt *g, const Z *k, const ZCv *c) { ZPt o, q; o.inf = true; q = *g; for (int i = 0; i < zbits(k); i++) { if (k->d[i / 32] >> i % 32 & 1) { zpadd(&o, &o, &q, c); } zpadd(&q, &q, &q, c); } *r = o; }
#endif
