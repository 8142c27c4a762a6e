/* Independent reference implementations used as oracles (simple, slow, written from the standards). */
#ifndef REF_H
#define REF_H
#include <stdint.h>
#include <stddef.h>
typedef enum { R_MD5, R_SHA1, R_SHA224, R_SHA256, R_SHA384, R_SHA512, R_SHA3_224, R_SHA3_256, R_SHA3_384, R_SHA3_512,
    R_SHAKE128, R_SHAKE256, R_BLAKE2S, R_SM3, R_MDMAX } RefMd;
size_t ref_mdlen(RefMd m);
size_t ref_mdblock(RefMd m);
void ref_md(RefMd m, const uint8_t *in, size_t n, uint8_t *out, size_t outlen);   /* outlen only for SHAKE */
void ref_hmac(RefMd m, const uint8_t *k, size_t kl, const uint8_t *in, size_t n, uint8_t *out);
void ref_hkdf_extract(RefMd m, const uint8_t *salt, size_t sl, const uint8_t *ikm, size_t il, uint8_t *prk);
void ref_hkdf_expand(RefMd m, const uint8_t *prk, size_t pl, const uint8_t *info, size_t il, uint8_t *out, size_t ol);
void ref_pbkdf2(RefMd m, const uint8_t *pw, size_t pl, const uint8_t *salt, size_t sl, uint32_t iter, uint8_t *out, size_t ol);
void ref_prf12(RefMd m, const uint8_t *sec, size_t sl, const char *label, const uint8_t *seed, size_t dl, uint8_t *out, size_t ol);
void ref_scrypt(const uint8_t *pw, size_t pl, const uint8_t *salt, size_t sl, uint32_t N, uint32_t r, uint32_t p, uint8_t *out, size_t ol);
/* block ciphers: id 128/192/256 = AES, 4 = SM4 */
typedef struct { int id; int nr; uint8_t rk[15][16]; uint32_t sk[32]; } RefBlk;
void ref_blk_init(RefBlk *b, int id, const uint8_t *key);
void ref_blk_enc(const RefBlk *b, const uint8_t in[16], uint8_t out[16]);
void ref_blk_dec(const RefBlk *b, const uint8_t in[16], uint8_t out[16]);
int ref_keylen(int id);
void ref_ecb(const RefBlk *b, int enc, const uint8_t *in, size_t n, uint8_t *out);
void ref_cbc(const RefBlk *b, int enc, const uint8_t iv[16], const uint8_t *in, size_t n, uint8_t *out);
void ref_ctr(const RefBlk *b, const uint8_t iv[16], const uint8_t *in, size_t n, uint8_t *out);
void ref_cfb(const RefBlk *b, int enc, int bits, const uint8_t iv[16], const uint8_t *in, size_t n, uint8_t *out);
void ref_ofb(const RefBlk *b, const uint8_t iv[16], const uint8_t *in, size_t n, uint8_t *out);
void ref_xts(const RefBlk *b1, const RefBlk *b2, int enc, int gm, const uint8_t iv[16], const uint8_t *in, size_t n, uint8_t *out);
void ref_gcm(const RefBlk *b, int enc, const uint8_t *iv, size_t ivl, const uint8_t *aad, size_t al, const uint8_t *in, size_t n, uint8_t *out, uint8_t tag[16]);
int ref_ccm(const RefBlk *b, int enc, const uint8_t *iv, size_t ivl, const uint8_t *aad, size_t al, const uint8_t *in, size_t n, uint8_t *out, uint8_t *tag, size_t tl);
void ref_cmac(const RefBlk *b, const uint8_t *in, size_t n, uint8_t tag[16]);
void ref_chacha(const uint8_t key[32], const uint8_t nonce[12], uint32_t ctr, const uint8_t *in, size_t n, uint8_t *out);
void ref_poly1305(const uint8_t key[32], const uint8_t *in, size_t n, uint8_t tag[16]);
void ref_chachapoly(int enc, const uint8_t key[32], const uint8_t nonce[12], const uint8_t *aad, size_t al, const uint8_t *in, size_t n, uint8_t *out, uint8_t tag[16]);
void ref_siphash(int outlen, const uint8_t key[16], const uint8_t *in, size_t n, uint8_t *out);
int ref_wrap(const RefBlk *b, int pad, const uint8_t *iv, const uint8_t *in, size_t n, uint8_t *out); /* returns output length */
#endif
