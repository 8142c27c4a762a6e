/* Public-key algorithms: table of parameter sets, deterministic keys (generated once per process), public-only copies. */
#ifndef PK_H
#define PK_H
#include "hx.h"
#include "crypt_params_key.h"
#include "bsl_params.h"
enum { PK_RSA = 1, PK_DSA, PK_EC, PK_CV, PK_SM9, PK_PAI, PK_ELG, PK_DH, PK_ID, PK_HSS }; /* how parameters are given */
typedef struct { const char *name; int alg, para, kind, op; int pubIds[5], prvIds[9]; int aux; } PkAlg;
extern const PkAlg pk_algs[]; extern const int pk_nalgs;
const PkAlg *pk_find(const char *name);
CRYPT_EAL_PkeyCtx *pk_new(const PkAlg *a);            /* new context with parameters set, no key */
CRYPT_EAL_PkeyCtx *pk_gen(const PkAlg *a, uint64_t seed); /* freshly generated key, deterministic in seed; NULL if it failed */
CRYPT_EAL_PkeyCtx *pk_key(const PkAlg *a, int which);  /* cached key number 0..2 */
CRYPT_EAL_PkeyCtx *pk_pub(const PkAlg *a, CRYPT_EAL_PkeyCtx *k); /* fresh context holding only the public key */
CRYPT_EAL_PkeyCtx *pk_prv(const PkAlg *a, CRYPT_EAL_PkeyCtx *k); /* fresh context holding only the private key */
typedef struct { BSL_Param p[10]; uint8_t buf[9][16384]; uint8_t *big; int n; } PkVal;
int32_t pk_get(CRYPT_EAL_PkeyCtx *k, const int *ids, PkVal *v, bool pub);
/* a signature scheme: key algorithm, hash and padding */
typedef struct { const PkAlg *a; int md; int pad; int saltLen; const char *name; } PkSig;
int pk_sigs(PkSig *out, int max, int *count);          /* all schemes */
int32_t pk_pad(CRYPT_EAL_PkeyCtx *k, const PkSig *s);
#endif
