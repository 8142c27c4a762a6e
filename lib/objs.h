/* Valid encodings of every object kind the library parses, written by the independent encoder in pkix.c where the object
 * has a signature or structure worth attacking, else by the library's encoder; and one parse/use/encode interface to all. */
#ifndef OBJS_H
#define OBJS_H
#include "pkix.h"
#include "pk.h"
#include "hitls_pki_cert.h"
#include "hitls_pki_crl.h"
#include "hitls_pki_csr.h"
#include "hitls_pki_cms.h"
#include "hitls_pki_pkcs12.h"
#include "hitls_pki_x509.h"
#include "hitls_pki_params.h"
#include "hitls_pki_utils.h"
#include "hitls_pki_errno.h"
#include "crypt_eal_codecs.h"
#include "bsl_list.h"
#include "bsl_uio.h"
typedef enum { OB_KEY, OB_CERT, OB_CRL, OB_CSR, OB_CMS, OB_P12, OB_CERTS, OB_CRLS } ObKind;
typedef struct { char name[64]; ObKind kind; int fmt, type; const char *pwd; const PkAlg *alg; Buf enc; Buf msg; int sigKind; } Obj;
extern Obj *objs; extern int nobjs;
void objs_init(void);
Obj *obj_find(const char *name);
#define OB_PWD "pass word"
#define OB_MSG "the signed content of a message"
int32_t obj_parse(const Obj *o, const uint8_t *p, size_t n, void **h);
void obj_free(const Obj *o, void *h);
void obj_use(const Obj *o, void *h);                   /* calls every getter, printing, verification */
int32_t obj_encode(const Obj *o, void *h, Buf *out);   /* in the object's own format */
PxKey *obj_ca(void);
void pem_wrap(Buf *out, const char *label, const Buf *der);
void ext_add(Buf *b, const char *oid, int crit, Buf *val);
/* DER trees */
typedef struct Node Node;
struct Node { int tag; const uint8_t *p; size_t n; const uint8_t *raw; size_t rawn; int nch, prefix; Node *ch[64]; int id; };
Node *der_tree(const uint8_t *p, size_t n, int *count, bool deep);     /* NULL if not DER; numbers nodes in preorder */
void der_tree_free(Node *t);
enum { MU_NONE, MU_DEL, MU_DUP, MU_EMPTY, MU_ZERO, MU_FF, MU_SHORT, MU_LONG, MU_FRONT, MU_TAG, MU_SWAP, MU_BIG, MU_LEN, MU_BYTE, MU_NTH, MU_MAX };
bool der_emit(const Node *t, int id, int mu, int arg, Buf *out);       /* encoding with node id altered, lengths corrected; false if n/a */
int der_mu_args(int mu);
#endif
