/* Own DER writer, key table and certificate/CRL builder (independent of the library's PKI encoders; only the
 * signature primitive is the library's). */
#ifndef PKIX_H
#define PKIX_H
#include "hx.h"
typedef struct { uint8_t *p; size_t n, cap; } Buf;
void buf_put(Buf *b, const void *p, size_t n);
void buf_u8(Buf *b, uint8_t v);
void buf_u16(Buf *b, uint16_t v);
void buf_u24(Buf *b, uint32_t v);
void buf_u32(Buf *b, uint32_t v);
void buf_buf(Buf *b, const Buf *x);
void buf_set(Buf *b, const void *p, size_t n);
void buf_clear(Buf *b);
void buf_free(Buf *b);
void der_tlv(Buf *b, int tag, const void *p, size_t n);
void der_wrap(Buf *b, int tag, Buf *inner);              /* appends TLV(tag, inner) and frees inner */
void der_oid(Buf *b, const char *dotted);
void der_uint(Buf *b, uint64_t v);
void der_time(Buf *b, int64_t t);                        /* UTCTime before 2050, else GeneralizedTime */

typedef enum { PK_EC256, PK_EC384, PK_SM2, PK_RSA2048, PK_ED25519, PK_EC521, PK_KMAX } PxKind;
typedef struct { PxKind kind; CRYPT_EAL_PkeyCtx *k; Buf spki, pub; uint8_t skid[20]; } PxKey;
PxKey *px_key(PxKind kind, int idx);                     /* cached per process */
const char *px_kindname(PxKind k);

#define EKU_SERVER 1
#define EKU_CLIENT 2
#define EKU_OTHER 4
#define EKU_ANY 8
typedef struct {
    int version;                /* 3 default (0 means 3) */
    uint32_t serial;
    const char *issuer, *subject;    /* common names */
    int64_t from, to;
    PxKey *pub, *signer;
    int bcons;                  /* -1 absent, 0 CA:FALSE, 1 CA:TRUE */
    int pathlen;                /* -1 absent */
    int ku;                     /* 0 absent; first-octet bits as in X.509 (0x80 digitalSignature ... 0x04 keyCertSign, 0x02 cRLSign), 0x100 = present but empty */
    int eku;                    /* EKU_* bits, 0 absent */
    int ekuCrit;
    int ski, aki;               /* 0 absent, 1 correct, 2 wrong */
    const char *dns[4];
    const uint8_t *ip[2]; int ipLen[2];
    int unknownExt;             /* 1 non-critical, 2 critical */
    int badSig;                 /* 1: flip a bit of the signature */
    int md;                     /* 0 default */
    int noBconsCrit;
    const Buf *rawExt;          /* extra extensions, appended verbatim */
    const Buf *rawSubject;      /* replaces the subject Name (complete TLV) */
} PxCert;
void px_cert(const PxCert *c, Buf *out);
void px_name(Buf *b, const char *cn);
typedef struct { const char *issuer; PxKey *signer; int64_t thisUpd, nextUpd; uint32_t revoked[4]; int nrev; int crlNumber; int aki; int badSig; int unknownCrit; int version; int noNext; int removeFromCrl; int akiWrong; const Buf *rawExt; } PxCrl;
void px_crl(const PxCrl *c, Buf *out);
void px_sign(PxKey *k, int md, const Buf *tbs, Buf *sig);
void px_sigalg(Buf *b, PxKey *k, int md);
#endif
