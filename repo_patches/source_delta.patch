From 7c329625f9afc3de2d467b9055a63a744f6ecdc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:56 +0000
Subject: [PATCH 01/28] fix: SM4-XTS (x86_64) carries the tweak over to the
 next update of the same data unit

---
 crypto/sm4/src/crypt_sm4_x86_64.c | 26 ++++++++++++--------------
 1 file changed, 12 insertions(+), 14 deletions(-)

diff --git a/crypto/sm4/src/crypt_sm4_x86_64.c b/crypto/sm4/src/crypt_sm4_x86_64.c
index b3dc78d..86c289c 100644
--- a/crypto/sm4/src/crypt_sm4_x86_64.c
+++ b/crypto/sm4/src/crypt_sm4_x86_64.c
@@ -93,7 +93,7 @@ static void SM4_XTS_Encrypt_Helper(uint32_t left, const uint32_t dataLen, uint8_
 }
 
 int32_t SM4_XTS_En(uint8_t* cipher, const uint8_t* plain, const uint32_t* dataRk,
-                   const uint8_t* tweak, const uint32_t dataLen)
+                   uint8_t* tweak, const uint32_t dataLen)
 {
     uint32_t left;
 
@@ -111,16 +111,14 @@ int32_t SM4_XTS_En(uint8_t* cipher, const uint8_t* plain, const uint32_t* dataRk
 
     if (dataLen >= CRYPT_SM4_BLOCKSIZE_16) {
         SM4_XTS_Encrypt_Blocks(plain, cipher, dataLen, dataRk, t);
+        SM4_XTS_Calculate_Tweak(t, LAST_BLOCK_HEAD);
     }
 
-    if (left == 0) {
-        return CRYPT_SUCCESS;
-    } else {
-        if (dataLen >= CRYPT_SM4_BLOCKSIZE_16) {
-            SM4_XTS_Calculate_Tweak(t, LAST_BLOCK_HEAD);
-        }
+    if (left != 0) {
         SM4_XTS_Encrypt_Helper(left, dataLen, t, x, plain, cipher, dataRk);
     }
+    // The next update continues the same data unit with the next tweak
+    memcpy(tweak, t, CRYPT_SM4_BLOCKSIZE);
     return CRYPT_SUCCESS;
 }
 
@@ -186,7 +184,7 @@ static void SM4_XTS_Decrypt_Helper(uint32_t left, const uint32_t dataLen, uint8_
 }
 
 int32_t SM4_XTS_De(uint8_t* plain, const uint8_t* cipher, const uint32_t* dataRk,
-                   const uint8_t* tweak, const uint32_t dataLen)
+                   uint8_t* tweak, const uint32_t dataLen)
 {
     uint32_t j;
     uint32_t left;
@@ -205,17 +203,17 @@ int32_t SM4_XTS_De(uint8_t* plain, const uint8_t* cipher, const uint32_t* dataRk
 
     if (dataLen >= CRYPT_SM4_BLOCKSIZE_16) {
         SM4_XTS_Encrypt_Blocks(cipher, plain, dataLen, dataRk, t);
+        SM4_XTS_Calculate_Tweak(t, LAST_BLOCK_HEAD);
+        for (j = 0; j < CRYPT_SM4_BLOCKSIZE; j++) {
+            t[j + CRYPT_SM4_BLOCKSIZE] = t[j + LAST_BLOCK_HEAD];
+        }
     }
 
     if (left != 0) {
-        if (dataLen >= CRYPT_SM4_BLOCKSIZE_16) {
-            SM4_XTS_Calculate_Tweak(t, LAST_BLOCK_HEAD);
-            for (j = 0; j < CRYPT_SM4_BLOCKSIZE; j++) {
-                t[j + CRYPT_SM4_BLOCKSIZE] = t[j + LAST_BLOCK_HEAD];
-            }
-        }
         SM4_XTS_Decrypt_Helper(left, dataLen, t, x, plain, cipher, dataRk);
     }
+    // The next update continues the same data unit with the next tweak
+    memcpy(tweak, t, CRYPT_SM4_BLOCKSIZE);
     return CRYPT_SUCCESS;
 }
 
-- 
2.43.0


From cc656832ba2df882ebb297aa9c5d556a8ad353ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:56 +0000
Subject: [PATCH 02/28] fix: SM4-XTS (x86_64) ciphertext stealing works in
 place

---
 crypto/sm4/src/crypt_sm4_x86_64.c | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/crypto/sm4/src/crypt_sm4_x86_64.c b/crypto/sm4/src/crypt_sm4_x86_64.c
index 86c289c..cc90eb5 100644
--- a/crypto/sm4/src/crypt_sm4_x86_64.c
+++ b/crypto/sm4/src/crypt_sm4_x86_64.c
@@ -75,8 +75,8 @@ static void SM4_XTS_Encrypt_Helper(uint32_t left, const uint32_t dataLen, uint8_
 
     if (left != 0) {
         for (i = 0; i < left; i++) {
+            x[i] = plain[init + i]; // read before writing, plain and cipher may be the same buffer
             cipher[init + i] = cipher[init - CRYPT_SM4_BLOCKSIZE + i];
-            x[i] = plain[init + i];
         }
         for (i = left; i < CRYPT_SM4_BLOCKSIZE; i++) {
             x[i] = cipher[init - CRYPT_SM4_BLOCKSIZE + i];
@@ -123,7 +123,7 @@ int32_t SM4_XTS_En(uint8_t* cipher, const uint8_t* plain, const uint32_t* dataRk
 }
 
 static void SM4_XTS_Decrypt_Helper(uint32_t left, const uint32_t dataLen, uint8_t* t, uint8_t *x,
-                                   uint8_t* plain, const uint8_t* cipher, const uint32_t* dataRk)
+                                   uint8_t* plain, const uint8_t* cipher, const uint32_t* dataRk, const uint8_t *last)
 {
     uint32_t i, j;
     uint32_t init;
@@ -155,7 +155,7 @@ static void SM4_XTS_Decrypt_Helper(uint32_t left, const uint32_t dataLen, uint8_
         // recompute
         // m-T
         for (j = 0; j < CRYPT_SM4_BLOCKSIZE; j++) {
-            x[j] = cipher[init - CRYPT_SM4_BLOCKSIZE + j] ^ t[j];
+            x[j] = last[j] ^ t[j];
         }
         SM4_Decrypt(x, plain + init - CRYPT_SM4_BLOCKSIZE, dataRk);
 
@@ -163,8 +163,8 @@ static void SM4_XTS_Decrypt_Helper(uint32_t left, const uint32_t dataLen, uint8_
             plain[init - CRYPT_SM4_BLOCKSIZE + j] = plain[init - CRYPT_SM4_BLOCKSIZE + j] ^ t[j];
         }
         for (i = 0; i < left; i++) {
+            x[i] = cipher[init + i]; // read before writing, plain and cipher may be the same buffer
             plain[init + i] = plain[init - CRYPT_SM4_BLOCKSIZE + i];
-            x[i] = cipher[init + i];
         }
         for (i = left; i < CRYPT_SM4_BLOCKSIZE; i++) {
             x[i] = plain[init - CRYPT_SM4_BLOCKSIZE + i];
@@ -191,6 +191,7 @@ int32_t SM4_XTS_De(uint8_t* plain, const uint8_t* cipher, const uint32_t* dataRk
 
     uint8_t t[CRYPT_SM4_BLOCKSIZE_16] = {0};
     uint8_t x[CRYPT_SM4_BLOCKSIZE_16] = {0};
+    uint8_t last[CRYPT_SM4_BLOCKSIZE]; // last complete ciphertext block, plain and cipher may be the same buffer
 
     if (dataLen < CRYPT_SM4_BLOCKSIZE) {
         BSL_ERR_PUSH_ERROR(CRYPT_SM4_ERR_MSG_LEN); // need push error code for error point
@@ -200,6 +201,7 @@ int32_t SM4_XTS_De(uint8_t* plain, const uint8_t* cipher, const uint32_t* dataRk
 
     // MODES_XTS_Ctrl has TW = Enc_K2(iv) done
     memcpy(t, tweak, CRYPT_SM4_BLOCKSIZE);
+    memcpy(last, cipher + (dataLen / CRYPT_SM4_BLOCKSIZE - 1) * CRYPT_SM4_BLOCKSIZE, CRYPT_SM4_BLOCKSIZE);
 
     if (dataLen >= CRYPT_SM4_BLOCKSIZE_16) {
         SM4_XTS_Encrypt_Blocks(cipher, plain, dataLen, dataRk, t);
@@ -210,7 +212,7 @@ int32_t SM4_XTS_De(uint8_t* plain, const uint8_t* cipher, const uint32_t* dataRk
     }
 
     if (left != 0) {
-        SM4_XTS_Decrypt_Helper(left, dataLen, t, x, plain, cipher, dataRk);
+        SM4_XTS_Decrypt_Helper(left, dataLen, t, x, plain, cipher, dataRk, last);
     }
     // The next update continues the same data unit with the next tweak
     memcpy(tweak, t, CRYPT_SM4_BLOCKSIZE);
-- 
2.43.0


From 6a71ba6d33f775fb9e6ba9d2861282a5af674f66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:44:48 +0000
Subject: [PATCH 03/28] fix: a TLCP server using ECDHE reports the negotiated
 group like its client does

---
 tls/handshake/recv/src/recv_client_hello.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tls/handshake/recv/src/recv_client_hello.c b/tls/handshake/recv/src/recv_client_hello.c
index 26ab4d1..4672acd 100644
--- a/tls/handshake/recv/src/recv_client_hello.c
+++ b/tls/handshake/recv/src/recv_client_hello.c
@@ -316,6 +316,7 @@ static int32_t ProcessEcdheCipherSuite(TLS_Ctx *ctx, const ClientHelloMsg *clien
         }
         ctx->hsCtx->kxCtx->keyExchParam.ecdh.curveParams.type = HITLS_EC_CURVE_TYPE_NAMED_CURVE;
         ctx->hsCtx->kxCtx->keyExchParam.ecdh.curveParams.param.namedcurve = HITLS_EC_GROUP_SM2;
+        ctx->negotiatedInfo.negotiatedGroup = HITLS_EC_GROUP_SM2;
         return HITLS_SUCCESS; /* TLCP negotiation does not focus on extended information. */
     }
 #endif
-- 
2.43.0


From 1767ac7643ce03699b705a9e45323299a847d05d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:07:19 +0000
Subject: [PATCH 04/28] fix: a finished DTLS 1.2 endpoint keeps its last flight
 until the 2MSL timer, not the retransmission timer, expires

---
 tls/cm/src/conn_read.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/tls/cm/src/conn_read.c b/tls/cm/src/conn_read.c
index 641fa2d..ce13d41 100644
--- a/tls/cm/src/conn_read.c
+++ b/tls/cm/src/conn_read.c
@@ -218,9 +218,10 @@ static int32_t RecvPostFinishPreprocess(TLS_Ctx *ctx)
         return HITLS_REC_NORMAL_RECV_UNEXPECT_MSG;
     }
 
-    if (HS_IsTimeout(ctx, &isTimeout) != HITLS_SUCCESS || isTimeout) {
+    /* The last flight is kept for the retransmissions of the peer until the 2MSL timer expires. */
+    if (HS_Is2MslTimeout(ctx, &isTimeout) != HITLS_SUCCESS || isTimeout) {
         BSL_LOG_BINLOG_FIXLEN(BINLOG_ID16522, BSL_LOG_LEVEL_ERR, BSL_LOG_BINLOG_TYPE_RUN,
-            "HS_IsTimeout fail or timeout", 0, 0, 0, 0);
+            "HS_Is2MslTimeout fail or timeout", 0, 0, 0, 0);
         REC_RetransmitListClean(ctx->recCtx);
         return HITLS_REC_NORMAL_RECV_UNEXPECT_MSG;
     }
-- 
2.43.0


From 121283fda8c18a2f6c12abc446a210032847eceb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:51:57 +0000
Subject: [PATCH 05/28] fix: TLS 1.3 client rejects HelloRequest once TLS 1.3
 is negotiated

---
 tls/handshake/parse/src/parse.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tls/handshake/parse/src/parse.c b/tls/handshake/parse/src/parse.c
index 4f6863f..87b5d6f 100644
--- a/tls/handshake/parse/src/parse.c
+++ b/tls/handshake/parse/src/parse.c
@@ -223,9 +223,10 @@ int32_t CheckHsMsgType(TLS_Ctx *ctx, HS_MsgType msgType)
 #ifdef HITLS_TLS_PROTO_DTLS13
         && hsCtx->state != TRY_RECV_MSG
 #endif
+        && !IS_TLS13_FAMILY_VERSION(ctx->negotiatedInfo.version)
     ) {
         /* The HelloRequest message may appear at any time during the handshake.
-           The client should ignore this message */
+           The client should ignore this message. TLS 1.3 has no HelloRequest message. */
         return HITLS_SUCCESS;
     }
 
-- 
2.43.0


From 7b6559c8415dd8cf126ca074580539f3b8b5d1fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:51:57 +0000
Subject: [PATCH 06/28] fix: DTLS 1.3 server discards plaintext handshake
 messages other than ClientHello once handshake keys are in use

---
 tls/record/src/rec_read.c | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/tls/record/src/rec_read.c b/tls/record/src/rec_read.c
index c15a9ef..42d0d66 100644
--- a/tls/record/src/rec_read.c
+++ b/tls/record/src/rec_read.c
@@ -32,6 +32,7 @@
 #endif
 #include "hs.h"
 #include "hs_common.h"
+#include "hs_msg.h"
 #include "rec_crypto.h"
 #include "rec_crypto_aead.h"
 #include "bsl_list.h"
@@ -1096,6 +1097,23 @@ int32_t RecordBufferUnprocessedMsg(RecCtx *recordCtx, RecHdr *hdr, uint8_t *reco
 #endif /* HITLS_TLS_PROTO_DATAGRAM && HITLS_BSL_UIO_UDP */
 
 #if defined(HITLS_TLS_PROTO_DTLS13) && defined(HITLS_BSL_UIO_UDP)
+/* Once the handshake keys are in use, the only handshake message that may still arrive in plaintext is a
+ * retransmitted ClientHello. */
+static bool Dtls13IsPlainHandshakeAllowed(const RecHdr *hdr, const uint8_t *recordBody)
+{
+    uint32_t offset = 0;
+    if (hdr->type != REC_TYPE_HANDSHAKE) {
+        return true;
+    }
+    while (offset < hdr->bodyLen) {
+        if (hdr->bodyLen - offset < DTLS_HS_MSG_HEADER_SIZE || recordBody[offset] != CLIENT_HELLO) {
+            return false;
+        }
+        offset += DTLS_HS_MSG_HEADER_SIZE + BSL_ByteToUint24(&recordBody[offset + DTLS_HS_FRAGMENT_LEN_ADDR]);
+    }
+    return true;
+}
+
 static int32_t Dtls13HandleDifferentEpochRecord(TLS_Ctx *ctx, RecCtx *recordCtx, uint8_t *recordBody, RecHdr *hdr,
     uint16_t epoch)
 {
@@ -1109,7 +1127,8 @@ static int32_t Dtls13HandleDifferentEpochRecord(TLS_Ctx *ctx, RecCtx *recordCtx,
         return RecordBufferUnprocessedMsg(recordCtx, hdr, recordBody);
     }
     if (((recordCtx->readEpoch > 3 && recordCtx->readEpoch - 1 == epoch) ||
-        (recordCtx->readEpoch == 2 && epoch == 0 && !ctx->isClient)) &&
+        (recordCtx->readEpoch == 2 && epoch == 0 && !ctx->isClient &&
+        Dtls13IsPlainHandshakeAllowed(hdr, recordBody))) &&
         GetReadConnState(ctx)->window.window == 0) {
         return HITLS_SUCCESS;
     }
-- 
2.43.0


From 4c10abd7eb7f89a4245b4d4e3d836d61fd030a66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:10:44 +0000
Subject: [PATCH 07/28] fix: BSL_ERR_ClearLastMark terminates on a full error
 stack without a mark

---
 bsl/err/src/err.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/bsl/err/src/err.c b/bsl/err/src/err.c
index 674f5b5..c7ebae3 100644
--- a/bsl/err/src/err.c
+++ b/bsl/err/src/err.c
@@ -538,7 +538,9 @@ int32_t BSL_ERR_ClearLastMark(void)
         return ret;
     }
 
-    while (errStack->errorStack[top] != 0 && ((errStack->errorFlags[top] & ERR_FLAG_POP_MARK) == 0)) {
+    /* A full stack without any mark has no empty slot to stop at, so look at each slot at most once. */
+    for (uint32_t i = 0; i < SAL_MAX_ERROR_STACK && errStack->errorStack[top] != 0 &&
+        ((errStack->errorFlags[top] & ERR_FLAG_POP_MARK) == 0); i++) {
         top--;
         if (top >= SAL_MAX_ERROR_STACK) {
             top = SAL_MAX_ERROR_STACK - 1;
-- 
2.43.0


From 7f30eaaf2fc9b2de0f0aff834457dc6a01fe7e03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:22:25 +0000
Subject: [PATCH 08/28] fix: BSL_DateTimeAddUs does not lose the carry of large
 microsecond offsets

---
 bsl/sal/src/sal_time.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/bsl/sal/src/sal_time.c b/bsl/sal/src/sal_time.c
index f51062c..328d4e4 100644
--- a/bsl/sal/src/sal_time.c
+++ b/bsl/sal/src/sal_time.c
@@ -205,10 +205,10 @@ int32_t BSL_DateTimeAddUs(BSL_TIME *dateR, const BSL_TIME *dateA, uint32_t us)
     }
 
     /* Convert the increased time to seconds */
-    uint32_t microSec = us + dateA->microSec;
-    uint32_t millSec = (microSec / BSL_SECOND_TRANSFER_RATIO) + dateA->millSec;
+    uint64_t microSec = (uint64_t)us + dateA->microSec;
+    uint64_t millSec = (microSec / BSL_SECOND_TRANSFER_RATIO) + dateA->millSec;
     microSec %= BSL_SECOND_TRANSFER_RATIO;
-    uint32_t second = millSec / BSL_SECOND_TRANSFER_RATIO;
+    uint64_t second = millSec / BSL_SECOND_TRANSFER_RATIO;
     millSec %= BSL_SECOND_TRANSFER_RATIO;
 
     /* Convert to the date after the number of seconds is added */
-- 
2.43.0


From b92caf69cebb294a4fdf181365b805c251202534 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:29:40 +0000
Subject: [PATCH 09/28] fix: BN_ModLimb returns 0 for a negative multiple of
 the modulus

---
 crypto/bn/src/bn_operation.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crypto/bn/src/bn_operation.c b/crypto/bn/src/bn_operation.c
index 26bd99c..04c00f5 100644
--- a/crypto/bn/src/bn_operation.c
+++ b/crypto/bn/src/bn_operation.c
@@ -591,7 +591,7 @@ int32_t BN_ModLimb(BN_UINT *r, const BN_BigNum *a, const BN_UINT m)
         BSL_ERR_PUSH_ERROR(ret);
         return ret;
     }
-    if (a->sign) {
+    if (a->sign && *r != 0) {
         *r = m - *r;
     }
     return ret;
-- 
2.43.0


From d086d6d4a85223422eea115a7a62bd6750de4909 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:03:43 +0000
Subject: [PATCH 10/28] fix: RSA verification rejects a signature whose length
 is not that of the modulus

---
 crypto/rsa/src/rsa_encdec.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/crypto/rsa/src/rsa_encdec.c b/crypto/rsa/src/rsa_encdec.c
index 5c87489..9dc0f9f 100644
--- a/crypto/rsa/src/rsa_encdec.c
+++ b/crypto/rsa/src/rsa_encdec.c
@@ -953,6 +953,12 @@ int32_t CRYPT_RSA_VerifyData(CRYPT_RSA_Ctx *ctx, const uint8_t *data, uint32_t d
         BSL_ERR_PUSH_ERROR(ret);
         goto EXIT;
     }
+    // RFC 8017: a signature has exactly as many bytes as the modulus.
+    if (signLen != BN_BITS_TO_BYTES(bits)) {
+        ret = CRYPT_RSA_NOR_VERIFY_FAIL;
+        BSL_ERR_PUSH_ERROR(ret);
+        goto EXIT;
+    }
     switch (ctx->pad.type) {
 #ifdef HITLS_CRYPTO_RSA_EMSA_PKCSV15
         case EMSA_PKCSV15:
-- 
2.43.0


From 9706aa8255b4f9c5e69d1910fcbf6bbcfb4c6964 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:52:25 +0000
Subject: [PATCH 11/28] fix: encoding an SM2 point does not drop leading zero
 bytes of y after a short x

---
 crypto/ecc/src/asm_ecp_sm2.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/crypto/ecc/src/asm_ecp_sm2.c b/crypto/ecc/src/asm_ecp_sm2.c
index daa1cc0..4f38fc8 100644
--- a/crypto/ecc/src/asm_ecp_sm2.c
+++ b/crypto/ecc/src/asm_ecp_sm2.c
@@ -200,7 +200,9 @@ static int32_t ECP_Sm2Point2Array(SM2_point *r, const ECC_Point *p)
     int32_t ret;
     uint32_t len = SM2_LIMBS;
     GOTO_ERR_IF_EX(BN_Bn2U64Array(&p->x, (BN_UINT *)&r->x, &len), ret);
+    len = SM2_LIMBS; // the call above leaves the number of limbs of x
     GOTO_ERR_IF_EX(BN_Bn2U64Array(&p->y, (BN_UINT *)&r->y, &len), ret);
+    len = SM2_LIMBS;
     GOTO_ERR_IF_EX(BN_Bn2U64Array(&p->z, (BN_UINT *)&r->z, &len), ret);
 ERR:
     return ret;
-- 
2.43.0


From cdf959194f83db472cec3b5409c140bb573f0b9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:52:25 +0000
Subject: [PATCH 12/28] fix: RSA decryption with padding rejects a ciphertext
 whose length is not that of the modulus

---
 crypto/rsa/src/rsa_encdec.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/crypto/rsa/src/rsa_encdec.c b/crypto/rsa/src/rsa_encdec.c
index 9dc0f9f..f273553 100644
--- a/crypto/rsa/src/rsa_encdec.c
+++ b/crypto/rsa/src/rsa_encdec.c
@@ -1137,6 +1137,11 @@ int32_t CRYPT_RSA_Decrypt(CRYPT_RSA_Ctx *ctx, const uint8_t *data, uint32_t data
     }
     uint32_t bits = CRYPT_RSA_GetBits(ctx);
     uint32_t padLen = BN_BITS_TO_BYTES(bits);
+    // RFC 8017: the ciphertext of RSAES-OAEP and RSAES-PKCS1-v1_5 has exactly as many bytes as the modulus.
+    if (ctx->pad.type != RSA_NO_PAD && dataLen != padLen) {
+        BSL_ERR_PUSH_ERROR(CRYPT_RSA_NOR_VERIFY_FAIL);
+        return CRYPT_RSA_NOR_VERIFY_FAIL;
+    }
     pad = BSL_SAL_Malloc(padLen);
     if (pad == NULL) {
         BSL_ERR_PUSH_ERROR(CRYPT_MEM_ALLOC_FAIL);
-- 
2.43.0


From 7d8a2ce83a94fd4fae56573c5111a9bc7fa86529 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:52:25 +0000
Subject: [PATCH 13/28] fix: ElGamal parameter generation returns a prime p

---
 crypto/elgamal/src/elgamal_keygen.c | 41 ++++++++++++++++++++---------
 1 file changed, 28 insertions(+), 13 deletions(-)

diff --git a/crypto/elgamal/src/elgamal_keygen.c b/crypto/elgamal/src/elgamal_keygen.c
index 7642e2c..5ba449e 100644
--- a/crypto/elgamal/src/elgamal_keygen.c
+++ b/crypto/elgamal/src/elgamal_keygen.c
@@ -415,19 +415,34 @@ static int32_t ElGamal_GenP(void *libCtx, BN_BigNum *p, CRYPT_ELGAMAL_Para *para
         goto EXIT;
     }
 
-    ret = BN_RandEx(libCtx, k, (bits - k_bits), 1, 0);
-    if (ret != CRYPT_SUCCESS) {
-        BSL_ERR_PUSH_ERROR(ret);
-        goto EXIT;
-    }
-
-    ret = BN_Mul(kq, k, para->q, optimizer);
-    if (ret != CRYPT_SUCCESS) {
-        BSL_ERR_PUSH_ERROR(ret);
-        goto EXIT;
-    }
-
-    ret = BN_AddLimb(p, kq, 1);
+    // p = k * q + 1 must be prime, k is even because q is odd.
+    do {
+        ret = BN_RandEx(libCtx, k, (bits - k_bits), 1, 0);
+        if (ret != CRYPT_SUCCESS) {
+            BSL_ERR_PUSH_ERROR(ret);
+            goto EXIT;
+        }
+
+        ret = BN_ClrBit(k, 0);
+        if (ret != CRYPT_SUCCESS) {
+            BSL_ERR_PUSH_ERROR(ret);
+            goto EXIT;
+        }
+
+        ret = BN_Mul(kq, k, para->q, optimizer);
+        if (ret != CRYPT_SUCCESS) {
+            BSL_ERR_PUSH_ERROR(ret);
+            goto EXIT;
+        }
+
+        ret = BN_AddLimb(p, kq, 1);
+        if (ret != CRYPT_SUCCESS) {
+            BSL_ERR_PUSH_ERROR(ret);
+            goto EXIT;
+        }
+
+        ret = BN_PrimeCheck(p, 0, optimizer, NULL);
+    } while (ret == CRYPT_BN_NOR_CHECK_PRIME);
     if (ret != CRYPT_SUCCESS) {
         BSL_ERR_PUSH_ERROR(ret);
     }
-- 
2.43.0


From 2eff67cae9849737a12ed3db4fe60c4b7eb48578 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:52:25 +0000
Subject: [PATCH 14/28] fix: ElGamal encryption rejects a plaintext not smaller
 than p

---
 crypto/elgamal/src/elgamal_encdec.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crypto/elgamal/src/elgamal_encdec.c b/crypto/elgamal/src/elgamal_encdec.c
index f707178..2d71477 100644
--- a/crypto/elgamal/src/elgamal_encdec.c
+++ b/crypto/elgamal/src/elgamal_encdec.c
@@ -68,7 +68,8 @@ int32_t CRYPT_ELGAMAL_PubEnc(const CRYPT_ELGAMAL_Ctx *ctx, const uint8_t *input,
         goto EXIT;
     }
 
-    if (BN_IsNegative(m)) {
+    // A plaintext that is not less than p would be decrypted to its remainder.
+    if (BN_IsNegative(m) || BN_Cmp(m, pubKey->p) >= 0) {
         BSL_ERR_PUSH_ERROR(CRYPT_ELGAMAL_ERR_INPUT_VALUE);
         ret = CRYPT_ELGAMAL_ERR_INPUT_VALUE;
         goto EXIT;
-- 
2.43.0


From 107e2cd55ca8fba318e4092bd92901d219288eb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:52:25 +0000
Subject: [PATCH 15/28] fix: Paillier reports the size of n and writes
 ciphertexts of fixed length

---
 crypto/paillier/src/paillier_encdec.c | 7 +++++--
 crypto/paillier/src/paillier_keygen.c | 9 +++++----
 2 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/crypto/paillier/src/paillier_encdec.c b/crypto/paillier/src/paillier_encdec.c
index 1610934..44de88e 100644
--- a/crypto/paillier/src/paillier_encdec.c
+++ b/crypto/paillier/src/paillier_encdec.c
@@ -111,10 +111,13 @@ static int32_t CRYPT_PAILLIER_PubEnc(const CRYPT_PAILLIER_Ctx *ctx, const uint8_
         goto EXIT;
     }
 
-    ret = BN_Bn2Bin(result, out, outLen);
+    // Decryption expects a ciphertext of fixed length.
+    ret = BN_Bn2BinFixZero(result, out, BN_BITS_TO_BYTES(bits) * 2);
     if (ret != CRYPT_SUCCESS) {
         BSL_ERR_PUSH_ERROR(ret);
+        goto EXIT;
     }
+    *outLen = BN_BITS_TO_BYTES(bits) * 2;
 EXIT:
     BN_Destroy(m);
     BN_Destroy(r);
@@ -203,7 +206,7 @@ static int32_t EncryptInputCheck(const CRYPT_PAILLIER_Ctx *ctx, const uint8_t *i
     }
     // Check whether the length of the out is sufficient to place the encryption information.
     uint32_t bits = CRYPT_PAILLIER_GetBits(ctx);
-    if ((*outLen) < BN_BITS_TO_BYTES(bits)) {
+    if ((*outLen) < BN_BITS_TO_BYTES(bits) * 2) {
         BSL_ERR_PUSH_ERROR(CRYPT_PAILLIER_BUFF_LEN_NOT_ENOUGH);
         return CRYPT_PAILLIER_BUFF_LEN_NOT_ENOUGH;
     }
diff --git a/crypto/paillier/src/paillier_keygen.c b/crypto/paillier/src/paillier_keygen.c
index bd229bd..84f2273 100644
--- a/crypto/paillier/src/paillier_keygen.c
+++ b/crypto/paillier/src/paillier_keygen.c
@@ -317,15 +317,16 @@ uint32_t CRYPT_PAILLIER_GetBits(const CRYPT_PAILLIER_Ctx *ctx)
     if (ctx == NULL) {
         return 0;
     }
-    if (ctx->para != NULL) {
-        return ctx->para->bits;
-    }
+    // The bits of para are those of p and q, a key is as long as its modulus n.
     if (ctx->prvKey != NULL) {
-        return BN_Bits(ctx->prvKey->lambda);
+        return BN_Bits(ctx->prvKey->n);
     }
     if (ctx->pubKey != NULL) {
         return BN_Bits(ctx->pubKey->n);
     }
+    if (ctx->para != NULL) {
+        return ctx->para->bits;
+    }
     return 0;
 }
 
-- 
2.43.0


From fbaafe2184d78fcba08aaf6a48d4b70bb2f00c7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:52:25 +0000
Subject: [PATCH 16/28] fix: a name starting with a dot does not match every
 host below the domain in partial wildcard mode

---
 pki/x509_common/src/hitls_x509_util.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pki/x509_common/src/hitls_x509_util.c b/pki/x509_common/src/hitls_x509_util.c
index 90c709e..78b4536 100644
--- a/pki/x509_common/src/hitls_x509_util.c
+++ b/pki/x509_common/src/hitls_x509_util.c
@@ -128,7 +128,7 @@ static int32_t MatchWithPartialWildcard(const char *pattern, const char *hostnam
             }
             labelCount++;
         } else {
-            if (pLen > 0 && BSL_SAL_StrcaseCmp(p, h) != 0) {
+            if (BSL_SAL_StrcaseCmp(p, h) != 0) {
                 return HITLS_X509_ERR_VFY_HOSTNAME_FAIL;
             }
         }
-- 
2.43.0


From f52b9ab8df955e0e01414601a37914089a93b9c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:59:02 +0000
Subject: [PATCH 17/28] fix: XMSS state near the end of a tree can be saved
 again

Restarting a treehash instance past the last leaf left nextIdx beyond the
leaf count, which the validity check of the export refuses, so the private
key could not be saved for the last leaves of every tree.
---
 crypto/hbs/xmss/src/xmss_bds.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crypto/hbs/xmss/src/xmss_bds.c b/crypto/hbs/xmss/src/xmss_bds.c
index b58a862..51cb593 100644
--- a/crypto/hbs/xmss/src/xmss_bds.c
+++ b/crypto/hbs/xmss/src/xmss_bds.c
@@ -956,9 +956,10 @@ int32_t XmssBds_TreeRound(XmssBdsState *state, uint32_t leafIdx, uint32_t layer,
     for (uint32_t i = 0; i < restartCount; i++) {
         uint32_t startIdx = leafIdx + 1U + 3U * (1U << i);
         state->treehash[i].height = i;
-        state->treehash[i].nextIdx = startIdx;
         state->treehash[i].stackUsage = 0;
         state->treehash[i].completed = (startIdx >= (1U << hp));
+        /* Nothing is left to build near the end of the tree; keep the index within the range a saved state may hold. */
+        state->treehash[i].nextIdx = state->treehash[i].completed ? (1U << hp) : startIdx;
     }
 
     return CRYPT_SUCCESS;
-- 
2.43.0


From 1293382647647a53469ba91e1efa9dd24861bf91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:57 +0000
Subject: [PATCH 18/28] fix: GMAC initialisation clears the data and the IV of
 the last calculation

---
 crypto/gmac/src/gmac.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/crypto/gmac/src/gmac.c b/crypto/gmac/src/gmac.c
index a1edafe..27d6c6d 100644
--- a/crypto/gmac/src/gmac.c
+++ b/crypto/gmac/src/gmac.c
@@ -48,6 +48,11 @@ MODES_GCM_Ctx *CRYPT_GMAC_NewCtxEx(void *libCtx, CRYPT_MAC_AlgId id)
 int32_t CRYPT_GMAC_Init(MODES_GCM_Ctx *ctx, const uint8_t *key, uint32_t len, void *param)
 {
     (void)param;
+    // Clear the data and the IV of the last calculation.
+    int32_t ret = MODES_GCM_DeInitCtx(ctx);
+    if (ret != CRYPT_SUCCESS) {
+        return ret;
+    }
     return MODES_GCM_SetKey(&ctx->gcmCtx, key, len);
 }
 
-- 
2.43.0


From 3f5041e4fdada9fc509a319174b7a9188a3b80c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:43 +0000
Subject: [PATCH 19/28] fix: a cipher update refused for a short output buffer
 does not consume input

---
 crypto/modes/src/modes.c | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/crypto/modes/src/modes.c b/crypto/modes/src/modes.c
index 4b394f3..1067370 100644
--- a/crypto/modes/src/modes.c
+++ b/crypto/modes/src/modes.c
@@ -430,6 +430,19 @@ int32_t MODES_CipherFinal(MODES_CipherCtx *modeCtx, void *blockUpdate, uint8_t *
     return ret;
 }
 
+// Length of the data that an update with inLen bytes of input outputs.
+static uint32_t GetUpdateOutLen(const MODES_CipherCtx *modeCtx, uint32_t inLen)
+{
+    uint32_t blockSize = modeCtx->commonCtx.blockSize;
+    uint32_t total = modeCtx->dataLen + inLen;
+    uint32_t left = total % blockSize;
+    // In decryption with padding, the last complete block is left for final processing.
+    if (!modeCtx->enc && modeCtx->pad != CRYPT_PADDING_NONE && left == 0 && total != 0) {
+        left = blockSize;
+    }
+    return total - left;
+}
+
 int32_t MODES_CipherUpdate(MODES_CipherCtx *modeCtx, void *blockUpdate, const uint8_t *in, uint32_t inLen,
     uint8_t *out, uint32_t *outLen)
 {
@@ -439,6 +452,8 @@ int32_t MODES_CipherUpdate(MODES_CipherCtx *modeCtx, void *blockUpdate, const ui
     const uint8_t *tmpIn = in;
     uint8_t *tmpOut = (uint8_t *)out;
     RETURN_RET_IF((inLen + modeCtx->dataLen < inLen), CRYPT_EAL_BUFF_LEN_TOO_LONG);
+    // Check the output buffer first, so that a failure does not consume any input.
+    RETURN_RET_IF((outBuflen < GetUpdateOutLen(modeCtx, inLen)), CRYPT_EAL_BUFF_LEN_NOT_ENOUGH);
     ret = MODES_CipherUpdateCache(modeCtx, blockUpdate, &tmpIn, &tmpLen, &tmpOut, outLen);
     if (ret != CRYPT_SUCCESS) {
         BSL_ERR_PUSH_ERROR(ret);
-- 
2.43.0


From 4905903f9f5334328335d5e20c130c6f8c978fa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:37 +0000
Subject: [PATCH 20/28] fix: a cipher final that fails leaves the cached block
 decryptable

---
 crypto/modes/src/modes.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/crypto/modes/src/modes.c b/crypto/modes/src/modes.c
index 1067370..7784a80 100644
--- a/crypto/modes/src/modes.c
+++ b/crypto/modes/src/modes.c
@@ -405,6 +405,8 @@ int32_t MODES_CipherFinal(MODES_CipherCtx *modeCtx, void *blockUpdate, uint8_t *
             return CRYPT_SUCCESS;
         }
         uint8_t tmpBuf[EAL_MAX_BLOCK_LENGTH];
+        uint8_t iv[MODES_MAX_IV_LENGTH]; // Restored on failure, the block remains cached in that case.
+        memcpy(iv, modeCtx->commonCtx.iv, sizeof(iv));
         ret = ((DecryptBlock)blockUpdate)(&modeCtx->commonCtx, modeCtx->data, tmpBuf, modeCtx->dataLen);
         if (ret != CRYPT_SUCCESS) {
             BSL_ERR_PUSH_ERROR(ret);
@@ -413,11 +415,13 @@ int32_t MODES_CipherFinal(MODES_CipherCtx *modeCtx, void *blockUpdate, uint8_t *
         outLenTemp = modeCtx->dataLen;
         ret = MODES_BlockUnPadding(modeCtx->pad, tmpBuf, modeCtx->commonCtx.blockSize, &outLenTemp);
         if (ret != CRYPT_SUCCESS) {
+            memcpy(modeCtx->commonCtx.iv, iv, sizeof(iv));
             BSL_SAL_CleanseData(tmpBuf, EAL_MAX_BLOCK_LENGTH);
             BSL_ERR_PUSH_ERROR(ret);
             return ret;
         }
         if (outLenTemp > *outLen) {
+            memcpy(modeCtx->commonCtx.iv, iv, sizeof(iv));
             BSL_SAL_CleanseData(tmpBuf, EAL_MAX_BLOCK_LENGTH);
             BSL_ERR_PUSH_ERROR(CRYPT_EAL_BUFF_LEN_NOT_ENOUGH);
             return CRYPT_EAL_BUFF_LEN_NOT_ENOUGH;
-- 
2.43.0


From 8886682183f3088cc1d8cc81b308f1a65e0715b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:12 +0000
Subject: [PATCH 21/28] fix: a public key derived from the SM2 private key is
 dropped when another private key is set

---
 crypto/ecc/include/crypt_ecc_pkey.h |  2 ++
 crypto/ecc/src/ecc_pkey.c           | 10 ++++++++++
 2 files changed, 12 insertions(+)

diff --git a/crypto/ecc/include/crypt_ecc_pkey.h b/crypto/ecc/include/crypt_ecc_pkey.h
index f0c79ca..6d74434 100644
--- a/crypto/ecc/include/crypt_ecc_pkey.h
+++ b/crypto/ecc/include/crypt_ecc_pkey.h
@@ -19,6 +19,7 @@
 #include "hitls_build.h"
 #ifdef HITLS_CRYPTO_ECC
 
+#include <stdbool.h>
 #include "crypt_bn.h"
 #include "crypt_ecc.h"
 #include "crypt_algid.h"
@@ -38,6 +39,7 @@ extern "C" {
 typedef struct ECC_PkeyCtx {
     BN_BigNum *prvkey;      // Private key
     ECC_Point *pubkey;      // Public key
+    bool isPubDerived;      // The public key was not set, it was derived from the private key for an operation.
     ECC_Para *para;         // Key parameter
     CRYPT_PKEY_PointFormat pointFormat;   // Public key point format
     uint32_t useCofactorMode;   // Indicates whether to use the cofactor mode. 1 indicates yes, and 0 indicates no.
diff --git a/crypto/ecc/src/ecc_pkey.c b/crypto/ecc/src/ecc_pkey.c
index 23d755e..e11b547 100644
--- a/crypto/ecc/src/ecc_pkey.c
+++ b/crypto/ecc/src/ecc_pkey.c
@@ -71,6 +71,7 @@ ECC_Pkey *ECC_DupCtx(ECC_Pkey *ctx)
     }
 
     newCtx->useCofactorMode = ctx->useCofactorMode;
+    newCtx->isPubDerived = ctx->isPubDerived;
     newCtx->pointFormat = ctx->pointFormat;
     if (BSL_SAL_ReferencesInit(&(newCtx->references)) != BSL_SUCCESS) {
         BSL_ERR_PUSH_ERROR(CRYPT_MEM_ALLOC_FAIL);
@@ -141,6 +142,11 @@ int32_t ECC_PkeySetPrvKey(ECC_Pkey *ctx, const CRYPT_EccPrv *prv)
 
     BN_Destroy(ctx->prvkey);
     ctx->prvkey = newPrvKey;
+    if (ctx->isPubDerived) { // It belongs to the previous private key.
+        ECC_FreePoint(ctx->pubkey);
+        ctx->pubkey = NULL;
+        ctx->isPubDerived = false;
+    }
     BN_Destroy(paraN);
     return CRYPT_SUCCESS;
 
@@ -171,6 +177,7 @@ int32_t ECC_PkeySetPubKey(ECC_Pkey *ctx, const CRYPT_EccPub *pub)
     if (ret == CRYPT_SUCCESS) {
         ECC_FreePoint(ctx->pubkey);
         ctx->pubkey = newPubKey;
+        ctx->isPubDerived = false;
         return ret;
     }
     ECC_FreePoint(newPubKey);
@@ -338,7 +345,9 @@ int32_t ECC_GenPublicKey(ECC_Pkey *ctx)
     if (ret != CRYPT_SUCCESS) {
         ECC_FreePoint(ctx->pubkey);
         ctx->pubkey = NULL;
+        return ret;
     }
+    ctx->isPubDerived = true;
     return ret;
 }
 
@@ -357,6 +366,7 @@ static int32_t GenPublicKey(ECC_Pkey *ctx)
         }
     }
 
+    ctx->isPubDerived = false;
     return ECC_PointMul(ctx->para, ctx->pubkey, ctx->prvkey, NULL);
 }
 
-- 
2.43.0


From 66f29043e5c048a7f8ea9d0705bb267ac5ef09f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:53 +0000
Subject: [PATCH 22/28] fix: a duplicated key keeps the signing hash, the OAEP
 label and the DH flags of its source

---
 crypto/dh/src/dh_core.c     | 1 +
 crypto/dsa/src/dsa_core.c   | 1 +
 crypto/ecc/src/ecc_pkey.c   | 1 +
 crypto/rsa/src/rsa_keygen.c | 3 +++
 4 files changed, 6 insertions(+)

diff --git a/crypto/dh/src/dh_core.c b/crypto/dh/src/dh_core.c
index b13db7d..9bdc692 100644
--- a/crypto/dh/src/dh_core.c
+++ b/crypto/dh/src/dh_core.c
@@ -299,6 +299,7 @@ CRYPT_DH_Ctx *CRYPT_DH_DupCtx(CRYPT_DH_Ctx *ctx)
     GOTO_ERR_IF_SRC_NOT_NULL(newKeyCtx->x, ctx->x, BN_Dup(ctx->x), CRYPT_MEM_ALLOC_FAIL);
     GOTO_ERR_IF_SRC_NOT_NULL(newKeyCtx->y, ctx->y, BN_Dup(ctx->y), CRYPT_MEM_ALLOC_FAIL);
     GOTO_ERR_IF_SRC_NOT_NULL(newKeyCtx->para, ctx->para, ParaDup(ctx->para), CRYPT_MEM_ALLOC_FAIL);
+    newKeyCtx->flags = ctx->flags;
     newKeyCtx->libCtx = ctx->libCtx;
     return newKeyCtx;
 
diff --git a/crypto/dsa/src/dsa_core.c b/crypto/dsa/src/dsa_core.c
index 7702ce0..e84a961 100644
--- a/crypto/dsa/src/dsa_core.c
+++ b/crypto/dsa/src/dsa_core.c
@@ -345,6 +345,7 @@ CRYPT_DSA_Ctx *CRYPT_DSA_DupCtx(CRYPT_DSA_Ctx *dsaCtx)
     GOTO_ERR_IF_SRC_NOT_NULL(dsaNewCtx->para, dsaCtx->para, ParaDup(dsaCtx->para), CRYPT_MEM_ALLOC_FAIL);
     GOTO_ERR_IF_SRC_NOT_NULL(dsaNewCtx->mdAttr, dsaCtx->mdAttr, BSL_SAL_Dump(dsaCtx->mdAttr,
         strlen(dsaCtx->mdAttr) + 1), CRYPT_MEM_ALLOC_FAIL);
+    dsaNewCtx->signMdId = dsaCtx->signMdId;
     dsaNewCtx->libCtx = dsaCtx->libCtx;
     return dsaNewCtx;
 
diff --git a/crypto/ecc/src/ecc_pkey.c b/crypto/ecc/src/ecc_pkey.c
index e11b547..e89cb99 100644
--- a/crypto/ecc/src/ecc_pkey.c
+++ b/crypto/ecc/src/ecc_pkey.c
@@ -85,6 +85,7 @@ ECC_Pkey *ECC_DupCtx(ECC_Pkey *ctx)
     GOTO_ERR_IF_SRC_NOT_NULL(newCtx->para, ctx->para, ECC_DupPara(ctx->para), CRYPT_MEM_ALLOC_FAIL);
     GOTO_ERR_IF_SRC_NOT_NULL(newCtx->mdAttr, ctx->mdAttr, BSL_SAL_Dump(ctx->mdAttr, strlen(ctx->mdAttr) + 1),
         CRYPT_MEM_ALLOC_FAIL);
+    newCtx->signMdId = ctx->signMdId;
     newCtx->libCtx = ctx->libCtx;
     newCtx->flag = ctx->flag;
     return newCtx;
diff --git a/crypto/rsa/src/rsa_keygen.c b/crypto/rsa/src/rsa_keygen.c
index ae268bf..950b108 100644
--- a/crypto/rsa/src/rsa_keygen.c
+++ b/crypto/rsa/src/rsa_keygen.c
@@ -203,6 +203,9 @@ CRYPT_RSA_Ctx *CRYPT_RSA_DupCtx(CRYPT_RSA_Ctx *keyCtx)
     GOTO_ERR_IF_SRC_NOT_NULL(newKeyCtx->para, keyCtx->para, RSAParaDupCtx(keyCtx->para), CRYPT_MEM_ALLOC_FAIL);
     GOTO_ERR_IF_SRC_NOT_NULL(newKeyCtx->mdAttr, keyCtx->mdAttr, BSL_SAL_Dump(keyCtx->mdAttr,
         strlen(keyCtx->mdAttr) + 1), CRYPT_MEM_ALLOC_FAIL);
+    GOTO_ERR_IF_SRC_NOT_NULL(newKeyCtx->label.data, keyCtx->label.data, BSL_SAL_Dump(keyCtx->label.data,
+        keyCtx->label.len), CRYPT_MEM_ALLOC_FAIL);
+    newKeyCtx->label.len = keyCtx->label.len;
     newKeyCtx->libCtx = keyCtx->libCtx;
     return newKeyCtx;
 
-- 
2.43.0


From 39b86068037bbd81ef990d6ccb59d0b163b68990 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:54 +0000
Subject: [PATCH 23/28] fix: a public key derived from the Ed25519 private key
 is dropped when another private key is set

---
 crypto/curve25519/src/curve25519.c       | 8 ++++++--
 crypto/curve25519/src/curve25519_local.h | 1 +
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/crypto/curve25519/src/curve25519.c b/crypto/curve25519/src/curve25519.c
index b137a8d..bca1280 100644
--- a/crypto/curve25519/src/curve25519.c
+++ b/crypto/curve25519/src/curve25519.c
@@ -155,7 +155,7 @@ int32_t CRYPT_CURVE25519_Ctrl(CRYPT_CURVE25519_Ctx *pkey, int32_t opt, void *val
                 return CRYPT_CURVE25519_NO_PRVKEY;
             }
             CRYPT_X25519_PublicFromPrivate(pkey->prvKey, pkey->pubKey);
-            pkey->keyType |= CURVE25519_PUBKEY;
+            pkey->keyType |= CURVE25519_PUBKEY | CURVE25519_PUBDERIVED;
             return CRYPT_SUCCESS;
 #endif
         default:
@@ -254,6 +254,7 @@ int32_t CRYPT_CURVE25519_SetPubKey(CRYPT_CURVE25519_Ctx *pkey, const CRYPT_Curve
        The pkey memory is dynamically allocated and does not overlap with the pubkey memory. */
     /* There is no failure case for memcpy. */
     memcpy(pkey->pubKey, pub->data, pub->len);
+    pkey->keyType &= ~CURVE25519_PUBDERIVED;
     pkey->keyType |= CURVE25519_PUBKEY;
 
     return CRYPT_SUCCESS;
@@ -275,6 +276,9 @@ int32_t CRYPT_CURVE25519_SetPrvKey(CRYPT_CURVE25519_Ctx *pkey, const CRYPT_Curve
        The pkey memory is dynamically allocated and does not overlap with the pubkey memory. */
     /* There is no failure case for memcpy. */
     memcpy(pkey->prvKey, prv->data, prv->len);
+    if ((pkey->keyType & CURVE25519_PUBDERIVED) != 0) { // It belongs to the previous private key.
+        pkey->keyType &= ~(CURVE25519_PUBDERIVED | CURVE25519_PUBKEY);
+    }
     pkey->keyType |= CURVE25519_PRVKEY;
 
     return CRYPT_SUCCESS;
@@ -457,7 +461,7 @@ int32_t CRYPT_CURVE25519_Sign(CRYPT_CURVE25519_Ctx *pkey, int32_t algId, const u
     if ((pkey->keyType & CURVE25519_PUBKEY) == 0) {
         ScalarMultiBase(&geTmp, prvKeyHash);
         PointEncoding(&geTmp, pkey->pubKey, CRYPT_CURVE25519_KEYLEN);
-        pkey->keyType |= CURVE25519_PUBKEY;
+        pkey->keyType |= CURVE25519_PUBKEY | CURVE25519_PUBDERIVED;
     }
 
     ret = GetHash(r, prvKeyHash + CRYPT_CURVE25519_KEYLEN, NULL, msg, msgLen, pkey->hashMethod);
diff --git a/crypto/curve25519/src/curve25519_local.h b/crypto/curve25519/src/curve25519_local.h
index a26d8a3..7ff150c 100644
--- a/crypto/curve25519/src/curve25519_local.h
+++ b/crypto/curve25519/src/curve25519_local.h
@@ -29,6 +29,7 @@ extern "C" {
 #define CURVE25519_NOKEY 0
 #define CURVE25519_PRVKEY 0x1
 #define CURVE25519_PUBKEY 0x10
+#define CURVE25519_PUBDERIVED 0x20 /* the public key was not set, it was derived from the private key */
 
 #define UINT8_32_21BITS_BLOCKNUM 12
 #define UINT8_64_21BITS_BLOCKNUM 24
-- 
2.43.0


From 952f7c75598e9adff24e9563c7475215cfbecd44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:55 +0000
Subject: [PATCH 24/28] fix: a refused RSA public key does not reset the
 padding

---
 crypto/rsa/src/rsa_keyop.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crypto/rsa/src/rsa_keyop.c b/crypto/rsa/src/rsa_keyop.c
index cd1809b..c85c66f 100644
--- a/crypto/rsa/src/rsa_keyop.c
+++ b/crypto/rsa/src/rsa_keyop.c
@@ -188,7 +188,6 @@ int32_t CRYPT_RSA_SetPubKey(CRYPT_RSA_Ctx *ctx, const CRYPT_RsaPub *pub)
     }
     uint32_t bnBits;
     CRYPT_RSA_PubKey *newPub = NULL;
-    memset(&(ctx->pad), 0, sizeof(RSAPad));
     /* Bit length is obtained by multiplying byte length by 8. */
     newPub = RSA_NewPubKey(pub->nLen * 8);
     if (newPub == NULL) {
@@ -226,6 +225,7 @@ int32_t CRYPT_RSA_SetPubKey(CRYPT_RSA_Ctx *ctx, const CRYPT_RsaPub *pub)
         goto ERR;
     }
 
+    memset(&(ctx->pad), 0, sizeof(RSAPad));
     RSA_FreePubKey(ctx->pubKey);
     ctx->pubKey = newPub;
     return ret;
-- 
2.43.0


From 4cc384f4ca193e93a3e6640289beba6a6cb441b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:07 +0000
Subject: [PATCH 25/28] fix: an expired session from the application's session
 cache is not resumed

---
 tls/feature/session/src/session_mgr.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tls/feature/session/src/session_mgr.c b/tls/feature/session/src/session_mgr.c
index 5650755..c75411a 100644
--- a/tls/feature/session/src/session_mgr.c
+++ b/tls/feature/session/src/session_mgr.c
@@ -335,7 +335,8 @@ HITLS_Session *SESSMGR_Find(TLS_Ctx *ctx, uint8_t *sessionId, uint8_t sessionIdS
             if (copy != 0) {
                 sess = HITLS_SESS_Dup(sess);
             }
-            if (!HITLS_SESS_IsResumable(sess)) {
+            /* The life time limits a session wherever it is stored */
+            if (!HITLS_SESS_IsResumable(sess) || !SESS_CheckValidity(sess, (uint64_t)BSL_SAL_CurrentSysTimeGet())) {
                 HITLS_SESS_Free(sess);
                 return NULL;
             }
-- 
2.43.0


From ad6b933664e3e957cd3f91a03d66575ff3775db6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:13 +0000
Subject: [PATCH 26/28] fix: a session is not resumed with a cipher suite the
 server no longer has configured

---
 tls/handshake/recv/src/recv_client_hello.c | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/tls/handshake/recv/src/recv_client_hello.c b/tls/handshake/recv/src/recv_client_hello.c
index 4672acd..114aaff 100644
--- a/tls/handshake/recv/src/recv_client_hello.c
+++ b/tls/handshake/recv/src/recv_client_hello.c
@@ -1056,6 +1056,17 @@ int32_t ServerCheckResumeCipherSuite(const ClientHelloMsg *clientHello, uint16_t
     return HITLS_MSG_HANDLE_ILLEGAL_CIPHER_SUITE;
 }
 
+/* A session is only continued with a cipher suite that the server still has configured. */
+static bool ServerHasCipherSuite(const TLS_Ctx *ctx, uint16_t cipherSuite)
+{
+    for (uint32_t i = 0u; i < ctx->config.tlsConfig.cipherSuitesSize; i++) {
+        if (cipherSuite == ctx->config.tlsConfig.cipherSuites[i]) {
+            return true;
+        }
+    }
+    return false;
+}
+
 static int32_t ServerCheckResumeParam(TLS_Ctx *ctx, const ClientHelloMsg *clientHello)
 {
     int32_t ret = HITLS_SUCCESS;
@@ -1065,7 +1076,7 @@ static int32_t ServerCheckResumeParam(TLS_Ctx *ctx, const ClientHelloMsg *client
     HITLS_SESS_GetProtocolVersion(sess, &version);
     HITLS_SESS_GetCipherSuite(sess, &cipherSuite);
 
-    if (ServerCmpSessionIdCtx(ctx, sess) != true) {
+    if (ServerCmpSessionIdCtx(ctx, sess) != true || !ServerHasCipherSuite(ctx, cipherSuite)) {
         HITLS_SESS_Free(ctx->session);
         ctx->session = NULL;
         ctx->negotiatedInfo.isResume = false;
-- 
2.43.0


From 6bf60a7bf0f8c9aff7a13f909498f272ee03e833 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:06 +0000
Subject: [PATCH 27/28] fix: a ticket is decrypted with its own iv when the
 application keeps the ticket keys

---
 tls/feature/session/src/session_ticket.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/tls/feature/session/src/session_ticket.c b/tls/feature/session/src/session_ticket.c
index f703a7b..37530f8 100644
--- a/tls/feature/session/src/session_ticket.c
+++ b/tls/feature/session/src/session_ticket.c
@@ -354,7 +354,13 @@ static int32_t GetSessDecryptInfo(const TLS_SessionMgr *sessMgr, Ticket *ticket,
 #ifdef HITLS_TLS_FEATURE_SESSION
     HITLS_TicketKeyCb cb = sessMgr->ticketKeyCb;
     if (cb != NULL) {
-        return cb(ticket->keyName, HITLS_TICKET_KEY_NAME_SIZE, cipher, false);
+        int32_t ret = cb(ticket->keyName, HITLS_TICKET_KEY_NAME_SIZE, cipher, false);
+        /* The iv of the ticket is used, the callback need not return it. */
+        cipher->iv = ticket->iv;
+        if (cipher->ivLen == 0 || cipher->ivLen > HITLS_TICKET_IV_SIZE) {
+            cipher->ivLen = HITLS_TICKET_IV_SIZE;
+        }
+        return ret;
     }
 #endif
     /* The user does not register the callback. Use the default ticket key. */
-- 
2.43.0


From 197a4f468c392ace4295bf393f8be958821d678c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:55 +0000
Subject: [PATCH 28/28] fix: a CRL number whose encoding the library would
 refuse is not written

---
 pki/x509_common/src/hitls_x509_ext.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pki/x509_common/src/hitls_x509_ext.c b/pki/x509_common/src/hitls_x509_ext.c
index cc7cb84..d39a7d3 100644
--- a/pki/x509_common/src/hitls_x509_ext.c
+++ b/pki/x509_common/src/hitls_x509_ext.c
@@ -1892,6 +1892,12 @@ static int32_t SetExtCrlNumber(HITLS_X509_Ext *ext, HITLS_X509_ExtEntry *entry,
         BSL_ERR_PUSH_ERROR(HITLS_X509_ERR_EXT_CRLNUMBER);
         return HITLS_X509_ERR_EXT_CRLNUMBER;
     }
+    /* The encoding of a number with the top bit set has one octet more, which must not exceed the limit either. */
+    if (crlNumber->crlNumber.dataLen == HITLS_X509_CRLNUMBER_MAX_LEN && crlNumber->crlNumber.data != NULL &&
+        (crlNumber->crlNumber.data[0] & 0x80) != 0) {
+        BSL_ERR_PUSH_ERROR(HITLS_X509_ERR_EXT_CRLNUMBER);
+        return HITLS_X509_ERR_EXT_CRLNUMBER;
+    }
 
     BSL_ASN1_Buffer asn = {BSL_ASN1_TAG_INTEGER, crlNumber->crlNumber.dataLen, crlNumber->crlNumber.data};
     BSL_ASN1_TemplateItem item = {BSL_ASN1_TAG_INTEGER, 0, 0};
-- 
2.43.0

