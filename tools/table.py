#!/usr/bin/env python3
"""Single source of truth for properties.jsonl (and MANIFEST.json, via manifest.py)."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

P = []
def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None, hook=None):
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text},
        "why_tests_cant": why,
        "anchors": {"files": files,
                    "state": [{"name": a, "meaning": b, "where": c} for a, b, c in (state or [])],
                    "mechanism": [{"name": a, "where": b} for a, b in mech],
                    "observe_at": observe or [], "hook_needed": hook}})

prop("C01", "A handshake completes only over a complete, legal message sequence",
  "An endpoint reports its handshake complete, or hands out application data, only if the messages it received form one of the legal flights for what was negotiated: every mandatory message present once, in order, unencrypted messages only where allowed and with valid proofs. For any other sequence a peer that knows all keys can produce (message skipped, repeated, reordered, injected or of an unexpected type) the endpoint fails with an error instead of completing.",
  ["inputs", "histories"], "every sequence of well-formed handshake, change-cipher-spec, alert and application records a key-holding peer can send to a client or server, up to the stated number of deviations from a legal flow, for TLS 1.2, TLS 1.3 and TLCP flows with and without client authentication, resumption, tickets and hello retry",
  "tests replay a few dozen hand-picked illegal messages; the acceptance language of the state machine is a set of sequences, and a single wrongly accepted skip (no CertificateVerify, no Finished, early ChangeCipherSpec) is invisible unless that exact sequence is sent with a matching transcript",
  ["tls/handshake/parse/src/parse.c", "tls/handshake/recv/src/hs_state_recv.c", "tls/handshake/recv/src/recv_server_hello.c", "tls/handshake/recv/src/recv_finished.c", "tls/ccs/src/change_cipher_spec.c", "tls/handshake/sm/src/hs_sm.c", "tls/cm/src/conn_establish.c"],
  [("expected-message table and per-state optional-message rules", "tls/handshake/parse/src/parse.c"), ("state transitions after each received message", "tls/handshake/recv/src/*.c"), ("CCS gating of Finished", "tls/ccs/src/change_cipher_spec.c")],
  [("hsCtx->state", "next message the endpoint waits for", "tls/handshake/include")], ["HITLS_Connect/HITLS_Accept return value", "HITLS_Read"])

prop("C02", "A modified handshake is never accepted",
  "If an attacker on the wire changes, drops, repeats or truncates any part of the handshake messages that one endpoint sends, the receiving endpoint never reports the handshake complete. The only exceptions are bits that carry no meaning to either endpoint (such as the legacy record version), and then both endpoints still agree on every negotiated value and key.",
  ["inputs", "configurations"], "every byte position of every handshake record of each explored flow, each with a fixed set of replacement values, plus removal, duplication, swapping and truncation of each record",
  "tests corrupt a handful of fields; that every byte is bound by transcript hashes, signatures, MACs and AEAD tags is a statement over all positions and all flows",
  ["tls/handshake/common/src/hs_verify.c", "tls/handshake/common/src/transcript_hash.c", "tls/handshake/recv/src/recv_finished.c", "tls/handshake/common/src/hs_kx.c", "tls/record/src/rec_read.c"],
  [("transcript hash and Finished verification", "tls/handshake/common/src/hs_verify.c"), ("signature over key exchange / CertificateVerify", "tls/handshake/recv/src/recv_cert_verify.c")],
  observe=["HITLS_Connect", "HITLS_Accept", "HITLS_ExportKeyingMaterial"])

prop("C03", "TLS delivers exactly the bytes sent, in order, or fails",
  "On an established TLS or TLCP connection the bytes an application reads are always a prefix of the bytes its peer wrote, whatever an attacker does to the protected records in between (alter, drop, duplicate, reorder, truncate, inject, reflect). Any such manipulation of a record the receiver processes ends the connection with an error, and no byte of a rejected record is ever returned.",
  ["inputs", "configurations"], "every supported cipher suite and protection mode (AEAD, CBC with MAC-then-encrypt and encrypt-then-MAC), message sizes around block and fragment boundaries, and every single attacker action on every record and byte position",
  "tests tamper with one or two records for one or two suites; the guarantee ranges over all suites, sizes, positions and attacker actions",
  ["tls/record/src/rec_read.c", "tls/record/src/rec_write.c", "tls/record/src/rec_crypto_aead.c", "tls/record/src/rec_crypto_cbc.c", "tls/record/src/rec_conn.c", "tls/app/src/app.c", "tls/cm/src/conn_read.c"],
  [("sequence numbers in nonce/MAC", "tls/record/src/rec_conn.c"), ("tag/MAC/padding check before delivery", "tls/record/src/rec_crypto_*.c")],
  observe=["HITLS_Read", "HITLS_Write"])

prop("C04", "DTLS delivers only authentic datagrams, each at most once",
  "On an established DTLS connection every datagram payload the application reads was written by the peer, unmodified, and is delivered at most once however often it is replayed. A corrupted, replayed or too-old datagram is discarded without breaking the connection, and an authentic datagram within the replay window that was not seen before is delivered regardless of arrival order.",
  ["histories", "inputs", "configurations"], "every delivery sequence (loss, duplication, reordering, corruption) of a set of sent datagrams, including numbers on both sides of the window edges, up to the stated length, for DTLS 1.2, DTLS 1.3 and DTLCP",
  "the window is history dependent: tests cover a few arrival orders, not all orders around the window edges",
  ["tls/record/src/rec_anti_replay.c", "tls/record/src/rec_read.c", "tls/record/src/rec_write.c", "tls/record/src/rec_crypto_aead.c"],
  [("sliding replay window", "tls/record/src/rec_anti_replay.c")], observe=["HITLS_Read"])

prop("C05", "I/O fragmentation and retry never change the outcome of a connection",
  "Whatever way the transport splits reads and writes, and wherever it reports that it would block, a connection whose operations are simply retried completes its handshake with the same negotiated parameters and transfers exactly the same application bytes as over an unbroken transport. A would-block condition is always reported as retryable and never loses, repeats or reorders data.",
  ["schedules", "configurations"], "every placement of one or two short reads, short writes or would-block answers among all transport calls of the explored connections, and all uniform chunk sizes",
  "loopback tests see large reads and writes that nearly always succeed; re-entry after a partial record at each point of each state is a schedule, not an input",
  ["tls/record/src/rec_read.c", "tls/record/src/rec_write.c", "tls/record/src/rec_buf.c", "tls/cm/src/conn_establish.c", "tls/cm/src/conn_read.c", "tls/cm/src/conn_write.c", "tls/handshake/recv/src/hs_state_recv.c", "tls/handshake/send/src/hs_state_send.c", "bsl/uio/src/uio_buffer.c"],
  [("buffered partial records", "tls/record/src/rec_buf.c"), ("resumable send/receive sub-states", "tls/handshake/recv/src/*.c")], observe=["HITLS_Connect", "HITLS_Accept", "HITLS_Read", "HITLS_Write"])

prop("C06", "A DTLS handshake survives loss, duplication and reordering",
  "If the network loses, duplicates, delays or reorders handshake datagrams and afterwards delivers faithfully, two DTLS endpoints that keep processing their retransmission timers complete the handshake with identical negotiated parameters and keys. No such network behaviour makes an endpoint fail, complete with wrong data or deliver application data twice.",
  ["schedules", "fault_sequences", "configurations"], "every pattern of up to the stated number of lost, duplicated or swapped datagrams among the datagrams of the handshake, for DTLS 1.2 with and without cookie exchange, DTLS 1.3 and DTLCP, with whole and fragmented messages",
  "tests drop one or two chosen messages; retransmission, reassembly and de-duplication interact over all patterns",
  ["tls/record/src/rec_retransmit.c", "tls/handshake/reass/src/hs_reass.c", "tls/handshake/common/src/hs_dtls_timer.c", "tls/record/src/rec_unprocessed_msg.c", "tls/record/src/rec_ack.c", "tls/handshake/recv/src/hs_state_recv.c"],
  [("flight retransmission", "tls/record/src/rec_retransmit.c"), ("message reassembly queue", "tls/handshake/reass/src/hs_reass.c"), ("timers", "tls/handshake/common/src/hs_dtls_timer.c")], observe=["HITLS_Connect", "HITLS_Accept", "HITLS_DtlsProcessTimeout"])

prop("C07", "Negotiation yields what both sides allow, and both sides agree",
  "When two endpoints complete a handshake, the protocol version, cipher suite, group, signature scheme and application protocol in use were enabled by both configurations, the version is the highest both allow, and the selection follows the documented preference order. Both endpoints then report the same values and hold the same keys (equal exported keying material); when no common choice exists neither endpoint completes.",
  ["configurations"], "every pair of client and server configurations over the explored version ranges, cipher suite, group, signature scheme and ALPN lists and preference flags",
  "tests check selected pairs; the guarantee is over the product of both sides' configurations",
  ["tls/handshake/recv/src/recv_client_hello.c", "tls/handshake/recv/src/recv_server_hello.c", "tls/config/src/cipher_suite.c", "tls/config/src/config.c", "tls/handshake/send/src/send_server_hello.c", "tls/feature/alpn/src/alpn.c", "tls/handshake/common/src/tls13key.c"],
  [("server selection", "tls/handshake/recv/src/recv_client_hello.c"), ("client acceptance checks", "tls/handshake/recv/src/recv_server_hello.c")], observe=["HITLS_GetNegotiatedVersion", "HITLS_GetCurrentCipher", "HITLS_ExportKeyingMaterial"])

prop("C08", "A peer is authenticated exactly as the configuration demands",
  "An endpoint configured to verify its peer completes a handshake only if the peer presented a certificate chain that verifies against the endpoint's trust store and proved possession of the matching private key; a server that requires a client certificate never completes without one. Verification is skipped only where the configuration says so, and a pre-shared key authenticates only a peer that holds that key.",
  ["configurations", "inputs"], "every combination of verification settings and presented credentials (trusted, untrusted, expired, wrong key, wrong purpose, missing, altered signature) for each protocol version and role",
  "tests cover the common combinations; a missing check in one combination lets an unauthenticated peer in without any other visible effect",
  ["tls/handshake/recv/src/recv_certificate.c", "tls/handshake/recv/src/recv_cert_verify.c", "tls/cert/cert_adapt/cert.c", "tls/handshake/common/src/hs_cert.c", "tls/handshake/recv/src/recv_client_hello.c", "tls/cert/hitls_x509_adapt/hitls_x509_cert_chain.c"],
  [("certificate chain verification", "tls/cert/cert_adapt/cert.c"), ("proof of possession", "tls/handshake/recv/src/recv_cert_verify.c"), ("PSK binder", "tls/handshake/common/src/tls13key.c")], observe=["HITLS_Connect", "HITLS_Accept", "HITLS_GetVerifyResult"])

prop("C09", "A session is resumed only where it is valid",
  "A connection is resumed only from a session that this server (or one sharing its ticket keys) established, that has not expired or been removed, and whose protocol version, cipher suite, session-id context and extended-master-secret state still match the new connection; otherwise a full handshake takes place or the handshake fails. Any alteration of a ticket or session identifier never yields a resumed connection, and a resumed connection keeps the identity and secrets of the original one.",
  ["histories", "configurations", "inputs"], "every history of establish, expire, remove, reconfigure and resume steps up to the stated length over the explored configurations, and every byte position of an altered ticket",
  "tests resume under a handful of configuration changes; validity depends on the history and on the pair of configurations",
  ["tls/feature/session/src/session.c", "tls/feature/session/src/session_mgr.c", "tls/feature/session/src/session_ticket.c", "tls/feature/session/src/session_dec.c", "tls/handshake/recv/src/recv_client_hello.c", "tls/handshake/recv/src/recv_server_hello.c"],
  [("ticket authentication and decoding", "tls/feature/session/src/session_ticket.c"), ("session cache", "tls/feature/session/src/session_mgr.c"), ("resumption checks", "tls/handshake/recv/src/recv_client_hello.c")], observe=["HITLS_IsSessionReused", "HITLS_SESS_*"])

prop("C10", "A connection behaves safely under any order of API calls",
  "In every order of handshake, read, write, key-update, renegotiation and close calls by the two applications, no application byte leaves an endpoint unprotected or before its handshake is complete, data written before a close is readable by the peer before the close is reported, and key updates never lose or corrupt data. After a close or a fatal error an endpoint neither returns nor accepts further application data.",
  ["histories"], "every interleaving of the two applications' calls up to the stated length for TLS 1.2, TLS 1.3, DTLS and TLCP connections",
  "tests exercise straight-line scripts; the misuse orders and cross-overs (both sides closing, updating keys or renegotiating at once) are sequences nobody wrote down",
  ["tls/cm/src/conn_establish.c", "tls/cm/src/conn_read.c", "tls/cm/src/conn_write.c", "tls/cm/src/conn_common.c", "tls/alert/src/alert.c", "tls/handshake/recv/src/hs_state_recv.c", "tls/handshake/common/src/tls13key.c"],
  [("connection state machine", "tls/cm/src"), ("alert handling", "tls/alert/src/alert.c"), ("key update", "tls/handshake/common/src/tls13key.c")], observe=["HITLS_Read", "HITLS_Write", "HITLS_Close", "HITLS_KeyUpdate", "bytes on the wire"])

prop("C11", "Certificate verification accepts exactly the valid chains",
  "Verifying a certificate against a trust store succeeds if and only if a path to a trusted certificate exists in which every signature verifies, names chain, validity periods cover the verification time, issuers are allowed to issue (basic constraints, path length, key usage), the depth and security limits hold, no unknown critical extension is present, the purpose matches and, when requested, no checked certificate is revoked. No combination of individually tolerated defects turns an invalid chain into an accepted one.",
  ["inputs", "configurations"], "every chain of up to the stated length built from the explored certificate variants, presented and stored in every arrangement, under every combination of the verification flags",
  "tests use a few dozen fixed chains; the rule is a conjunction over all certificates and all flags",
  ["pki/x509_verify/src/hitls_x509_verify.c", "pki/x509_verify/src/hitls_x509_store.c", "pki/x509_common/src/hitls_x509_common.c", "pki/x509_crl/src/hitls_x509_crl.c"],
  [("chain building and checks", "pki/x509_verify/src/hitls_x509_verify.c")], observe=["HITLS_X509_CertVerify", "HITLS_X509_CertChainBuild"])

prop("C12", "A certificate identity matches exactly the names it covers",
  "Checking a host name or IP address against a certificate succeeds exactly when it equals (ignoring ASCII case) a subject alternative name of the right type, or matches a wildcard that is the complete left-most label of such a name and stands for exactly one label, and the subject common name is used only when the certificate carries no alternative name of that type and the flags allow it. No embedded NUL, empty label, partial wildcard or IP-like text makes a non-covered name match.",
  ["inputs"], "every pair of certificate name and reference name over a small alphabet up to the stated length, under each flag combination, and IP addresses in all textual forms enumerated",
  "tests use a few dozen names; the matching relation is over all pairs",
  ["pki/x509_verify/src/hitls_x509_verify.c", "bsl/sal/src/sal_ip_util.c"],
  [("identity matching", "pki/x509_verify/src/hitls_x509_verify.c")], observe=["HITLS_X509_VerifyIdentity"])

prop("C13", "Signed and protected objects are tamper-evident",
  "If any bit of the protected content, the signature or the MAC of a certificate, revocation list, certificate request, CMS signed message, or MAC-protected PKCS#12 file is changed, verification (or opening it) fails or yields the unchanged content. The unmodified object verifies with the right key or password and fails with any other; a password-protected private key opens with its password and with no other.",
  ["inputs"], "every byte position of each explored object with a fixed set of replacement values, and a set of wrong keys and passwords",
  "tests flip a few bytes; coverage of every byte by the signature or MAC is a statement over all positions",
  ["pki/x509_common/src/hitls_x509_util.c", "pki/x509_cert/src/hitls_x509_cert.c", "pki/x509_crl/src/hitls_x509_crl.c", "pki/x509_csr/src/hitls_x509_csr.c", "pki/cms/src/hitls_cms_signdata.c", "pki/pkcs12/src/hitls_pkcs12_common.c", "crypto/codecskey/src"],
  [("signature verification over the exact encoded bytes", "pki/x509_common/src"), ("PKCS#12 MAC", "pki/pkcs12/src/hitls_pkcs12_util.c")], observe=["HITLS_X509_CertVerifyByPubKey", "HITLS_X509_CrlVerify", "HITLS_X509_CsrVerify", "HITLS_CMS_DataVerify", "HITLS_PKCS12_ParseBuff"])

prop("C14", "Decoders survive every malformed input",
  "Parsing any byte string as a key, certificate, revocation list, request, CMS or PKCS#12 object, PEM or base64 text, ASN.1 value, TLS session, or TLS/DTLS record and handshake message terminates with success or an error and never reads or writes outside its buffers, leaks memory or corrupts later operations.",
  ["inputs"], "every truncation of each explored valid encoding, every byte position with a fixed set of replacement values, and every length field with boundary values",
  "tests contain some malformed vectors; memory safety is a statement over all inputs",
  ["bsl/asn1/src/bsl_asn1.c", "bsl/pem/src/bsl_pem.c", "bsl/base64/src/bsl_base64.c", "pki", "crypto/codecskey/src", "codecs/src", "tls/handshake/parse/src", "tls/record/src/rec_read.c", "tls/feature/session/src/session_dec.c"],
  [("length checks in decoders", "bsl/asn1/src/bsl_asn1.c, tls/handshake/parse/src")], observe=["return values", "AddressSanitizer/LeakSanitizer"])

prop("C15", "What the library encodes it decodes back to the same thing",
  "For every key, certificate, request, revocation list, CMS or PKCS#12 object and TLS session the library can generate, in every supported format, decoding the encoding yields an object with the same fields that, unless the format adds fresh randomness, encodes again to the same bytes. Numbers, dates, names, identifiers and extension values are preserved exactly, including boundary values.",
  ["inputs", "configurations"], "every combination of the explored field values (key types, serial numbers, dates, names, extensions, passwords, formats)",
  "tests round-trip sample objects; the guarantee is over all field values and formats",
  ["crypto/codecskey/src", "pki/x509_cert/src/hitls_x509_cert.c", "pki/x509_crl/src/hitls_x509_crl.c", "pki/x509_csr/src/hitls_x509_csr.c", "pki/pkcs12/src", "pki/cms/src", "bsl/asn1/src/bsl_asn1.c", "tls/feature/session/src/session_enc.c"],
  [("encoders and decoders", "crypto/codecskey/src, pki")], observe=["*GenBuff / *ParseBuff", "CRYPT_EAL_EncodeBuffKey / DecodeBuffKey"])

prop("C16", "Symmetric primitives are exact and independent of chunking",
  "Every hash, MAC, block and stream cipher mode gives, for every message length and every way of splitting the message over update calls, the same result as the algorithm's definition applied to the whole message, and decryption returns exactly the plaintext. Out-of-range keys, initial vectors, tag lengths and padding are rejected instead of producing output.",
  ["inputs", "histories", "configurations"], "every algorithm and mode, every message length up to several blocks, and every split into up to three updates (including empty ones), in place and out of place",
  "tests use fixed vectors and a few splits; buffering errors appear only at particular combinations of length, split and mode",
  ["crypto/modes/src", "crypto/sha2/src", "crypto/sha3/src", "crypto/sm3/src", "crypto/md5/src", "crypto/sha1/src", "crypto/blake2/src", "crypto/hmac/src", "crypto/cmac/src", "crypto/gmac/src", "crypto/siphash/src", "crypto/aes/src", "crypto/sm4/src", "crypto/chacha20/src", "crypto/eal/src"],
  [("block buffering", "crypto/*/src update functions")], observe=["CRYPT_EAL_Md*", "CRYPT_EAL_Mac*", "CRYPT_EAL_Cipher*"])

prop("C17", "Authenticated encryption rejects every forgery",
  "Decrypting with an authenticated mode (GCM, CCM, ChaCha20-Poly1305 of AES and SM4, key wrap, HPKE) succeeds exactly when key, nonce, associated data, ciphertext and tag are those produced by encryption, for every supported length of each, and then returns the original plaintext. Changing any bit of any of them makes authentication fail.",
  ["inputs", "configurations"], "every mode, tag length and nonce length, all plaintext and associated-data lengths up to several blocks, every bit position of tag, ciphertext, associated data and nonce",
  "tests check vectors and a few corruptions; authenticity ranges over all positions and lengths",
  ["crypto/modes/src/modes_gcm.c", "crypto/modes/src/modes_ccm.c", "crypto/modes/src/modes_chacha20poly1305.c", "crypto/modes/src", "crypto/hpke/src/hpke.c"],
  [("tag computation and comparison", "crypto/modes/src")], observe=["CRYPT_EAL_Cipher*", "CRYPT_EAL_HpkeOpen"])

prop("C18", "Signature verification accepts exactly what was signed",
  "For every signature algorithm, hash and padding, a signature made with a private key verifies with the matching public key over the same message, and verification fails for any other message, any other key, any other hash or context and any altered, truncated or extended signature. Degenerate signatures (zero, out-of-range or all-ones components) never verify.",
  ["inputs", "configurations"], "every supported algorithm/parameter set, every bit position of the signature and message for the explored keys, and the set of degenerate encodings",
  "tests use vectors and a few mutations; soundness ranges over all alterations",
  ["crypto/rsa/src", "crypto/ecdsa/src", "crypto/dsa/src", "crypto/sm2/src", "crypto/sm9/src", "crypto/curve25519/src", "crypto/mldsa/src", "crypto/hbs", "crypto/composite/src", "crypto/eal/src/eal_pkey_sign.c"],
  [("verification equations and range checks", "crypto/*/src")], observe=["CRYPT_EAL_PkeySign", "CRYPT_EAL_PkeyVerify"])

prop("C19", "Key agreement, encapsulation and public-key encryption are consistent",
  "Both parties of a key agreement or encapsulation compute the same secret, decryption inverts encryption for every plaintext length allowed, and altered ciphertexts, wrong keys, invalid or low-order public keys and out-of-range values never yield the original secret or plaintext: they are rejected, or produce an unrelated secret where the algorithm prescribes implicit rejection.",
  ["inputs", "configurations"], "every algorithm/parameter set, all plaintext lengths, every byte position of ciphertexts and public keys, and the set of degenerate public values",
  "tests use vectors and few mutations",
  ["crypto/ecdh/src", "crypto/dh/src", "crypto/curve25519/src", "crypto/mlkem/src", "crypto/frodokem/src", "crypto/mceliece/src", "crypto/hybridkem/src", "crypto/rsa/src", "crypto/sm2/src", "crypto/sm9/src", "crypto/elgamal/src", "crypto/paillier/src", "crypto/hpke/src"],
  [("validation of peer values", "crypto/*/src"), ("implicit rejection", "crypto/mlkem/src")], observe=["CRYPT_EAL_PkeyComputeShareKey", "CRYPT_EAL_PkeyEncaps/Decaps", "CRYPT_EAL_PkeyEncrypt/Decrypt"])

prop("C20", "Big-number arithmetic is exact",
  "Every big-number operation (addition, subtraction, multiplication, squaring, division, modular operations, inversion, gcd, shifts, comparison, conversion) returns the exact mathematical result for operands of any size and sign, also when the result aliases an operand, and fails only where the mathematics or the documented limits say so.",
  ["inputs"], "every combination of operands whose machine words are drawn from a set of boundary values, up to the stated number of words, with every aliasing of result and operands",
  "tests use random and fixed operands; carry, borrow and normalisation errors need particular word patterns",
  ["crypto/bn/src"], [("word-level carry propagation", "crypto/bn/src/bn_bincal.c"), ("Montgomery and Barrett reduction", "crypto/bn/src/bn_mont.c")], observe=["BN_*"])

prop("C21", "The random generator never outputs unseeded or stale randomness",
  "A deterministic random bit generator yields output only after a successful instantiation, reseeds no later than its interval allows, gives output that matches its specification for the entropy it was fed, and never repeats a state. If its entropy source, nonce source or an internal step fails at any point, the call reports an error, no output is presented as random, and the generator does not continue in a weakened state.",
  ["fault_sequences", "histories", "configurations"], "every generator type, every sequence of instantiate, generate, reseed and uninstantiate calls up to the stated length, with an entropy failure injected at every point",
  "tests run the happy path and a few failures; fail-safety is over all call histories and failure points",
  ["crypto/drbg/src", "crypto/eal/src/eal_rand.c", "crypto/eal/src/eal_drbg.c", "crypto/entropy/src"],
  [("reseed counter and state machine", "crypto/drbg/src/drbg.c")], observe=["CRYPT_EAL_Drbgbytes", "CRYPT_EAL_Randbytes", "CRYPT_EAL_DrbgSeed"])

prop("C22", "A stateful hash-based key never signs twice with the same one-time key",
  "For stateful hash-based signatures (XMSS, XMSS^MT), no history of signing, exporting, importing, copying and failing operations on a key object yields two signatures made with the same one-time key index, and an exhausted key refuses to sign: a failed call releases nothing of a signature whose index is used again, a saved and restored key continues where it stood (restoring an outdated save is the caller's responsibility), at every index the key can be saved, and copies do not sign with the same one-time keys. Every signature produced verifies.",
  ["histories", "fault_sequences"], "every sequence of sign, failed sign (short buffer, allocation failure), export/import and copy operations up to the stated length from each explored start index, including the last indices",
  "tests sign a few times in a row; index reuse depends on the history, especially on failures and on the last leaves",
  ["crypto/hbs"], [("index advance before release", "crypto/hbs/xmss/src")], observe=["CRYPT_EAL_PkeySign", "index field of signatures"])

prop("C23", "Cryptographic contexts behave as documented in any call order",
  "For every context type (hash, MAC, cipher, KDF, public key) and every order of init, update, final, reinit, deinit, control, copy and duplicate calls, each call either fails with an error and leaves the result of a later correct sequence unaffected, or behaves exactly as on a fresh context given the same effective inputs. A duplicate is independent of its source: operations on one never change what the other computes.",
  ["histories"], "every call sequence up to the stated length over the explored operation alphabet for each context type",
  "tests check individual misuse cases; state leakage between uses appears only for particular orders",
  ["crypto/eal/src/eal_md.c", "crypto/eal/src/eal_mac.c", "crypto/eal/src/eal_cipher.c", "crypto/eal/src/eal_kdf.c", "crypto/eal/src/eal_pkey_gen.c", "crypto/modes/src", "crypto/hmac/src"],
  [("EAL context state machine", "crypto/eal/src")], observe=["CRYPT_EAL_*"])

prop("C24", "Running out of memory never crashes, leaks or corrupts",
  "If any single allocation, at any point of any operation, fails, the operation returns an error (or completes correctly without that memory), nothing is leaked or freed twice, no invalid memory is touched, and the same operation succeeds afterwards once memory is available again.",
  ["fault_sequences"], "every allocation performed by each explored operation (TLS handshakes and data, certificate and key handling, every cryptographic algorithm, containers), failed one at a time, and failed from that point on",
  "error paths after a failed allocation are almost never executed by tests; the guarantee ranges over all allocation points",
  ["bsl/sal/src/sal_mem.c", "crypto", "tls", "pki", "auth", "bsl"], [("error-path cleanup", "throughout")], observe=["return values", "AddressSanitizer/LeakSanitizer"])

prop("C25", "Secret key material is erased before its memory is released",
  "When a context, key, session or connection is freed or reset, and when an operation that used secret keys ends, no heap block the library releases still contains the secret key, password, shared secret, traffic key or generator state it handled.",
  ["histories", "configurations"], "every release of heap memory during the explored life cycles of each algorithm's keys and contexts and of TLS connections",
  "functional tests cannot see the content of freed memory at all",
  ["bsl/sal/src/sal_mem.c", "crypto", "tls", "auth"], [("BSL_SAL_ClearFree / BSL_SAL_CleanseData", "bsl/sal/src/sal_mem.c")], observe=["content of blocks passed to the registered free function"])

prop("C26", "Concurrent use of shared objects is safe",
  "Threads that share library-global state or reference-counted objects (random generator, error stacks, object tables, provider and algorithm caches, configurations, certificates, sessions and session caches) never observe torn or lost updates, never free an object that is still referenced or free it twice, never see another thread's errors, and never deadlock, in any interleaving.",
  ["schedules"], "every interleaving, up to the stated number of preemptions, of two or three threads each performing the explored operations on shared objects",
  "a race shows up only in particular interleavings that a free-running test almost never hits",
  ["bsl/sal/src/sal_threadlock.c", "bsl/sal/include/sal_atomic.h", "bsl/err/src/err.c", "bsl/obj/src/bsl_obj.c", "crypto/eal/src/eal_rand.c", "crypto/provider/src", "tls/config/src/config.c", "tls/feature/session/src/session_mgr.c", "pki/x509_cert/src/hitls_x509_cert.c"],
  [("reference counts", "bsl/sal/include/sal_atomic.h"), ("read/write locks", "bsl/sal/src/sal_threadlock.c")], observe=["return values, object contents, deadlock, happens-before races"])

prop("C27", "Containers, buffers and I/O layers behave like their abstract types",
  "Lists, hash tables, parameter arrays, the error stack, memory and buffering I/O objects behave, under any sequence of operations, exactly as the abstract sequence, map, parameter list, stack and byte queue they represent: nothing is lost, duplicated, reordered or invented, and counts and cursors stay consistent.",
  ["histories"], "every operation sequence up to the stated length over a small set of keys, values and sizes that collide",
  "tests run a few fixed scripts; consistency is over all operation histories",
  ["bsl/list/src", "bsl/hash/src", "bsl/params/src", "bsl/err/src/err.c", "bsl/uio/src/uio_mem.c", "bsl/uio/src/uio_buffer.c", "bsl/buffer/src"],
  [("node linking and cursor maintenance", "bsl/list/src/bsl_list.c"), ("bucket chains and resizing", "bsl/hash/src/bsl_hash.c")], observe=["BSL_LIST_*", "BSL_HASH_*", "BSL_PARAM_*", "BSL_ERR_*", "BSL_UIO_*"])

prop("C28", "Text and DER building blocks convert exactly",
  "Base64 and PEM text, object identifiers, dates, IP addresses, and the ASN.1 primitive encodings convert to and from their values exactly and reversibly; the strict decoders accept exactly the well-formed inputs and reject everything else.",
  ["inputs"], "every input string over a small alphabet up to the stated length, every length and split for streaming base64, every date in the explored ranges, every ASN.1 tag and length form",
  "tests use sample strings; exactness of the accepted language is over all strings",
  ["bsl/base64/src/bsl_base64.c", "bsl/pem/src/bsl_pem.c", "bsl/obj/src/bsl_obj.c", "bsl/sal/src/sal_time.c", "bsl/sal/src/sal_ip_util.c", "bsl/asn1/src/bsl_asn1.c"],
  [("decoders and encoders", "bsl/*/src")], observe=["BSL_BASE64_*", "BSL_PEM_*", "BSL_OBJ_*", "BSL_ASN1_*", "BSL_SAL time functions"])

prop("C29", "Authentication protocols accept only honest, matching parties",
  "A password-authenticated exchange yields a shared key, equal on both sides, only if both parties used the same password record, identities and context and no message was altered; a privacy-pass token verifies only if it was issued for that challenge by that issuer and is unaltered; a one-time password validates exactly within its counter or time window. Calls made out of order fail and leak nothing.",
  ["inputs", "histories", "configurations"], "every byte position of every protocol message and token, every combination of mismatched inputs, every call order up to the stated length, all counters and times around the window edges",
  "tests run honest exchanges and a few mutations",
  ["auth/pake", "auth/privpass_token/src", "auth/otp/src"], [("key confirmation MACs", "auth/pake/spake2plus/src/spake2plus.c"), ("blind signature and token checks", "auth/privpass_token/src"), ("window search", "auth/otp/src/otp.c")], observe=["HITLS_AUTH_*"])

prop("C30", "Key derivation matches its definition for all parameters",
  "HKDF, PBKDF2, scrypt and the TLS 1.2 PRF return, for every accepted combination of secret, salt, info, label, iteration count and output length, exactly the bytes of their published definition over the underlying HMAC, and reject parameters outside it. Repeated or re-parameterised use of one derivation context depends only on the parameters in force.",
  ["inputs", "histories"], "all lengths of secret, salt, info and output around the hash and block boundaries, small iteration counts and cost parameters, and every parameter-setting order up to the stated length",
  "tests use published vectors only",
  ["crypto/hkdf/src", "crypto/pbkdf2/src", "crypto/scrypt/src", "crypto/kdf/src", "crypto/eal/src/eal_kdf.c"], [("expand/iterate loops", "crypto/hkdf/src, crypto/pbkdf2/src")], observe=["CRYPT_EAL_KdfDerive"])

prop("C31", "Outputs never exceed the caller's buffer",
  "Every function that writes into a caller-supplied buffer with a length writes at most that many bytes, fails cleanly without writing past it when the buffer is too small, and on success reports the number of bytes actually written.",
  ["inputs", "configurations"], "every output length from zero to beyond the required size for each explored function and algorithm",
  "tests pass ample buffers, rarely every too-small size",
  ["crypto/eal/src", "bsl/base64/src/bsl_base64.c", "tls/cm/src", "pki", "auth"], [("length checks before output", "throughout")], observe=["guard bytes around output buffers", "return values"])

def main():
    out = os.path.join(HERE, "properties.jsonl")
    claimed = None
    with open(out, "w") as f:
        for p in P:
            f.write(json.dumps(p, ensure_ascii=True) + "\n")
    print(len(P), "properties")
if __name__ == "__main__":
    main()
