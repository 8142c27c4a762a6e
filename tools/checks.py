"""Per-property check configuration: harness sources, library variant, level, wording for the evidence."""
CHECKS = {}
def check(id, src, level, technique, rule, bounds, libs=("crypto", "bsl"), variant="plain", note="", assumptions=(), **kw):
    CHECKS[id] = dict(src=list(src), level=level, technique=technique, rule=rule, bounds=bounds, libs=list(libs), variant=variant,
                      note=note, assumptions=list(assumptions), **kw)
COMMON = ["lib/hx.c", "lib/ref.c"]
check("C16", COMMON + ["checks/c16.c"], "exploration", "bounded exhaustive enumeration of lengths, splits and parameters on the real code against independent reference algorithms",
  "every (algorithm, direction, length, iv class) with every split into updates is executed on the library and compared byte for byte with reference implementations written from the standards; a case is non-trivial if it produces output, distinct outcomes are distinct outputs",
  {"quick": "lengths 0..400/520 plus 16 sizes up to 8193; three-part splits up to one block + 2, two-part splits up to two blocks + 3 and around block boundaries up to 300; all key/iv lengths 0..80, all padding bytes", "thorough": "as quick with all two-part splits up to 1200 and three-part splits up to two blocks + 2"},
  note="Exhaustive within the stated length bounds for one fixed key and three iv classes per algorithm; trusts the reference implementations in lib/ref.c (validated against hashlib and published vectors).")
check("C17", COMMON + ["checks/c17.c"], "exploration", "bounded exhaustive enumeration of lengths, parameters and single-bit forgeries on the real code against independent reference algorithms",
  "every (mode, nonce length, tag length, associated-data length, message length, split) within the bounds is encrypted and decrypted and compared with reference definitions, and every single-bit change of tag, ciphertext, associated data, nonce and key, every truncation and shift is submitted and must be refused; distinct outcomes are distinct tags/secrets",
  {"quick": "aad 0..34 x message 0..66, messages to 800 and 19 sizes to 16385, all three-part splits up to 36 bytes and two-part up to 70, all nonce lengths 0..70 x tag lengths 0..17; forgeries: all bits for 10 (aad,message) sizes and every legal tag length; key wrap all bits for lengths 1..64; HPKE 4 modes x 4 KEMs x 3 AEADs with byte alterations", "thorough": "as quick, splits up to 70/200 bytes, all HPKE suites and all encapsulated-key bytes"},
  note="Exhaustive over the listed positions for one key/nonce per case; unforgeability for other keys is inferred from equality with the reference definition.")
PK = COMMON + ["lib/pk.c"]
TLS = COMMON + ["lib/pkix.c", "lib/tlsx.c"]
TLSLIBS = ("tls", "pki", "crypto", "bsl")
import os as _os
if _os.environ.get("VERIF_PROBE"):
    check("PROBE", TLS + ["checks/tlsprobe.c"], "exploration", "", "", {}, libs=TLSLIBS)
FLOW = TLS + ["lib/tlsflow.c"]
check("C02", FLOW + ["checks/c02.c"], "exploration", "exhaustive enumeration of single on-path attacker actions (every byte position, every record) over complete handshakes of the real implementation",
  "for each flow the attacker's move is one element of the enumerated set; the handshake of two real endpoints is run to completion under it; the receiver must not complete unless the touched bits are meaningless by specification, and two endpoints that complete must agree on all negotiated values and exported keys; distinct outcomes are distinct (return code, completion) pairs",
  {"quick": "21 flows (TLS 1.2/1.3, TLCP, DTLS 1.2/1.3, DTLCP; client authentication, tickets, resumption, PSK, HRR, cookie); every byte of every handshake record with 4 replacements; drop, duplicate (now or after any later record), swap, truncate, cut, grow, substitution by any record of the same direction or the same record of another session, reflection", "thorough": "all 8 bit flips plus 00/ff per byte; RSA and DHE flows added"},
  libs=TLSLIBS, note="Exhaustive over single attacker actions for one set of keys and nonces per flow; multi-step attacks are covered by C01 (key-holding peer) and C03/C04.")
check("C03", FLOW + ["checks/c03.c"], "exploration", "exhaustive enumeration of record-level attacker actions and delivery orders on established connections of the real implementation",
  "for each protection mode and direction every attacker action of the enumerated set is executed on a fresh connection; bytes read must be exactly the data of the untouched records before the manipulation, the read must then fail, and stay failed; distinct outcomes are distinct (bytes delivered, return code) pairs",
  {"quick": "20 stream protection modes x 2 directions: all record sequences up to length 4 over 3-record histories (with key update and close_notify), every byte x 2 bit flips, all 256 values of the last byte, all truncations, extensions to 34, types, plaintext injections, splits, end-of-stream positions, tag transplants, foreign and reflected records, replays at distance 255..257 and 65536; sizes 1..70 and 19 sizes to 50000 x 6 read sizes x fragment limit, peek, padding", "thorough": "sequences up to 5, all 8 bit flips, more histories including full-size records, sizes to 400"},
  libs=TLSLIBS, note="Exhaustive over single manipulations and over delivery sequences of the listed length, one key set per mode.")
check("C04", FLOW + ["checks/c04.c"], "exploration", "exhaustive enumeration of datagram delivery sequences and forged datagrams on established DTLS connections of the real implementation against a replay-window model",
  "every delivery sequence of the stated length over index sets around the replay-window edges (with corrupted copies) is executed on a fresh connection; the sequence of payloads read must equal the one the window model gives, and the connection must stay usable; distinct outcomes are distinct delivered sequences",
  {"quick": "20 datagram protection modes x 2 directions; index sets around 0, 63, 64, 128, 192, 256, 320 with all sequences up to length 3 (length 4 over the first five; length 3 with two kinds of corruption) for 4 modes, up to 2 for the others; every byte/bit, truncation, extension, junk, foreign, reflected, plaintext, epoch, sequence-number and joined datagrams", "thorough": "one longer"},
  libs=TLSLIBS, note="Exhaustive over the listed delivery sequences; window size 64 as documented in the code.")
check("C05", FLOW + ["checks/c05.c"], "fault_enumeration", "exhaustive enumeration of transport behaviours (short read, short write, would-block at every call) over complete connections of the real implementation",
  "each transport schedule of the enumerated set is run through a complete connection (handshake, data both ways with a key update, close); every call must succeed or be retryable, both ends must agree and negotiate what the unbroken run negotiated, and all bytes must arrive unchanged; distinct outcomes are distinct (rounds, transport calls) pairs",
  {"quick": "26 flows with and without flight transmission; uniform chunks 1..24 per endpoint and direction, periodic blocking with periods 2..5, blocking with chunks 1..39, each single transport call answering 0,1,4,5,6,13 or n-1 bytes, all pairs of blocked writes", "thorough": "chunks to 600 and all pairs of blocked or one-byte calls"},
  libs=TLSLIBS, note="Exhaustive over one and two disturbed transport calls of each flow's call sequence.")
check("C06", FLOW + ["checks/c06.c"], "fault_enumeration", "exhaustive enumeration of network fault patterns (loss, duplication, reordering, delay, early timer expiry) over DTLS handshakes of the real implementation with a virtual clock",
  "every pattern of one or two faults on the datagrams of a handshake (including retransmitted ones) is executed with two real endpoints and a virtual clock; afterwards the network is faithful and the timers run; both must complete, agree on all negotiated values and exporter secrets and exchange data; distinct outcomes are distinct (datagrams sent, calls) triples",
  {"quick": "8 DTLS 1.2 / DTLS 1.3 / DTLCP flows, each also with a 300-byte MTU and with flight transmission; all single faults of 5 kinds, all pairs (drop/reorder pairs for the fragmented ones), early timers at 8 points alone and with each single fault", "thorough": "all pairs everywhere and all triples of drop/dup/swap"},
  libs=TLSLIBS, note="Exhaustive over the stated fault patterns; retransmission limit not exceeded (at most 8 timer rounds).")
check("C07", FLOW + ["checks/c07.c"], "exploration", "exhaustive enumeration of client x server configuration products, handshakes run on the real implementation and compared with a negotiation model",
  "for every pair of configurations the model computes the version, suite, group and scheme the preference rules give (or none); the two real endpoints must complete exactly then, with these values, agree with each other and pass data; distinct outcomes are distinct negotiated tuples",
  {"quick": "version ranges 3x3 (TLS, DTLS, by constructor and by forbidding versions), suite lists: all ordered lists up to 3 of 4 on both sides x server preference for TLS 1.2 and 1.3, up to 2 for TLCP; group lists and signature lists: all ordered lists of 3, TLS and DTLS; ALPN lists 6x6, EMS/EtM flags, SNI, record size limits", "thorough": "lists up to 4 of 4, DTLS everywhere"},
  libs=TLSLIBS, note="Exhaustive over the listed configuration products; the preference rules are those of HITLS_CFG_SetCipherServerPreference.")
check("C01", FLOW + ["checks/c01.c"], "model_checking", "exhaustive enumeration of the message sequences a key-holding peer can produce (bounded deviations from each legal flow) run against the real state machine, judged by a regular-language model of legal flights",
  "a library endpoint acts as a key-holding peer whose outgoing messages are skipped, repeated, exchanged, injected, retyped or altered while its transcript follows what it really sends; the victim may complete only if a prefix of the received symbol sequence is in the modelled language of legal flights, and must complete the undisturbed flow",
  {"quick": "32 flows x 2 roles: every subset of skipped messages (also with the key switch suppressed), every repetition, adjacent exchange, injection of every recorded or empty message before every message, every retyping, every byte of Finished/CertificateVerify, truncated and extended proofs, all pairs of skip/repeat/exchange, skip+inject replacements, unexpected messages after completion", "thorough": "adds RSA and DHE flows, every byte of key exchange and certificate messages, and all pairs of skip and injection at any two places"},
  libs=TLSLIBS, internal=["tls", "bsl", "crypto/include"], ldflags=["-Wl,--wrap=REC_Write", "-Wl,--wrap=VERIFY_Append", "-Wl,--wrap=VERIFY_AppendDtlsRaw", "-Wl,--wrap=REC_ActivePendingState"],
  note="Every modelled trace is executed against the implementation (model and code are compared on each sequence); one key set per flow.")
check("C08", FLOW + ["checks/c08.c"], "exploration", "exhaustive enumeration of the product of verification settings and presented credentials over complete handshakes of the real implementation",
  "each combination of protocol version, role, presented credential (23 kinds), verification setting (8) and certificate-request mode is run as a handshake of two real endpoints; the verifying endpoint completes exactly when the rule says so (chain valid or override configured, possession proved, required certificate present)",
  {"quick": "8 protocol/suite set-ups; 23 credential kinds x 8 settings x 3 request modes, TLCP with the defect in the signing, the encryption or both certificates; TLS 1.3 post-handshake authentication over the same product; pre-shared keys with every single wrong key bit, every shorter key and wrong identities", "thorough": "same"},
  libs=TLSLIBS, note="Credentials are built by an independent certificate writer; the settings explored are those of the public configuration API.")
check("C30", COMMON + ["checks/c30.c"], "exploration", "bounded exhaustive enumeration of derivation parameters and of parameter-setting histories on the real code against reference definitions",
  "every (function, MAC, secret/salt/info/label length, iteration count, cost, output length) within the bounds is derived and compared byte for byte with reference definitions; every sequence of parameter settings, derivations, duplications and resets up to the stated length is compared with the parameters in force; distinct outcomes are distinct derived keys",
  {"quick": "lengths 0..145, outputs 0..5 hash blocks and around 255 blocks (HKDF) and 255..513 blocks (PBKDF2), iterations 0..70, scrypt N 2..64 x r 1..5 x p 1..4 and all N 0..70; all histories up to length 4 over 10-17 operations per function", "thorough": "lengths to 300, iterations to 1100, histories up to length 5"},
  note="Exhaustive within the stated bounds for one secret per length; trusts lib/ref.c.")
check("C27", COMMON + ["checks/c27.c"], "model_checking", "exhaustive enumeration of all operation sequences up to a depth on the real containers, each step compared with an abstract model",
  "every operation sequence up to the stated length from several start states is executed on the real object under AddressSanitizer; after each step all observable contents, counts and cursors must equal those of the abstract sequence, map, stack, parameter list or byte queue; states are abstract states reached",
  {"quick": "list: 19 operations, depth 4 from 0..3 elements; hash table: 13 operations, depth 4-5, 3 sizes x 4 hash functions, growth to 100 keys in 16 orders; error stack: 10 operations, depth 4 from 10 fill levels; memory I/O 13 operations depth 5; buffering I/O 11 operations depth 5; parameters 16 operations depth 4", "thorough": "one operation deeper (error stack and I/O objects depth 6), growth to 300 keys"},
  variant="asan", internal=["bsl"], note="Every modelled trace is executed on the implementation and compared after each operation.")
check("C28", COMMON + ["checks/c28.c"], "exploration", "bounded exhaustive enumeration of values and texts on the real converters against independent definitions",
  "every value and every text within the bounds is converted by the real code and compared with an independent definition (base64, PEM frame, OID arcs, proleptic Gregorian dates, inet_pton, DER headers, integers, strings, sets, a nested template); conversions are reversed and must give the original; distinct outcomes are distinct converted values",
  {"quick": "base64: all 1-3 byte strings, all texts up to 7 over 9 symbols, all three-way splits up to 150 bytes; PEM up to 400 bytes with all cuts and alterations; OIDs: 34 boundary arcs squared, all byte strings up to 6 over 9 bytes, all texts up to 7; every day of 1970-2110 and all month ends to 9999, every second of a day; IP: all texts up to 8 over 7 symbols, all group layouts; DER: all header bytes, lengths to 70000 and at 2^24, all integers near powers of two and up to 3 bytes, all Unicode characters, all byte strings up to 7 over 10 bytes against a nested template", "thorough": "texts and template strings one longer, all lengths, days to 3000"},
  variant="asan", internal=["bsl"], note="Exhaustive within the stated bounds. Not judged: unused bits of the last base64 group, non-minimal DER lengths, trailing data inside a SEQUENCE, times without zone letter.")
check("C19", PK + ["checks/c19.c"], "exploration", "exhaustive enumeration of operand and input classes for key agreement, KEMs and public-key encryption on the real code against independent reference arithmetic",
  "every key pair, shared secret, ciphertext and plaintext of the enumerated sets is computed by the library and compared with reference arithmetic or with the peer's result; every bad point, foreign or altered ciphertext and illegal length must be refused (or give the implicit-rejection secret); distinct outcomes are distinct results",
  {"quick": "ECDH on 9 curves: edge scalars and window-digit patterns, invalid, foreign, infinity and compressed points, all scalar ranges; X25519: all low-order points, non-canonical coordinates, scalar clamping; DH groups, KEMs (ML-KEM, FrodoKEM, Classic McEliece, hybrid): every byte of small ciphertexts; RSA PKCS#1 v1.5, OAEP, raw: every message length, every byte of the encoded block x 5 values, every ciphertext length; SM2/SM9/ElGamal/Paillier encryption incl. alterations; SM2 exchange with every wrong identity, role and key", "thorough": "as quick with denser scalar patterns and every byte position with more replacement values"},
  note="Exhaustive over the stated classes; trusts the small-integer and curve reference arithmetic of lib/zint.h and lib/zec.h.")
check("C20", COMMON + ["checks/c20.c"], "exploration", "bounded exhaustive enumeration of operands built from limb patterns on the real code against schoolbook arithmetic",
  "every operand (tuple) within the bounds is passed to every operation, with every permitted aliasing of result and operands, and the result compared with independent schoolbook arithmetic; distinct outcomes are distinct results",
  {"quick": "all numbers of 0-5 limbs over 6 limb patterns and both signs (one operand); all pairs up to 5 limbs together; 8 shapes x all sizes 1-40 limbs pairwise and up to 100; quotient-estimation boundaries of 7^4 divisor/quotient pairs; all moduli of 1-2 limbs; powers with all patterns, small numbers exhaustively; six curve-field reductions over 729-1296 patterns squared; primality to 4000, roots modulo 15 primes, all texts up to 5", "thorough": "pairs up to 7 limbs together, denser products, sizes to 140 limbs"},
  internal=["crypto/bn", "crypto/include"], note="Exhaustive within the stated bounds; trusts the schoolbook arithmetic of checks/c20.c.")

check("C18", PK + ["checks/c18.c"], "exploration", "exhaustive enumeration of signature schemes and of alterations of message, signature, key, hash, context and encoding, each run through the real verification",
  "every scheme signs and verifies with a public-only key; every enumerated alteration (each bit or byte of signature and message, cuts, extensions, other key/hash/padding/context, degenerate and re-encoded components, crafted RSA blocks) must be rejected and every honest signature accepted; LMS/HSS signatures come from an independent signer; distinct outcomes are distinct signatures",
  {"quick": "about 130 schemes over 30 parameter sets; every bit of small signatures, every byte or every third byte of large ones; 20x20 degenerate (r,s) pairs; chosen nonces and digests at the edges; every byte of RSA encoded messages x 5 values, all shortened paddings; 12x12 context lengths; up to 4096 messages per scheme; all 32 leaves of LMS trees x 4 Winternitz parameters x 1-3 levels", "thorough": "adds slow parameter sets (SLH-DSA s variants, XMSS with larger hashes, RSA-3072), every byte, all 255 values per RSA block byte, 8 times more messages"},
  note="Exhaustive over the stated alterations for one key pair per scheme; unforgeability itself is not decided.")
PKI = COMMON + ["lib/pkix.c"]
PKILIBS = ("pki", "crypto", "bsl")
check("C12", PKI + ["checks/c12.c"], "exploration", "exhaustive enumeration of presented names x reference identities over small alphabets, and of store-setting histories, on the real matcher against an independent definition",
  "each certificate of the enumerated set is built by an independent writer and checked against every reference identity; the answer must be the one the definition gives (covered, not covered; a few combinations the property leaves open are not judged); distinct outcomes are distinct acceptance counts",
  {"quick": "all patterns up to 6 characters over {a,*,.} x all hosts up to 7 over {a,.}, 4 over {a,A,b,.}, 5 over {a,*,.}, both wildcard modes, as DNS name and as common name with 4 kinds of alternative name; all 1-3 label combinations of 11 pattern labels x 9 host labels; all name lists up to 3 of 13 names; NUL at every position of names of 5 kinds; 13 addresses with every single bit changed and lengths 0-17 x 30 texts; ~900 URIs pairwise and 160 SRV names pairwise; all store-setting histories up to length 3 over 11 operations x 8 certificates, also through a duplicated store", "thorough": "patterns up to 7, hosts up to 9, 4 labels, lists and histories of length 4"},
  libs=PKILIBS, note="Exhaustive within the stated alphabets and lengths. Not judged: literal asterisks in the reference, a bare or two-label wildcard, wildcards standing for no character, empty labels present on both sides, backslashes in URIs.")
check("C11", PKI + ["checks/c11.c"], "model_checking", "explicit enumeration of certificate collections, trust settings and verification options; every one is decided by an independent path search and rule set and replayed on the real verifier",
  "each state is a set of given and trusted certificates (written by an independent encoder) with verification options; the reference searches all simple paths and judges each by the rules of the property; the library must refuse when no path is valid and accept when the only candidate path is valid (a choice between several candidate issuers is judged in dedicated cases, known finding F18); each verification is done twice; states are distinct certificate collections with options",
  {"quick": "lines of 1-4 certificates with every single and every pair of 40 attribute variations under 10 option sets (pairs: all with the first 3 option sets, a fixed quarter of the rest); all path-length constraints {-,0..3} on chains of 2-6 with self-issued members, 3 depth limits; 9 purposes x all 256 key usages x 16 extended key usages; three pools of 7 look-alike certificates in all 3^7 distributions over absent/given/trusted in both orders; 19 revocation-list variants for each issuer alone, in ordered pairs and against each other, 19 delta faults", "thorough": "lines of 5, all option sets for pairs, all self-issued combinations"},
  libs=PKILIBS, note="Every explored state is replayed on the implementation. The default build has only the reduced CRL processing; full CRL processing (scopes, deltas) is compiled out and not judged beyond refusal.")
check("C21", COMMON + ["checks/c21.c"], "fault_enumeration", "exhaustive enumeration of call histories and of every failing entropy request on the real generators, side by side with an independent model of SP 800-90A / GM/T 0105",
  "every history is executed once without faults and then once for every request to the entropy or nonce source failing in every way (error, no data, too short, too long, empty; once or for good); each output is compared bit for bit with the model fed the same entropy; a history is distinct when the generator state (V, key, counter) it reaches is",
  {"quick": "18 generators x 7 configurations (intervals, prediction resistance, time limit, provider context, global generator) x with/without nonce source x all histories of 3 calls out of 11 operations (4 calls for 6 generators); 10 010 consecutive requests; forked processes two levels deep; every allocation failing in 3 histories; noise source: every run and proportion anomaly around the cutoff at every position of the start-up window, all histories of 5 of {gather, read 1, read 70, healthy, stuck, failing} x 5 conditioners x 4 claims; seed pool: all up to 3 sources x 15 kinds x 4 strengths x 8 length ranges", "thorough": "one call more in every history, all fault kinds everywhere"},
  real_rand=True, note="Exhaustive within the stated lengths. The kinds 'no data' to 'empty' of a fault other than at the first request are left to the thorough tier for the six generators explored one call deeper. Not covered: quality of the operating system's and the hardware's randomness, CPU jitter timing.")
check("C22", COMMON + ["checks/c22.c"], "model_checking", "explicit enumeration of operation histories on real key objects, monitored for one-time key reuse; signatures are checked by an independent RFC 8391 verifier",
  "every history runs on a key object restored at the start index; the monitor records the index of every signature that leaves the object and demands that it is new, not below the point the key had reached, and valid; a failing call may leave nothing of a signature behind; states are distinct signatures",
  {"quick": "whole life of a 2^10 key (1024 signatures, saved and restored at every index) and the first 1100 signatures of a 4-level hypertree, 70-130 of 6 other parameter sets; all histories of 2-3 operations out of {sign, too short buffer, save+restore with and without traversal state, save, duplicate and copy, 9 ill-formed imports, set public key, missing arguments} from 15 start points including tree switches, 2^32-2 and the last indices of 2^20, 2^40 and 2^60; allocation failing at each point of import and key generation, key generation without randomness", "thorough": "one operation more in every history, 33 900 signatures of the hypertree (third level switches), whole life of 3 XMSS keys"},
  note="Exhaustive over the stated histories. Restoring an outdated export is the caller's decision and is not judged. Signing performs no allocation, so there is no allocation failure to inject there.")
check("C23", PK + ["checks/c23.c"], "model_checking", "explicit enumeration of call sequences on two real contexts (with duplication and copying between them), each call compared with a fresh context that received only the effective calls",
  "the abstract state of a context is its effective history (calls that took effect, superseded ones dropped); every call of every sequence must return the result, the output and the length a fresh context with that history gives, a refused call must leave the history unchanged, a duplicate must have the history of its source and be independent of it; states are distinct (history, call) pairs; after every sequence a fixed probe exercises the context again",
  {"quick": "hash, XOF, MAC, AES/ChaCha/SM4-HCTR cipher and KDF contexts: all sequences of 5 calls (4 for the other SM4 modes) over their full alphabet of 8-20 calls incl. short buffers, wrong lengths, wrong keys, unset state, duplicate and copy, then a probe; 12 kinds of public-key contexts: all sequences of 3 (2 for the slow ones) over key import (2 keys, ill-formed variants), generation, settings, sign, verify, encrypt, export, duplicate, copy, then a probe of 7-10 calls", "thorough": "one call more everywhere"},
  note="Exhaustive over the stated sequences. The fresh context runs the same library code with the shortest history, so results themselves are judged by C19/C20/C18; here only the dependence on history is.")
check("C09", FLOW + ["checks/c09.c"], "model_checking", "explicit enumeration of session histories and configuration pairs on real clients and servers; a model of session validity (where established, when, under which key, context and parameters, removed or not) says when resumption is forbidden",
  "every history is run on real endpoints with a virtual clock; whenever both ends report a resumed connection the model must find the session valid, version, cipher suite and session-id context must be those of the original, the master secret and the peer identity must be the original's and data must flow both ways; states are distinct model states (validity facts of the held session, server settings, age) and distinct configuration pairs and alterations",
  {"quick": "9 set-ups (TLS 1.2 / 1.3, DTLS 1.2 / 1.3, TLCP; session-id cache, tickets, application cache), all histories of 3 (TLS) or 2 steps out of 13 {full handshake, resume here / at a second server, half / full life time passes, remove, clear, expire, new / same-named / restored ticket key, 2 other session-id contexts and back, shorter life time, older session} plus probes on both servers; 12 life times x 5 instants around their end; all pairs of client and server cipher-suite lists (4x4x4x4), session-id contexts (5x5), extended-master-secret modes (3^4), version ranges (3^4) before and after, on the same and on a second server sharing the key; tickets and session ids with every byte altered (2-4 values), every length, every splice with another ticket", "thorough": "histories of 4 steps, 6 suite lists, all splice points"},
  libs=TLSLIBS, note="Exhaustive within the stated histories. Only resumption that must not happen is judged (falling back to a full handshake or failing is always allowed). Tickets are replaced in the client's session object through an internal setter.")

OBJS = PKI + ["lib/pk.c", "lib/objs.c"]
check("C14", OBJS + ["checks/c14.c"], "exploration", "exhaustive enumeration of mutations (truncations, octet replacements, length and structure alterations) of a corpus of valid encodings and of live handshakes, executed on the real decoders under AddressSanitizer with allocation accounting",
  "every listed mutation of every corpus object is parsed and, when accepted, used and encoded again; every handshake message, record and serialized session of the explored handshakes is altered in every listed way and delivered to the real peer; outcome must be success or an error, no sanitizer report, no block left allocated, bounded reads, and a genuine object must still be accepted afterwards; distinct outcomes are distinct result codes",
  {"quick": "objects of every kind (keys in every encoding, certificates, CRLs, CSRs, CMS, PKCS#12, PEM, base64, ASN.1): every truncation, every octet x 3-10 values, every DER element deleted, duplicated, emptied, enlarged, retagged, swapped, length fields at boundary values; TLS 1.2/1.3, TLCP and DTLS handshakes: every message truncated, extended, every octet altered, inner length fields at boundary values; every record header field; every octet of serialized sessions", "thorough": "all octets with 12 values and all messages of all flows"},
  parts=[dict(name="c14", src=OBJS + ["checks/c14.c"], libs=PKILIBS), dict(name="c14t", src=FLOW + ["checks/c14t.c"], libs=TLSLIBS, ldflags=["-Wl,--wrap=REC_Write", "-Wl,--wrap=VERIFY_Append", "-Wl,--wrap=VERIFY_AppendDtlsRaw", "-Wl,--wrap=HS_ParseMsg"], internal=["tls", "bsl"])], libs=TLSLIBS, variant="asan", note="Exhaustive over the listed alterations of the corpus, not over all byte strings. Over-reads inside one allocation are seen only where the harness places the input at the end of its own block or poisons the rest.")
check("C13", OBJS + ["checks/c13.c"], "exploration", "exhaustive enumeration of alterations of every octet and element of signed and protected objects, wrong keys, passwords and contents, on the real verifiers",
  "a case is one stretch of octets, one element, one wrong key/password/content or one transplanted signature; altered protected octets (to-be-signed part, signature value, MAC, salt, iterations, signed attributes, content) must make verification fail; other alterations must fail or yield what the genuine object yields",
  {"quick": "certificates, CRLs, CSRs with every signature algorithm, CMS (attached/detached, with and without signed attributes, both signer identifiers), PKCS#12: every octet x up to 10 values, every DER element x 13 structural alterations; all keys of other algorithms and 3 other keys; every octet of the content altered; all pairs of signed objects with signatures exchanged; 24 wrong passwords per protected object", "thorough": "every octet x 12 values everywhere"},
  libs=PKILIBS, note="Exhaustive over the listed alterations; malleability through several simultaneous changes is not explored. CMS with SM2 is left out (no way to hand in the user id).")
check("C15", OBJS + ["checks/c15.c"], "exploration", "exhaustive enumeration of field values and configurations; every object is built by the real generator, decoded by the real decoder by every route, compared field by field (and, for certificates, octet by octet with an independent DER writer) and encoded again",
  "one case is one object (a key in one encoding, a certificate, list or request with one choice of fields, one set of PKCS#12 bags with one protection, one CMS signature, one session); it must be written (when the value is allowed), decode, have the same fields, and encode again to the same octets; distinct outcomes are the distinct encodings",
  {"quick": "certificates: serials of 1-22 octets x 36 boundary patterns, 18 years x 8 days x 3 times x from/until, 12 name attributes alone and in pairs, name lengths at bounds, every extension subset x criticality, all 511 key usages, path lengths, extended key usages, alternative name triples, all subject x signer key pairs; CRLs: numbers, serials, times, reasons x invalidity x criticality, 0-36 entries; CSRs: keys, names, all 15 requested extension subsets x criticality, 511 key usages; keys: every kind in every encoding and 5 decode routes, boundary EC scalars, RSA-PSS parameters, PBES2 protections; PKCS#12: 64 bag sets x attributes x protections; CMS: 16 options x digests x lengths; sessions of every flow x 16 lifetimes x 8 identifiers", "thorough": "all serial pairs of leading octets (step 7), serials of 24, every criticality, every protection combination"},
  parts=[dict(name="c15", src=OBJS + ["checks/c15.c"], libs=PKILIBS), dict(name="c15k", src=OBJS + ["checks/c15k.c"], libs=PKILIBS), dict(name="c15r", src=FLOW + ["checks/c15r.c"], libs=TLSLIBS)], libs=TLSLIBS, note="Exhaustive over the listed field values. Octet-by-octet comparison with an independent writer covers certificates; other objects are compared by getters and by encoding again. A PKCS#12 key bag with an identifier and no certificate of its own is refused on reading by design.")
