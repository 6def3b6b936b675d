#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single source of the property texts)."""
import json
P = []
S = "anothertls/src/"
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=[S+f for f in files], mechanism=[dict(name=a, where=S+b) for a, b in mech],
                     state=[dict(name=a, meaning=b, where=S+c) for a, b, c in state], observe_at=list(observe), hook_needed=hook)))

prop("C01", "Malformed TLS messages never crash the message parsers",
 "For every byte string, decoding it as a TLS record, a handshake message, a ClientHello, a ServerHello, any of the supported extensions, a CertificateRequest or a Certificate message terminates with a decoded value or an error. Decoding never panics, never loops forever and never reads outside the given bytes, whatever the embedded length fields, counts and types say.",
 ["inputs"], "all byte strings of every length up to the stated bound, for every parser that sees peer-controlled bytes",
 "The tests contain no malformed TLS message at all; the failing inputs are lengths that disagree with each other by one or point past the end of the buffer.",
 ["net/record.rs", "net/handshake/mod.rs", "net/client/client_hello.rs", "net/server/server_hello.rs", "net/extensions/", "net/handshake/certificate.rs"],
 [("record header and length check", "net/record.rs"), ("handshake header parse", "net/handshake/mod.rs"), ("ClientHello parse", "net/client/client_hello.rs"), ("ServerHello parse", "net/server/server_hello.rs"), ("extension list walk", "net/extensions/client.rs"), ("certificate list walk", "net/handshake/certificate.rs")],
 observe=["return value or abnormal termination of the public parsing functions"])

prop("C02", "Certificate, signature and PEM decoding never crashes",
 "For every byte string or text, decoding it as an X.509 certificate, a DER element, an ECDSA signature, a UTCTime, a PEM key or certificate or Base64 text terminates with a decoded value or an error value. It never panics, loops forever or reads outside the input, and using the decoded certificate's public key never panics either.",
 ["inputs"], "all byte strings up to the stated bound, including structured certificates in which arbitrary bytes are replaced",
 "The two X.509 tests parse two valid certificates; nothing exercises truncated, nested or mistyped DER.",
 ["utils/der.rs", "utils/x509.rs", "utils/base64.rs", "utils/pem.rs", "crypto/ellipticcurve/signature.rs", "crypto/ellipticcurve/privatekey.rs"],
 [("DER length decoding", "utils/der.rs"), ("recursive X.509 walk", "utils/x509.rs"), ("signature decoding", "crypto/ellipticcurve/signature.rs"), ("Base64 alphabet lookup", "utils/base64.rs")],
 observe=["return value or abnormal termination of the public decoding functions"])

prop("C03", "A hostile peer cannot crash a live client or server",
 "Whatever records the peer sends during the handshake or afterwards, in whatever state, plain or protected, well formed or not, the endpoint either continues or ends the connection with an error. No peer input makes a server accept call, a client connect call or a stream read panic or hang.",
 ["inputs", "histories"], "every content of the next record, in every handshake state reachable by a genuine prefix, for server and client, with and without client certificates",
 "There is no test of a live endpoint at all; the interesting histories need a peer that completes a genuine key exchange and then misbehaves inside the encrypted channel.",
 ["net/server/connection.rs", "net/client/connection.rs", "net/stream.rs", "net/record.rs"],
 [("server record dispatch", "net/server/connection.rs"), ("client record dispatch", "net/client/connection.rs"), ("stream read", "net/stream.rs"), ("record unprotection", "net/record.rs")],
 state=[("handshake state", "which message is expected next", "net/server/connection.rs")],
 observe=["result of accept/connect/read", "bytes written to the socket"])

prop("C04", "ClientHello is decoded exactly as it was encoded",
 "Every well-formed ClientHello is accepted and decoded to exactly the values it carries: random, session id of 0 to 32 bytes, offered cipher suites in order, key shares, server name, supported versions and signature algorithms, wherever those extensions stand and whatever unknown suites, groups, schemes, versions or extensions surround them. A ClientHello whose version field is not 0x0303 or whose vectors overrun their container is rejected with an error.",
 ["inputs"], "all values of every field, all orders of extensions, unknown code points anywhere, within the stated sizes",
 "No test parses a ClientHello; orderings and unknown (GREASE) values multiply beyond any sample.",
 ["net/client/client_hello.rs", "net/extensions/client.rs", "net/extensions/key_share.rs", "net/extensions/server_name.rs", "net/extensions/supported_versions.rs", "net/extensions/signature_algorithm.rs"],
 [("ClientHello parse", "net/client/client_hello.rs"), ("extension dispatch", "net/extensions/client.rs"), ("key share list", "net/extensions/key_share.rs")],
 observe=["fields of the decoded ClientHello"])

prop("C05", "The server negotiates only what client and configuration both allow",
 "Given a decoded ClientHello the server answers with TLS 1.3, a cipher suite it supports that the client offered, and an X25519 key share only if the client offered TLS 1.3, X25519 and a common suite, the client's signature algorithms (when given) include ecdsa_secp256r1_sha256, and the server name (when both sides have one) matches. Otherwise the handshake fails with an alert and no ServerHello is sent; the ServerHello echoes the client's session id byte for byte and encodes exactly the chosen values.",
 ["inputs", "configurations"], "all ClientHellos within the stated sizes, all orders of extensions and suites, server name configured or not",
 "No test negotiates; each refusal rule depends on a combination of offers.",
 ["net/server/server_hello.rs", "net/client/client_hello.rs", "net/extensions/", "net/server/config.rs"],
 [("negotiation", "net/server/server_hello.rs")], observe=["ServerHello bytes", "error returned"])

prop("C06", "The client accepts only a ServerHello that fits its offer",
 "The client's ClientHello offers TLS 1.3, the three supported AEAD suites, an X25519 share equal to its public key, ecdsa_secp256r1_sha256, and the configured server name, in a well-formed encoding. It goes on only if the ServerHello has version field 0x0303, selects TLS 1.3, one of the offered suites and an X25519 key share of 32 bytes and echoes the client's session id; otherwise connecting fails with an alert and nothing is encrypted under keys derived from it.",
 ["inputs"], "all ServerHello contents within the stated size, all random values drawn by the client",
 "No test runs the client; wrong answers by a server (bad version, suite, group, echo) never occur against a real server.",
 ["net/server/server_hello.rs", "net/client/connection.rs", "net/client/client_hello.rs", "net/extensions/server.rs"],
 [("ServerHello parse", "net/server/server_hello.rs"), ("client handling of ServerHello", "net/client/connection.rs")], observe=["bytes sent by the client", "connect result"])

prop("C07", "Record protection returns exactly what was sent or nothing",
 "A record protected by one endpoint and unprotected by its peer yields the same content type and the same bytes, for every content, length and position in the connection, and padding zeros appended inside the protected content by a peer are removed. A record is accepted only if its 16-byte tag is the AEAD tag of exactly its header, ciphertext, key and position in the sequence; any other record is rejected with an alert error and delivers no data.",
 ["inputs", "histories"], "all contents, types, sequence positions, single or multiple corrupted bytes, for the three cipher suites, both directions and both key epochs",
 "The AEAD tests use fixed RFC vectors and never the record layer; no test corrupts a record.",
 ["net/record.rs", "crypto/aes/gcm.rs", "crypto/chacha20/poly1305.rs"],
 [("record encrypt/decrypt", "net/record.rs"), ("tag comparison", "crypto/aes/gcm.rs"), ("tag comparison", "crypto/chacha20/poly1305.rs")],
 state=[("sequence number", "records protected so far per direction", "net/key_schedule.rs")], observe=["record bytes on the wire", "type and data returned"])

prop("C08", "Every protected record uses its own nonce",
 "The nonce of the n-th record in a direction and key epoch is the write IV of that direction XOR the 64-bit big-endian record counter padded on the left to 12 bytes; the counter starts at 0 with each key epoch, advances by exactly one per record in that direction only, and never repeats. Client and server use each other's keys crosswise: what one writes with, the other reads with.",
 ["inputs", "histories"], "all IVs and all counter values, any interleaving of reads and writes, both roles and both epochs",
 "Tests never look at a nonce; counter carries and interleavings are not reached.",
 ["net/key_schedule.rs", "net/record.rs"],
 [("nonce construction", "net/key_schedule.rs"), ("direction and epoch selection", "net/record.rs")], state=[("sequence number", "records so far", "net/key_schedule.rs")], observe=["nonce passed to the cipher", "record bytes"])

prop("C09", "ChaCha20-Poly1305 computes RFC 8439 for every input",
 "For every 256-bit key, 96-bit nonce, plaintext and associated data, encryption yields exactly the RFC 8439 ciphertext and tag, and decryption returns the plaintext exactly when the tag matches and an error otherwise. In particular every plaintext byte is encrypted, for every length including multiples of the block size.",
 ["inputs"], "all keys, nonces, data and lengths within the stated bounds",
 "Tests use the RFC vectors of a few fixed lengths, none of them a multiple of 64 bytes.",
 ["crypto/chacha20/cipher.rs", "crypto/chacha20/poly1305.rs"],
 [("ChaCha20 block and stream", "crypto/chacha20/cipher.rs"), ("Poly1305 and AEAD construction", "crypto/chacha20/poly1305.rs")], observe=["ciphertext, tag, plaintext or error"])

prop("C10", "AES-GCM computes the NIST specification for every input",
 "For every 128-, 192- or 256-bit key the block cipher is the FIPS 197 permutation, and for every 96-bit nonce, plaintext and associated data the AEAD yields exactly the SP 800-38D ciphertext and tag. Decryption returns the plaintext exactly when the tag matches and an error otherwise.",
 ["inputs"], "all keys, nonces, data and lengths within the stated bounds",
 "Tests use a handful of fixed vectors; key bytes select table entries and lengths select padding branches that the vectors do not cover.",
 ["crypto/aes/cipher.rs", "crypto/aes/gcm.rs"],
 [("key expansion and rounds", "crypto/aes/cipher.rs"), ("GHASH, counter and tag", "crypto/aes/gcm.rs")], observe=["ciphertext, tag, plaintext or error"])

prop("C11", "SHA-256 and SHA-384 equal FIPS 180-4 however the data is fed",
 "For every message the one-shot and the incremental (transcript) hash equal FIPS 180-4 SHA-256 or SHA-384. The result does not depend on how the message was split into updates, reading the running hash does not disturb it, and a copy of it evolves independently.",
 ["inputs", "histories"], "all messages within the stated length, every split into updates, reads and copies in between",
 "Tests hash a few fixed strings in one call; padding boundaries and splits are not covered.",
 ["hash/sha256.rs", "hash/sha384.rs"],
 [("block buffering and padding", "hash/sha256.rs"), ("block buffering and padding", "hash/sha384.rs")], observe=["digest bytes"])

prop("C12", "HMAC and HKDF equal RFC 2104 and RFC 5869",
 "For every key, message, salt, input key material, info string and output length, HMAC, HKDF-Extract and HKDF-Expand over SHA-256 and SHA-384 equal their RFC definitions, including keys longer than the hash block. Expansion beyond 255 hash lengths is refused.",
 ["inputs"], "all byte values, all key, data and output lengths within the stated bounds",
 "Tests use the RFC 5869 vectors only; key lengths between the two block sizes never occur.",
 ["hash/hmac.rs", "hash/hkdf.rs"], [("key padding", "hash/hmac.rs"), ("extract and expand", "hash/hkdf.rs")], observe=["output bytes"])

prop("C13", "Traffic keys follow the TLS 1.3 key schedule exactly",
 "For every shared secret and transcript, handshake and application traffic secrets, keys and IVs of both directions equal the RFC 8446 section 7 derivation, with the key and IV sizes of the negotiated suite and its hash. The transcript hashed is ClientHello..ServerHello for the handshake secrets and ClientHello..server Finished for the application secrets, also when the client authenticates.",
 ["inputs", "configurations"], "all shared secrets and transcript hashes, all three suites",
 "The key schedule test is an empty function; interoperation with one peer exercises one path.",
 ["net/key_schedule.rs", "net/record.rs", "net/server/connection.rs", "net/client/connection.rs"],
 [("HKDF labels", "net/key_schedule.rs"), ("secret chain", "net/key_schedule.rs")], observe=["traffic secrets, keys and IVs"])

prop("C14", "Finished is accepted exactly when it authenticates the transcript",
 "An endpoint completes the handshake only after receiving a Finished message whose verify data equals HMAC over the transcript so far under the peer's finished key, byte for byte and in full length; anything else, including truncated, extended or empty verify data, ends the handshake with an error. The Finished an endpoint sends is what its peer computes.",
 ["inputs", "histories"], "all verify data values and lengths up to the stated bound, all transcripts, both roles, SHA-256 and SHA-384",
 "No test processes a Finished message.",
 ["net/handshake/finished.rs", "net/server/connection.rs", "net/client/connection.rs"],
 [("verify data", "net/handshake/finished.rs"), ("comparison", "net/server/connection.rs"), ("comparison", "net/client/connection.rs")], observe=["result of the handshake"])

prop("C15", "X25519 equals RFC 7748 for every key and peer share",
 "For every private scalar and every 32-byte peer value, the key exchange uses exactly the RFC 7748 X25519 result: scalar clamping, the top bit of the peer value ignored, non-canonical values reduced, little-endian wire order, and results with leading or trailing zero bytes kept in place. Client and server therefore always derive the same secret, and the public share on the wire is X25519(private, 9).",
 ["inputs"], "all field elements for the field arithmetic, all scalars and shares for the byte conversions around the ladder; bounds stated per query",
 "One fixed vector is tested; results with zero bytes at either end occur once in 128 connections.",
 ["crypto/ellipticcurve/math/curve25519.rs", "crypto/ellipticcurve/math.rs", "net/key_schedule.rs", "utils/bytes.rs", "net/extensions/key_share.rs"],
 [("field arithmetic and ladder", "crypto/ellipticcurve/math/curve25519.rs"), ("byte order conversions", "utils/bytes.rs"), ("shared secret", "net/key_schedule.rs")], observe=["shared secret bytes", "key share bytes on the wire"])

prop("C16", "ECDSA verification accepts exactly the valid signatures",
 "Verification accepts a signature for a message digest and public key exactly when r and s lie in 1..n-1, the key is a point of the curve other than the neutral element, and the ECDSA equation holds; in particular zero, negative or out-of-range r and s are refused. Every signature produced by signing with a private key verifies under its public key for that digest.",
 ["inputs"], "all keys, digests, nonces and signature values on small curves of prime order (exhaustively symbolic); range and curve checks for all 256-bit values on P-256",
 "One sign/verify pair is tested; edge values of r, s, intermediate points at infinity and equal points never occur in samples on a 256-bit curve.",
 ["crypto/ellipticcurve/ecdsa.rs", "crypto/ellipticcurve/math.rs", "crypto/ellipticcurve/math/jacobian.rs", "crypto/ellipticcurve/curve.rs"],
 [("sign/verify", "crypto/ellipticcurve/ecdsa.rs"), ("Jacobian arithmetic", "crypto/ellipticcurve/math/jacobian.rs")], observe=["verification result"])

prop("C17", "The server completes a handshake only in the protocol order",
 "The server's accept succeeds only after, in this order, a ClientHello in the clear, then (when client certificates are required) Certificate and CertificateVerify, then Finished, the latter all in protected handshake records; change_cipher_spec is ignored after the ClientHello and refused before it. Any other message, type or plaintext record in between ends the handshake with an alert (once client authentication has failed, the server may read on until the client's Finished before it reports the failure), and the server's own flight is ServerHello, change_cipher_spec when a session id was offered, EncryptedExtensions, CertificateRequest when configured, Certificate, CertificateVerify, Finished.",
 ["histories", "inputs", "configurations"], "all sequences of up to the stated number of messages of every type, with and without client authentication",
 "No test drives the server state machine.",
 ["net/server/connection.rs"], [("state machine", "net/server/connection.rs")], state=[("state", "next expected message", "net/server/connection.rs")], observe=["accept result", "records sent"])

prop("C18", "The client completes a handshake only with a server that proves its key",
 "The client's connect succeeds only after ServerHello, EncryptedExtensions, optionally one CertificateRequest, Certificate, CertificateVerify and Finished in this order, with a CertificateVerify signature that is valid under the certificate's public key over the handshake transcript and with a correct Finished. Any omission, reordering, repetition, plaintext substitution or invalid signature makes connect fail with an error, and no application data is sent.",
 ["histories", "inputs"], "all sequences of up to the stated number of messages, all signature outcomes",
 "No test runs the client.",
 ["net/client/connection.rs", "net/handshake/certificate.rs"], [("state machine", "net/client/connection.rs"), ("signature content", "net/handshake/certificate.rs")], state=[("state", "next expected message", "net/client/connection.rs")], observe=["connect result", "records sent"])

prop("C19", "A server requiring client certificates admits only authenticated clients",
 "When a client CA is configured, accept succeeds only if the client sent a certificate signed by that CA, the request context was echoed, the custom verification function (if set) approved the certificate, and the CertificateVerify signature is valid under the certificate's key for this handshake's transcript. In every other case (no or empty certificate, foreign CA, denied, wrong or missing signature) accept returns an error after the client's flight and the connection is never usable.",
 ["histories", "inputs", "configurations"], "all message sequences of the client's flight and all outcomes of each of the checks",
 "No test uses client authentication.",
 ["net/server/connection.rs", "net/handshake/certificate.rs"], [("client certificate and verify handling", "net/server/connection.rs"), ("issuer signature", "net/handshake/certificate.rs")], state=[("state", "pending failure or next message", "net/server/connection.rs")], observe=["accept result"])

prop("C20", "Alerts carry the RFC 8446 codes in both directions",
 "Every alert sent consists of the level (warning for close_notify, fatal otherwise) and the RFC 8446 code of the reported error, protected with the current write keys once keys exist and in plaintext before. A received alert ends the handshake with the error of the received code and is never answered with a second alert, and internal conditions that are not TLS alerts are never written to the peer.",
 ["inputs", "histories"], "all error values, all 256 alert codes, all levels, plain and protected",
 "No test sends or receives an alert.",
 ["net/alert.rs", "net/stream.rs", "net/server/connection.rs", "net/client/connection.rs"], [("code tables", "net/alert.rs"), ("write_alert", "net/stream.rs")], observe=["alert bytes", "error returned"])

prop("C21", "Results do not depend on how TCP segments the byte stream",
 "Splitting or joining the peer's byte stream into different TCP reads changes neither the outcome of a handshake nor the application bytes delivered. Records split across reads and several records in one read are processed exactly once and in order.",
 ["schedules", "histories"], "all segmentations (every cut position) of a genuine peer's byte stream, for client and server handshake and application data",
 "Local tests deliver each record in one read; a cut inside a record header needs a specific network schedule.",
 ["net/client/connection.rs", "net/server/connection.rs", "net/stream.rs"], [("client reassembly", "net/client/connection.rs"), ("server read loop", "net/server/connection.rs"), ("stream read", "net/stream.rs")], state=[("defragmentation buffer", "bytes received but not processed", "net/client/connection.rs")], observe=["handshake result", "bytes read"])

prop("C22", "Application data arrives complete, unmodified and in order",
 "The concatenation of what one endpoint's writes accept is exactly what the peer's reads return, in order, for every size of write, read buffer and record; every record on the wire respects the 2^14-byte limit and its length field. Data is written only once a protected channel exists, and a write error or a closed connection is reported.",
 ["inputs", "histories", "schedules"], "all write sizes and read buffer sizes up to the stated bounds, sizes around the record limit",
 "No test transfers application data; sizes above the record limit or read buffers smaller than a record are never used.",
 ["net/stream.rs", "net/record.rs"], [("tls_read/tls_write", "net/stream.rs"), ("length fields", "net/record.rs")], observe=["bytes read", "records on the wire"])

prop("C23", "Certificate validity times map to the right second",
 "For every valid UTCTime between 1970 and 2049 the decoded timestamp is the number of seconds since 1970-01-01T00:00:00Z in the Gregorian calendar, and later times always map to larger numbers. Malformed times (wrong length, non-digits, no Z, month, day, hour, minute or second out of range) are rejected.",
 ["inputs"], "all 13-byte strings and all valid date-times of the range",
 "No test checks a timestamp; leap years and month boundaries make the failing dates rare.",
 ["utils/x509.rs"], [("UTCTime parsing and conversion", "utils/x509.rs")], observe=["decoded timestamp"])

prop("C24", "X.509 certificates are decoded to the values they contain",
 "For every certificate of the supported profile (EC P-256 key, ECDSA-SHA256 or SHA-384 signature), decoding yields the serial number, version, issuer and subject attributes, validity, algorithm, public key point and signature values present in the DER, and each value comes from its own field. A certificate message built from a certificate is decoded by the peer to the same certificate bytes.",
 ["inputs"], "all values of the variable fields of a template certificate, integers of all lengths around the sign-byte boundary",
 "Two fixed certificates are parsed and four strings compared.",
 ["utils/x509.rs", "utils/der.rs", "net/handshake/certificate.rs"], [("field assignment", "utils/x509.rs"), ("certificate message", "net/handshake/certificate.rs")], observe=["fields of the decoded certificate"])

prop("C25", "A certificate counts as signed by a CA only if the CA key verifies it",
 "The issuer check succeeds exactly when the ECDSA signature in the certificate is valid under the CA's public key over the SHA-256 hash of the exact to-be-signed bytes of that certificate. The signatures an endpoint produces for CertificateVerify cover 64 spaces, the context string of its own role, a zero byte and the transcript hash, and are accepted only for that role and that transcript.",
 ["inputs"], "all transcripts, both role labels, certificates whose to-be-signed part has any header size the profile allows",
 "No test verifies a certificate signature or a CertificateVerify.",
 ["net/handshake/certificate.rs", "utils/x509.rs"], [("issuer check", "net/handshake/certificate.rs"), ("CertificateVerify content", "net/handshake/certificate.rs")], observe=["verification result"])

prop("C26", "Text and integer codecs are exact inverses",
 "Base64 decoding inverts encoding for every byte string and refuses characters outside the alphabet; hexadecimal, big- and little-endian integer conversions and DER signature encoding round-trip for every value, keep leading zeros where the format has a fixed width, and produce minimal non-negative DER integers.",
 ["inputs"], "all byte strings and integers within the stated sizes",
 "Tests cover one or two strings per codec; values with leading zero bytes or the top bit set are rare.",
 ["utils/base64.rs", "utils/bytes.rs", "crypto/ellipticcurve/signature.rs", "utils/pem.rs"], [("alphabet", "utils/base64.rs"), ("integer conversions", "utils/bytes.rs"), ("DER integers", "crypto/ellipticcurve/signature.rs")], observe=["decoded and encoded bytes"])

prop("C27", "Random values have the requested size and range",
 "Both random generators return exactly the requested number of bytes for every size, and numbers within the requested range, whatever the source yields; the system generator uses only bytes read from the operating system and fails rather than returning fewer. A server configured with either generator can complete a handshake.",
 ["inputs", "configurations"], "all source outputs, all requested sizes up to the stated bound",
 "Tests check two outputs of one internal generator.",
 ["rand/simplerng.rs", "rand/urandom.rs"], [("byte generation", "rand/simplerng.rs"), ("system source", "rand/urandom.rs")], observe=["returned bytes and numbers"])

prop("C28", "The key log decrypts exactly the logged connection",
 "With key logging enabled each endpoint appends, in NSS key log format, the client random of the connection together with the four traffic secrets actually used, each under its correct label and in lower-case hex; with logging disabled nothing is written. Both endpoints of a connection log identical secrets.",
 ["inputs", "configurations"], "all secrets and randoms, both roles",
 "No test enables the key log.",
 ["utils/keylog.rs", "net/server/connection.rs", "net/client/connection.rs"], [("key log lines", "utils/keylog.rs")], observe=["bytes written to the key log file"])

if __name__ == "__main__":
    import os
    with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
        for p in P:
            assert len(p["title"]) <= 80, p["title"]
            f.write(json.dumps(p, ensure_ascii=False) + "\n")
