"""What each property's check runs: harness, parameters, budget, and the markers that show it was not vacuous."""
PROPS = {}


def job(name, h, p=(), secs=60, reach=(), **k):
    return dict(name=name, h=h, p=list(p), secs=secs, reach=list(reach), **k)


def prop(pid, features, bounds, outside, assumptions):
    def deco(f):
        PROPS[pid] = dict(features=features, jobs=f, bounds=bounds, outside=outside, assumptions=ASSUME + assumptions)
        return f
    return deco


ASSUME = [
    "the LLVM IR rustc emits for the `sym` profile (opt-level 1, overflow checks on) has the semantics of the source; the symbolic executor and z3 are trusted, checked on every run by replaying completed paths natively",
    "memory allocation does not fail; logging is off (the default)",
]
AR = ["accepted", "rejected"]
HS = ["connected", "data", "alert sent"]
PEER = ["the peer is written from RFC 8446 in harness/src/peer.rs over the definitions of spec.rs (RFC 7748, FIPS 180-4, RFC 5869, RFC 8439, SP 800-38D, ECDSA)",
        "socket, files, clock and /dev/urandom are played by the harness (harness/src/sys.rs); the endpoint's random numbers are one fixed sequence here (C27 frees them)",
        "fixed certificates and keys, and a peer with one fixed X25519 key; the big-integer arithmetic of ibig is modelled exactly"]


@prop("C01", ["parse"],
      "records and handshake messages <= 24/64 bytes; extension lists of ClientHello, ServerHello and CertificateRequest <= 12/16 bytes; ClientHello <= 48/54 bytes, ServerHello <= 52/56 bytes; key shares <= 16/20, server names <= 8/12, version lists <= 24, signature algorithm lists <= 16/24 bytes; Certificate messages <= 12/14 bytes (quick/thorough); every byte free",
      ["longer messages: each parser is a loop over elements, the bounds allow several elements of every kind but not, for example, two full X25519 shares"],
      [])
def c01(tier):
    q = tier == "quick"
    w = [job("record", "h_record", [24 if q else 64], reach=AR),
         job("handshake", "h_handshake", [24 if q else 64], reach=AR),
         job("clienthello", "h_ch", [0, 48], 120, reach=AR),
         job("clienthello-ext", "h_ch_ext", [0, 12], reach=AR),
         job("serverhello", "h_sh", [0, 52], 120, reach=AR),
         job("serverhello-ext", "h_sh_ext", [0, 12], reach=AR),
         job("certrequest-ext", "h_cr_ext", [0, 12], reach=AR),
         job("keyshare-list", "h_key_share", [16 if q else 20, 0], 200, reach=AR),
         job("keyshare", "h_key_share", [40, 1], reach=AR),
         job("servername", "h_server_name", [8 if q else 12], 300, reach=AR),
         job("versions-list", "h_versions", [24, 0], reach=AR),
         job("version", "h_versions", [24, 1], reach=AR),
         job("sigalgs", "h_sigalgs", [16 if q else 24], 200, reach=AR),
         job("certificate", "h_cert_msg", [0, 12 if q else 14], 200 if q else 700, reach=["rejected"])]
    if not q:
        for n in range(13, 19):
            w.append(job("clienthello-ext-%d" % n, "h_ch_ext", [n, n], 700, reach=AR, cost=600 + n))
            w.append(job("serverhello-ext-%d" % n, "h_sh_ext", [n, n], 700, reach=AR, cost=500 + n))
            w.append(job("certrequest-ext-%d" % n, "h_cr_ext", [n, n], 700, reach=AR, cost=400 + n))
        for n in range(49, 56):
            w.append(job("clienthello-%d" % n, "h_ch", [n, n], 700, cost=300 + n))
        for n in range(53, 57):
            w.append(job("serverhello-%d" % n, "h_sh", [n, n], 700, cost=300 + n))
    return w


@prop("C11", ["hash"],
      "one-shot digests of every message of 0..140 (SHA-256) and 0..270 bytes (SHA-384), all bytes free; three updates cut at any two places (second cut in steps of 22 or 43 quick; 5 thorough) of messages of 0..8, 55..66 and 120..130 (SHA-256) / 0..4, 111..130 (SHA-384) bytes with intermediate digests and copies; messages of 9000 and 70000 concrete bytes followed by 0..4 free ones",
      ["longer fully symbolic messages: the compression function and padding are the same at every multiple of the block size, and the long concrete prefixes cover the length field beyond 16 and (bits) 19 bits; lengths of 2^32 bits and more"],
      ["the oracle is the definition of FIPS 180-4 in harness/src/spec.rs"])
def c11(tier):
    q = tier == "quick"
    w = []
    for h, top, st in ((32, 140, 35), (48, 270, 45)):
        for a in range(0, top, st):
            w.append(job("sha%d-%d" % (h * 8, a), "h_sha", [h, a, a + st], 120, reach=["digest"]))
        for n in (9000, 70000):
            w.append(job("sha%d-long-%d" % (h * 8, n), "h_sha_long", [h, n, 4], 120, reach=["long"]))
        for lo, hi in (((0, 8), (55, 57), (63, 66), (119, 121)) if h == 32 else ((0, 4), (111, 113), (127, 130))):
            for n in range(lo, hi + 1):
                w.append(job("sha%d-split-%d" % (h * 8, n), "h_sha_split", [h, n, n, 1 if n < 9 else (22 if h == 32 else 43) if q else 5], 300, reach=["split"]))
    return w


@prop("C12", ["hash"],
      "HMAC: keys of 0..140 free bytes, messages of 0..2, 60..66 and 120..130 free bytes; HKDF-Extract: salts of 0..48 and 126..131, input keys of 0..3, 32 and 48 bytes; HKDF-Expand: free PRK, info of 0..3 bytes, outputs of 0..128 (SHA-256) and 0..144 bytes (SHA-384); the 255-block limit for every length up to 255*HashLen + 65536",
      ["longer keys and messages (one more compression per block); longer outputs, except the limit itself (one concrete PRK)"],
      ["the oracle is RFC 2104 / RFC 5869 over the SHA of harness/src/spec.rs"])
def c12(tier):
    q = tier == "quick"
    w = []
    for h in (32, 48):
        n = "sha%d" % (h * 8)
        for a in range(0, 140, 20):
            w.append(job("hmac-%s-key%d" % (n, a), "h_hmac", [h, a, a + 19, 0, 2], 300, reach=["hmac"]))
        for lo, hi in ((60, 66), (124, 130)):
            w.append(job("hmac-%s-msg%d" % (n, lo), "h_hmac", [h, h - 1, h + 1, lo, hi], 300, reach=["hmac"]))
        for lo, hi in ((0, 10), (28, 34), (46, 50), (126, 131)):
            w.append(job("extract-%s-%d" % (n, lo), "h_hkdf_extract", [h, lo, hi, 0, 3], 300, reach=["extract"]))
        w.append(job("extract-%s-key32" % n, "h_hkdf_extract", [h, h, h, 30, 50], 300, reach=["extract"]))
        for a in range(0, 129 if h == 32 else 145, 30):
            w.append(job("expand-%s-%d" % (n, a), "h_hkdf_expand", [h, a, min(a + 29, 128 if h == 32 else 144), 1 if a else 3], 300, reach=["expand"]))
        w.append(job("limit-%s" % n, "h_hkdf_max", [h, 1], 120, reach=["limit"]))
    return w


@prop("C09", ["aead"],
      "sealing and opening with free key, nonce, plaintext/ciphertext, associated data and free difference to the right tag: plaintexts of 0, 1, 15, 16, 17, 63, 64, 65 bytes with 5 bytes of associated data, and 3 bytes with 0, 1, 16, 17 (quick); every length 0..80, 127..130 and associated data 0..33 (thorough); the ChaCha20 stream for every counter and 0..130 bytes (quick: 0..8, 63..66, 127..129); Poly1305 with a free key for 0..50 bytes (quick: 0, 1, 15..17, 31..33); one concrete key with 290, 4200 and 17000 bytes, the last two free",
      ["longer plaintexts (the loops over 64-byte and 16-byte blocks have run several times within the bound)", "timing side channels"],
      ["the oracle is RFC 8439 as written out in harness/src/spec.rs", "big-integer arithmetic of the ibig crate is modelled exactly (ibig-model), not executed"])
def c09(tier):
    q = tier == "quick"
    both = ["opened", "refused"]
    w = [job("suites", "h_suite", [], reach=["suite", "scsv", "unknown"])]
    for n in [0, 1, 15, 16, 17, 63, 64, 65] if q else list(range(81)) + [127, 128, 129, 130]:
        w.append(job("seal-%d" % n, "h_seal", [4867, n, n, 5, 5, 0, 3], 250, ["sealed"]))
        if not q or n in (0, 16, 17, 64):
            w.append(job("open-%d" % n, "h_open", [4867, n, n, 5, 5, 0], 250, both))
    for m in [0, 1, 16, 17] if q else range(34):
        w.append(job("seal-aad-%d" % m, "h_seal", [4867, 3, 3, m, m, 0, 3], 250, ["sealed"]))
        if not q:
            w.append(job("open-aad-%d" % m, "h_open", [4867, 3, 3, m, m, 0], 250, both))
    for a, b in [(0, 8), (63, 66), (127, 129)] if q else [(i, min(i + 9, 130)) for i in range(0, 131, 10)]:
        w.append(job("stream-%d" % a, "h_stream", [a, b], 250, ["stream"]))
    for a, b in [(0, 1), (15, 17), (31, 33)] if q else [(i, i + 4) for i in range(0, 50, 5)]:
        w.append(job("poly-%d" % a, "h_poly", [a, b, 0], 250, ["mac"]))
    for n, m in (290, 20), (4200, 300), (17000, 20):
        w.append(job("long-%d" % n, "h_seal_long", [4867, n, m, 2, 0], 100, ["long"]))
    return w


@prop("C10", ["aead"],
      "the AES-128, AES-192 and AES-256 block ciphers for every key and block; sealing and opening with free key, nonce, plaintext/ciphertext, associated data and free difference to the right tag: plaintexts of 0, 1, 16, 17 bytes with 5 bytes of associated data (quick); 0..34, 48, 49, 64, 65 and associated data of 0..20 bytes (thorough); one concrete key with 300, 4200 and 17000 bytes of plaintext or 300 of associated data, the last two bytes free",
      ["longer plaintexts", "nonces of other than 12 bytes (TLS uses none)", "decryption with the bare block cipher (GCM does not use it)", "timing side channels"],
      ["the oracle is FIPS 197 and SP 800-38D as written out in harness/src/spec.rs"])
def c10(tier):
    q = tier == "quick"
    both = ["opened", "refused"]
    w = [job("suites", "h_suite", [], reach=["suite", "scsv", "unknown"]),
         job("aes128", "h_aes", [16, 0, 0, 0], 120, ["block"]), job("aes256", "h_aes", [32, 0, 0, 0], 120, ["block"]), job("aes192", "h_aes", [24, 0, 0, 0], 120, ["block"])]
    for s in (4865, 4866):
        for n in [0, 1, 16, 17] if q else list(range(35)) + [48, 49, 64, 65]:
            w.append(job("seal-%d-%d" % (s, n), "h_seal", [s, n, n, 5, 5, 0, 3], 250, ["sealed"]))
            if not q or n in (0, 1):
                w.append(job("open-%d-%d" % (s, n), "h_open", [s, n, n, 5, 5, 0], 250, both))
        for m in [0, 16, 17] if q else range(21):
            w.append(job("seal-%d-aad-%d" % (s, m), "h_seal", [s, 3, 3, m, m, 0, 3], 250, ["sealed"]))
        for n, m in (300, 20), (4200, 20), (17, 300), (17000, 20):
            if not (q and s == 4866 and n == 17000):
                w.append(job("long-%d-%d" % (s, n), "h_seal_long", [s, n, m, 2, 0], 100, ["long"]))
    return w


@prop("C07", ["record"],
      "both roles, handshake and application keys of one connection, all three suites (fixed keys, free content): records of 0..3, 15..17 (ChaCha20: also 62..66) bytes of each content type at position 0..2 of the connection, sealed and opened by the peer; opening of records with 0..4 (thorough 0..6, 17) bytes of free inner plaintext including padding and content type, free header version, free difference to the right tag, sealed for positions up to 2 ahead or the wrong direction; every order of three records; records of 16384 (ChaCha20: 16295) bytes with two free bytes; unprotected records of 0..20 free bytes",
      ["other keys: C09, C10 and C13 decide the AEADs and the key schedule for every key, the record layer uses them through the Cipher interface", "longer records with more free bytes"],
      ["the AEAD oracles of harness/src/spec.rs"])
def c07(tier):
    q = tier == "quick"
    both = ["opened", "refused"]
    w = [job("plain", "h_rec_plain", [], 120, ["plain", "short"]),
         job("order-4867", "h_rec_order", [4867], 120, ["all", "refused"])]
    for s in (4867, 4865, 4866):
        w.append(job("seal-%d" % s, "h_rec_seal", [s, 0, 3 if s == 4867 else 1, 1], 250, ["delivered"]))
        w.append(job("seal-%d-first" % s, "h_rec_seal", [s, 0, 0, 0], 250, ["delivered"]))
        w.append(job("long-%d" % s, "h_rec_long", [s, 16384 if s != 4867 else 16295], 250, ["long"]))
        w.append(job("open-%d" % s, "h_rec_open", [s, 1, 3, 0, 0, 0], 250, both + ["padding"]))
        if s == 4867:
            w.append(job("open-%d-off" % s, "h_rec_open", [s, 2, 2, 1, 2, 1], 250, both))
        if not q or s == 4867:
            w.append(job("seal-%d-16" % s, "h_rec_seal", [s, 15, 17, 0], 800, ["delivered"]))
        if not q:
            w.append(job("order-%d" % s, "h_rec_order", [s], 800, ["all", "refused"]))
            w.append(job("seal-%d-pos2" % s, "h_rec_seal", [s, 2, 2, 2], 800, ["delivered"]))
            w.append(job("open-%d-off2" % s, "h_rec_open", [s, 1, 1, 1, 1, 1], 800, both))
            for n in (0, 4, 5, 6, 17):
                w.append(job("open-%d-%d" % (s, n), "h_rec_open", [s, n, n, 0, 0, 0], 800, both if n else []))
            if s == 4867:
                w.append(job("seal-%d-64" % s, "h_rec_seal", [s, 62, 66, 0], 800, ["delivered"]))
    return w


@prop("C08", ["record"],
      "the nonce of every 64-bit record number under every IV, and the next one; the first 300 (quick) or 70000 (thorough) numbers from a fresh key; every sequence of 4 (quick) or 6 (thorough) operations out of send, receive, receive a bad record, change to application keys, for both roles with free keys and IVs: key and nonce handed to the cipher",
      ["longer histories: the state is the counter, which the first part covers for every value"],
      ["the private counter is found as the only 64-bit word of a Key that goes 0, 1, 2; if there is none, only the first numbers are covered"])
def c08(tier):
    q = tier == "quick"
    return [job("nonce", "h_nonce", [], reach=["nonce", "limit"]),
            job("count", "h_nonce_count", [300 if q else 70000], 600, ["nonces"]),
            job("crosswise", "h_nonce_spy", [4 if q else 6], 600, ["handshake", "application"])]


@prop("C13", ["ks"],
      "handshake and master secrets for every shared secret and transcript hash (SHA-256, SHA-384); keys and IVs of the three suites for every traffic secret; application secrets, keys and IVs for every master secret and transcript hash; HkdfLabel for labels of 0..18 and contexts of 0..64 free bytes; from_handshake with a fixed X25519 pair and a free transcript hash",
      ["that a connection hashes the right messages: decided by the live handshakes of C14, C18 and C28"],
      ["the oracle is RFC 8446 section 7 over the HKDF of harness/src/spec.rs"])
def c13(tier):
    w = [job("label", "h_ks_label", [18], reach=["label"])]
    for h in (32, 48):
        w.append(job("secrets-%d" % h, "h_ks_handshake", [h], 250, ["secrets"]))
    for s in (4865, 4866, 4867):
        w.append(job("keys-%d" % s, "h_ks_keys", [s], 250, ["keys"]))
        w.append(job("app-%d" % s, "h_ks_app", [s], 250, ["keys"]))
        w.append(job("from-%d" % s, "h_ks_from", [s], 250, ["secrets"]))
    return w


@prop("C26", ["codec"],
      "Base64: every value of one free byte at every place of 1..6 bytes (the others 0x00, 0xff or 0x5a), decoding of 1..8 characters with one or two free ASCII characters and 0..2 padding characters; hexadecimal of 0..4 (thorough 0..8) free bytes; the fixed-width integer conversions on every value; big integers of 0..34 (thorough 0..64) free bytes; DER signatures with r and s of 0..4 (thorough 0..9) free bytes and one of up to 33 bytes (thorough: both 32); Signature::from_der on every text of up to 8 (thorough 10) bytes",
      ["longer input: the codecs work on groups of 3 bytes / 4 characters / single bytes; more than two free Base64 characters at a time"],
      ["big-integer arithmetic of the ibig crate is modelled exactly (ibig-model), not executed"])
def c26(tier):
    q = tier == "quick"
    w = [job("ints", "h_ints", [], reach=["integers"]), job("digits", "h_digits", [], reach=["digits"]),
         job("hex", "h_hex", [4 if q else 8], 120, ["hex"])]
    for n in range(0, 7):
        for at in range(max(n, 1)):
            if not q or n < 5 or at >= 3:
                w.append(job("b64-enc-%d-%d" % (n, at), "h_b64_enc", [n, at], 120, ["round trip"]))
    for n in range(1, 9):
        for at in range(n):
            if not q or n in (1, 4) or n == 8 and at >= 3:
                w.append(job("b64-dec-%d-%d" % (n, at), "h_b64_dec", [n, at, 1], 120, ["rejected"]))
    for n, at in ((4, 2),) if q else ((4, 0), (4, 1), (4, 2), (8, 3), (8, 4), (8, 6)):
        w.append(job("b64-dec2-%d-%d" % (n, at), "h_b64_dec", [n, at, 2], 600, AR))
    for a, b in ((0, 34),) if q else ((0, 34), (35, 64)):
        w.append(job("ibig-%d" % a, "h_ibig", [a, b], 600, ["integers"]))
    for p in ([0, 4, 0, 4], [5, 33, 1, 1], [1, 1, 5, 33]) if q else ([0, 9, 0, 9], [10, 33, 0, 3], [0, 3, 10, 33], [32, 32, 32, 32]):
        w.append(job("sig-%d-%d" % (p[0], p[2]), "h_sig_der", p, 600, ["round trip"]))
    w.append(job("sig-in", "h_sig_in", [8 if q else 10], 800, AR))
    return w


@prop("C27", ["rng", "net"],
      "bytes: every size of 0..40, 98..102 and 198..202 (thorough 0..320) from a source of free bytes that answers in full or 1, 7 or 33 bytes at a time; a source that ends after 0..13 / 95..105 bytes; SimpleRng sizes 0..66 and every 64-bit seed; numbers of the range 2^8..2^256 (the one the code uses) and others for every source content of every length the generator uses; the 32-bit generator for every seed and range",
      ["the quality of the random numbers (SimpleRng is documented as insecure)"],
      ["big-integer arithmetic of the ibig crate is modelled exactly (ibig-model), not executed", "of the eight length bytes the system generator reads for a number only the first is free (every length still occurs)"])
def c27(tier):
    q = tier == "quick"
    w = []
    for a, b in ((0, 40), (98, 102), (198, 202)) if q else [(i, i + 39) for i in range(0, 320, 40)]:
        w.append(job("urandom-%d" % a, "h_urandom_bytes", [a, b], 300, ["bytes"]))
    for a in (0, 95):
        w.append(job("eof-%d" % a, "h_urandom_eof", [a, a + 13], 300, ["enough"]))
    for lo, hi in ((1, 32), (0, 1), (0, 32), (31, 32)) if q else [(lo, hi) for lo in range(0, 32, 3) for hi in (lo + 1, 32, 40)]:
        w.append(job("between-%d-%d" % (lo, hi), "h_urandom_between", [lo, hi], 300, ["number"]))
    w += [job("simple-bytes", "h_simple_bytes", [0, 66], 300, ["bytes"]),
          job("simple-between", "h_simple_between", [], 300, ["number"]),
          job("simple32", "h_simple32", [], 100, ["number"]),
          job("handshake-urandom", "h_srv_order", [0, 0, 0, 32, 0], 200, ["connected"]),
          job("handshake-simple", "h_srv_order", [0, 0, 0, 32, 1], 200, ["connected"])]
    return w


@prop("C04", ["hello"],
      "ClientHellos with a free random, session ids of 0, 1, 31 and 32 free bytes, up to 3 free cipher suites and, in any order, up to 2 (3 with a one-byte session id and one suite) extensions of the kinds key_share (up to 1, alone 3 entries of any group and 0, 1 or 32 bytes), server_name (1..4 ASCII bytes), supported_versions, signature_algorithms (up to 2, alone 4 entries), supported_groups and unknown (any type, 0..4 bytes), all contents free; thorough: more entries and extensions. Malformed: every version, every truncation, every overrunning value of each of the eleven length fields of one full ClientHello, every compression list of one method other than null",
      ["ClientHellos with more extensions or entries; messages of fewer than 45 bytes (no real one is that short); server names with non-ASCII bytes", "duplicate extensions: not well formed, and not claimed to be rejected"],
      [])
def c04(tier):
    q = tier == "quick"
    w = [job("bad-%d" % i, "h_ch_bad", [i], 60, ["rejected"]) for i in range(13)]
    w += [job("base", "h_ch_good", [0, 3, 0, 1, 1, 6], 120, ["decoded"], cost=200),
          job("pairs", "h_ch_good", [0, 1, 2, 2, 1, 6], 120, ["decoded"], cost=200),
          job("triples", "h_ch_good", [2, 1, 3, 3, 1, 6], 300, ["decoded"], cost=300)]
    for k in range(6):
        w.append(job("kind-%d" % k, "h_ch_good", [1, 0, 1, 1, 3, k], 120, ["decoded"]))
    if not q:
        w.append(job("suites", "h_ch_good", [0, 6, 0, 0, 1, 6], 600, ["decoded"], cost=500))
        for s in (2, 33):
            for k in range(6):
                w.append(job("triples-%d-%d" % (s, k), "h_ch_good", [s, 2, 3, 3, 1, k], 800, ["decoded"], cost=500))
                w.append(job("pairs2-%d-%d" % (s, k), "h_ch_good", [s, 1, 2, 2, 2, k], 800, ["decoded"], cost=400))
        for k in range(6):
            w.append(job("quads-%d" % k, "h_ch_good", [1, 0, 4, 4, 0, k], 800, ["decoded"], cost=400))
    return w


@prop("C05", ["hello", "net"],
      "decoded ClientHellos with supported_versions, key_share (2 entries), signature_algorithms (2 entries) and server_name in every order of the four, each present or left out, every combination of offered groups, schemes, versions and 1..3 suites (four values each), a name that equals the configured one or differs in one free byte; session ids of 0, 1 and 32 free bytes; free server random; the refusal and the answer are also observed on the wire of a whole connection",
      ["which of several common suites is chosen (preference)", "private keys of the server other than one fixed one (C15 covers the others)"],
      ["the oracle for the key share is RFC 7748 in harness/src/spec.rs"])
def c05(tier):
    q = tier == "quick"
    w = []
    for o in range(24):
        if not q or o % 3 == 2:
            w.append(job("order-%d" % o, "h_negotiate", [o, 2, 2 + o % 2, [0, 1, 32][o % 3], 0, 2], 200, ["answered", "refused"]))
    for o in (0, 9, 23) if not q else (9,):
        for i in range(1, 6):
            w.append(job("absent-%d-%d" % (o, i), "h_negotiate", [o, 2, 2, 32, i, 2], 200, ["refused"] + (["answered"] if i > 2 else [])))
    for s in (0, 1, 32):
        w.append(job("sid-%d" % s, "h_negotiate", [0, 1, 1, s, 0, 1], 200, ["answered", "refused"]))
    for s in range(0, 4 if q else 6):
        w.append(job("suites-%d" % s, "h_negotiate", [2, 1, s, 0, 0, 1], 200, ["refused"] + (["answered"] if s else [])))
    for n in (0, 1, 3):
        w.append(job("shares-%d" % n, "h_negotiate", [0, n, 1, 0, 0, 1], 200, ["refused"] + (["answered"] if n else [])))
        w.append(job("algs-%d" % n, "h_negotiate", [0, 1, 1, 0, 0, n], 200, ["refused"] + (["answered"] if n else [])))
    w.append(job("wire", "h_srv_hello", [0], 300, HS, cost=900))
    return w


@prop("C03", ["net", "data"],
      "in every state of a live server (ClientHello, Certificate, CertificateVerify, Finished, application data; with and without client authentication) and client (ServerHello, EncryptedExtensions, CertificateRequest, Certificate, CertificateVerify, Finished, application data), after a genuine prefix: a record of 0..8 (thorough up to 24) free bytes, correctly protected (free inner type and padding included), or in the clear as a handshake record, or as a record of free type, version and payload whose length field is right or off by one; then the end of the stream. ServerHello with 0..6 free bytes of extensions. Malformed CertificateRequests. Every such path ends in an error or goes on without a panic",
      ["longer free records (the parsers alone are covered to larger sizes by C01 and C02); several free records in sequence"],
      PEER)
def c03(tier):
    q = tier == "quick"
    w = []
    m = 8 if q else 14
    for st, auth in ((0, 0), (2, 1), (3, 1), (4, 0), (4, 1), (5, 0)):
        for k in (0, 1, 2):
            if st == 0 and k == 0 or q and st in (4,) and auth and k:
                continue
            w.append(job("server-%d%d-%d" % (st, auth, k), "h_srv_bytes", [2 if k == 2 and st else 0, auth, st, k, 0, m if k < 2 else m - 2], 300, ["refused"], cost=100))
    for st in range(7):
        for k in (0, 1, 2):
            if st == 0 and k == 0 or st == 2 and k == 1 and q:
                continue
            w.append(job("client-%d-%d" % (st, k), "h_cli_bytes", [2 if k == 2 and st else 0, 1, st, k, 0, m if k < 2 else m - 2], 300, ["refused"], cost=100))
    w += [job("serverhello-ext", "h_cli_bytes", [0, 0, 0, 3, 0, 6 if q else 9], 300, ["refused"]),
          job("request", "h_cli_request", [0, 1, 1, 5], 300, HS)]
    if not q:
        for st, auth in ((0, 0), (2, 1), (3, 1), (4, 0), (5, 0)):
            for suite in (1, 2):
                w.append(job("server-long-%d-%d" % (st, suite), "h_srv_bytes", [suite, auth, st, 1 if st == 0 else 0, 15, 18], 900, ["refused"], cost=300))
        for st in range(1, 7):
            for suite in (1, 2):
                w.append(job("client-long-%d-%d" % (st, suite), "h_cli_bytes", [suite, 1, st, 0, 15, 18], 900, ["refused"], cost=300))
    return w


@prop("C06", ["net"],
      "the ClientHello of a client with no, a short and a long server name, parsed strictly; ServerHellos with each suite and either order of extensions, and otherwise one deviation: every other version field, suite, supported_versions value and key share group (free 16 bits); every one-byte difference of the session id, lengths 0, 1, 31 and 33; missing extensions; key shares of 0, 1, 31, 33 and 64 bytes, small-order shares; every truncation; wrong inner lengths. Afterwards exactly one alert in the clear and nothing else, or a complete handshake",
      ["several deviations at once; the compression byte of the ServerHello, which the client does not look at; unknown extensions; HelloRetryRequest (not implemented: it ends the handshake)"],
      PEER)
def c06(tier):
    w = [job("name-%d" % i, "h_cli_hello", [i], 300, HS, cost=500) for i in range(3)]
    return w + [job("first-%d" % s, "h_cli_order", [s, 1, 1, 1], 300, HS + ["alert received", "broken"]) for s in range(3)]


@prop("C14", ["net"],
      "server (with and without client authentication) and client (with and without a CertificateRequest and a client certificate), all three suites, after a genuine handshake: a Finished with verify data of every length from 0 to the hash length + 2 (quick: lengths around the hash length, and 0, 1 and 16), its bytes XOR free differences; accepted exactly when the length is right and all differences are zero. The Finished the endpoint sends is compared with the peer's computation on every such run",
      ["longer verify data; other transcripts than the fixed genuine ones (C13 and C12 decide the computation for free inputs)"],
      PEER + ["the free Finished is sealed with the implementation's own AEAD (decided by C07, C09, C10)"])
def c14(tier):
    q = tier == "quick"
    w = []
    for r, h in (("server", "h_srv_finished"), ("client", "h_cli_finished")):
        for suite in range(3):
            for auth in (0, 1):
                n = 48 if suite == 1 else 32
                a = [suite, auth, auth]
                near = (n - 1, n + 1) if q else (n - 4, n + 2)
                if not q or auth == suite % 2:
                    w.append(job("%s-%d-%d" % (r, suite, auth), h, a + list(near), 600, HS, cost=900))
                for k in (0, 1, 16) if q else range(0, n - 4):
                    if not q or auth != suite % 2 and suite != 1:
                        w.append(job("%s-short-%d-%d-%d" % (r, suite, auth, k), h, a + [k, k], 300, ["alert sent"]))
                if q and auth != suite % 2:
                    w.append(job("%s-%d-%d" % (r, suite, auth), h, a + [n, n], 300, HS, cost=500))
    return w


@prop("C17", ["net"],
      "a whole connection of the real server: before the ClientHello any one (thorough two) of change_cipher_spec, an alert with a free code, another handshake type, application data, a free unknown record type, an empty record, the end of the stream; in place of the client's Finished any two (thorough three) of those, in the clear or protected, a repeated record number, a free wrong tag; all suites, session ids of 0, 1 and 32 bytes, both random generators; with client authentication the same at each of Certificate, CertificateVerify and Finished, including leaving messages out or sending them early; the server's flight is checked message by message on every run",
      ["longer sequences of deviations; several handshake messages in one record or a message over several records (not supported by the server)", "after failed client authentication the server reads on until Finished before it reports the failure, whatever handshake messages come in between"],
      PEER)
def c17(tier):
    q = tier == "quick"
    all_ = HS + ["alert received", "broken"]
    w = [job("order-%d-%d" % (s, sid), "h_srv_order", [2 if q else 3, 0, s, sid, s % 2], 600, all_, cost=500) for s, sid in ((0, 0), (1, 32), (2, 1))]
    w += [job("first-%d" % s, "h_srv_order", [1, 1, s, 32, 0], 300, all_) for s in range(3)]
    for m in (1, 2, 4):
        w.append(job("auth-%d" % m, "h_srv_auth", [m, 0, 0, m % 3], 600, all_, cost=700))
    if not q:
        w += [job("first-two-%d" % s, "h_srv_order", [3, 2, s, 1, 0], 900, all_, cost=500) for s in range(3)]
        w += [job("auth-%d-%d" % (m, s), "h_srv_auth", [m, 0, 0, s], 900, all_, cost=700) for m in (1, 2, 4, 5, 6) for s in range(3)]
    return w


@prop("C18", ["net"],
      "a whole connection of the real client, with and without a CertificateRequest and a client certificate, all suites: at each of ServerHello, EncryptedExtensions, CertificateRequest, Certificate, CertificateVerify and Finished one (with change_cipher_spec in between: up to three) deviation: plaintext, another type, leaving it out, a free alert, a wrong record number, a free wrong tag, an early end; certificates of another key, none, truncated, with a changed public key; CertificateVerify by another key, for the other role, over another transcript, with any changed bit of scheme or length, truncated, with out-of-range or changed integers; and every grouping of the messages into records; the client's flight is checked message by message",
      ["several deviations at different stages; trust in the server's certificate chain: the client does not validate it against any CA (documented in its source), so no such claim is made", "after a failed server authentication the client reads on until Finished before it reports the failure", "handshake messages after Finished (not supported)"],
      PEER)
def c18(tier):
    q = tier == "quick"
    all_ = HS + ["alert received", "broken"]
    w = [job("stage-%d" % m, "h_cli_order", [m % 3, 1, 1, 1 << m], 600, all_, cost=500) for m in range(6)]
    w += [job("plain-%d" % m, "h_cli_order", [(m + 1) % 3, 0, 0, 1 << m], 600, all_, cost=500) for m in ((4, 5) if q else (0, 1, 3, 4, 5))]
    w += [job("join-%d" % r, "h_cli_join", [r, r], 300, ["connected", "data"], cost=600) for r in ((1,) if q else (0, 1))]
    w += [job("nocert", "h_cli_order", [0, 1, 0, 32], 300, all_), job("request-0", "h_cli_request", [0, 1, 0, 0], 300, HS), job("request-255", "h_cli_request", [0, 1, 1, 255], 300, HS)]
    if not q:
        w += [job("stage-%d-%d" % (m, s), "h_cli_order", [s, 1, 1, m], 900, all_, cost=800) for m in (3, 6, 12, 20, 24, 40, 48) for s in range(3)]
    return w


@prop("C19", ["net"],
      "a server with a client CA, with and without a custom verification function that agrees or denies, all suites: the client's Certificate genuine, empty, of another issuer, the CA's own, with a changed byte in the signature, the serial number or the subject, truncated, before and after its validity, with trailing bytes, under any one-bit changed, empty, shorter or longer request context; CertificateVerify genuine, left out, by another key, for the other role, over another transcript, with any changed bit of scheme or length, truncated, with out-of-range or changed integers; Finished genuine or not. accept succeeds exactly when everything is genuine and approved; thorough: combinations",
      ["certificate chains (only the first certificate of the list is considered)", "other certificates than the fixed set (C24 and C25 decide decoding and issuer check for others)"],
      PEER)
def c19(tier):
    q = tier == "quick"
    cert = ["alert sent", "alert received", "broken"]
    w = [job("certificate", "h_srv_auth", [1, 0, 0, 0], 600, cert + ["connected"], cost=800),
         job("verify", "h_srv_auth", [2, 0, 0, 2], 600, cert + ["connected"], cost=800),
         job("finished", "h_srv_auth", [4, 0, 0, 1], 600, cert + ["connected"]),
         job("approved", "h_srv_auth", [4, 1, 1, 1], 600, cert + ["connected"]),
         job("denied", "h_srv_auth", [4, 1, 0, 1], 600, cert)]
    if not q:
        w += [job("certificate-fn-%d" % a, "h_srv_auth", [1, 1, a, 2], 900, cert) for a in (0, 1)]
        w += [job("verify-fn-%d" % a, "h_srv_auth", [2, 1, a, 1], 900, cert) for a in (0, 1)]
        w += [job("two-%d" % m, "h_srv_auth", [m, 0, 0, 2], 900, cert + ["connected"], cost=1500) for m in (3, 5, 6)]
    else:
        w.append(job("certificate-denied", "h_srv_auth", [1, 1, 0, 0], 600, cert, cost=800))
    return w


@prop("C20", ["net", "alert"],
      "every error value and its code, every one-byte code; alerts of 0..4 free bytes; writing each alert in the clear and under handshake and application keys of each suite in both roles with short writes; in whole connections of server and client, alerts with a free code in the clear and protected at every stage, and the alert (or none) sent after each deviation of C17, C18 and C05",
      ["alerts received after the handshake (reported as an error by the read, see C22)"],
      PEER)
def c20(tier):
    all_ = HS + ["alert received", "broken"]
    w = [job("codes", "h_codes", [], 60, ["codes"]), job("in", "h_alert_in", [], 60), job("write", "h_alert_write", [], 300, ["written"], cost=800),
         job("server", "h_srv_order", [2, 0, 1, 32], 300, all_, cost=500), job("server-first", "h_srv_order", [1, 1, 0, 0], 300, all_),
         job("server-auth", "h_srv_auth", [4, 0, 0, 1], 300, all_, cost=500), job("hello", "h_srv_hello", [0], 300, HS, cost=800)]
    w += [job("client-%d" % m, "h_cli_order", [m % 3, 1, 1, 1 << m], 300, all_, cost=500) for m in ((0, 1, 3, 5) if tier == "quick" else range(6))]
    if tier != "quick":
        w += [job("server-%d" % s, "h_srv_order", [3, 1, s, 32], 900, all_) for s in range(3)]
        w += [job("server-auth-%d" % m, "h_srv_auth", [m, 0, 0, s], 900, all_) for m in (1, 2) for s in range(3)]
    return w


@prop("C21", ["net", "data"],
      "three records with free types, versions and bodies of 0..2 (thorough 0..4) bytes, read through two cuts at any place or a byte at a time; whole connections in which everything the peer sends (the ClientHello; change_cipher_spec, the client's flight and three application data records in one go; the whole server flight with its messages in one or several records and three application data records) is cut at one place (quick: every place for the client's Finished and data, every 60th or so byte otherwise; thorough: every second to fifth byte), at two places, or arrives one byte at a time",
      ["more cuts of a whole connection than two, other than all"],
      PEER)
def c21(tier):
    q = tier == "quick"
    j = ["joined"]
    w = [job("records-two", "h_records", [2 if q else 4, 0], 600, ["records"]), job("records-bytes", "h_records", [6, 1], 300, ["records"]),
         job("server-tail", "h_srv_cuts", [0, 0, 0, 1], 300, j, cost=600), job("server-tail-two", "h_srv_cuts", [2, 0, 17, 1], 300, j, cost=400),
         job("server-tail-bytes", "h_srv_cuts", [1, 1, 1, 1], 300, j), job("server-hello-bytes", "h_srv_cuts", [0, 0, 1, 0], 300, j),
         job("server-hello", "h_srv_cuts", [0, 0, 50, 0], 300, j, cost=500), job("server-auth", "h_srv_cuts", [0, 1, 190, 1], 300, j, cost=500),
         job("client-bytes", "h_cli_cuts", [0, 1, 1, 0], 300, j), job("client-bytes-split", "h_cli_cuts", [1, 1, 1, 31], 300, j),
         job("client", "h_cli_cuts", [2, 1, 330, 0], 300, j, cost=600), job("client-split", "h_cli_cuts", [0, 0, 290, 31], 300, j, cost=600)]
    if not q:
        w += [job("server-%d" % k, "h_srv_cuts", [0, 0, k, 1], 900, j, cost=700) for k in (5, 7)]
        w += [job("server-auth-%d" % k, "h_srv_cuts", [1, 1, k, 1], 900, j, cost=700) for k in (53, 97)]
        w += [job("server-hello-%d" % k, "h_srv_cuts", [0, 0, k, 0], 900, j, cost=700) for k in (13, 17)]
        w += [job("client-%d-%d" % (k, m), "h_cli_cuts", [0, 1, k, m], 900, j, cost=900) for k in (71, 101) for m in (0, 31, 10)]
    return w


@prop("C22", ["net", "data"],
      "writes of 0..4 and 15..17 (thorough 0..64) free bytes and of 16384, 16385 and 40000 fixed ones followed by a second write, with any of two socket write patterns, every suite, both roles, opened by the RFC definition; up to three records of 0..2 (thorough 0..3) free bytes each read with buffers of 1..3 bytes and short socket reads; records of 16384 bytes with three free ones behind, buffers of 1, 5000 and 20000 bytes; buffered handshake writes up to 16385 bytes; write errors, closed connections, no protection; data in both directions after every completed handshake of the other properties",
      ["a write after an error; concurrent use"],
      PEER[1:2])
def c22(tier):
    q = tier == "quick"
    w = [job("write-short-%d" % s, "h_write", [0, 4 if q else 33, s, s % 2, 2], 900, ["written"], cost=500) for s in range(3)]
    w += [job("write-block", "h_write", [15, 17 if q else 40, 2, 1, 1], 900, ["written"], cost=500),
          job("write-16k", "h_write", [16384, 16385, 0, 1, 3], 300, ["written"], cost=400), job("write-40k", "h_write", [40000, 40000, 2, 0, 3], 300, ["written"], cost=400),
          job("fail-0", "h_write_fail", [0, 0, 0], 100, ["reported"]), job("fail-2", "h_write_fail", [0, 0, 2], 100, ["reported"]),
          job("read", "h_read", [2 if q else 3, 3, 2, 1], 900, ["read"], cost=500), job("read-aes", "h_read", [1, 2, 0, 0], 900, ["read"], cost=400),
          job("handshake-short", "h_handshake_write", [0, 33], 100, ["flushed"]), job("handshake-16k", "h_handshake_write", [16384, 16385], 100, ["flushed"])]
    for b in (1, 5000, 20000):
        w.append(job("read-16k-%d" % b, "h_read_long", [16384 if b > 1 else 300, b, 2, b % 2], 300, ["read"]))
    w += [job("server", "h_srv_order", [0, 0, 2, 32], 100, ["data"]), job("client", "h_cli_order", [1, 0, 0, 0], 100, ["data"])]
    if not q:
        w += [job("write-aes-%d" % s, "h_write", [34, 64, s, 0, 1], 900, ["written"]) for s in (0, 1)]
        w += [job("read-%d" % s, "h_read", [2, 3, s, 0], 900, ["read"], cost=900) for s in (0, 1)]
    return w


@prop("C28", ["net"],
      "server and client, all suites, with and without client authentication, logging on and off, in a genuine connection against the RFC peer, which computes all four secrets itself: four lines, each label once with the connection's client random and the right secret in lower-case hex; with logging off no file is created",
      ["other client randoms than one per endpoint (the format is per byte; C26 decides the hex codec for free bytes); failed handshakes; several connections appended to one file"],
      PEER)
def c28(tier):
    w = []
    for s in range(3):
        for a in (0, 1):
            for r in ("srv", "cli"):
                w.append(job("%s-%d-%d" % (r, s, a), "h_%s_keylog" % r, [s, a, 1], 200, ["logged", "connected"]))
    w += [job("%s-off" % r, "h_%s_keylog" % r, [0, 1, 0], 200, ["not logged", "connected"]) for r in ("srv", "cli")]
    return w


SC = dict(args=["--switchconv"])
HOOK = ["the signature functions are replaced through the hooks of /repo (cfg anothertls_verif) by ones that record what they are asked and answer freely: C16 decides the functions themselves"]


@prop("C02", ["cert"],
      "X.509: every input of 0..6 (thorough 0..9) free bytes; a 262-byte certificate of the supported profile with every byte, and (quick: in part) every two neighbouring bytes, thorough three, replaced by free ones (of several length bytes in a window only one at a time), cut off at every place with a free last byte, with the outer length kept or adjusted; every decoded certificate is then used (public key, curve membership, validity, names). Signatures: 0..8 (thorough 0..12) free bytes. DER headers: 0..6 free bytes, four starts. Base64: 0..3 free bytes, and a quadruple with free characters (C26). PEM: files of 0..6 free bytes, and a file with every two (thorough three) neighbouring bytes free ASCII. EC keys: a file cut at every place. UTCTime: C23",
      ["larger changes to a certificate; Base64 and PEM files with more free bytes or free non-ASCII text"],
      ["files and clock are played by the harness"])
def c02(tier):
    q = tier == "quick"
    w = [job("x509-any", "h_x509", [0, 6], 300, ["rejected"]), job("x509-cut", "h_x509_cut", [0], 100, AR), job("x509-cut-adjusted", "h_x509_cut", [1], 100, ["rejected"]),
         job("x509-byte", "h_x509_window", [0, 63, 1, 1], 300, AR), job("x509-byte-2", "h_x509_window", [64, 127, 1, 1], 300, AR), job("x509-byte-3", "h_x509_window", [128, 262, 1, 1], 300, AR)]
    for a, b in ((64, 95), (96, 111), (112, 127), (128, 191), (192, 223), (224, 262)):
        w.append(job("x509-two-%d" % a, "h_x509_window", [a, b, 2, 0], 600, ["accepted"], cost=500))
    w += [job("signature", "h_sig_der", [0, 8], 300, AR), job("der", "h_der", [6], 100, AR), job("base64", "h_base64", [3], 100, AR), job("pem-any", "h_pem_any", [6], 100, ["rejected"]),
          job("pem-title", "h_pem", [0, 16, 2], 300, AR), job("pem-content", "h_pem", [17, 26, 2], 300, AR), job("pem-end", "h_pem", [27, 50, 2], 300, AR),
          job("key", "h_key_pem", [], 100, ["key", "rejected"]), job("time", "h_time_form", [0, 4], 100, AR), job("time-length", "h_time_form", [1, 99], 100, ["rejected"])]
    if not q:
        w += [job("x509-any-%d" % n, "h_x509", [n, n], 900, ["rejected"], cost=600 + n) for n in (7, 8, 9)]
        w += [job("x509-two-%d" % a, "h_x509_window", [a, a + 7, 2, 1], 900, AR, cost=700) for a in range(0, 64, 8)]
        w += [job("x509-three-%d" % a, "h_x509_window", [a, a + 3 if a < 128 else a + 15, 3, 0], 900, ["accepted"], cost=700) for a in list(range(0, 128, 4)) + list(range(128, 244, 16))]
        w += [job("signature-%d" % n, "h_sig_der", [n, n], 900, AR, cost=600) for n in (9, 10, 11, 12)]
        w += [job("pem-three-%d" % a, "h_pem", [a, a + 9, 3], 900, AR, cost=500) for a in (0, 10, 20, 30, 40)]
        w.append(job("base64-5", "h_base64", [5], 900, AR))
    return w


@prop("C23", ["cert"],
      "dates of 1970..2049, as start and as end of the validity: for every month (quick: January to March and December of 20 years around century, leap and range ends) one of day, hour, minute and second is two free digits while the others are at their first and last values, and the clock is free: the certificate counts as valid exactly on the right side of the right second. Every two neighbouring characters of a time free bytes, and every length 0..16 with a free byte at any place: accepted exactly when well formed and in range",
      ["years 1950..1969 of the encoding: mapped to 0; combinations in which several parts are neither first nor last; GeneralizedTime is refused"],
      ["the clock is played by the harness; the conversion is observed through X509 decoding and Validity::is_valid"])
def c23(tier):
    q = tier == "quick"
    w = []
    for e in (0, 1):
        for a in range(12):
            w.append(job("form-%d-%d" % (e, a), "h_time_form", [e, a], 100, AR if a not in (11,) else ["rejected"], **SC))
        w.append(job("length-%d" % e, "h_time_form", [e, 99], 100, ["rejected"], **SC))
        for a, b in ((1970, 1973), (1999, 2002), (2023, 2025), (2047, 2049)) if q else [(y, y + 3) for y in range(1970, 2050, 4)]:
            for m, k in ((2, 3), (12, 12)) if q else ((1, 3), (4, 6), (7, 9), (10, 12)):
                w.append(job("seconds-%d-%d-%d" % (e, a, m), "h_time", [e, a, b, m, k], 600, AR, cost=300, **SC))
    return w


@prop("C24", ["cert"],
      "certificates of the supported profile built by the harness: serial numbers of 1..21 bytes, any one name attribute of 0..6 free ASCII bytes in either string type, free key points, signature integers of 1..33 bytes (quick: s of one byte), version absent or 1..3, with and without extensions, both signature algorithms, subjects of 0..300 more bytes (every length form); all fields compared. Certificate messages of these certificates with request contexts of 0..3 free bytes are encoded as RFC 8446 says and decoded to the same certificate",
      ["other extensions than basic constraints; attributes of other types; several attributes free at once; names longer than that"],
      [])
def c24(tier):
    q = tier == "quick"
    d = ["decoded"]
    w = [job("serial", "h_fields", [0], 100, d), job("names", "h_fields", [1, 6 if q else 16], 300, d), job("key", "h_fields", [2], 100, d),
         job("signature", "h_fields", [3, 1], 100, d), job("layout", "h_fields", [4], 100, d), job("message-layout", "h_cert_body", [4, 0, 0], 100, d),
         job("message-serial", "h_cert_body", [0, 0, 2], 100, d), job("message-key", "h_cert_body", [2, 0, 3], 100, d), job("message-signature", "h_cert_body", [3, 2, 1], 100, d),
         job("message-names", "h_cert_body", [1, 4, 0], 100, d)]
    if not q:
        w += [job("signature-both", "h_fields", [3, 33], 300, d), job("message-signature-both", "h_cert_body", [3, 33, 0], 300, d)]
    return w


@prop("C25", ["cert", "net"],
      "issuer check: certificates as in C24 (free serial, names, key, signature or layout) against a CA certificate with a fixed or free key: exactly one signature check, under the CA's point on P-256, with the certificate's r and s, over the SHA-256 of exactly the signed bytes, and its answer is the result; nothing is signed by a CA with an RSA key, another curve or point form, or without signature. CertificateVerify: both roles, both transcript hashes, transcripts of 0..40 free bytes, free keys and signatures. Whole connections with client authentication (the genuine and the wrong cases of C19) with the real signature functions",
      ["certificates signed with SHA-384 are checked with SHA-256 and so never count as signed"],
      HOOK)
def c25(tier):
    q = tier == "quick"
    s = ["signed", "not signed"]
    w = [job("signed-serial", "h_signed", [0, 0, 0], 300, s), job("signed-names", "h_signed", [1, 1 if q else 4, 0], 300, s), job("signed-key", "h_signed", [2, 0, 2], 300, s),
         job("signed-signature", "h_signed", [3, 1 if q else 33, 2], 300, s), job("signed-layout", "h_signed", [4, 0, 0], 300, s, cost=500)]
    w += [job("other-%d" % k, "h_signed_other", [k], 100, ["not signed"]) for k in range(5)]
    for h in (32, 48):
        for n in (0, 40) if q else (0, 1, 31, 32, 40, 64, 65, 111, 112):
            w.append(job("check-%d-%d" % (h, n), "h_cv_check", [h, n], 300, ["valid", "not valid"]))
        w += [job("make-%d-%d" % (h, k), "h_cv_make", [h, 20, k], 300, ["made"]) for k in (0, 1)]
    w += [job("server", "h_srv_auth", [2, 0, 0, 1 if q else 2], 600, HS, cost=900)]
    return w


@prop("C16", ["ecdsa"],
      "verification, signing, sums and multiples on eight curves of prime order (fields of 5 to 31 elements, orders 7 to 23) with the /repo code unchanged except for the curve's numbers: every key (also the neutral element; for the three largest in quick the first four), every r and s of 0..255, every digest of one byte (two bytes for two curves), every nonce the random source can yield (digests below twice the order, for the smallest curve any byte), every sum of two points, every multiple of a point by a number of one or two (thorough four) bytes, every pair of coordinates 0..255 that is no point. P-256: r, s and coordinates out of range with all 33 bytes free, the rest genuine; keys 1, 2, n-1 and one more with nonces 1, 2, n-1 and one more, digests that make the two halves of the sum equal, opposite or neutral",
      ["P-256 with free values in range (the arithmetic is the same code, decided on the small curves); digests longer than the order are not truncated to its length: with P-256 only SHA-256 is used"],
      ["the random numbers of signing are played by the harness"])
def c16(tier):
    q = tier == "quick"
    w, v = [], ["valid", "not valid"]
    N = [7, 13, 7, 7, 11, 17, 17, 23]
    for k, n in enumerate(N):
        step = 4 if n < 15 else 2
        for a in range(0, n if k < 5 or not q else 4, step):
            w.append(job("verify-%d-%d" % (k, a), "h_ec_verify", [k, a, min(a + step - 1, n - 1), 0], 600, v if a else ["not valid"], cost=n * n * step))
        w.append(job("key-%d" % k, "h_ec_key", [k], 300, ["not valid"]))
        for a in range(1, n if k < 3 or not q else 5, 4):
            w.append(job("sign-%d-%d" % (k, a), "h_ec_sign", [k, a, min(a + 3, n - 1), 1], 600, ["signed"], cost=n * n))
        if k in (0, 2, 3) and (k == 0 or not q):
            w += [job("sign-free-%d-%d" % (k, a), "h_ec_sign", [k, a, a + 2, 0], 600, ["signed"], cost=500) for a in (1, 4)]
        w += [job("add-%d" % k, "h_ec_add", [k], 100, ["sum"]), job("multiple-%d" % k, "h_ec_mul", [k, 0], 100, ["multiple"])]
        if k in (0, 3) or not q:
            w.append(job("multiple-wide-%d" % k, "h_ec_mul", [k, 1 if q else 3], 600, ["multiple"], cost=300))
            for a in (1, 5) if q else range(1, n):
                w.append(job("verify-wide-%d-%d" % (k, a), "h_ec_verify", [k, a, a, 1], 900, v, cost=500))
    w += [job("range-%d" % k, "h_ec_range", [k], 100, ["not valid"]) for k in range(6)]
    for d, k in ((0, 0), (2, 1), (3, 3)) if q else [(d, k) for d in range(4) for k in range(4)]:
        w.append(job("edge-%d-%d" % (d, k), "h_ec_edge", [d, k], 300, v, cost=300))
    return w
