//! Reference definitions, written from the RFCs, used as oracles and to play a genuine peer.
#![allow(dead_code)]
use ibig::IBig;

const K256: [u32; 64] = [
    0x428a2f98, 0x71374491, 0xb5c0fbcf, 0xe9b5dba5, 0x3956c25b, 0x59f111f1, 0x923f82a4, 0xab1c5ed5, 0xd807aa98, 0x12835b01, 0x243185be, 0x550c7dc3, 0x72be5d74,
    0x80deb1fe, 0x9bdc06a7, 0xc19bf174, 0xe49b69c1, 0xefbe4786, 0x0fc19dc6, 0x240ca1cc, 0x2de92c6f, 0x4a7484aa, 0x5cb0a9dc, 0x76f988da, 0x983e5152, 0xa831c66d,
    0xb00327c8, 0xbf597fc7, 0xc6e00bf3, 0xd5a79147, 0x06ca6351, 0x14292967, 0x27b70a85, 0x2e1b2138, 0x4d2c6dfc, 0x53380d13, 0x650a7354, 0x766a0abb, 0x81c2c92e,
    0x92722c85, 0xa2bfe8a1, 0xa81a664b, 0xc24b8b70, 0xc76c51a3, 0xd192e819, 0xd6990624, 0xf40e3585, 0x106aa070, 0x19a4c116, 0x1e376c08, 0x2748774c, 0x34b0bcb5,
    0x391c0cb3, 0x4ed8aa4a, 0x5b9cca4f, 0x682e6ff3, 0x748f82ee, 0x78a5636f, 0x84c87814, 0x8cc70208, 0x90befffa, 0xa4506ceb, 0xbef9a3f7, 0xc67178f2,
];
const K512: [u64; 80] = [
    0x428a2f98d728ae22, 0x7137449123ef65cd, 0xb5c0fbcfec4d3b2f, 0xe9b5dba58189dbbc, 0x3956c25bf348b538, 0x59f111f1b605d019, 0x923f82a4af194f9b, 0xab1c5ed5da6d8118,
    0xd807aa98a3030242, 0x12835b0145706fbe, 0x243185be4ee4b28c, 0x550c7dc3d5ffb4e2, 0x72be5d74f27b896f, 0x80deb1fe3b1696b1, 0x9bdc06a725c71235, 0xc19bf174cf692694,
    0xe49b69c19ef14ad2, 0xefbe4786384f25e3, 0x0fc19dc68b8cd5b5, 0x240ca1cc77ac9c65, 0x2de92c6f592b0275, 0x4a7484aa6ea6e483, 0x5cb0a9dcbd41fbd4, 0x76f988da831153b5,
    0x983e5152ee66dfab, 0xa831c66d2db43210, 0xb00327c898fb213f, 0xbf597fc7beef0ee4, 0xc6e00bf33da88fc2, 0xd5a79147930aa725, 0x06ca6351e003826f, 0x142929670a0e6e70,
    0x27b70a8546d22ffc, 0x2e1b21385c26c926, 0x4d2c6dfc5ac42aed, 0x53380d139d95b3df, 0x650a73548baf63de, 0x766a0abb3c77b2a8, 0x81c2c92e47edaee6, 0x92722c851482353b,
    0xa2bfe8a14cf10364, 0xa81a664bbc423001, 0xc24b8b70d0f89791, 0xc76c51a30654be30, 0xd192e819d6ef5218, 0xd69906245565a910, 0xf40e35855771202a, 0x106aa07032bbd1b8,
    0x19a4c116b8d2d0c8, 0x1e376c085141ab53, 0x2748774cdf8eeb99, 0x34b0bcb5e19b48a8, 0x391c0cb3c5c95a63, 0x4ed8aa4ae3418acb, 0x5b9cca4f7763e373, 0x682e6ff3d6b2b8a3,
    0x748f82ee5defb2fc, 0x78a5636f43172f60, 0x84c87814a1f0ab72, 0x8cc702081a6439ec, 0x90befffa23631e28, 0xa4506cebde82bde9, 0xbef9a3f7b2c67915, 0xc67178f2e372532b,
    0xca273eceea26619c, 0xd186b8c721c0c207, 0xeada7dd6cde0eb1e, 0xf57d4f7fee6ed178, 0x06f067aa72176fba, 0x0a637dc5a2c898a6, 0x113f9804bef90dae, 0x1b710b35131c471b,
    0x28db77f523047d84, 0x32caab7b40c72493, 0x3c9ebe0a15c9bebc, 0x431d67c49c100d4c, 0x4cc5d4becb3e42b6, 0x597f299cfc657e2a, 0x5fcb6fab3ad6faec, 0x6c44198c4a475817,
];

pub fn sha256(m: &[u8]) -> Vec<u8> {
    let mut p = m.to_vec();
    p.push(0x80);
    while p.len() % 64 != 56 {
        p.push(0);
    }
    p.extend_from_slice(&((m.len() as u64) * 8).to_be_bytes());
    let mut h: [u32; 8] = [0x6a09e667, 0xbb67ae85, 0x3c6ef372, 0xa54ff53a, 0x510e527f, 0x9b05688c, 0x1f83d9ab, 0x5be0cd19];
    for blk in p.chunks(64) {
        let mut w = [0u32; 64];
        for i in 0..16 {
            w[i] = u32::from_be_bytes([blk[4 * i], blk[4 * i + 1], blk[4 * i + 2], blk[4 * i + 3]]);
        }
        for i in 16..64 {
            let s0 = w[i - 15].rotate_right(7) ^ w[i - 15].rotate_right(18) ^ (w[i - 15] >> 3);
            let s1 = w[i - 2].rotate_right(17) ^ w[i - 2].rotate_right(19) ^ (w[i - 2] >> 10);
            w[i] = w[i - 16].wrapping_add(s0).wrapping_add(w[i - 7]).wrapping_add(s1);
        }
        let mut v = h;
        for i in 0..64 {
            let s1 = v[4].rotate_right(6) ^ v[4].rotate_right(11) ^ v[4].rotate_right(25);
            let ch = (v[4] & v[5]) ^ (!v[4] & v[6]);
            let t1 = v[7].wrapping_add(s1).wrapping_add(ch).wrapping_add(K256[i]).wrapping_add(w[i]);
            let s0 = v[0].rotate_right(2) ^ v[0].rotate_right(13) ^ v[0].rotate_right(22);
            let maj = (v[0] & v[1]) ^ (v[0] & v[2]) ^ (v[1] & v[2]);
            v = [t1.wrapping_add(s0.wrapping_add(maj)), v[0], v[1], v[2], v[3].wrapping_add(t1), v[4], v[5], v[6]];
        }
        for i in 0..8 {
            h[i] = h[i].wrapping_add(v[i]);
        }
    }
    h.iter().flat_map(|x| x.to_be_bytes()).collect()
}

pub fn sha384(m: &[u8]) -> Vec<u8> {
    let mut p = m.to_vec();
    p.push(0x80);
    while p.len() % 128 != 112 {
        p.push(0);
    }
    p.extend_from_slice(&((m.len() as u128) * 8).to_be_bytes());
    let mut h: [u64; 8] = [
        0xcbbb9d5dc1059ed8, 0x629a292a367cd507, 0x9159015a3070dd17, 0x152fecd8f70e5939, 0x67332667ffc00b31, 0x8eb44a8768581511, 0xdb0c2e0d64f98fa7, 0x47b5481dbefa4fa4,
    ];
    for blk in p.chunks(128) {
        let mut w = [0u64; 80];
        for i in 0..16 {
            let mut x = 0u64;
            for j in 0..8 {
                x = x << 8 | blk[8 * i + j] as u64;
            }
            w[i] = x;
        }
        for i in 16..80 {
            let s0 = w[i - 15].rotate_right(1) ^ w[i - 15].rotate_right(8) ^ (w[i - 15] >> 7);
            let s1 = w[i - 2].rotate_right(19) ^ w[i - 2].rotate_right(61) ^ (w[i - 2] >> 6);
            w[i] = w[i - 16].wrapping_add(s0).wrapping_add(w[i - 7]).wrapping_add(s1);
        }
        let mut v = h;
        for i in 0..80 {
            let s1 = v[4].rotate_right(14) ^ v[4].rotate_right(18) ^ v[4].rotate_right(41);
            let ch = (v[4] & v[5]) ^ (!v[4] & v[6]);
            let t1 = v[7].wrapping_add(s1).wrapping_add(ch).wrapping_add(K512[i]).wrapping_add(w[i]);
            let s0 = v[0].rotate_right(28) ^ v[0].rotate_right(34) ^ v[0].rotate_right(39);
            let maj = (v[0] & v[1]) ^ (v[0] & v[2]) ^ (v[1] & v[2]);
            v = [t1.wrapping_add(s0.wrapping_add(maj)), v[0], v[1], v[2], v[3].wrapping_add(t1), v[4], v[5], v[6]];
        }
        for i in 0..8 {
            h[i] = h[i].wrapping_add(v[i]);
        }
    }
    h[..6].iter().flat_map(|x| x.to_be_bytes()).collect()
}
/// `h` is the digest size: 32 or 48.
pub fn sha(h: usize, m: &[u8]) -> Vec<u8> {
    if h == 32 {
        sha256(m)
    } else {
        sha384(m)
    }
}
pub fn hmac(h: usize, key: &[u8], m: &[u8]) -> Vec<u8> {
    let b = if h == 32 { 64 } else { 128 };
    let mut k = if key.len() > b { sha(h, key) } else { key.to_vec() };
    k.resize(b, 0);
    let mut inner: Vec<u8> = k.iter().map(|x| x ^ 0x36).collect();
    inner.extend_from_slice(m);
    let mut outer: Vec<u8> = k.iter().map(|x| x ^ 0x5c).collect();
    outer.extend(sha(h, &inner));
    sha(h, &outer)
}
pub fn hkdf_expand(h: usize, prk: &[u8], info: &[u8], n: usize) -> Vec<u8> {
    let mut t: Vec<u8> = vec![];
    let mut okm = vec![];
    let mut i = 1u8;
    while okm.len() < n {
        t.extend_from_slice(info);
        t.push(i);
        t = hmac(h, prk, &t);
        okm.extend_from_slice(&t);
        i = i.wrapping_add(1);
    }
    okm.truncate(n);
    okm
}
/// RFC 8446 section 7.1
pub fn expand_label(h: usize, secret: &[u8], label: &str, context: &[u8], n: usize) -> Vec<u8> {
    let mut info = vec![(n >> 8) as u8, n as u8, 6 + label.len() as u8];
    info.extend_from_slice(b"tls13 ");
    info.extend_from_slice(label.as_bytes());
    info.push(context.len() as u8);
    info.extend_from_slice(context);
    hkdf_expand(h, secret, &info, n)
}
#[derive(Clone, Default)]
pub struct Secrets {
    pub handshake: Vec<u8>,
    pub c_hs: Vec<u8>,
    pub s_hs: Vec<u8>,
    pub master: Vec<u8>,
}
/// `th` is the hash of ClientHello..ServerHello.
pub fn handshake_secrets(h: usize, shared: &[u8], th: &[u8]) -> Secrets {
    let z = vec![0u8; h];
    let early = hmac(h, &z, &z);
    let empty = sha(h, b"");
    let d = expand_label(h, &early, "derived", &empty, h);
    let handshake = hmac(h, &d, shared);
    let d2 = expand_label(h, &handshake, "derived", &empty, h);
    Secrets {
        c_hs: expand_label(h, &handshake, "c hs traffic", th, h),
        s_hs: expand_label(h, &handshake, "s hs traffic", th, h),
        master: hmac(h, &d2, &z),
        handshake,
    }
}
/// Client and server application traffic secrets; `th` is the hash of ClientHello..server Finished.
pub fn app_secrets(h: usize, master: &[u8], th: &[u8]) -> (Vec<u8>, Vec<u8>) {
    (expand_label(h, master, "c ap traffic", th, h), expand_label(h, master, "s ap traffic", th, h))
}
pub fn key_iv(h: usize, secret: &[u8], key_len: usize) -> (Vec<u8>, Vec<u8>) {
    (expand_label(h, secret, "key", b"", key_len), expand_label(h, secret, "iv", b"", 12))
}
pub fn finished(h: usize, secret: &[u8], th: &[u8]) -> Vec<u8> {
    hmac(h, &expand_label(h, secret, "finished", b"", h), th)
}

fn le32(b: &[u8]) -> u32 {
    u32::from_le_bytes([b[0], b[1], b[2], b[3]])
}
fn quarter(s: &mut [u32; 16], a: usize, b: usize, c: usize, d: usize) {
    s[a] = s[a].wrapping_add(s[b]);
    s[d] = (s[d] ^ s[a]).rotate_left(16);
    s[c] = s[c].wrapping_add(s[d]);
    s[b] = (s[b] ^ s[c]).rotate_left(12);
    s[a] = s[a].wrapping_add(s[b]);
    s[d] = (s[d] ^ s[a]).rotate_left(8);
    s[c] = s[c].wrapping_add(s[d]);
    s[b] = (s[b] ^ s[c]).rotate_left(7);
}
pub fn chacha_block(key: &[u8], nonce: &[u8], counter: u32) -> [u8; 64] {
    let mut s = [0u32; 16];
    s[0] = 0x61707865;
    s[1] = 0x3320646e;
    s[2] = 0x79622d32;
    s[3] = 0x6b206574;
    for i in 0..8 {
        s[4 + i] = le32(&key[4 * i..]);
    }
    s[12] = counter;
    for i in 0..3 {
        s[13 + i] = le32(&nonce[4 * i..]);
    }
    let init = s;
    for _ in 0..10 {
        quarter(&mut s, 0, 4, 8, 12);
        quarter(&mut s, 1, 5, 9, 13);
        quarter(&mut s, 2, 6, 10, 14);
        quarter(&mut s, 3, 7, 11, 15);
        quarter(&mut s, 0, 5, 10, 15);
        quarter(&mut s, 1, 6, 11, 12);
        quarter(&mut s, 2, 7, 8, 13);
        quarter(&mut s, 3, 4, 9, 14);
    }
    let mut o = [0u8; 64];
    for i in 0..16 {
        o[4 * i..4 * i + 4].copy_from_slice(&s[i].wrapping_add(init[i]).to_le_bytes());
    }
    o
}
pub fn chacha20(key: &[u8], nonce: &[u8], counter: u32, data: &[u8]) -> Vec<u8> {
    let mut out = data.to_vec();
    for (j, c) in out.chunks_mut(64).enumerate() {
        let ks = chacha_block(key, nonce, counter.wrapping_add(j as u32));
        for i in 0..c.len() {
            c[i] ^= ks[i];
        }
    }
    out
}
fn le_int(b: &[u8]) -> IBig {
    let mut a = IBig::from(0u8);
    for (i, x) in b.chunks(8).enumerate() {
        let mut w = [0u8; 8];
        w[..x.len()].copy_from_slice(x);
        a = a + (IBig::from(u64::from_le_bytes(w)) << (64 * i));
    }
    a
}
pub fn poly1305(key: &[u8], msg: &[u8]) -> [u8; 16] {
    let mut rb = [0u8; 16];
    rb.copy_from_slice(&key[..16]);
    for i in [3, 7, 11, 15] {
        rb[i] &= 15;
    }
    for i in [4, 8, 12] {
        rb[i] &= 252;
    }
    let r = le_int(&rb);
    let p = (IBig::from(1u8) << 130) - IBig::from(5u8);
    let mut acc = IBig::from(0u8);
    for c in msg.chunks(16) {
        let mut b = c.to_vec();
        b.push(1);
        acc = ((acc + le_int(&b)) * &r) % &p;
    }
    acc = acc + le_int(&key[16..32]);
    let mut out = [0u8; 16];
    for i in 0..16 {
        out[i] = u64::try_from((&acc >> (8 * i)) & IBig::from(255u8)).unwrap() as u8;
    }
    out
}
pub fn chacha_poly_seal(key: &[u8], nonce: &[u8], aad: &[u8], pt: &[u8]) -> (Vec<u8>, [u8; 16]) {
    let ct = chacha20(key, nonce, 1, pt);
    let t = chacha_poly_tag(key, nonce, aad, &ct);
    (ct, t)
}
pub fn chacha_poly_tag(key: &[u8], nonce: &[u8], aad: &[u8], ct: &[u8]) -> [u8; 16] {
    let otk = chacha_block(key, nonce, 0);
    let mut m = aad.to_vec();
    while m.len() % 16 != 0 {
        m.push(0);
    }
    m.extend_from_slice(ct);
    while m.len() % 16 != 0 {
        m.push(0);
    }
    m.extend_from_slice(&(aad.len() as u64).to_le_bytes());
    m.extend_from_slice(&(ct.len() as u64).to_le_bytes());
    poly1305(&otk[..32], &m)
}

/// Multiplication by x in GF(2^8) of AES.
fn xt(a: u8) -> u8 {
    (a << 1) ^ (if a & 0x80 != 0 { 0x1b } else { 0 })
}
fn gf(mut a: u8, mut b: u8) -> u8 {
    let mut r = 0;
    while b != 0 {
        if b & 1 == 1 {
            r ^= a;
        }
        a = xt(a);
        b >>= 1;
    }
    r
}
/// The AES S-box computed from its definition: inverse in GF(2^8), then the affine map.
pub fn sbox() -> [u8; 256] {
    let mut exp = [0u8; 256];
    let mut log = [0u8; 256];
    let mut g = 1u8;
    for i in 0..255 {
        exp[i] = g;
        log[g as usize] = i as u8;
        g = g ^ xt(g);
    }
    let mut s = [0u8; 256];
    for i in 0..256 {
        let inv = if i == 0 { 0 } else { exp[(255 - log[i] as usize) % 255] };
        s[i] = inv ^ inv.rotate_left(1) ^ inv.rotate_left(2) ^ inv.rotate_left(3) ^ inv.rotate_left(4) ^ 0x63;
    }
    s
}
pub struct Aes {
    rk: Vec<[u8; 4]>,
    nr: usize,
    s: [u8; 256],
}
impl Aes {
    pub fn new(key: &[u8]) -> Aes {
        let s = sbox();
        let nk = key.len() / 4;
        let nr = nk + 6;
        let mut rk: Vec<[u8; 4]> = vec![];
        for i in 0..nk {
            rk.push([key[4 * i], key[4 * i + 1], key[4 * i + 2], key[4 * i + 3]]);
        }
        let mut rcon = 1u8;
        for i in nk..4 * (nr + 1) {
            let mut t = rk[i - 1];
            if i % nk == 0 {
                t = [s[t[1] as usize] ^ rcon, s[t[2] as usize], s[t[3] as usize], s[t[0] as usize]];
                rcon = xt(rcon);
            } else if nk > 6 && i % nk == 4 {
                t = [s[t[0] as usize], s[t[1] as usize], s[t[2] as usize], s[t[3] as usize]];
            }
            let p = rk[i - nk];
            rk.push([p[0] ^ t[0], p[1] ^ t[1], p[2] ^ t[2], p[3] ^ t[3]]);
        }
        Aes { rk, nr, s }
    }
    pub fn block(&self, b: &[u8]) -> [u8; 16] {
        let mut st = [0u8; 16];
        for i in 0..16 {
            st[i] = b[i] ^ self.rk[i / 4][i % 4];
        }
        for r in 1..=self.nr {
            let mut t = [0u8; 16];
            for c in 0..4 {
                for w in 0..4 {
                    t[4 * c + w] = self.s[st[4 * ((c + w) % 4) + w] as usize];
                }
            }
            if r != self.nr {
                for c in 0..4 {
                    let a = [t[4 * c], t[4 * c + 1], t[4 * c + 2], t[4 * c + 3]];
                    for w in 0..4 {
                        t[4 * c + w] = xt(a[w]) ^ (xt(a[(w + 1) % 4]) ^ a[(w + 1) % 4]) ^ a[(w + 2) % 4] ^ a[(w + 3) % 4];
                    }
                }
            }
            for i in 0..16 {
                st[i] = t[i] ^ self.rk[4 * r + i / 4][i % 4];
            }
        }
        st
    }
}
/// Multiplication in GF(2^128) as GCM defines it (bit 0 is the most significant bit).
pub fn gmul(x: u128, y: u128) -> u128 {
    // GF(2^128) modulo z^128 + z^7 + z^2 + z + 1; the first bit of a block is the constant term
    let mut v = x.reverse_bits();
    let y = y.reverse_bits();
    let mut z = 0u128;
    for i in 0..128 {
        if (y >> i) & 1 == 1 {
            z ^= v;
        }
        let carry = v >> 127 == 1;
        v <<= 1;
        if carry {
            v ^= 0x87;
        }
    }
    z.reverse_bits()
}
fn be128(b: &[u8]) -> u128 {
    let mut w = [0u8; 16];
    w[..b.len()].copy_from_slice(b);
    u128::from_be_bytes(w)
}
/// AES-GCM with a 96-bit nonce; `dec` decrypts. Returns the output and the tag over the ciphertext.
pub fn gcm(key: &[u8], nonce: &[u8], aad: &[u8], data: &[u8], dec: bool) -> (Vec<u8>, [u8; 16]) {
    let aes = Aes::new(key);
    let h = be128(&aes.block(&[0; 16]));
    let ctr = |n: u32| {
        let mut b = [0u8; 16];
        b[..12].copy_from_slice(nonce);
        b[12..].copy_from_slice(&n.to_be_bytes());
        aes.block(&b)
    };
    let mut out = data.to_vec();
    for (j, c) in out.chunks_mut(16).enumerate() {
        let ks = ctr(2 + j as u32);
        for i in 0..c.len() {
            c[i] ^= ks[i];
        }
    }
    let ct: &[u8] = if dec { data } else { &out };
    let mut x = 0u128;
    for c in aad.chunks(16).chain(ct.chunks(16)) {
        x = gmul(x ^ be128(c), h);
    }
    x = gmul(x ^ ((aad.len() as u128 * 8) << 64 | ct.len() as u128 * 8), h);
    let t = (x ^ be128(&ctr(1))).to_be_bytes();
    (out, t)
}
/// `suite`: 0x1301, 0x1302 or 0x1303
pub fn seal(suite: u16, key: &[u8], nonce: &[u8], aad: &[u8], pt: &[u8]) -> (Vec<u8>, [u8; 16]) {
    if suite == 0x1303 {
        chacha_poly_seal(key, nonce, aad, pt)
    } else {
        gcm(key, nonce, aad, pt, false)
    }
}
/// Plaintext and the tag that belongs to the ciphertext.
pub fn unseal(suite: u16, key: &[u8], nonce: &[u8], aad: &[u8], ct: &[u8]) -> (Vec<u8>, [u8; 16]) {
    if suite == 0x1303 {
        (chacha20(key, nonce, 1, ct), chacha_poly_tag(key, nonce, aad, ct))
    } else {
        gcm(key, nonce, aad, ct, true)
    }
}
pub fn open(suite: u16, key: &[u8], nonce: &[u8], aad: &[u8], ct: &[u8], tag: &[u8]) -> Option<Vec<u8>> {
    let (pt, t) = unseal(suite, key, nonce, aad, ct);
    if t[..] == *tag {
        Some(pt)
    } else {
        None
    }
}
pub fn hash_len(suite: u16) -> usize {
    if suite == 0x1302 {
        48
    } else {
        32
    }
}
pub fn key_len(suite: u16) -> usize {
    if suite == 0x1301 {
        16
    } else {
        32
    }
}
pub fn nonce(iv: &[u8], seq: u64) -> Vec<u8> {
    let mut n = iv.to_vec();
    for (i, b) in seq.to_be_bytes().iter().enumerate() {
        n[4 + i] ^= b;
    }
    n
}

/// RFC 7748 section 5: X25519 over the integers modulo 2^255 - 19.
#[cfg(any(feature = "ks", feature = "x25519", feature = "net", feature = "hello"))]
pub fn x25519(scalar: &[u8], u: &[u8]) -> Vec<u8> {
    use ibig::IBig;
    let p: IBig = (IBig::from(1) << 255) - IBig::from(19);
    let mut k = scalar.to_vec();
    k[0] &= 248;
    k[31] = (k[31] & 127) | 64;
    let md = |x: IBig| -> IBig {
        let r = x % &p;
        if r < IBig::from(0) { r + &p } else { r }
    };
    let mut x1 = IBig::from(0);
    for i in (0..32).rev() {
        x1 = (x1 << 8) + IBig::from(if i == 31 { u[i] & 127 } else { u[i] });
    }
    let x1 = md(x1);
    let (mut x2, mut z2, mut x3, mut z3) = (IBig::from(1), IBig::from(0), x1.clone(), IBig::from(1));
    for t in (0..255).rev() {
        let bit = (k[t / 8] >> (t % 8)) & 1 == 1;
        if bit {
            std::mem::swap(&mut x2, &mut x3);
            std::mem::swap(&mut z2, &mut z3);
        }
        let a = md(&x2 + &z2);
        let b = md(&x2 - &z2);
        let c = md(&x3 + &z3);
        let d = md(&x3 - &z3);
        let (aa, bb) = (md(&a * &a), md(&b * &b));
        let e = md(&aa - &bb);
        let (da, cb) = (md(&d * &a), md(&c * &b));
        let s = md(&da + &cb);
        x3 = md(&s * &s);
        let s = md(&da - &cb);
        z3 = md(&x1 * md(&s * &s));
        x2 = md(&aa * &bb);
        z2 = md(&e * md(&aa + IBig::from(121665) * &e));
        if bit {
            std::mem::swap(&mut x2, &mut x3);
            std::mem::swap(&mut z2, &mut z3);
        }
    }
    // z2^(p - 2)
    let mut r = IBig::from(1);
    for i in (0..255).rev() {
        r = md(&r * &r);
        if i >= 5 || [0, 1, 3].contains(&i) {
            r = md(&r * &z2);
        }
    }
    let x = md(&x2 * &r);
    (0..32).map(|i| u8::try_from(&((&x >> (8 * i)) & IBig::from(255))).unwrap_or(0)).collect()
}

/// A short Weierstrass curve y^2 = x^3 + a x + b over the integers modulo p, with a generator of prime order n.
#[cfg(any(feature = "net", feature = "ecdsa", feature = "cert"))]
pub mod ec {
    use ibig::IBig;
    pub struct Curve {
        pub p: IBig,
        pub a: IBig,
        pub b: IBig,
        pub gx: IBig,
        pub gy: IBig,
        pub n: IBig,
    }
    pub fn big(b: &[u8]) -> IBig {
        let mut r = IBig::from(0);
        for x in b {
            r = (r << 8) + IBig::from(*x);
        }
        r
    }
    pub fn hex(s: &str) -> Vec<u8> {
        let d = |c: u8| if c < 58 { c - 48 } else { c - 87 };
        s.as_bytes().chunks(2).map(|c| d(c[0]) * 16 + d(c[1])).collect()
    }
    pub fn bytes(x: &IBig, n: usize) -> Vec<u8> {
        (0..n).rev().map(|i| u8::try_from(&((x >> (8 * i)) & IBig::from(255))).unwrap_or(0)).collect()
    }
    pub fn p256() -> Curve {
        Curve {
            p: big(&hex("ffffffff00000001000000000000000000000000ffffffffffffffffffffffff")),
            a: big(&hex("ffffffff00000001000000000000000000000000fffffffffffffffffffffffc")),
            b: big(&hex("5ac635d8aa3a93e7b3ebbd55769886bc651d06b0cc53b0f63bce3c3e27d2604b")),
            gx: big(&hex("6b17d1f2e12c4247f8bce6e563a440f277037d812deb33a0f4a13945d898c296")),
            gy: big(&hex("4fe342e2fe1a7f9b8ee7eb4a7c0f9e162bce33576b315ececbb6406837bf51f5")),
            n: big(&hex("ffffffff00000000ffffffffffffffffbce6faada7179e84f3b9cac2fc632551")),
        }
    }
    pub fn md(x: IBig, m: &IBig) -> IBig {
        let r = x % m;
        if r < IBig::from(0) { r + m } else { r }
    }
    /// x^e mod m
    pub fn pow(x: &IBig, e: &IBig, m: &IBig) -> IBig {
        let mut r = IBig::from(1);
        for b in bytes(e, 32) {
            for i in (0..8).rev() {
                r = md(&r * &r, m);
                if b >> i & 1 == 1 {
                    r = md(&r * x, m);
                }
            }
        }
        r
    }
    /// Jacobian coordinates; z = 0 is the neutral element.
    type J = (IBig, IBig, IBig);
    fn dbl(c: &Curve, q: &J) -> J {
        let zero = IBig::from(0);
        if q.2 == zero || q.1 == zero {
            return (IBig::from(1), IBig::from(1), zero);
        }
        let p = &c.p;
        let yy = md(&q.1 * &q.1, p);
        let s = md(IBig::from(4) * &q.0 * &yy, p);
        let zz = md(&q.2 * &q.2, p);
        let m = md(IBig::from(3) * &q.0 * &q.0 + &c.a * md(&zz * &zz, p), p);
        let x = md(&m * &m - IBig::from(2) * &s, p);
        let y = md(&m * (&s - &x) - IBig::from(8) * &yy * &yy, p);
        let z = md(IBig::from(2) * &q.1 * &q.2, p);
        (x, y, z)
    }
    fn add(c: &Curve, q: &J, r: &J) -> J {
        let zero = IBig::from(0);
        if q.2 == zero {
            return r.clone();
        }
        if r.2 == zero {
            return q.clone();
        }
        let p = &c.p;
        let (z1, z2) = (md(&q.2 * &q.2, p), md(&r.2 * &r.2, p));
        let (u1, u2) = (md(&q.0 * &z2, p), md(&r.0 * &z1, p));
        let (s1, s2) = (md(&q.1 * &z2 * &r.2, p), md(&r.1 * &z1 * &q.2, p));
        let h = md(&u2 - &u1, p);
        let d = md(&s2 - &s1, p);
        if h == zero {
            return if d == zero { dbl(c, q) } else { (IBig::from(1), IBig::from(1), zero) };
        }
        let hh = md(&h * &h, p);
        let hhh = md(&hh * &h, p);
        let v = md(&u1 * &hh, p);
        let x = md(&d * &d - &hhh - IBig::from(2) * &v, p);
        let y = md(&d * (&v - &x) - &s1 * &hhh, p);
        let z = md(&q.2 * &r.2 * &h, p);
        (x, y, z)
    }
    fn mul(c: &Curve, k: &IBig, q: &J) -> J {
        let mut r = (IBig::from(1), IBig::from(1), IBig::from(0));
        for b in bytes(k, 32) {
            for i in (0..8).rev() {
                r = dbl(c, &r);
                if b >> i & 1 == 1 {
                    r = add(c, &r, q);
                }
            }
        }
        r
    }
    fn affine(c: &Curve, q: &J) -> Option<(IBig, IBig)> {
        if q.2 == IBig::from(0) {
            return None;
        }
        let i = pow(&q.2, &(&c.p - IBig::from(2)), &c.p);
        let ii = md(&i * &i, &c.p);
        Some((md(&q.0 * &ii, &c.p), md(&q.1 * &ii * &i, &c.p)))
    }
    pub fn public(c: &Curve, d: &IBig) -> Option<(IBig, IBig)> {
        affine(c, &mul(c, d, &(c.gx.clone(), c.gy.clone(), IBig::from(1))))
    }
    pub fn on_curve(c: &Curve, x: &IBig, y: &IBig) -> bool {
        let z = IBig::from(0);
        *x >= z && *x < c.p && *y >= z && *y < c.p && md(y * y - x * x * x - &c.a * x - &c.b, &c.p) == z
    }
    pub fn sign(c: &Curve, d: &IBig, k: &IBig, z: &IBig) -> (IBig, IBig) {
        let r = md(public(c, k).map(|p| p.0).unwrap_or_default(), &c.n);
        let ki = pow(k, &(&c.n - IBig::from(2)), &c.n);
        let s = md(ki * (z + &r * d), &c.n);
        (r, s)
    }
    pub fn verify(c: &Curve, q: &(IBig, IBig), r: &IBig, s: &IBig, z: &IBig) -> bool {
        let zero = IBig::from(0);
        if !on_curve(c, &q.0, &q.1) || *r <= zero || *r >= c.n || *s <= zero || *s >= c.n {
            return false;
        }
        let w = pow(s, &(&c.n - IBig::from(2)), &c.n);
        let (u, v) = (md(z * &w, &c.n), md(r * &w, &c.n));
        let t = add(c, &mul(c, &u, &(c.gx.clone(), c.gy.clone(), IBig::from(1))), &mul(c, &v, &(q.0.clone(), q.1.clone(), IBig::from(1))));
        match affine(c, &t) {
            None => false,
            Some((x, _)) => md(x, &c.n) == *r,
        }
    }
    /// SEQUENCE { INTEGER r, INTEGER s }
    pub fn der(r: &IBig, s: &IBig) -> Vec<u8> {
        let mut o = vec![];
        for x in [r, s] {
            let b = bytes(x, 33);
            let mut i = 0;
            while i < 32 && b[i] == 0 && b[i + 1] < 128 {
                i += 1;
            }
            o.push(2);
            o.push((33 - i) as u8);
            o.extend_from_slice(&b[i..]);
        }
        let mut d = vec![0x30, o.len() as u8];
        d.extend(o);
        d
    }
    /// The two integers of a DER signature; exactly the minimal encoding.
    pub fn undo(d: &[u8]) -> Option<(IBig, IBig)> {
        if d.len() < 8 {
            return None;
        }
        let n = d[3] as usize;
        if d.len() < 6 + n || d.len() < 6 + n + d[5 + n] as usize {
            return None;
        }
        let (r, s) = (big(&d[4..4 + n]), big(&d[6 + n..6 + n + d[5 + n] as usize]));
        if der(&r, &s)[..] == *d { Some((r, s)) } else { None }
    }
    /// The first block of a PEM text.
    pub fn pem(t: &str) -> Vec<u8> {
        let mut o = vec![];
        let (mut acc, mut n) = (0u32, 0);
        let mut on = false;
        for l in t.lines() {
            if l.starts_with('-') {
                if on {
                    break;
                }
                on = l.contains("CERTIFICATE");
                continue;
            }
            for c in l.bytes() {
                let v = match c {
                    b'A'..=b'Z' => c - b'A',
                    b'a'..=b'z' => c - b'a' + 26,
                    b'0'..=b'9' => c - b'0' + 52,
                    b'+' => 62,
                    b'/' => 63,
                    _ => continue,
                };
                acc = acc << 6 | v as u32;
                n += 6;
                if n >= 8 {
                    n -= 8;
                    o.push((acc >> n) as u8);
                    acc &= (1 << n) - 1;
                }
            }
        }
        o
    }
}
