//! C09, C10: the AEADs against RFC 8439 and SP 800-38D, through the interface the record layer uses.
use crate::rt::*;
use crate::spec;
use anothertls::crypto::aes::{Blocksize, AES};
use anothertls::crypto::chacha20::{ChaCha20, Poly1305};
use anothertls::crypto::{Cipher, CipherSuite};
use anothertls::net::alert::TlsError;
use std::sync::Arc;

crate::harnesses! { h_seal, h_open, h_stream, h_poly, h_aes, h_suite, h_seal_long }

fn cipher(suite: u16) -> Arc<dyn Cipher + Send + Sync> {
    CipherSuite::new(suite).unwrap().get_cipher().unwrap()
}
/// mode 0: free bytes; otherwise a fixed pattern chosen by mode
fn bytes(name: &str, n: usize, mode: u64) -> Vec<u8> {
    if mode == 0 {
        return sym_vec(name, n);
    }
    (0..n).map(|i| (i as u8).wrapping_mul(37 + 2 * mode as u8).wrapping_add(mode as u8 * 11)).collect()
}
/// Sealing: params suite, plaintext lo hi, aad lo hi, key mode, what to compare (1 ciphertext, 2 tag, 3 both).
#[no_mangle]
pub extern "C" fn h_seal() {
    let suite = param(0) as u16;
    let n = pick("n", param(1), param(2)) as usize;
    let m = pick("m", param(3), param(4)) as usize;
    let key = bytes("key", spec::key_len(suite), param(5));
    let iv = sym_vec("iv", 12);
    let pt = sym_vec("pt", n);
    let aad = sym_vec("aad", m);
    let (ct, tag) = spec::seal(suite, &key, &iv, &aad, &pt);
    let r = cipher(suite).encrypt(&key, &iv, &pt, &aad);
    check(r.is_ok(), "encryption succeeds");
    let (c, t) = r.unwrap_or_default();
    if param(6) & 1 != 0 {
        check_eq(&c, &ct, "ciphertext");
        emit(&c);
    }
    if param(6) & 2 != 0 {
        check_eq(&t, &tag, "tag");
        emit(&t);
    }
    reach("sealed");
}
/// Opening: the ciphertext and its tag xor a free difference. It opens, to the plaintext, exactly when the
/// difference is zero. Params as for h_seal.
#[no_mangle]
pub extern "C" fn h_open() {
    let suite = param(0) as u16;
    let n = pick("n", param(1), param(2)) as usize;
    let m = pick("m", param(3), param(4)) as usize;
    let key = bytes("key", spec::key_len(suite), param(5));
    let iv = sym_vec("iv", 12);
    let ct = sym_vec("ct", n);
    let aad = sym_vec("aad", m);
    let (pt, tag) = spec::unseal(suite, &key, &iv, &aad, &ct);
    let d = sym::<16>("d");
    let mut t = tag;
    for i in 0..16 {
        t[i] ^= d[i];
    }
    match cipher(suite).decrypt(&key, &iv, &ct, &aad, &t) {
        Ok(p) => {
            check_eq(&p, &pt, "plaintext");
            check_eq(&d, &[0; 16], "opened with the right tag only");
            emit(&p);
            reach("opened");
        }
        Err(e) => {
            check(!same(&d, &[0; 16]), "the right tag opens");
            check(e == TlsError::BadRecordMac, "refused as BadRecordMac");
            reach("refused");
        }
    }
    // tags of another length never open
    for l in [0usize, 15, 17] {
        let mut s = t.to_vec();
        s.resize(l, 0);
        check(cipher(suite).decrypt(&key, &iv, &ct, &aad, &s).is_err(), "a tag of another length");
    }
}
/// The ChaCha20 stream from any block counter.
#[no_mangle]
pub extern "C" fn h_stream() {
    let n = pick("n", param(0), param(1)) as usize;
    let key = sym_vec("key", 32);
    let iv = sym_vec("iv", 12);
    let data = sym_vec("data", n);
    let ctr = sym_u32("ctr");
    assume(ctr < u32::MAX - 8);
    let e = ChaCha20::encrypt(&data, &key, &iv, ctr as usize);
    check(e.is_some(), "encrypts");
    let want = spec::chacha20(&key, &iv, ctr, &data);
    check_eq(&e.unwrap(), &want, "ChaCha20 keystream");
    check_eq(&ChaCha20::decrypt(&want, &key, &iv, ctr as usize).unwrap(), &data, "decryption inverts encryption");
    let kl = pick("kl", 0, 40) as usize;
    let il = pick("il", 11, 13) as usize;
    if kl != 32 || il != 12 {
        if n > 0 {
            check(ChaCha20::encrypt(&data, &key.repeat(2)[..kl], &[&iv[..], &[0]].concat()[..il], 0).is_none(), "wrong sizes are refused");
        }
    }
    reach("stream");
}
/// The Poly1305 authenticator with a free key.
#[no_mangle]
pub extern "C" fn h_poly() {
    let n = pick("n", param(0), param(1)) as usize;
    let key = bytes("key", 32, param(2));
    let msg = sym_vec("msg", n);
    let t = Poly1305::mac(&key, &msg);
    check_eq(&t, &spec::poly1305(&key, &msg), "Poly1305");
    emit(&t);
    reach("mac");
}
/// The AES block cipher: params key bytes, key mode, block mode, decrypt.
#[no_mangle]
pub extern "C" fn h_aes() {
    let kl = param(0) as usize;
    let key = bytes("key", kl, param(1));
    let b = bytes("block", 16, param(2));
    let mut blk = [0u8; 16];
    blk.copy_from_slice(&b);
    let mut aes = AES::init(&key, Blocksize::new(kl * 8).unwrap());
    let got = aes.encrypt(blk);
    check_eq(&got, &spec::Aes::new(&key).block(&blk), "AES block");
    emit(&got);
    if param(3) != 0 {
        check_eq(&aes.decrypt(got), &blk, "decryption inverts encryption");
    }
    reach("block");
}
/// Suites: numbers, key sizes, hashes and ciphers.
#[no_mangle]
pub extern "C" fn h_suite() {
    let x = sym_u16("suite");
    match CipherSuite::new(x) {
        Ok(s) => {
            check(x == 0x1301 || x == 0x1302 || x == 0x1303 || x == 0xff, "known suites only");
            check(s.as_u16() == x, "number");
            if x != 0xff {
                check(s.get_key_and_iv_len() == (if x == 0x1301 { 16 } else { 32 }, 12), "key and nonce sizes");
                let h = s.get_tshash();
                check(h.is_ok(), "hash");
                let d = h.map(|t| t.finalize().len()).unwrap_or(0);
                check(d == if x == 0x1302 { 48 } else { 32 }, "hash of the suite");
                let c = s.get_cipher();
                check(c.is_ok(), "cipher");
                check(c.map(|c| c.get_cipher_suite().as_u16()).ok() == Some(x), "the cipher knows its suite");
                reach("suite");
            } else {
                check(s.get_cipher().is_err() && s.get_tshash().is_err(), "the SCSV is not a suite");
                reach("scsv");
            }
        }
        Err(_) => {
            check(x != 0x1301 && x != 0x1302 && x != 0x1303, "suites of RFC 8446 are known");
            reach("unknown");
        }
    }
}
/// Long plaintexts and associated data: a fixed pattern with a free tail. Params suite, plaintext, aad, free bytes of each.
#[no_mangle]
pub extern "C" fn h_seal_long() {
    let suite = param(0) as u16;
    let (n, m, k) = (param(1) as usize, param(2) as usize, param(3) as usize);
    let key = bytes("key", spec::key_len(suite), 3);
    let iv = bytes("iv", 12, 5);
    let mut pt = bytes("pt", n, 1);
    let mut aad = bytes("aad", m, 2);
    sym_into("tail", &mut pt[n - k.min(n)..]);
    sym_into("aadtail", &mut aad[m - (param(4) as usize).min(m)..]);
    let (ct, tag) = spec::seal(suite, &key, &iv, &aad, &pt);
    let (c, t) = cipher(suite).encrypt(&key, &iv, &pt, &aad).unwrap_or_default();
    check_eq(&c, &ct, "long ciphertext");
    check_eq(&t, &tag, "long tag");
    let p = cipher(suite).decrypt(&key, &iv, &c, &aad, &tag);
    check(p.is_ok(), "a long ciphertext opens");
    check_eq(&p.unwrap_or_default(), &pt, "long plaintext");
    reach("long");
}
