//! C11, C12: SHA-256, SHA-384, HMAC and HKDF against their definitions.
use crate::rt::*;
use crate::spec;
use anothertls::hash::{sha256, sha384, sha_x, HashType, Hkdf, Hmac, Sha256, Sha384, TranscriptHash};

crate::harnesses! { h_sha, h_sha_split, h_sha_long, h_hmac, h_hkdf_extract, h_hkdf_expand, h_hkdf_max }

fn ty(h: usize) -> HashType {
    if h == 32 {
        HashType::SHA256
    } else {
        HashType::SHA384
    }
}
fn fresh(h: usize) -> Box<dyn TranscriptHash> {
    if h == 32 {
        Box::new(Sha256::new())
    } else {
        Box::new(Sha384::new())
    }
}
/// One-shot digests of messages of lo..=hi free bytes.
#[no_mangle]
pub extern "C" fn h_sha() {
    let h = param(0) as usize;
    let n = pick("n", param(1), param(2)) as usize;
    let m = sym_vec("m", n);
    let want = spec::sha(h, &m);
    let got = if h == 32 { sha256(&m) } else { sha384(&m) };
    check_eq(&got, &want, "digest");
    check_eq(&sha_x(ty(h), &m), &want, "digest through sha_x");
    emit(&got);
    reach("digest");
}
/// Incremental hashing: three updates cut anywhere, with intermediate digests and copies.
#[no_mangle]
pub extern "C" fn h_sha_split() {
    let h = param(0) as usize;
    let n = pick("n", param(1), param(2)) as usize;
    let a = pick("a", 0, n as u64) as usize;
    let step = param(3).max(1);
    let b = pick("b", 0, (n - a) as u64 / step) as usize * step as usize + a;
    let m = sym_vec("m", n);
    let mut t = fresh(h);
    check(t.get_type() == ty(h), "hash type");
    t.update(&m[..a]);
    let d1 = t.finalize();
    let mut copy = TranscriptHash::clone(&*t);
    t.update(&m[a..b]);
    t.update(&m[b..]);
    let d3 = t.finalize();
    check_eq(&d1, &spec::sha(h, &m[..a]), "intermediate digest");
    check_eq(&d3, &spec::sha(h, &m), "final digest after updates");
    check_eq(&t.finalize(), &d3, "finalize does not change the state");
    check_eq(&copy.finalize(), &d1, "a copy is independent of the original");
    copy.update(&m[b..]);
    let mut w = m[..a].to_vec();
    w.extend_from_slice(&m[b..]);
    check_eq(&copy.finalize(), &spec::sha(h, &w), "a copy can be continued");
    check_eq(&t.finalize(), &d3, "the original is independent of its copy");
    check(t.get_type() == ty(h) && copy.get_type() == ty(h), "hash type kept");
    emit(&d3);
    reach("split");
}
/// Long messages: a concrete prefix of param(1) bytes, then free bytes.
#[no_mangle]
pub extern "C" fn h_sha_long() {
    let h = param(0) as usize;
    let pre = param(1) as usize;
    let n = pick("n", 0, param(2)) as usize;
    let mut m = vec![0u8; pre];
    for i in 0..pre {
        m[i] = (i * 7 + (i >> 8)) as u8;
    }
    m.extend(sym_vec("m", n));
    let mut t = fresh(h);
    t.update(&m[..pre / 3]);
    t.update(&m[pre / 3..]);
    let d = t.finalize();
    check_eq(&d, &spec::sha(h, &m), "digest of a long message");
    emit(&d);
    reach("long");
}
#[no_mangle]
pub extern "C" fn h_hmac() {
    let h = param(0) as usize;
    let k = pick("k", param(1), param(2)) as usize;
    let n = pick("n", param(3), param(4)) as usize;
    let key = sym_vec("key", k);
    let m = sym_vec("m", n);
    let cut = n / 2;
    let mut x = Hmac::new(ty(h), &key);
    x.update(&m[..cut]);
    x.update(&m[cut..]);
    let got = x.result();
    check_eq(&got, &spec::hmac(h, &key, &m), "HMAC");
    check_eq(&x.result(), &got, "the result can be read again");
    emit(&got);
    reach("hmac");
}
#[no_mangle]
pub extern "C" fn h_hkdf_extract() {
    let h = param(0) as usize;
    let s = pick("s", param(1), param(2)) as usize;
    let n = pick("n", param(3), param(4)) as usize;
    let salt = sym_vec("salt", s);
    let ikm = sym_vec("ikm", n);
    let x = Hkdf::extract(ty(h), &salt, &ikm);
    check_eq(&x.pseudo_random_key, &spec::hmac(h, &salt, &ikm), "HKDF-Extract");
    emit(&x.pseudo_random_key);
    let y = x.expand(&[1, 2, 3], h).unwrap();
    check_eq(&y, &spec::hkdf_expand(h, &x.pseudo_random_key, &[1, 2, 3], h), "extract then expand");
    reach("extract");
}
#[no_mangle]
pub extern "C" fn h_hkdf_expand() {
    let h = param(0) as usize;
    let n = pick("n", param(1), param(2)) as usize;
    let i = pick("i", 0, param(3)) as usize;
    let prk = sym_vec("prk", h);
    let info = sym_vec("info", i);
    let got = Hkdf::from_prk(ty(h), prk.clone()).expand(&info, n);
    check(got.is_some(), "output up to 255 blocks is produced");
    if let Some(g) = got {
        check_eq(&g, &spec::hkdf_expand(h, &prk, &info, n), "HKDF-Expand");
        emit(&g);
    }
    reach("expand");
}
/// The limit of 255 blocks.
#[no_mangle]
pub extern "C" fn h_hkdf_max() {
    let h = param(0) as usize;
    let d = sym_u16("d") as usize;
    let prk = vec![7u8; h];
    let x = Hkdf::from_prk(ty(h), prk.clone());
    check(x.expand(b"i", 255 * h + 1 + d).is_none(), "more than 255 blocks are refused");
    if param(1) != 0 {
        let g = x.expand(b"i", 255 * h);
        check(g.is_some(), "255 blocks are allowed");
        check_eq(&g.unwrap(), &spec::hkdf_expand(h, &prk, b"i", 255 * h), "255 blocks");
    }
    reach("limit");
}
