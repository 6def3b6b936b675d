//! C02, C23, C24, C25: certificates, signatures, PEM.
use crate::rt::*;
use crate::spec::{self, ec};
use crate::sys::{self, w};
use anothertls::crypto::ellipticcurve::{ecdsa, Curve, PrivateKey, PublicKey, Signature};
use anothertls::hash::{Sha256, Sha384, TranscriptHash};
use anothertls::net::handshake::Certificate;
use anothertls::utils::x509::{Algorithms, Version, X509};
use anothertls::utils::{base64, der, pem};

crate::harnesses! { h_x509, h_x509_window, h_x509_cut, h_sig_der, h_der, h_base64, h_pem, h_pem_any, h_key_pem, h_time, h_time_form, h_fields, h_cert_body, h_signed, h_signed_other, h_cv_check, h_cv_make }

fn tlv(tag: u8, body: &[u8]) -> Vec<u8> {
    let n = body.len();
    let mut o = vec![tag];
    if n < 128 {
        o.push(n as u8);
    } else if n < 256 {
        o.extend_from_slice(&[0x81, n as u8]);
    } else {
        o.extend_from_slice(&[0x82, (n >> 8) as u8, n as u8]);
    }
    o.extend_from_slice(body);
    o
}
const SHA256_ECDSA: [u8; 8] = [0x2a, 0x86, 0x48, 0xce, 0x3d, 4, 3, 2];
const EC_KEY: [u8; 7] = [0x2a, 0x86, 0x48, 0xce, 0x3d, 2, 1];
const P256: [u8; 8] = [0x2a, 0x86, 0x48, 0xce, 0x3d, 3, 1, 7];
const RSA: [u8; 9] = [0x2a, 0x86, 0x48, 0x86, 0xf7, 0x0d, 1, 1, 1];
const ATTRS: [(u8, &str); 6] = [(6, "countryName"), (8, "stateOrProvinceName"), (10, "organizationName"), (3, "commonName"), (7, "localityName"), (11, "organizationalUnitName")];

/// A certificate of the supported profile.
struct Tmpl {
    serial: Vec<u8>,
    version: Option<u8>,
    alg: Vec<u8>,
    issuer: Vec<(u8, u8, Vec<u8>)>,
    before: Vec<u8>,
    after: Vec<u8>,
    subject: Vec<(u8, u8, Vec<u8>)>,
    key_alg: Vec<u8>,
    curve: Vec<u8>,
    key: Vec<u8>,
    extensions: bool,
    r: Vec<u8>,
    s: Vec<u8>,
}
fn tmpl() -> Tmpl {
    let p = ec::p256();
    let mut key = vec![4];
    key.extend(ec::bytes(&p.gx, 32));
    key.extend(ec::bytes(&p.gy, 32));
    Tmpl {
        serial: vec![0x14, 0x61, 0x2f, 0xe4],
        version: Some(2),
        alg: SHA256_ECDSA.to_vec(),
        issuer: vec![(6, 0x13, b"DE".to_vec()), (8, 12, b"Moon".to_vec()), (10, 12, b"Issuer Org".to_vec()), (3, 12, b"A CA".to_vec())],
        before: b"230316180352Z".to_vec(),
        after: b"240315180352Z".to_vec(),
        subject: vec![(6, 0x13, b"FR".to_vec()), (8, 12, b"Sun".to_vec()), (10, 12, b"Subject Org".to_vec()), (3, 12, b"name".to_vec())],
        key_alg: EC_KEY.to_vec(),
        curve: P256.to_vec(),
        key,
        extensions: true,
        r: vec![0x11, 0x36, 0xf0],
        s: vec![0, 0x9a, 0xcd],
    }
}
fn name(v: &[(u8, u8, Vec<u8>)]) -> Vec<u8> {
    let mut o = vec![];
    for (id, tag, val) in v {
        let mut a = tlv(6, &[0x55, 4, *id]);
        a.extend(tlv(*tag, val));
        o.extend(tlv(0x31, &tlv(0x30, &a)));
    }
    tlv(0x30, &o)
}
impl Tmpl {
    fn tbs(&self) -> Vec<u8> {
        let mut o = vec![];
        if let Some(v) = self.version {
            o.extend(tlv(0xa0, &tlv(2, &[v])));
        }
        o.extend(tlv(2, &self.serial));
        o.extend(tlv(0x30, &tlv(6, &self.alg)));
        o.extend(name(&self.issuer));
        let mut t = tlv(0x17, &self.before);
        t.extend(tlv(0x17, &self.after));
        o.extend(tlv(0x30, &t));
        o.extend(name(&self.subject));
        let mut a = tlv(6, &self.key_alg);
        a.extend(tlv(6, &self.curve));
        let mut k = tlv(0x30, &a);
        let mut b = vec![0];
        b.extend_from_slice(&self.key);
        k.extend(tlv(3, &b));
        o.extend(tlv(0x30, &k));
        if self.extensions {
            // basic constraints
            o.extend(tlv(0xa3, &tlv(0x30, &tlv(0x30, &[6, 3, 0x55, 0x1d, 0x13, 1, 1, 0xff, 4, 5, 0x30, 3, 1, 1, 0xff]))));
        }
        tlv(0x30, &o)
    }
    fn der(&self) -> Vec<u8> {
        let mut s = tlv(2, &self.r);
        s.extend(tlv(2, &self.s));
        let mut b = vec![0];
        b.extend(tlv(0x30, &s));
        let mut o = self.tbs();
        o.extend(tlv(0x30, &tlv(6, &self.alg)));
        o.extend(tlv(3, &b));
        tlv(0x30, &o)
    }
}
fn note<T, E>(r: &Result<T, E>) {
    reach(if r.is_ok() { "accepted" } else { "rejected" });
}
/// Everything that is done with a decoded certificate of a peer.
fn use_it(x: &X509) {
    let k = x.get_public_key();
    if let Some(k) = &k {
        reach("key");
        k.curve.contains(&k.point);
    }
    x.tbs_certificate.validity.is_valid();
    if param(3) == 1 {
        let s = format!("{} {}", x.tbs_certificate.issuer, x.tbs_certificate.subject);
        check(!s.is_empty(), "names");
    }
    std::mem::forget(k);
}
/// Arbitrary bytes as a certificate. Params: range of sizes.
#[no_mangle]
pub extern "C" fn h_x509() {
    let n = pick("n", param(0), param(1)) as usize;
    let b = sym_vec("buf", n);
    let r = X509::from_raw(&b);
    if let Ok(x) = &r {
        use_it(x);
    }
    note(&r);
    std::mem::forget(r);
}
fn small() -> Tmpl {
    let mut t = tmpl();
    t.issuer = vec![(6, 0x13, b"DE".to_vec()), (3, 12, b"CA".to_vec())];
    t.subject = vec![(3, 12, b"ab".to_vec())];
    t
}
/// Where the length bytes of the elements of a well-formed encoding are.
fn lengths(d: &[u8], from: usize, to: usize, v: &mut Vec<usize>) {
    let mut i = from;
    while i < to {
        let tag = d[i];
        let (mut n, mut h) = (d[i + 1] as usize, 2);
        v.push(i + 1);
        if n >= 128 {
            h += n - 128;
            n = 0;
            for k in i + 2..i + h {
                n = n << 8 | d[k] as usize;
                v.push(k);
            }
        }
        if tag & 0x20 != 0 {
            lengths(d, i + h, i + h + n, v);
        }
        if tag == 3 && i + h + 1 < to && d[i + h + 1] == 0x30 {
            lengths(d, i + h + 1, i + h + n, v);
        }
        i += h + n;
    }
}
/// A certificate in which a window of bytes is free. Params: first and last place, width, use the names too.
#[no_mangle]
pub extern "C" fn h_x509_window() {
    let mut d = small().der();
    let at = pick("at", param(0), param(1)) as usize;
    let n = param(2) as usize;
    if at + n > d.len() {
        return;
    }
    let mut l = vec![];
    lengths(&d, 0, d.len(), &mut l);
    // one length byte in the window
    if n > 1 && (at..at + n).filter(|i| l.contains(i)).count() > 1 {
        return;
    }
    sym_into("w", &mut d[at..at + n]);
    for i in at..at + n {
        if l.contains(&i) {
            d[i] = conc(d[i] as u64) as u8;
        }
    }
    let r = X509::from_raw(&d);
    if let Ok(x) = &r {
        use_it(x);
    }
    note(&r);
    std::mem::forget(r);
}
/// A certificate cut off anywhere, or cut off with the outer length adjusted; one byte is free.
#[no_mangle]
pub extern "C" fn h_x509_cut() {
    let mut d = small().der();
    let at = pick("at", 0, d.len() as u64) as usize;
    d.truncate(at);
    if param(0) == 1 && at > 4 {
        d[2] = ((at - 4) >> 8) as u8;
        d[3] = (at - 4) as u8;
    }
    if at > 0 {
        sym_into("w", &mut d[at - 1..]);
    }
    let r = X509::from_raw(&d);
    if let Ok(x) = &r {
        use_it(x);
    }
    note(&r);
    std::mem::forget(r);
}
/// Arbitrary bytes as an ECDSA signature: accepted values lie in the input.
#[no_mangle]
pub extern "C" fn h_sig_der() {
    let n = pick("n", param(0), param(1)) as usize;
    let b = sym_vec("buf", n);
    let r = Signature::from_der(&b);
    if let Ok((g, used)) = &r {
        check(*used <= n && *used >= 8, "inside the input");
        check(g.r >= 0.into() && g.s >= 0.into(), "non-negative");
    }
    note(&r);
    std::mem::forget(r);
}
#[no_mangle]
pub extern "C" fn h_der() {
    let n = pick("n", 0, param(0)) as usize;
    let b = sym_vec("buf", n);
    let mut c = pick("start", 0, 3) as usize;
    let r = der::der_parse(&mut c, &b);
    if let Ok((size, _)) = &r {
        check(c + size <= n, "the element lies inside the input");
    }
    note(&r);
}
#[no_mangle]
pub extern "C" fn h_base64() {
    let n = pick("n", 0, param(0)) as usize;
    let b = sym_vec("buf", n);
    if let Ok(t) = std::str::from_utf8(&b) {
        let r = base64::decode(t);
        reach(if r.is_some() { "accepted" } else { "rejected" });
    }
}
const PEM: &str = "-----BEGIN X-----\nMTIz\nNDU2\n-----END X-----\nrest\n";
/// A PEM file with a free window. Params: first and last place, width.
#[no_mangle]
pub extern "C" fn h_pem() {
    let mut d = PEM.as_bytes().to_vec();
    let at = pick("at", param(0), param(1)) as usize;
    let n = param(2) as usize;
    if at + n > d.len() {
        return;
    }
    sym_into("w", &mut d[at..at + n]);
    for b in &d[at..at + n] {
        assume(*b < 128);
    }
    sys::set_file("/vh/pem", &d);
    let r = pem::get_pem_content_from_file("/vh/pem".to_string());
    reach(if r.is_some() { "accepted" } else { "rejected" });
    std::mem::forget(r);
}
/// A short file of free bytes.
#[no_mangle]
pub extern "C" fn h_pem_any() {
    let n = pick("n", 0, param(0)) as usize;
    sys::set_file("/vh/pem", &sym_vec("buf", n));
    let r = pem::get_pem_content_from_file("/vh/pem".to_string());
    check(r.is_none(), "not a PEM file");
    check(pem::get_pem_content_from_file("/vh/none".to_string()).is_none(), "no file");
    reach("rejected");
}
fn armour(title: &str, raw: &[u8]) -> Vec<u8> {
    format!("-----BEGIN {title}-----\n{}\n-----END {title}-----\n", base64::encode(raw)).into_bytes()
}
/// A private key file whose content is cut off anywhere; the key is the 32 bytes of the EC private key structure.
#[no_mangle]
pub extern "C" fn h_key_pem() {
    let key = [0x42u8; 32];
    let mut raw = vec![0x30, 0x77, 2, 1, 1, 4, 32];
    raw.extend_from_slice(&key);
    raw.extend_from_slice(&[0xa0, 10, 6, 8, 0x2a, 0x86, 0x48, 0xce, 0x3d, 3, 1, 7]);
    let n = pick("n", 0, raw.len() as u64) as usize;
    let other = pick("title", 0, 1) == 1;
    sys::set_file("/vh/key", &armour(if other { "CERTIFICATE" } else { "EC PRIVATE KEY" }, &raw[..n]));
    let k = PrivateKey::from_pem("/vh/key".to_string());
    check(k.is_some() == (n >= 39 && !other), "a key");
    if let Some(k) = k {
        check(ec::bytes(&k.secret, 32)[..] == key[..], "the key");
        reach("key");
    }
    check(Certificate::from_pem_x509("/vh/key".to_string()).is_none(), "not a certificate");
    reach("rejected");
}

/// Days since 1970-01-01 in the Gregorian calendar.
fn days(y: i64, m: i64, d: i64) -> i64 {
    let y = if m <= 2 { y - 1 } else { y };
    let e = (m + 9) % 12;
    365 * y + y / 4 - y / 100 + y / 400 + (153 * e + 2) / 5 + d - 1 - 719_468
}
/// C23: does is_valid tell the exact second? Params: 0 start / 1 end; year range; months.
#[no_mangle]
pub extern "C" fn h_time() {
    let f = |n: &str, lo: u64, hi: u64| pick(n, lo, hi);
    let y = f("year", param(1), param(2));
    let m = f("month", param(3), param(4));
    let leap = y % 4 == 0 && (y % 100 != 0 || y % 400 == 0);
    let last = [31, if leap { 29 } else { 28 }, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31][m as usize - 1];
    // one part of the rest is free, the others are at their ends
    let mut t = *b"01000000";
    let k = pick("part", 0, 3) as usize;
    for i in 0..4 {
        if i == k {
            sym_into("t", &mut t[2 * i..2 * i + 2]);
            assume(t[2 * i].is_ascii_digit() & t[2 * i + 1].is_ascii_digit());
        } else if pick("end", 0, 1) == 1 {
            let v = [last as u8, 23, 59, 59][i];
            t[2 * i] = 48 + v / 10;
            t[2 * i + 1] = 48 + v % 10;
        }
    }
    let two = |i: usize| ((t[i] - 48) * 10 + (t[i + 1] - 48)) as i64;
    let (d, hh, mm, ss) = (two(0), two(2), two(4), two(6));
    let fine = d >= 1 && d <= last && hh <= 23 && mm <= 59 && ss <= 59;
    let mut v = vec![];
    for x in [y % 100, m] {
        v.extend_from_slice(&[48 + (x / 10) as u8, 48 + (x % 10) as u8]);
    }
    v.extend_from_slice(&t);
    v.push(b'Z');
    let mut c = small();
    if param(0) == 0 {
        c.before = v;
        c.after = b"491231235959Z".to_vec();
    } else {
        c.before = b"700101000000Z".to_vec();
        c.after = v;
    }
    let r = X509::from_raw(&c.der());
    check(r.is_ok() == fine, "valid times and no others are accepted");
    if let Ok(x) = &r {
        let at = days(y as i64, m as i64, d) * 86400 + hh * 3600 + mm * 60 + ss;
        let now = sym_u64("now");
        assume(now < 2_524_608_000);
        w().now = now as i64;
        let now = now as i64;
        check(x.tbs_certificate.validity.is_valid() == if param(0) == 0 { now >= at } else { now <= at }, "the right second");
        reach("accepted");
    } else {
        reach("rejected");
    }
    std::mem::forget(r);
}
/// C23: free characters at two places, and other lengths. Params: start or end, first place (99: other lengths).
#[no_mangle]
pub extern "C" fn h_time_form() {
    let mut c = small();
    let mut v = b"240229235959Z".to_vec();
    if param(1) == 99 {
        let n = pick("n", 0, 16) as usize;
        if n == 13 {
            return;
        }
        v = (0..n).map(|i| if i + 1 == n { b'Z' } else { v[i % 12] }).collect();
        if n > 0 {
            let k = pick("at", 0, n as u64 - 1) as usize;
            v[k] = sym_u8("c");
        }
    } else {
        let a = param(1) as usize;
        sym_into("c", &mut v[a..a + 2]);
    }
    let w2 = v.clone();
    if param(0) == 0 { c.before = v } else { c.after = v }
    let r = X509::from_raw(&c.der());
    let mut fine = w2.len() == 13;
    if fine {
        fine = w2[12] == b'Z';
        for b in &w2[..12] {
            fine &= b.is_ascii_digit();
        }
        if fine {
            let two = |i: usize| (w2[i] - 48) as u32 * 10 + (w2[i + 1] - 48) as u32;
            let (y, m, d) = (two(0), two(2), two(4));
            let len = if m == 2 { if y % 4 == 0 { 29 } else { 28 } } else if m == 4 || m == 6 || m == 9 || m == 11 { 30 } else { 31 };
            fine = m >= 1 && m <= 12 && d >= 1 && d <= len && two(6) <= 23 && two(8) <= 59 && two(10) <= 59;
        }
    }
    check(r.is_ok() == fine, "valid times and no others are accepted");
    note(&r);
    std::mem::forget(r);
}
/// Frees some fields of the template: 0 serial, 1 names, 2 key, 3 signature, 4 layout.
fn freed(kind: u64) -> Tmpl {
    let mut t = if kind == 1 { tmpl() } else { small() };
    let int = |n: &str, max: u64| -> Vec<u8> {
        let mut v = sym_vec(n, pick(n, 1, max) as usize);
        // minimal and non-negative
        if v.len() > 1 {
            assume(v[0] != 0 || v[1] >= 128);
        }
        assume(v[0] < 128);
        if v.len() == max as usize {
            v[0] = 0;
        }
        v
    };
    match kind {
        0 => t.serial = int("serial", 21),
        1 => {
            let k = pick("which", 0, 7) as usize;
            let n = pick("n", 0, param(1)) as usize;
            let v = sym_vec("v", n);
            for b in &v {
                assume(*b < 128);
            }
            let tag = if sym_bool("printable") { 0x13 } else { 12 };
            let e = if k < 4 { &mut t.issuer[k] } else { &mut t.subject[k - 4] };
            e.2 = v;
            e.1 = conc(tag) as u8;
        }
        2 => sym_into("key", &mut t.key[1..]),
        3 => {
            t.r = int("r", 33);
            t.s = int("s", if param(1) > 0 { param(1) } else { 33 });
        }
        _ => {
            t.version = [None, Some(0), Some(1), Some(2)][pick("version", 0, 3) as usize];
            t.extensions = pick("ext", 0, 1) == 1;
            t.alg[7] = pick("alg", 2, 3) as u8;
            let n = [0usize, 1, 20, 100, 127, 128, 200, 300][pick("len", 0, 7) as usize];
            t.subject.push((11, 12, vec![b'x'; n]));
            sym_into("serial", &mut t.serial[1..]);
        }
    }
    t
}
fn check_fields(x: &X509, t: &Tmpl, raw: &[u8]) {
    let c = &x.tbs_certificate;
    check(c.serial_number == ec::big(&t.serial), "serial number");
    check(match (&c.version, t.version) {
        (None, None) | (Some(Version::V1), Some(0)) | (Some(Version::V2), Some(1)) | (Some(Version::V3), Some(2)) => true,
        _ => false,
    }, "version");
    for (n, v) in [(&c.issuer, &t.issuer), (&c.subject, &t.subject)] {
        for (id, title) in ATTRS {
            match v.iter().find(|a| a.0 == id) {
                Some(a) => check(match n.get(title) {
                    Ok(s) => s.len() == a.2.len() && same(s.as_bytes(), &a.2),
                    Err(_) => false,
                }, "name attribute"),
                None => check(n.get(title).is_err(), "no such attribute"),
            }
        }
    }
    let alg = if t.alg[7] == 2 { Algorithms::EcdsaWithSha256 } else { Algorithms::EcdsaWithSha384 };
    check(x.signature_algorithm == alg && c.signature.algorithm == alg, "signature algorithm");
    check(c.subject_public_key_info.algorithm.algorithm == Algorithms::EcPublicKey, "key algorithm");
    let k = x.get_public_key();
    check(k.is_some(), "public key");
    if let Some(k) = k {
        check(k.point.x == ec::big(&t.key[1..33]) && k.point.y == ec::big(&t.key[33..]), "public key point");
        check(k.curve.p == ec::p256().p && k.curve.n == ec::p256().n, "curve");
    }
    match &x.signature {
        Some(g) => check(g.r == ec::big(&t.r) && g.s == ec::big(&t.s), "signature values"),
        None => check(false, "signature"),
    }
    let tbs = t.tbs();
    let at = x.tbs_certificate_start;
    check(x.tbs_certificate_size == tbs.len() && at + tbs.len() <= raw.len(), "size of the signed part");
    check(same(&raw[at..at + tbs.len()], &tbs), "the signed part");
}
/// C24: every value from its own field. Params: what is free, sizes.
#[no_mangle]
pub extern "C" fn h_fields() {
    let t = freed(param(0));
    let raw = t.der();
    let r = X509::from_raw(&raw);
    check(r.is_ok(), "the certificate is accepted");
    if let Ok(x) = &r {
        check_fields(x, &t, &raw);
        reach("decoded");
    }
    std::mem::forget(r);
}
/// C24: the Certificate message. Params: what is free, sizes, length of the request context.
#[no_mangle]
pub extern "C" fn h_cert_body() {
    let t = freed(param(0));
    let raw = t.der();
    w().now = 1_700_000_000;
    let c = Certificate { raw: raw.clone(), x509: None };
    let n = param(2) as usize;
    let mut pre = vec![n as u8];
    pre.extend(sym_vec("ctx", n));
    let m = c.get_certificate_for_handshake(pre.clone());
    let mut want = pre;
    let l = raw.len();
    want.extend_from_slice(&[((l + 5) >> 16) as u8, ((l + 5) >> 8) as u8, (l + 5) as u8, (l >> 16) as u8, (l >> 8) as u8, l as u8]);
    want.extend_from_slice(&raw);
    want.extend_from_slice(&[0, 0]);
    check(m.len() == want.len() && same(&m, &want), "Certificate message");
    let r = Certificate::from_hello(&m);
    match &r {
        Ok(v) => {
            check(v.len() == 1 && v[0].raw.len() == l && same(&v[0].raw, &raw), "the same certificate");
            check_fields(v[0].x509.as_ref().unwrap(), &t, &raw);
            reach("decoded");
        }
        Err(_) => check(false, "the message is accepted"),
    }
    std::mem::forget((r, c));
}

/// What the replaced signature functions were asked.
struct Asked {
    n: usize,
    x: Vec<u8>,
    y: Vec<u8>,
    p256: bool,
    r: Vec<u8>,
    s: Vec<u8>,
    hash: Vec<u8>,
    answer: bool,
}
static mut ASKED: Asked = Asked { n: 0, x: vec![], y: vec![], p256: false, r: vec![], s: vec![], hash: vec![], answer: false };
#[allow(static_mut_refs)]
fn asked() -> &'static mut Asked {
    unsafe { &mut ASKED }
}
fn on_verify(k: &PublicKey, s: &Signature, hash: &[u8]) -> bool {
    let a = asked();
    a.n += 1;
    a.x = ec::bytes(&k.point.x, 33);
    a.y = ec::bytes(&k.point.y, 33);
    let c = ec::p256();
    a.p256 = k.curve.p == c.p && k.curve.a == c.a && k.curve.b == c.b && k.curve.n == c.n && k.curve.g.x == c.gx && k.curve.g.y == c.gy;
    a.r = ec::bytes(&s.r, 33);
    a.s = ec::bytes(&s.s, 33);
    a.hash = hash.to_vec();
    a.answer = sym_bool("answer");
    a.answer
}
fn on_sign(k: &PrivateKey, hash: &[u8]) -> Signature {
    let a = asked();
    a.n += 1;
    a.x = ec::bytes(&k.secret, 32);
    a.hash = hash.to_vec();
    a.r = sym_vec("r", 32);
    a.s = sym_vec("s", 32);
    // all lengths of one of the two
    assume(if param(2) == 0 { a.r[0] != 0 } else { a.s[0] != 0 });
    Signature::new(ec::big(&a.s), ec::big(&a.r))
}
fn hooks() {
    unsafe {
        ecdsa::hook::VERIFY = Some(on_verify);
        ecdsa::hook::SIGN = Some(on_sign);
    }
}
fn wide(b: &[u8]) -> Vec<u8> {
    let mut v = vec![0; 33 - b.len()];
    v.extend_from_slice(b);
    v
}
fn right_question(key: &[u8], r: &[u8], s: &[u8], content: &[u8]) {
    let a = asked();
    check(a.n == 1, "exactly one signature check");
    check(a.p256 && same(&a.x, &wide(&key[1..33])) && same(&a.y, &wide(&key[33..])), "under the right key");
    check(same(&a.r, &wide(r)) && same(&a.s, &wide(s)), "the right signature");
    check_eq(&a.hash, &spec::sha(32, content), "over the right content");
}
/// C25: the issuer check. Params: what is free in the certificate, sizes, what is free in the CA's certificate.
#[no_mangle]
pub extern "C" fn h_signed() {
    hooks();
    let t = freed(param(0));
    let raw = t.der();
    let mut ca = small();
    ca.issuer[1].2 = b"Root".to_vec();
    ca.r = vec![1, 2, 3];
    if param(2) == 2 {
        sym_into("cakey", &mut ca.key[1..]);
    } else {
        ca.key[64] ^= 1;
    }
    let a = Certificate::from_raw_x509(raw.clone());
    let c = Certificate::from_raw_x509(ca.der());
    if let (Ok(a), Ok(c)) = (&a, &c) {
        let r = c.has_signed(a);
        right_question(&ca.key, &t.r, &t.s, &t.tbs());
        check(r.is_ok() == asked().answer, "the answer of the signature check");
        reach(if r.is_ok() { "signed" } else { "not signed" });
    } else {
        check(false, "the certificates are accepted");
    }
    std::mem::forget((a, c));
}
/// C25: without a usable key or signature nothing counts as signed.
#[no_mangle]
pub extern "C" fn h_signed_other() {
    hooks();
    let mut ca = small();
    let t = small();
    let mut raw = t.der();
    match param(0) {
        0 => {
            ca.key_alg = RSA.to_vec();
            ca.curve = vec![];
        }
        1 => {
            let b = sym_u8("c");
            assume(b != 7);
            ca.curve[7] = b;
        }
        2 => {
            // another form or size of the point
            let n = pick("n", 0, 70) as usize;
            let b = sym_u8("form");
            assume(n != 64 || b != 4);
            ca.key = vec![b];
            ca.key.extend(vec![7; n]);
        }
        _ => {
            // no integers in the signature
            let mut o = t.tbs();
            o.extend(tlv(0x30, &tlv(6, &t.alg)));
            let mut k = vec![0];
            if param(0) == 4 {
                k.extend(tlv(2, &[1, 2]));
            }
            o.extend(tlv(3, &k));
            raw = tlv(0x30, &o);
        }
    }
    let a = Certificate::from_raw_x509(raw);
    let c = Certificate::from_raw_x509(ca.der());
    if let (Ok(a), Ok(c)) = (&a, &c) {
        check(c.has_signed(a).is_err(), "not signed");
        check(asked().n == 0, "nothing to check");
        let bare = Certificate { raw: a.raw.clone(), x509: None };
        check(bare.has_signed(a).is_err() && c.has_signed(&bare).is_err(), "not signed");
        std::mem::forget(bare);
        reach("not signed");
    }
    std::mem::forget((a, c));
}
fn transcript() -> (Box<dyn TranscriptHash>, Vec<u8>) {
    let m = sym_vec("m", param(1) as usize);
    let mut h: Box<dyn TranscriptHash> = if param(0) == 32 { Box::new(Sha256::new()) } else { Box::new(Sha384::new()) };
    h.update(&m);
    (h, spec::sha(param(0) as usize, &m))
}
fn content(role: &str, hash: &[u8]) -> Vec<u8> {
    let mut c = vec![32; 64];
    c.extend_from_slice(b"TLS 1.3, ");
    c.extend_from_slice(role.as_bytes());
    c.extend_from_slice(b" CertificateVerify\0");
    c.extend_from_slice(hash);
    c
}
fn role() -> &'static str {
    if pick("role", 0, 1) == 0 { "client" } else { "server" }
}
/// C25: what a CertificateVerify is checked against. Params: hash size, transcript size.
#[no_mangle]
pub extern "C" fn h_cv_check() {
    hooks();
    let mut t = small();
    sym_into("key", &mut t.key[1..]);
    let (h, th) = transcript();
    let role = role();
    let (r, s) = (sym_vec("r", 32), sym_vec("s", 32));
    let c = Certificate::from_raw_x509(t.der());
    if let Ok(c) = &c {
        let ok = c.is_certificate_valid(Signature::new(ec::big(&s), ec::big(&r)), &*h, role.as_bytes());
        right_question(&t.key, &r, &s, &content(role, &th));
        check(ok == asked().answer, "the answer of the signature check");
        reach(if ok { "valid" } else { "not valid" });
    } else {
        check(false, "the certificate is accepted");
    }
    // an unusable key
    let mut t = small();
    t.key_alg = RSA.to_vec();
    if let Ok(c) = Certificate::from_raw_x509(t.der()) {
        check(!c.is_certificate_valid(Signature::new(ec::big(&s), ec::big(&r)), &*h, role.as_bytes()), "no key, not valid");
        std::mem::forget(c);
    }
    check(asked().n == 1, "no second question");
    std::mem::forget(c);
}
/// C25: the CertificateVerify that is sent. Params: hash size, transcript size.
#[no_mangle]
pub extern "C" fn h_cv_make() {
    hooks();
    let (h, th) = transcript();
    let role = role();
    let d = sym_vec("d", 32);
    let key = PrivateKey::new(Curve::secp256r1(), ec::big(&d));
    let c = Certificate { raw: vec![], x509: None };
    let m = c.get_certificate_verify_for_handshake(&key, &*h, role.as_bytes());
    let a = asked();
    check(a.n == 1, "one signature");
    check(same(&a.x, &d), "with the private key");
    check_eq(&a.hash, &spec::sha(32, &content(role, &th)), "over the right content");
    match m {
        Ok(m) => {
            check(m.len() > 10 && m[0] == 4 && m[1] == 3 && m[2] == 0 && m[3] as usize == m.len() - 4, "algorithm and length");
            let g = Signature::from_der(&m[4..]);
            match g {
                Ok((g, n)) => check(n == m.len() - 4 && g.r == ec::big(&a.r) && g.s == ec::big(&a.s), "the signature"),
                Err(_) => check(false, "a DER signature"),
            }
            reach("made");
        }
        Err(_) => check(false, "a message"),
    }
    std::mem::forget(key);
}
