//! C04: ClientHello decoding of well-formed messages. C05: what the server answers.
use crate::rt::*;
use crate::spec;
use anothertls::crypto::ellipticcurve::{Curve, PrivateKey};
use anothertls::crypto::CipherSuite;
use anothertls::net::alert::TlsError;
use anothertls::net::client::ClientHello;
use anothertls::net::extensions::{ClientExtension, ClientExtensions, KeyShare, KeyShareEntry, NamedGroup, ServerName, SignatureAlgorithms, SignatureScheme, SupportedVersions};
use anothertls::net::handshake::Certificate;
use anothertls::net::server::{ServerConfig, ServerHello};
use anothertls::rand::{RngCore, PRNG};
use ibig::IBig;

crate::harnesses! { h_ch_good, h_ch_bad, h_negotiate }

fn p16(o: &mut Vec<u8>, v: u16) {
    o.extend_from_slice(&[(v >> 8) as u8, v as u8]);
}
/// What a well-formed extension is decoded to.
enum Want {
    Versions(Vec<u16>),
    Shares(Vec<(u16, Vec<u8>)>),
    Name(Vec<u8>),
    Algs(Vec<u16>),
}
const GROUPS: [(u16, NamedGroup); 10] = [
    (0x17, NamedGroup::Secp256r1), (0x18, NamedGroup::Secp384r1), (0x19, NamedGroup::Secp521r1), (0x1d, NamedGroup::X25519), (0x1e, NamedGroup::X448),
    (0x100, NamedGroup::Ffdhe2048), (0x101, NamedGroup::Ffdhe3072), (0x102, NamedGroup::Ffdhe4096), (0x103, NamedGroup::Ffdhe6144), (0x104, NamedGroup::Ffdhe8192),
];
fn known_group(g: u16) -> bool {
    let mut k = false;
    for (v, _) in GROUPS {
        k |= v == g;
    }
    k
}
/// One extension of the given kind; size scales its content.
fn extension(kind: u64, size: u64, name: &str) -> (Vec<u8>, Option<Want>) {
    let mut d = vec![];
    let (typ, want) = match kind {
        0 => {
            let t = sym_u16(name);
            assume((t != 0) & (t != 0x0d) & (t != 0x2b) & (t != 0x33));
            let n = pick("n", 0, 1 + size) as usize;
            d = sym_vec("data", n);
            (t, None)
        }
        1 => {
            let m = pick("m", 0, size);
            let mut l = vec![];
            let mut v = vec![];
            for _ in 0..m {
                let g = sym_u16("group");
                let n = [0usize, 1, 32][pick("n", 0, 2) as usize];
                let data = sym_vec("share", n);
                p16(&mut l, g);
                p16(&mut l, n as u16);
                l.extend_from_slice(&data);
                v.push((g, data));
            }
            p16(&mut d, l.len() as u16);
            d.extend_from_slice(&l);
            (0x33, Some(Want::Shares(v)))
        }
        2 => {
            let n = pick("n", 1, 1 + size) as usize;
            let s = sym_vec("name", n);
            for c in &s {
                assume(*c < 128);
            }
            p16(&mut d, n as u16 + 3);
            d.push(0);
            p16(&mut d, n as u16);
            d.extend_from_slice(&s);
            (0, Some(Want::Name(s)))
        }
        3 | 4 => {
            let m = pick("m", 0, 1 + size);
            let mut v = vec![];
            let mut l = vec![];
            for _ in 0..m {
                let x = sym_u16("value");
                p16(&mut l, x);
                v.push(x);
            }
            if kind == 3 {
                d.push(l.len() as u8);
            } else {
                p16(&mut d, l.len() as u16);
            }
            d.extend_from_slice(&l);
            if kind == 3 { (0x2b, Some(Want::Versions(v))) } else { (0x0d, Some(Want::Algs(v))) }
        }
        _ => {
            d = vec![0, 2];
            d.extend_from_slice(&sym::<2>("groups"));
            (0x0a, None)
        }
    };
    let mut o = vec![];
    p16(&mut o, typ);
    p16(&mut o, d.len() as u16);
    o.extend_from_slice(&d);
    (o, want)
}
fn compare(e: &ClientExtension, w: &Want) -> bool {
    match (e, w) {
        (ClientExtension::SupportedVersion(s), Want::Versions(v)) => {
            let mut has = false;
            for x in v {
                has |= *x == 0x0304;
            }
            s.is_tls13_supported() == has
        }
        (ClientExtension::ServerName(s), Want::Name(n)) => same(s.get().as_bytes(), n),
        (ClientExtension::SignatureAlgorithms(s), Want::Algs(v)) => {
            let v: Vec<u16> = v.iter().copied().filter(|x| (*x == 0x403) | (*x == 0x503) | (*x == 0x603)).collect();
            let mut ok = s.0.len() == v.len();
            for (a, b) in s.0.iter().zip(&v) {
                ok &= *a as u16 == *b;
            }
            ok
        }
        (ClientExtension::KeyShare(k), Want::Shares(v)) => {
            let v: Vec<&(u16, Vec<u8>)> = v.iter().filter(|x| known_group(x.0)).collect();
            let mut ok = k.0.len() == v.len();
            for (a, b) in k.0.iter().zip(&v) {
                ok &= (a.group as u16 == b.0) & same(&a.opaque, &b.1);
            }
            ok
        }
        _ => false,
    }
}
fn hello(sid: &[u8], suites: &[u16], exts: &[u8]) -> (Vec<u8>, [u8; 32]) {
    let random = sym::<32>("random");
    let mut b = vec![3, 3];
    b.extend_from_slice(&random);
    b.push(sid.len() as u8);
    b.extend_from_slice(sid);
    p16(&mut b, suites.len() as u16 * 2);
    for s in suites {
        p16(&mut b, *s);
    }
    b.extend_from_slice(&[1, 0]);
    p16(&mut b, exts.len() as u16);
    b.extend_from_slice(exts);
    (b, random)
}
/// Params: session ids (0: 0, 1, 31, 32 bytes; else that many - 1), suites up to, extensions from, to, size, first kind
/// (6: any).
#[no_mangle]
pub extern "C" fn h_ch_good() {
    let sid_n = if param(0) == 0 { [0, 1, 31, 32][pick("sid_n", 0, 3) as usize] } else { param(0) as usize - 1 };
    let sid = sym_vec("sid", sid_n);
    let n = pick("suites", 0, param(1));
    let suites: Vec<u16> = (0..n).map(|_| sym_u16("suite")).collect();
    let k = pick("exts", param(2), param(3)) as usize;
    let mut exts = vec![];
    let mut want = vec![];
    let mut seen = [false; 6];
    for i in 0..k {
        let kind = if i == 0 && param(5) < 6 { param(5) } else { pick("kind", 0, 5) };
        // no extension occurs twice
        assume(kind == 0 || !seen[kind as usize]);
        seen[kind as usize] = true;
        let (b, w) = extension(kind, param(4), "type");
        exts.extend_from_slice(&b);
        want.extend(w);
    }
    let (b, random) = hello(&sid, &suites, &exts);
    if b.len() < 45 {
        // no real message is that short
        return;
    }
    match ClientHello::from_raw(&b) {
        Err(_) => check(false, "a well-formed ClientHello is accepted"),
        Ok(h) => {
            check(same(h.random, &random), "random");
            match h.legacy_session_id_echo {
                None => check(sid_n == 0, "session id present"),
                Some(s) => check(same(s, &sid), "session id"),
            }
            let known: Vec<u16> = suites.iter().copied().filter(|s| (*s == 0x1301) | (*s == 0x1302) | (*s == 0x1303) | (*s == 0xff)).collect();
            let mut ok = h.cipher_suites.len() == known.len();
            for (a, b) in h.cipher_suites.iter().zip(&known) {
                ok &= *a as u16 == *b;
            }
            check(ok, "cipher suites in order");
            let got = h.extensions.as_vec();
            check(got.len() == want.len(), "number of extensions");
            let mut share = None;
            for (e, w) in got.iter().zip(&want) {
                check(compare(e, w), "extension value");
                if let Want::Shares(v) = w {
                    share = v.iter().find(|x| x.0 == 0x1d);
                }
            }
            match (h.get_public_key_share(), share) {
                (None, None) => {}
                (Some(a), Some(b)) => check(a.group == NamedGroup::X25519 && same(&a.opaque, &b.1), "the X25519 share"),
                _ => check(false, "the X25519 share is found"),
            }
            reach("decoded");
        }
    }
}
/// Malformed variants of a full ClientHello. Param: which (0 version, 1 truncation, 2.. length fields).
#[no_mangle]
pub extern "C" fn h_ch_bad() {
    let sid = sym_vec("sid", 4);
    let ext = [
        0, 0x33, 0, 10, 0, 8, 0, 0x1d, 0, 4, 1, 2, 3, 4, // 0: list length at 4, share length at 8
        0, 0, 0, 7, 0, 5, 0, 0, 2, b'a', b'b', // 14: name list at 18, name at 21
        0, 0x2b, 0, 3, 2, 3, 4, // 25: list at 29
        0, 0x0d, 0, 4, 0, 2, 4, 3, // 32: list at 36
    ];
    let mut exts = ext.to_vec();
    let which = param(0);
    let v = sym_u16("v") as usize;
    let mut put = |e: &mut Vec<u8>, at: usize, over: usize| {
        assume(v > over);
        e[at] = (v >> 8) as u8;
        e[at + 1] = v as u8;
    };
    match which {
        2 => put(&mut exts, 4, 8),
        3 => put(&mut exts, 8, 4),
        4 => put(&mut exts, 18, 5),
        5 => put(&mut exts, 21, 2),
        6 => {
            assume(v > 2 && v < 256);
            exts[29] = v as u8;
        }
        7 => put(&mut exts, 36, 2),
        // the length of the last extension
        8 => put(&mut exts, 34, 4),
        _ => {}
    }
    let (mut b, _) = hello(&sid, &[0x1301, 0x1303], &exts);
    let n = b.len();
    match which {
        0 => {
            sym_into("version", &mut b[..2]);
            assume((b[0] != 3) | (b[1] != 3));
        }
        1 => b.truncate(pick("cut", 0, n as u64 - 1) as usize),
        9 => {
            // session id longer than 32
            assume(v > 32 && v < 256);
            b[34] = v as u8;
        }
        10 => {
            // cipher suites beyond the end, or an odd number of bytes
            let at = 35 + 4;
            assume(v % 2 == 1 || v + at + 2 > n);
            b[at] = (v >> 8) as u8;
            b[at + 1] = v as u8;
        }
        11 => {
            // extensions beyond the end
            let at = n - exts.len() - 2;
            assume(v > exts.len());
            b[at] = (v >> 8) as u8;
            b[at + 1] = v as u8;
        }
        12 => {
            // compression methods other than just null
            let at = n - exts.len() - 4;
            sym_into("compression", &mut b[at..at + 2]);
            assume(b[at] == 1 && b[at + 1] != 0);
        }
        _ => {}
    }
    check(ClientHello::from_raw(&b).is_err(), "a malformed ClientHello is rejected");
    reach("rejected");
}

const SECRET: u64 = 0x1234_5678_9abc_def0;
struct Fake {
    random: Vec<u8>,
}
impl RngCore<IBig> for Fake {
    fn between(&mut self, _a: usize, _b: usize) -> IBig {
        IBig::from(SECRET)
    }
    fn bytes(&mut self, n: usize) -> Vec<u8> {
        let mut v = self.random.clone();
        v.resize(n, 7);
        v
    }
}
pub fn config(name: Option<String>) -> ServerConfig {
    ServerConfig {
        privkey: PrivateKey::new(Curve::secp256r1(), IBig::from(5)),
        cert: Certificate { raw: vec![], x509: None },
        client_cert_ca: None,
        client_cert_custom_verify_fn: None,
        keylog: None,
        server_name: name,
        prng_type: PRNG::URandom,
    }
}
/// A free value of an enum with the given discriminants.
macro_rules! free {
    ($t:ty, $name:expr, $($v:expr),+) => {{
        let v = sym_u16($name);
        assume($( (v == $v as u16) )|+);
        // v is the discriminant of a variant
        unsafe { std::mem::transmute::<u16, $t>(v) }
    }};
}
/// The server's answer. Params: order of the extensions (0..23), entries in the key share, suites, length of the session
/// id, what is left out (0 nothing, 1 supported_versions, 2 key_share, 3 signature_algorithms, 4 server_name, 5 the
/// server's own name), signature algorithms.
#[no_mangle]
pub extern "C" fn h_negotiate() {
    let mut scalar = [0u8; 32];
    scalar[24..].copy_from_slice(&SECRET.to_be_bytes());
    let mut nine = [0u8; 32];
    nine[0] = 9;
    let public = spec::x25519(&scalar, &nine);
    let mut order = vec![0u64, 1, 2, 3];
    let mut o = param(0) as usize;
    let absent = param(4);
    let mut exts = ClientExtensions::new();
    let (mut tls13, mut x25519, mut algs, mut names) = (false, false, true, true);
    let random = sym_vec("random", 32);
    let mut cfg = config(None);
    for left in (1..=4).rev() {
        let kind = order.remove(o % left);
        o /= left;
        if absent == kind + 1 {
            continue;
        }
        match kind {
            0 => {
                tls13 = sym_bool("tls13");
                exts.push(ClientExtension::SupportedVersion(SupportedVersions::new(tls13)));
            }
            1 => {
                let mut v = vec![];
                for _ in 0..param(1) {
                    let g = free!(NamedGroup, "group", NamedGroup::X448, NamedGroup::X25519, NamedGroup::Secp256r1, NamedGroup::Ffdhe2048);
                    x25519 |= g as u16 == 0x1d;
                    v.push(KeyShareEntry::new(g, vec![9; 32]));
                }
                exts.push(ClientExtension::KeyShare(KeyShare(v)));
            }
            2 => {
                let mut v = vec![];
                algs = false;
                for _ in 0..param(5) {
                    let a = free!(SignatureScheme, "alg", SignatureScheme::ecdsa_secp384r1_sha384, SignatureScheme::ecdsa_secp256r1_sha256, SignatureScheme::ecdsa_secp521r1_sha512);
                    algs |= a as u16 == 0x403;
                    v.push(a);
                }
                exts.push(ClientExtension::SignatureAlgorithms(SignatureAlgorithms(v)));
            }
            _ => {
                let c = [b"host"[0], sym_u8("c1"), b's', b't'];
                assume(c[1] < 128);
                if absent != 5 {
                    cfg.server_name = Some("host".to_string());
                    names = c[1] == b'o';
                }
                // c is ASCII
                exts.push(ClientExtension::ServerName(ServerName::new(unsafe { String::from_utf8_unchecked(c.to_vec()) })));
            }
        }
    }
    if absent == 4 {
        cfg.server_name = Some("host".to_string());
    }
    let mut suites = vec![];
    let mut common = false;
    for _ in 0..param(2) {
        let s = free!(CipherSuite, "suite", CipherSuite::TLS_AES_128_GCM_SHA256, CipherSuite::TLS_AES_256_GCM_SHA384, CipherSuite::TLS_CHACHA20_POLY1305_SHA256, CipherSuite::TLS_EMPTY_RENEGOTIATION_INFO_SCSV);
        common |= s as u16 != 0xff;
        suites.push(s);
    }
    let sid_n = param(3) as usize;
    let sid = sym_vec("sid", sid_n);
    let ch = ClientHello {
        random: &random,
        cipher_suites: suites.clone(),
        legacy_session_id_echo: if sid_n == 0 { None } else { Some(&sid) },
        extensions: exts,
    };
    let srandom = sym_vec("srandom", 32);
    let r = ServerHello::from_client_hello(&ch, &mut Fake { random: srandom.clone() }, &cfg);
    match r {
        Err(e) => {
            check(!(tls13 & x25519 & algs & names & common), "an acceptable ClientHello is answered");
            check(e < TlsError::NotOfficial, "refused with an alert");
            reach("refused");
        }
        Ok((sh, key)) => {
            check(tls13, "TLS 1.3 was offered");
            check(x25519, "X25519 was offered");
            check(algs, "the signature algorithm is supported by the client");
            check(names, "the server name matches");
            let cs = sh.cipher_suite as u16;
            let mut offered = false;
            for s in &suites {
                offered |= *s as u16 == cs;
            }
            check(offered & (cs != 0xff), "a cipher suite of the client");
            // the encoding
            let b = sh.as_bytes();
            check(b.len() == 2 + 32 + 1 + sid_n + 3 + 2 + 6 + 40, "length of the ServerHello");
            check(b[0] == 3 && b[1] == 3, "version field");
            check(same(&b[2..34], &srandom), "random");
            check(b[34] as usize == sid_n && same(&b[35..35 + sid_n], &sid), "session id echoed");
            let at = 35 + sid_n;
            check((b[at] == (cs >> 8) as u8) & (b[at + 1] == cs as u8) & (b[at + 2] == 0), "suite and compression");
            check(b[at + 3] == 0 && b[at + 4] == 46, "length of the extensions");
            let (v, k) = if b[at + 6] == 0x2b { (&b[at + 5..at + 11], &b[at + 11..]) } else { (&b[at + 45..], &b[at + 5..at + 45]) };
            check(same(v, &[0, 0x2b, 0, 2, 3, 4]), "supported_versions selects TLS 1.3");
            check(same(&k[..8], &[0, 0x33, 0, 36, 0, 0x1d, 0, 32]), "key_share header");
            check(same(&k[8..], &public), "key share of the private key");
            check(key.secret == IBig::from(SECRET), "private key");
            reach("answered");
        }
    }
}
