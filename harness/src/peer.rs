//! The other end of a connection, written from RFC 8446 over the functions of spec.rs.
#![allow(static_mut_refs, dead_code)]
use crate::rt::*;
use crate::spec::{self, ec};
use crate::sys::w;
use anothertls::crypto::ellipticcurve::PrivateKey;
use anothertls::net::client::{ClientConfig, ClientConfigBuilder};
use anothertls::net::handshake::Certificate;
use anothertls::net::server::ServerConfigBuilder;
use ibig::IBig;

pub const SERVER_CERT: &str = include_str!("../pem/server.cert");
pub const SERVER_KEY: &str = include_str!("../pem/server.key");
pub const CA_CERT: &str = include_str!("../pem/ca.cert");
pub const CLIENT_CERT: &str = include_str!("../pem/client.signed.cert");
pub const CLIENT_KEY: &str = include_str!("../pem/client.key");
pub const SERVER_SECRET: &str = "80677a1fee4eb412764f930d1f6dce3281384612675cf94c0432292217db318c";
pub const CA_SECRET: &str = "979bc35829972d6797ada11c5b1cc06bf7f676f1ec91d6d4820f45630646275f";
pub const CLIENT_SECRET: &str = "c5d8b7cd21c190491a936aaa1a4d6fb96cecd91da3fd63b69a2ba44c8de87cfe";
pub const NONCE: &str = "3b1f0c5e7d9a2468ace013579bdf02468ace13579bdf0246813579bdf0246811";

pub struct Dir {
    pub secret: Vec<u8>,
    pub key: Vec<u8>,
    pub iv: Vec<u8>,
    pub seq: u64,
}
pub fn dir(h: usize, suite: u16, secret: Vec<u8>) -> Dir {
    let (key, iv) = spec::key_iv(h, &secret, spec::key_len(suite));
    Dir { secret, key, iv, seq: 0 }
}
pub struct Net {
    /// is the endpoint under test the client?
    pub client: bool,
    pub suite: u16,
    pub h: usize,
    pub ts: Vec<u8>,
    pub pos: usize,
    pub c: Option<Dir>,
    pub s: Option<Dir>,
    pub master: Vec<u8>,
    /// after the handshake keys: transcript up to the server's Finished
    pub ts_app: Vec<u8>,
    pub stage: u32,
    /// the endpoint must not go on: the alert it has to send (0: any), or 256 + the code it received, or 512: broken pipe
    pub stop: Option<u32>,
    pub done: bool,
    pub context: Vec<u8>,
    pub random: Vec<u8>,
    pub sid: Vec<u8>,
    pub steps: u32,
    pub log: [Vec<u8>; 4],
    pub aux: Vec<u8>,
    /// something is wrong, but the endpoint may report it later
    pub bad: bool,
    pub ccs: u32,
}
static mut N: Option<Net> = None;
pub fn net() -> &'static mut Net {
    unsafe {
        if N.is_none() {
            N = Some(Net {
                client: false,
                suite: 0x1301,
                h: 32,
                ts: vec![],
                pos: 0,
                c: None,
                s: None,
                master: vec![],
                ts_app: vec![],
                stage: 0,
                stop: None,
                done: false,
                context: vec![],
                random: vec![],
                sid: vec![],
                steps: 0,
                log: [vec![], vec![], vec![], vec![]],
                aux: vec![],
                bad: false,
                ccs: 0,
            });
        }
        N.as_mut().unwrap()
    }
}
pub fn p16(o: &mut Vec<u8>, v: usize) {
    o.push((v >> 8) as u8);
    o.push(v as u8);
}
pub fn msg(typ: u8, body: &[u8]) -> Vec<u8> {
    let mut o = vec![typ, (body.len() >> 16) as u8];
    p16(&mut o, body.len());
    o.extend_from_slice(body);
    o
}
pub fn record(typ: u8, body: &[u8]) -> Vec<u8> {
    let mut o = vec![typ, 3, 3];
    p16(&mut o, body.len());
    o.extend_from_slice(body);
    o
}
/// Sends a plaintext record.
pub fn plain(typ: u8, body: &[u8]) {
    let r = record(typ, body);
    w().inp.extend_from_slice(&r);
}
/// Sends a protected record.
pub fn sealed(typ: u8, body: &[u8], pad: usize) {
    let n = net();
    let suite = n.suite;
    let d = if n.client { n.s.as_mut().unwrap() } else { n.c.as_mut().unwrap() };
    let mut inner = body.to_vec();
    inner.push(typ);
    inner.resize(inner.len() + pad, 0);
    let mut head = vec![23, 3, 3];
    p16(&mut head, inner.len() + 16);
    let (ct, tag) = spec::seal(suite, &d.key, &spec::nonce(&d.iv, d.seq), &head, &inner);
    d.seq += 1;
    head.extend_from_slice(&ct);
    head.extend_from_slice(&tag);
    w().inp.extend_from_slice(&head);
}
/// Sends a protected record whose content is free: sealed with the implementation's own AEAD (C07, C09 and C10 decide that
/// one), so that the tag is the very term the receiver computes.
pub fn sealed_free(inner: &[u8]) {
    use anothertls::crypto::CipherSuite;
    let n = net();
    let suite = n.suite;
    let d = if n.client { n.s.as_mut().unwrap() } else { n.c.as_mut().unwrap() };
    let mut head = vec![23, 3, 3];
    p16(&mut head, inner.len() + 16);
    let c = CipherSuite::new(suite).unwrap().get_cipher().unwrap();
    let (ct, tag) = c.encrypt(&d.key, &spec::nonce(&d.iv, d.seq), inner, &head).unwrap();
    d.seq += 1;
    head.extend_from_slice(&ct);
    head.extend_from_slice(&tag);
    w().inp.extend_from_slice(&head);
}
/// Everything the endpoint has written since the last call: type and content of each record.
pub fn take() -> Vec<(u8, Vec<u8>)> {
    let n = net();
    let mut v = vec![];
    let out = &w().out;
    while n.pos < out.len() {
        let b = &out[n.pos..];
        check(b.len() >= 5, "whole records are written");
        let len = (b[3] as usize) << 8 | b[4] as usize;
        check(b[1] == 3 && (b[2] == 3 || b[2] == 1), "record version");
        check(b.len() >= 5 + len, "whole records are written");
        check(len <= 16384 + if b[0] == 23 { 256 } else { 0 }, "record size limit");
        let body = &b[5..5 + len];
        let d = if n.client { n.c.as_mut() } else { n.s.as_mut() };
        match d {
            Some(d) if b[0] != 20 => {
                check(b[0] == 23 && len > 16, "protected once keys exist");
                let k = len - 16;
                let r = spec::open(n.suite, &d.key, &spec::nonce(&d.iv, d.seq), &b[..5], &body[..k], &body[k..]);
                d.seq += 1;
                check(r.is_some(), "the record opens under the current keys");
                let mut r = r.unwrap_or_default();
                while r.len() > 1 && r[r.len() - 1] == 0 {
                    r.pop();
                }
                let t = r.pop().unwrap_or(0);
                check(r.len() <= 16384, "record size limit");
                v.push((t, r));
            }
            _ => v.push((b[0], body.to_vec())),
        }
        n.pos += 5 + len;
    }
    v
}
/// Handshake keys from the transcript so far.
pub fn handshake_keys(shared: &[u8]) {
    let n = net();
    n.h = spec::hash_len(n.suite);
    let s = spec::handshake_secrets(n.h, shared, &spec::sha(n.h, &n.ts));
    n.log[0] = s.c_hs.clone();
    n.log[1] = s.s_hs.clone();
    n.c = Some(dir(n.h, n.suite, s.c_hs));
    n.s = Some(dir(n.h, n.suite, s.s_hs));
    n.master = s.master;
}
pub fn app_keys() {
    let n = net();
    let (c, s) = spec::app_secrets(n.h, &n.master, &spec::sha(n.h, &n.ts_app));
    n.log[2] = c.clone();
    n.log[3] = s.clone();
    n.c = Some(dir(n.h, n.suite, c));
    n.s = Some(dir(n.h, n.suite, s));
}
/// Verify data over the transcript so far.
pub fn verify_data(of_server: bool) -> Vec<u8> {
    let n = net();
    // the handshake traffic secrets
    spec::finished(n.h, &n.log[of_server as usize], &spec::sha(n.h, &n.ts))
}
pub fn cv_hash(server: bool, ts: &[u8]) -> IBig {
    let mut c = vec![0x20; 64];
    c.extend_from_slice(b"TLS 1.3, ");
    c.extend_from_slice(if server { b"server" } else { b"client" });
    c.extend_from_slice(b" CertificateVerify");
    c.push(0);
    c.extend(spec::sha(net().h, ts));
    ec::big(&spec::sha256(&c))
}
/// A CertificateVerify body over the given transcript.
pub fn cert_verify(secret: &str, server: bool, ts: &[u8]) -> Vec<u8> {
    let (r, s) = ec::sign(&ec::p256(), &ec::big(&ec::hex(secret)), &ec::big(&ec::hex(NONCE)), &cv_hash(server, ts));
    let d = ec::der(&r, &s);
    let mut o = vec![4, 3];
    p16(&mut o, d.len());
    o.extend(d);
    o
}
/// Checks a CertificateVerify message of the endpoint over the transcript so far.
pub fn check_cv(m: &[u8], secret: &str, server: bool) {
    check(m.len() > 8 && m[0] == 15 && m[1] == 0, "CertificateVerify");
    check((m[2] as usize) << 8 | m[3] as usize == m.len() - 4, "length of CertificateVerify");
    check(m[4] == 4 && m[5] == 3, "ecdsa_secp256r1_sha256");
    check((m[6] as usize) << 8 | m[7] as usize == m.len() - 8, "length of the signature");
    match ec::undo(&m[8..]) {
        None => check(false, "DER signature"),
        Some((r, s)) => {
            let c = ec::p256();
            let q = ec::public(&c, &ec::big(&ec::hex(secret))).unwrap();
            check(ec::verify(&c, &q, &r, &s, &cv_hash(server, &net().ts)), "signature over role and transcript");
        }
    }
}
pub fn cert_body(context: &[u8], der: &[u8]) -> Vec<u8> {
    let mut o = vec![context.len() as u8];
    o.extend_from_slice(context);
    if der.is_empty() {
        o.extend_from_slice(&[0, 0, 0]);
        return o;
    }
    let n = der.len();
    for x in [n + 5, n] {
        o.push((x >> 16) as u8);
        p16(&mut o, x);
    }
    o.extend_from_slice(der);
    o.extend_from_slice(&[0, 0]);
    o
}
pub fn ext(typ: usize, body: &[u8]) -> Vec<u8> {
    let mut o = vec![];
    p16(&mut o, typ);
    p16(&mut o, body.len());
    o.extend_from_slice(body);
    o
}
pub fn share(group: usize, key: &[u8]) -> Vec<u8> {
    let mut o = vec![];
    p16(&mut o, group);
    p16(&mut o, key.len());
    o.extend_from_slice(key);
    o
}
/// The scalar of the peer.
pub fn scalar() -> Vec<u8> {
    (0..32).map(|i| (i * 37 + 11) as u8).collect()
}
pub fn public() -> Vec<u8> {
    let mut nine = [0u8; 32];
    nine[0] = 9;
    spec::x25519(&scalar(), &nine)
}
pub fn e_versions(l: &[u16]) -> Vec<u8> {
    let mut b = vec![l.len() as u8 * 2];
    for x in l {
        p16(&mut b, *x as usize);
    }
    ext(0x2b, &b)
}
pub fn e_shares(l: &[u8]) -> Vec<u8> {
    let mut b = vec![];
    p16(&mut b, l.len());
    b.extend_from_slice(l);
    ext(0x33, &b)
}
pub fn e_algs(l: &[u16]) -> Vec<u8> {
    let mut b = vec![];
    p16(&mut b, l.len() * 2);
    for x in l {
        p16(&mut b, *x as usize);
    }
    ext(0x0d, &b)
}
pub fn e_name(x: &[u8]) -> Vec<u8> {
    let mut l = vec![];
    p16(&mut l, x.len() + 3);
    l.push(0);
    p16(&mut l, x.len());
    l.extend_from_slice(x);
    ext(0, &l)
}
pub fn hello_with(version: u16, sid: usize, suites: &[u16], e: &[u8]) -> Vec<u8> {
    let n = net();
    n.random = (0..32).map(|i| 0xc0 ^ i as u8).collect();
    n.sid = (0..sid).map(|i| 0x50 + i as u8).collect();
    let mut b = vec![(version >> 8) as u8, version as u8];
    b.extend_from_slice(&n.random);
    b.push(sid as u8);
    b.extend_from_slice(&n.sid);
    p16(&mut b, suites.len() * 2);
    for s in suites {
        p16(&mut b, *s as usize);
    }
    b.extend_from_slice(&[1, 0]);
    p16(&mut b, e.len());
    b.extend_from_slice(e);
    msg(1, &b)
}
/// A ClientHello with the usual extensions.
pub fn client_hello(suites: &[u16], sid: usize, name: Option<&[u8]>) -> Vec<u8> {
    let mut e = e_versions(&[0x0304]);
    e.extend(e_shares(&share(0x1d, &public())));
    e.extend(e_algs(&[0x0503, 0x0403]));
    e.extend(ext(0x0a, &[0, 2, 0, 0x1d]));
    if let Some(x) = name {
        e.extend(e_name(x));
    }
    hello_with(0x0303, sid, suites, &e)
}
pub fn der(t: &str) -> Vec<u8> {
    ec::pem(t)
}
/// Reads the server's first flight, checks every message and the order, and derives the keys. What a genuine client does.
pub fn server_flight(request: bool) {
    let n = net();
    let mut it = vec![];
    // the ServerHello is in the clear, keys follow from it
    let out = &w().out;
    let b = &out[n.pos..];
    check(b.len() > 9 && b[0] == 22, "ServerHello first");
    let len = (b[3] as usize) << 8 | b[4] as usize;
    check(b.len() >= 5 + len && len > 4, "whole records are written");
    let m = b[5..5 + len].to_vec();
    n.pos += 5 + len;
    check(m[0] == 2 && m[1] == 0 && (m[2] as usize) << 8 | m[3] as usize == len - 4, "one ServerHello message");
    let x = &m[4..];
    let sid = n.sid.len();
    check(x.len() == 2 + 32 + 1 + sid + 3 + 2 + 46, "size of the ServerHello");
    check(x[0] == 3 && x[1] == 3, "version of the ServerHello");
    check(x[34] as usize == sid && x[35..35 + sid] == n.sid[..], "session id echoed");
    let x = &x[35 + sid..];
    n.suite = (x[0] as u16) << 8 | x[1] as u16;
    check(x[2] == 0 && x[3] == 0 && x[4] == 46, "compression and extensions");
    let x = &x[5..];
    let (v, k) = if x[1] == 0x2b { (&x[..6], &x[6..]) } else { (&x[40..], &x[..40]) };
    check(*v == [0, 0x2b, 0, 2, 3, 4] && k[..8] == [0, 0x33, 0, 36, 0, 0x1d, 0, 32], "extensions of the ServerHello");
    n.ts.extend_from_slice(&m);
    handshake_keys(&spec::x25519(&scalar(), &k[8..]));
    it.extend(take());
    let mut i = 0;
    if sid > 0 {
        check(!it.is_empty() && it[0].0 == 20 && it[0].1[..] == [1], "change_cipher_spec");
        i = 1;
    }
    check(it.len() == i + 4 + request as usize, "the flight of the server");
    let n = net();
    for (t, _) in &it[i..] {
        check(*t == 22, "handshake messages");
    }
    check(it[i].1[..] == [8, 0, 0, 2, 0, 0], "EncryptedExtensions");
    n.ts.extend_from_slice(&it[i].1);
    i += 1;
    if request {
        let m = &it[i].1;
        check(m.len() > 8 && m[0] == 13 && m[1] == 0, "CertificateRequest");
        check((m[2] as usize) << 8 | m[3] as usize == m.len() - 4, "length of CertificateRequest");
        let k = m[4] as usize;
        check(k == 32 && m.len() == 5 + k + 2 + 8, "context of CertificateRequest");
        n.context = m[5..5 + k].to_vec();
        check(m[5 + k..] == [0, 8, 0, 0x0d, 0, 4, 0, 2, 4, 3], "signature_algorithms of CertificateRequest");
        n.ts.extend_from_slice(m);
        i += 1;
    }
    let c = msg(11, &cert_body(&[], &der(SERVER_CERT)));
    check(same(&it[i].1, &c), "the server's Certificate");
    n.ts.extend_from_slice(&c);
    check_cv(&it[i + 1].1, SERVER_SECRET, true);
    n.ts.extend_from_slice(&it[i + 1].1);
    let f = msg(20, &verify_data(true));
    check(same(&it[i + 2].1, &f), "the server's Finished");
    n.ts.extend_from_slice(&f);
    n.ts_app = n.ts.clone();
}
pub fn files() {
    use crate::sys::set_file;
    set_file("/vh/server.cert", SERVER_CERT.as_bytes());
    set_file("/vh/server.key", SERVER_KEY.as_bytes());
    set_file("/vh/ca.cert", CA_CERT.as_bytes());
    set_file("/vh/client.cert", CLIENT_CERT.as_bytes());
    set_file("/vh/client.key", CLIENT_KEY.as_bytes());
}
pub fn server_config() -> ServerConfigBuilder {
    ServerConfigBuilder::new().add_cert_pem("/vh/server.cert".to_string()).add_privkey_pem("/vh/server.key".to_string())
}
pub fn client_config(cert: bool) -> ClientConfigBuilder {
    let mut b = ClientConfigBuilder::new();
    if cert {
        b = b.add_client_cert_pem("/vh/client.cert".to_string()).add_client_key_pem("/vh/client.key".to_string());
    }
    b
}
/// The endpoint may already write under its application keys: takes those if the next record only opens under them.
pub fn either_keys() {
    let n = net();
    let b = &w().out[n.pos..];
    let d = if n.client { n.c.as_ref() } else { n.s.as_ref() };
    if let Some(d) = d {
        if b.len() > 21 && !n.ts_app.is_empty() {
            let k = b.len() - 16;
            if spec::open(n.suite, &d.key, &spec::nonce(&d.iv, d.seq), &b[..5], &b[5..k], &b[k..]).is_none() {
                app_keys();
            }
        }
    }
}
/// Checks that exactly one alert with this code was written (code None: any code of RFC 8446).
pub fn one_alert(code: Option<u8>) {
    let v = take();
    check(v.len() == 1, "exactly one alert is sent");
    if v.len() == 1 {
        let (t, b) = &v[0];
        check(*t == 21 && b.len() == 2, "an alert record");
        if *t == 21 && b.len() == 2 {
            check(b[0] == if b[1] == 0 { 1 } else { 2 }, "alert level");
            let mut known = false;
            for c in [0u8, 10, 20, 40, 42, 43, 44, 45, 46, 47, 48, 49, 50, 51, 70, 71, 80, 109, 112, 116] {
                known |= b[1] == c;
            }
            check(known, "an alert of RFC 8446");
            if let Some(c) = code {
                check(b[1] == c, "the alert is the reported error");
            }
        }
    }
}
