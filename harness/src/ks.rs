//! C13: the key schedule against RFC 8446 section 7.
use crate::rt::*;
use crate::spec;
use anothertls::crypto::CipherSuite;
use anothertls::hash::{HashType, Hkdf, TranscriptHash};
use anothertls::net::key_schedule::{get_hkdf_expand_label, Key, KeySchedule, WriteKeys};

crate::harnesses! { h_ks_handshake, h_ks_keys, h_ks_app, h_ks_label, h_ks_from }

fn typ(h: usize) -> HashType {
    if h == 32 { HashType::SHA256 } else { HashType::SHA384 }
}
/// Handshake and master secrets; params: hash length, which (0 all).
#[no_mangle]
pub extern "C" fn h_ks_handshake() {
    let h = param(0) as usize;
    let th = sym_vec("th", h);
    let shared = sym_vec("shared", 32);
    let k = KeySchedule::do_key_schedule(typ(h), &th, &shared);
    check(k.is_some(), "a key schedule");
    let k = k.unwrap();
    let s = spec::handshake_secrets(h, &shared, &th);
    check_eq(&k.client_handshake_traffic_secret.pseudo_random_key, &s.c_hs, "client handshake traffic secret");
    check_eq(&k.server_handshake_traffic_secret.pseudo_random_key, &s.s_hs, "server handshake traffic secret");
    check_eq(&k.hkdf_master_secret.pseudo_random_key, &s.master, "master secret");
    check(k.hkdf_master_secret.hash as usize == h && k.client_handshake_traffic_secret.hash as usize == h && k.server_handshake_traffic_secret.hash as usize == h, "hash of the suite");
    emit(&s.c_hs);
    reach("secrets");
}
fn check_key(k: &Key, h: usize, secret: &[u8], kl: usize) {
    let (key, iv) = spec::key_iv(h, secret, kl);
    check_eq(&k.traffic_secret, secret, "traffic secret");
    check(k.key.len() == kl, "key size of the suite");
    check_eq(&k.key, &key, "key");
    check_eq(&k.iv, &iv, "iv");
}
/// Handshake keys and IVs of a suite from free traffic secrets.
#[no_mangle]
pub extern "C" fn h_ks_keys() {
    let suite = param(0) as u16;
    let h = spec::hash_len(suite);
    let (c, s) = (sym_vec("c", h), sym_vec("s", h));
    let ks = KeySchedule {
        client_handshake_traffic_secret: Hkdf::from_prk(typ(h), c.clone()),
        server_handshake_traffic_secret: Hkdf::from_prk(typ(h), s.clone()),
        hkdf_master_secret: Hkdf::from_prk(typ(h), vec![0; h]),
    };
    let w = WriteKeys::handshake_keys(&ks, CipherSuite::new(suite).unwrap());
    check(w.is_some(), "keys");
    let w = w.unwrap();
    check_key(&w.client, h, &c, spec::key_len(suite));
    check_key(&w.server, h, &s, spec::key_len(suite));
    reach("keys");
}
/// Application secrets, keys and IVs of a suite from a free master secret and transcript hash.
#[no_mangle]
pub extern "C" fn h_ks_app() {
    let suite = param(0) as u16;
    let h = spec::hash_len(suite);
    let (m, th) = (sym_vec("master", h), sym_vec("th", h));
    let w = WriteKeys::application_keys_from_master_secret(&Hkdf::from_prk(typ(h), m.clone()), &th, CipherSuite::new(suite).unwrap());
    check(w.is_some(), "keys");
    let w = w.unwrap();
    let (c, s) = spec::app_secrets(h, &m, &th);
    check_eq(&w.client.traffic_secret, &c, "client application traffic secret");
    check_eq(&w.server.traffic_secret, &s, "server application traffic secret");
    check_key(&w.client, h, &w.client.traffic_secret, spec::key_len(suite));
    check_key(&w.server, h, &w.server.traffic_secret, spec::key_len(suite));
    reach("keys");
}
/// HkdfLabel for labels and contexts of every length.
#[no_mangle]
pub extern "C" fn h_ks_label() {
    let l = pick("l", 0, param(0)) as usize;
    let c = pick("c", 0, 64) as usize;
    let (label, context) = (sym_vec("label", l), sym_vec("context", c));
    let n = sym_u16("n");
    let got = get_hkdf_expand_label(&label, &context, n as usize);
    let mut want = vec![(n >> 8) as u8, n as u8, 6 + l as u8];
    want.extend_from_slice(b"tls13 ");
    want.extend_from_slice(&label);
    want.push(c as u8);
    want.extend_from_slice(&context);
    check_eq(&got, &want, "HkdfLabel");
    reach("label");
}
/// A transcript whose hash is free.
struct Fixed(Vec<u8>);
impl TranscriptHash for Fixed {
    fn new() -> Self {
        Fixed(vec![])
    }
    fn update(&mut self, _b: &[u8]) {}
    fn finalize(&self) -> Vec<u8> {
        Vec::clone(&self.0)
    }
    fn get_type(&self) -> HashType {
        typ(self.0.len())
    }
    fn clone(&self) -> Box<dyn TranscriptHash> {
        Box::new(Fixed(Vec::clone(&self.0)))
    }
}
/// The transcript hash and the X25519 result reach the key schedule: fixed keys (RFC 7748), a free transcript.
#[no_mangle]
pub extern "C" fn h_ks_from() {
    use anothertls::crypto::ellipticcurve::{Curve, PrivateKey};
    use anothertls::net::extensions::{KeyShareEntry, NamedGroup};
    use anothertls::utils::bytes;
    let suite = param(0) as u16;
    let h = spec::hash_len(suite);
    let hex = |s: &str| -> Vec<u8> { (0..32).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect() };
    let sk = hex("77076d0a7318a57d3c16c17251b26645c6db2b8f3b7a5e5d3d3f6b0a5d9c3e11");
    let pk = hex("de9edb7d7b7dc1b4d35b61c2ece435373f8343c85b78674dadfc7e146f882b4f");
    let th = sym_vec("th", h);
    let t = Fixed(Vec::clone(&th));
    let key = PrivateKey::new(Curve::curve25519(), bytes::to_ibig_be(&sk));
    let e = KeyShareEntry::new(NamedGroup::X25519, pk.clone());
    let r = KeySchedule::from_handshake(&t, &key, &e);
    check(r.is_ok(), "a key schedule");
    let k = r.unwrap_or_else(|_| unreachable!());
    let s = spec::handshake_secrets(h, &spec::x25519(&sk, &pk), &th);
    check_eq(&k.client_handshake_traffic_secret.pseudo_random_key, &s.c_hs, "client handshake traffic secret");
    check_eq(&k.server_handshake_traffic_secret.pseudo_random_key, &s.s_hs, "server handshake traffic secret");
    check_eq(&k.hkdf_master_secret.pseudo_random_key, &s.master, "master secret");
    reach("secrets");
}
