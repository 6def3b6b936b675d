//! C01: the parsers of peer-controlled TLS bytes on arbitrary input.
use crate::rt::*;
use anothertls::net::client::ClientHello;
use anothertls::net::extensions::{CertificateRequestExtensions, ClientExtension, Extension, KeyShare, ServerExtensions, ServerName, SignatureAlgorithms, SupportedVersions};
use anothertls::net::handshake::{Certificate, Handshake};
use anothertls::net::record::Record;
use anothertls::net::server::ServerHello;

crate::harnesses! { h_record, h_handshake, h_ch, h_ch_ext, h_ch_ext_split, h_sh, h_sh_ext, h_cr_ext, h_key_share, h_server_name, h_versions, h_sigalgs, h_cert_msg }

fn arb(max: u64) -> Vec<u8> {
    let n = pick("n", 0, max) as usize;
    sym_vec("buf", n)
}
fn note<T, E>(r: &Result<T, E>) {
    reach(if r.is_ok() { "accepted" } else { "rejected" });
}

#[no_mangle]
pub extern "C" fn h_record() {
    let b = arb(param(0));
    let r = Record::from_raw(&b);
    note(&r);
    if let Ok((used, rec)) = r {
        check(used >= 5 && used <= b.len(), "record: consumed bytes lie inside the input");
        check(rec.len == used - 5 && rec.fraqment.len() == rec.len, "record: the fragment has the announced length");
        check(same(rec.fraqment.as_ref(), &b[5..used]), "record: the fragment is the announced bytes");
        check(same(&rec.header, &b[..5]), "record: header bytes");
        check(rec.len == (b[3] as usize) << 8 | b[4] as usize, "record: length field");
    }
}
#[no_mangle]
pub extern "C" fn h_handshake() {
    let b = arb(param(0));
    let r = Handshake::from_raw(&b);
    note(&r);
    if let Ok(h) = r {
        let len = (b[1] as usize) << 16 | (b[2] as usize) << 8 | b[3] as usize;
        check(h.fraqment.len() == len && h.raw.len() == len + 4, "handshake: lengths");
        check(len + 4 <= b.len(), "handshake: inside the input");
        check(same(h.as_bytes(), &b[..len + 4]), "handshake: raw bytes");
        check(h.handshake_type as u8 == b[0], "handshake: type");
    }
}
#[no_mangle]
pub extern "C" fn h_ch() {
    let n = pick("n", param(0), param(1)) as usize;
    let b = sym_vec("buf", n);
    note(&ClientHello::from_raw(&b));
}
#[no_mangle]
pub extern "C" fn h_ch_ext() {
    let n = pick("n", param(0), param(1)) as usize;
    let b = sym_vec("buf", n);
    let r = ClientExtension::from_client_hello(&b);
    note(&r);
}
#[no_mangle]
pub extern "C" fn h_sh() {
    let n = pick("n", param(0), param(1)) as usize;
    let b = sym_vec("buf", n);
    note(&ServerHello::from_raw(&b));
}
#[no_mangle]
pub extern "C" fn h_sh_ext() {
    let n = pick("n", param(0), param(1)) as usize;
    let b = sym_vec("buf", n);
    note(&ServerExtensions::from_server_hello(&b));
}
#[no_mangle]
pub extern "C" fn h_cr_ext() {
    let n = pick("n", param(0), param(1)) as usize;
    let b = sym_vec("buf", n);
    note(&CertificateRequestExtensions::from_request(&b));
}
#[no_mangle]
pub extern "C" fn h_key_share() {
    let b = arb(param(0));
    if param(1) == 0 {
        note(&KeyShare::server_parse(&b));
    } else {
        note(&KeyShare::client_parse(&b));
    }
}
#[no_mangle]
pub extern "C" fn h_server_name() {
    let b = arb(param(0));
    note(&ServerName::server_parse(&b));
}
#[no_mangle]
pub extern "C" fn h_versions() {
    let b = arb(param(0));
    if param(1) == 0 {
        note(&SupportedVersions::server_parse(&b));
    } else {
        note(&SupportedVersions::client_parse(&b));
    }
}
#[no_mangle]
pub extern "C" fn h_sigalgs() {
    let b = arb(param(0));
    note(&SignatureAlgorithms::server_parse(&b));
}
#[no_mangle]
pub extern "C" fn h_cert_msg() {
    let n = pick("n", param(0), param(1)) as usize;
    let b = sym_vec("buf", n);
    note(&Certificate::from_hello(&b));
}
/// Splits on the sizes in an extension list (every value is covered), so that offsets are concrete afterwards.
fn split_sizes(b: &[u8]) {
    let mut o = 0;
    while o + 4 <= b.len() {
        let s = (b[o + 2] as usize) << 8 | b[o + 3] as usize;
        if o + 4 + s > b.len() {
            break;
        }
        o += 4 + conc(s as u64) as usize;
    }
}
#[no_mangle]
pub extern "C" fn h_ch_ext_split() {
    let n = pick("n", param(0), param(1)) as usize;
    let b = sym_vec("buf", n);
    split_sizes(&b);
    let r = ClientExtension::from_client_hello(&b);
    note(&r);
}
