//! C20: alert codes and the alert record.
use crate::rt::*;
use crate::spec;
use crate::sys::{self, w};
use anothertls::crypto::CipherSuite;
use anothertls::hash::{HashType, Hkdf};
use anothertls::net::alert::{AlertLevel, TlsError};
use anothertls::net::key_schedule::KeySchedule;
use anothertls::net::record::RecordPayloadProtection;
use anothertls::net::stream::TlsStream;
use std::net::TcpStream;
use std::os::fd::FromRawFd;

crate::harnesses! { h_codes, h_alert_write, h_alert_in }

const CODES: [(u8, TlsError); 20] = [
    (0, TlsError::CloseNotify), (10, TlsError::UnexpectedMessage), (20, TlsError::BadRecordMac), (40, TlsError::HandshakeFailure),
    (42, TlsError::BadCertificate), (43, TlsError::UnsupportedCertificate), (44, TlsError::CertificateRevoked), (45, TlsError::CertificateExpired),
    (46, TlsError::CertificateUnknown), (47, TlsError::IllegalParameter), (48, TlsError::UnknownCa), (49, TlsError::AccessDenied),
    (50, TlsError::DecodeError), (51, TlsError::DecryptError), (70, TlsError::ProtocolVersion), (71, TlsError::InsufficientSecurity),
    (80, TlsError::InternalError), (109, TlsError::MissingExtension), (112, TlsError::UnrecognizedName), (116, TlsError::CertificateRequired),
];
fn level(code: u8) -> u8 {
    if code == 0 { 1 } else { 2 }
}
#[no_mangle]
pub extern "C" fn h_codes() {
    for (c, e) in CODES {
        check(e.as_u8() == c, "RFC 8446 code of the error");
        check(AlertLevel::get_from_error(e) as u8 == level(c), "alert level");
        check(TlsError::new(c) == e, "error of the code");
    }
    let c = sym_u8("c");
    let e = TlsError::new(c);
    let mut known = false;
    for (k, _) in CODES {
        known |= k == c;
    }
    if known {
        check(e.as_u8() == c, "a known code is kept");
    }
    reach("codes");
}
/// A received alert of 0..4 free bytes: the error carries its code.
#[no_mangle]
pub extern "C" fn h_alert_in() {
    let n = pick("n", 0, 4) as usize;
    let x = sym_vec("x", n);
    let e = TlsError::from_alert(&x);
    if n >= 2 {
        check(e == TlsError::GotAlert(x[1]), "the received code");
        check(e.as_u8() == x[1], "the received code, as a number");
        reach("alert");
    } else {
        check(e == TlsError::DecodeError, "an alert without a code");
    }
}
pub fn stream() -> TlsStream {
    TlsStream::new(unsafe { TcpStream::from_raw_fd(sys::SOCK) })
}
fn prot(suite: u16, is_client: bool, app: bool) -> RecordPayloadProtection {
    let cs = CipherSuite::new(suite).unwrap();
    let h = spec::hash_len(suite);
    let t = if h == 32 { HashType::SHA256 } else { HashType::SHA384 };
    let k = KeySchedule {
        client_handshake_traffic_secret: Hkdf::from_prk(t, vec![1; h]),
        server_handshake_traffic_secret: Hkdf::from_prk(t, vec![2; h]),
        hkdf_master_secret: Hkdf::from_prk(t, vec![3; h]),
    };
    let mut r = RecordPayloadProtection::new(k, cs.get_cipher().unwrap(), is_client).unwrap();
    if app {
        let mut th = cs.get_tshash().unwrap();
        th.update(b"transcript");
        check(r.generate_application_keys(th.as_ref()).is_ok(), "application keys");
    }
    r
}
/// Writing each alert, in the clear, under handshake keys and under application keys, in both roles, with short writes.
#[no_mangle]
pub extern "C" fn h_alert_write() {
    let (c, e) = CODES[pick("code", 0, 19) as usize];
    let state = pick("state", 0, 2);
    let is_client = pick("client", 0, 1) == 1;
    let suite = [4865u16, 4866, 4867][pick("suite", 0, if state == 0 { 0 } else { 2 }) as usize];
    let mut s = stream();
    if state > 0 {
        s.set_protection(Some(prot(suite, is_client, state == 2)));
    }
    if pick("cut", 0, 1) == 1 {
        w().write_cuts = vec![1, 3, 2];
    }
    check(s.write_alert(e).is_ok(), "the alert is written");
    let want = if state == 0 {
        vec![21, 3, 3, 0, 2, level(c), c]
    } else {
        let h = spec::hash_len(suite);
        let sec = if state == 1 {
            vec![if is_client { 1 } else { 2 }; h]
        } else {
            let (c, s) = spec::app_secrets(h, &vec![3; h], &spec::sha(h, b"transcript"));
            if is_client { c } else { s }
        };
        let (k, iv) = spec::key_iv(h, &sec, spec::key_len(suite));
        let head = [23, 3, 3, 0, 19];
        let (ct, tag) = spec::seal(suite, &k, &spec::nonce(&iv, 0), &head, &[level(c), c, 21]);
        [&head[..], &ct, &tag].concat()
    };
    // records before 1.3 negotiation may carry 0x0301
    let mut out = w().out.clone();
    if state == 0 && out.len() > 2 && out[2] == 1 {
        out[2] = 3;
    }
    check_eq(&out, &want, "one alert record with level and code, under the current keys");
    reach("written");
    std::mem::forget(s);
}
