//! C21, C22: the stream over an established channel, and records cut out of the byte stream.
use crate::rt::*;
use crate::spec;
use crate::sys::{self, w};
use anothertls::crypto::CipherSuite;
use anothertls::hash::{HashType, Hkdf};
use anothertls::net::alert::TlsError;
use anothertls::net::key_schedule::KeySchedule;
use anothertls::net::record::{Record, RecordPayloadProtection, RecordType, Value};
use anothertls::net::stream::TlsStream;
use std::net::TcpStream;
use std::os::fd::FromRawFd;

crate::harnesses! { h_write, h_write_fail, h_read, h_read_long, h_records, h_handshake_write }

fn stream() -> TlsStream {
    TlsStream::new(unsafe { TcpStream::from_raw_fd(sys::SOCK) })
}
fn prot(suite: u16, is_client: bool) -> RecordPayloadProtection {
    let cs = CipherSuite::new(suite).unwrap();
    let h = spec::hash_len(suite);
    let t = if h == 32 { HashType::SHA256 } else { HashType::SHA384 };
    let k = KeySchedule {
        client_handshake_traffic_secret: Hkdf::from_prk(t, vec![1; h]),
        server_handshake_traffic_secret: Hkdf::from_prk(t, vec![2; h]),
        hkdf_master_secret: Hkdf::from_prk(t, vec![3; h]),
    };
    let mut r = RecordPayloadProtection::new(k, cs.get_cipher().unwrap(), is_client).unwrap();
    let mut th = cs.get_tshash().unwrap();
    th.update(b"transcript");
    check(r.generate_application_keys(th.as_ref()).is_ok(), "application keys");
    r
}
fn keys(suite: u16, of_client: bool) -> (Vec<u8>, Vec<u8>) {
    let h = spec::hash_len(suite);
    let (c, s) = spec::app_secrets(h, &vec![3; h], &spec::sha(h, b"transcript"));
    spec::key_iv(h, if of_client { &c } else { &s }, spec::key_len(suite))
}
fn suite() -> u16 {
    [4865, 4866, 4867][param(2) as usize]
}
fn content(n: usize) -> Vec<u8> {
    if n <= 64 {
        sym_vec("data", n)
    } else {
        (0..n).map(|i| (i as u8) ^ (i >> 8) as u8).collect()
    }
}
/// Opens what was written: the concatenated application data.
fn opened(is_client: bool) -> Vec<u8> {
    let (k, iv) = keys(suite(), is_client);
    let out = &w().out;
    let mut v = vec![];
    let (mut i, mut seq) = (0, 0);
    while i < out.len() {
        check(out.len() - i > 22, "whole records");
        let len = (out[i + 3] as usize) << 8 | out[i + 4] as usize;
        check(out[i..i + 3] == [23, 3, 3], "record header");
        check(out.len() - i >= 5 + len, "whole records");
        check(len > 16 && len - 17 <= 16384, "the record size limit");
        let b = &out[i + 5..i + 5 + len];
        let (mut p, tag) = spec::unseal(suite(), &k, &spec::nonce(&iv, seq), &out[i..i + 5], &b[..len - 16]);
        check_eq(&tag, &b[len - 16..], "tag of the record");
        while p.len() > 1 && is_zero(p[p.len() - 1]) {
            p.pop();
        }
        check(p.pop() == Some(23), "application data");
        v.extend(p);
        seq += 1;
        i += 5 + len;
    }
    v
}
fn is_zero(x: u8) -> bool {
    x == 0
}
/// Two writes, cut by the socket at will. Params: range of the first size, suite, 1: client, size of the second.
#[no_mangle]
pub extern "C" fn h_write() {
    let n = pick("n", param(0), param(1)) as usize;
    let client = param(3) == 1;
    let a = content(n);
    let b = content(param(4) as usize);
    let mut s = stream();
    s.set_protection(Some(prot(suite(), client)));
    if pick("cut", 0, 1) == 1 {
        w().write_cuts = vec![1, 7, 3, 100];
    }
    check(s.tls_write(&a).is_ok(), "the first write");
    let one = w().out.len();
    check(s.tls_write(&b).is_ok(), "the second write");
    check(a.is_empty() || one > 0, "data is sent at once");
    let all = opened(client);
    check_eq(&all, &[&a[..], &b].concat(), "what was written is on the wire, in order");
    reach("written");
    std::mem::forget(s);
}
/// Nothing is written in the clear, and a broken socket is reported. Params: -, -, suite.
#[no_mangle]
pub extern "C" fn h_write_fail() {
    let n = pick("n", 1, 3) as usize;
    let d = content(n);
    let mut s = stream();
    check(s.tls_write(&d).is_err(), "no write without a protected channel");
    check(w().out.is_empty(), "nothing in the clear");
    s.set_protection(Some(prot(suite(), true)));
    w().send_fails = true;
    check(s.tls_write(&d) == Err(TlsError::BrokenPipe), "a write error is reported");
    check(s.write_alert(TlsError::CloseNotify) == Err(TlsError::BrokenPipe), "a write error of an alert is reported");
    check(s.write_record(RecordType::Handshake, &d).is_ok(), "a buffered record");
    check(s.flush() == Err(TlsError::BrokenPipe), "a write error of a flush is reported");
    check(s.tls_read(&mut [0; 4]) == Err(TlsError::BrokenPipe), "a closed connection is reported");
    reach("reported");
    std::mem::forget(s);
}
fn send(p: &mut RecordPayloadProtection, d: &[u8]) {
    let r = p.encrypt(Record::new(RecordType::ApplicationData, Value::Ref(d))).unwrap();
    w().inp.extend(r);
}
/// Up to three records of free contents, read with any buffer size. Params: largest record, largest buffer, suite, 1: client.
#[no_mangle]
pub extern "C" fn h_read() {
    let client = param(3) == 1;
    let mut s = stream();
    s.set_protection(Some(prot(suite(), client)));
    let mut p = prot(suite(), !client);
    let mut want = vec![];
    for _ in 0..pick("records", 1, 3) {
        let d = sym_vec("data", pick("size", 0, param(0)) as usize);
        send(&mut p, &d);
        want.extend(d);
    }
    if pick("cut", 0, 1) == 1 {
        w().read_cuts = vec![1, 3, 2, 9, 30];
    }
    let mut got = vec![];
    let k = pick("buffer", 1, param(1)) as usize;
    let mut b = vec![0u8; k];
    while got.len() < want.len() {
        match s.tls_read(&mut b) {
            Ok(n) => {
                check(n > 0 && n <= k, "progress, and no more than fits");
                got.extend_from_slice(&b[..n]);
            }
            Err(_) => {
                check(false, "everything sent is read");
                return;
            }
        }
    }
    check(same(&got, &want), "what was sent, in order");
    check(s.tls_read(&mut b) == Err(TlsError::BrokenPipe), "then the end");
    reach("read");
    std::mem::forget(s);
}
/// Large records. Params: size of the first, of the buffer, suite, 1: client.
#[no_mangle]
pub extern "C" fn h_read_long() {
    let client = param(3) == 1;
    let mut s = stream();
    s.set_protection(Some(prot(suite(), client)));
    let mut p = prot(suite(), !client);
    let a = content(param(0) as usize);
    send(&mut p, &a);
    let tail = sym_vec("tail", 3);
    send(&mut p, &tail);
    let want = [&a[..], &tail].concat();
    let mut got = vec![];
    let mut b = vec![0u8; param(1) as usize];
    while got.len() < want.len() {
        match s.tls_read(&mut b) {
            Ok(n) => got.extend_from_slice(&b[..n]),
            Err(_) => {
                check(false, "everything sent is read");
                return;
            }
        }
    }
    check(same(&got, &want), "what was sent, in order");
    reach("read");
    std::mem::forget(s);
}
/// Three records with free contents, the stream cut anywhere. Params: largest body, 1: a byte at a time, else two cuts.
#[no_mangle]
pub extern "C" fn h_records() {
    let mut s = stream();
    let mut want = vec![];
    for i in 0..3 {
        let n = pick("n", 0, param(0)) as usize;
        let mut r = vec![20 + pick("type", i, i + 1) as u8, sym_u8("major"), sym_u8("minor"), 0, n as u8];
        r.extend(sym_vec("body", n));
        w().inp.extend_from_slice(&r);
        want.push(r);
    }
    let all = w().inp.len();
    if param(1) == 1 {
        w().read_cuts = vec![1; all];
    } else {
        let a = pick("cut", 1, all as u64 - 1) as usize;
        let b = pick("second", 1, all as u64) as usize;
        w().read_cuts = vec![a, b, 100];
    }
    for r in &want {
        match s.read_record() {
            Ok(g) => check(same(&g, r), "each record as it was sent"),
            Err(_) => check(false, "each record as it was sent"),
        }
    }
    check(s.read_record() == Err(TlsError::BrokenPipe), "then the end");
    reach("records");
    std::mem::forget(s);
}
/// Handshake records are buffered and flushed in order. Params: range of the first size, -.
#[no_mangle]
pub extern "C" fn h_handshake_write() {
    let n = pick("n", param(0), param(1)) as usize;
    let mut s = stream();
    let a = content(n);
    let b = content(5);
    check(s.write_record(RecordType::Handshake, &a).is_ok(), "a buffered record");
    check(s.write_record(RecordType::ChangeCipherSpec, &b).is_ok(), "a buffered record");
    if pick("cut", 0, 1) == 1 {
        w().write_cuts = vec![1, 7, 3, 100];
    }
    check(s.flush().is_ok() && s.flush().is_ok(), "flushed");
    let out = w().out.clone();
    let (mut got, mut i) = (vec![], 0);
    while i + 5 <= out.len() && out[i] == 22 {
        let len = (out[i + 3] as usize) << 8 | out[i + 4] as usize;
        check(len > 0 && len <= 16384 && i + 5 + len <= out.len() && out[i + 1] == 3, "record header");
        got.extend_from_slice(&out[i + 5..i + 5 + len]);
        i += 5 + len;
    }
    check_eq(&got, &a, "the message, in records of the allowed size");
    check(out.len() == i + 10 && out[i] == 20 && out[i + 3..i + 5] == [0, 5] && same(&out[i + 5..], &b), "then the next record");
    reach("flushed");
    std::mem::forget(s);
}
