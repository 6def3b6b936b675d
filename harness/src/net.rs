//! Whole handshakes: the endpoint under test against the peer of peer.rs, which chooses what it does at every step.
use crate::peer::*;
use crate::rt::*;
use crate::sys::{self, w};
use anothertls::net::alert::TlsError;
use anothertls::net::server::{ServerConfig, ServerConnection};
use anothertls::net::stream::TlsStream;
use anothertls::rand::PRNG;
use anothertls::utils::x509::X509;
use std::net::TcpListener;
use std::os::fd::FromRawFd;

crate::harnesses! { h_srv_order, h_srv_auth, h_srv_finished, h_srv_bytes, h_srv_hello, h_srv_keylog, h_srv_cuts }

pub const SUITES: [u16; 3] = [0x1301, 0x1302, 0x1303];
fn accept(cfg: ServerConfig) -> Result<TlsStream, TlsError> {
    let c = ServerConnection::new(unsafe { TcpListener::from_raw_fd(sys::LISTENER) }, cfg);
    let r = c.accept();
    std::mem::forget(c);
    r.map(|x| x.0)
}
/// The endpoint's result against what the peer did. True: connected.
pub fn outcome(r: &Result<TlsStream, TlsError>) -> bool {
    let n = net();
    match r {
        Ok(_) => {
            check(n.done, "completed only after a complete handshake");
            if !n.client {
                check(take().is_empty(), "nothing is sent after completion");
            }
            reach("connected");
            true
        }
        Err(e) => {
            if n.done && !is_sym() {
                eprintln!("refused: {e:?}");
            }
            check(!n.done, "a complete handshake is accepted");
            if n.bad {
                // reported at once or after the flight
                n.stop = Some(n.stop.unwrap_or(0));
                either_keys();
            }
            let stop = n.stop.unwrap_or(512);
            if stop < 256 {
                one_alert(Some(e.as_u8()));
                check(stop == 0 || e.as_u8() as u32 == stop, "the right error");
                reach("alert sent");
            } else if stop < 512 {
                check(take().is_empty(), "a received alert is not answered");
                check(*e == TlsError::new((stop - 256) as u8), "the error of the received alert");
                reach("alert received");
            } else {
                check(take().is_empty(), "nothing is sent on a broken pipe");
                check(*e == TlsError::BrokenPipe, "broken pipe");
                reach("broken");
            }
            false
        }
    }
}
/// One record of application data each way.
pub fn exchange(s: &mut TlsStream) {
    app_keys();
    let m = [1u8, 2, 0, 0];
    check(s.tls_write(&m).is_ok(), "write");
    let v = take();
    check(v.len() == 1 && v[0].0 == 23 && v[0].1[..] == m, "what was written arrives");
    sealed(23, b"reply", 0);
    w().peer = None;
    let mut b = [0u8; 16];
    check(matches!(s.tls_read(&mut b), Ok(5)) && b[..5] == *b"reply", "what was sent is read");
    reach("data");
}
fn finished() -> Vec<u8> {
    msg(20, &verify_data(net().client))
}
/// What the peer sends instead of the expected handshake message with the given content. False: nothing is wrong yet.
pub fn wrong(item: u64, good: &[u8]) {
    let n = net();
    match item {
        1 => {
            // at most twice in a connection
            n.ccs += 1;
            if n.ccs > 2 {
                end_path();
            }
            plain(20, &[1])
        }
        2 | 3 => {
            let c = sym_u8("code");
            if item == 2 { plain(21, &[2, c]) } else { sealed(21, &[2, c], 0) }
            n.stop = Some(256 + c as u32);
        }
        4 => {
            plain(22, good);
            n.stop = Some(0);
        }
        5 => {
            let t = [1u8, 2, 4, 5, 8, 11, 13, 15, 20, 24, 254][pick("typ", 0, 10) as usize];
            assume(t != good[0]);
            let mut m = good.to_vec();
            m[0] = t;
            sealed(22, &m, 0);
            if !n.bad || t == 20 {
                n.stop = Some(0);
            } else {
                // once the other side's certificate has failed, other messages may be read before its Finished
                n.ccs += 2;
                if n.ccs > 2 {
                    end_path();
                }
            }
        }
        6 => {
            sealed(23, good, 0);
            n.stop = Some(0);
        }
        7 => {
            sealed(20, &[1], 0);
            n.stop = Some(0);
        }
        8 => n.stop = Some(512),
        9 => {
            let d = if n.client { n.s.as_mut() } else { n.c.as_mut() };
            d.unwrap().seq += 1;
            sealed(22, good, 0);
            n.stop = Some(0);
        }
        10 => {
            // the right message under a wrong tag
            sealed(22, good, 0);
            let d = sym::<16>("tag");
            assume(!same(&d, &[0; 16]));
            let i = &mut w().inp;
            let k = i.len() - 16;
            for j in 0..16 {
                i[k + j] ^= d[j];
            }
            n.stop = Some(0);
        }
        _ => {
            // an unknown handshake type
            let mut m = good.to_vec();
            m[0] = 3;
            sealed(22, &m, 0);
            n.stop = Some(0);
        }
    }
}
fn srv_peer() {
    let n = net();
    check(n.stop.is_none() && !n.done, "the handshake goes on after it has ended");
    if n.stop.is_some() || n.done {
        end_path();
    }
    n.steps += 1;
    if n.stage == 0 {
        let k = if n.steps as u64 > param(1) { 0 } else { pick("pre", 0, 7) };
        let h = client_hello(&[0x1399, SUITES[param(2) as usize], 0xff], param(3) as usize, None);
        match k {
            0 => {
                plain(22, &h);
                n.ts = h;
                n.stage = 1;
            }
            1 => plain(20, &[1]),
            2 => {
                let c = sym_u8("code");
                plain(21, &[2, c]);
                n.stop = Some(256 + c as u32);
            }
            3 => {
                let mut m = h;
                m[0] = [2u8, 4, 8, 11, 15, 20, 3][pick("typ", 0, 6) as usize];
                plain(22, &m);
            }
            4 => plain(23, &h),
            5 => n.stop = Some(512),
            6 => {
                let t = sym_u8("type");
                assume((t < 20) | (t > 23));
                plain(t, &h);
            }
            _ => plain(22, &[]),
        }
        if k > 0 && n.stop.is_none() {
            n.stop = Some(0);
        }
        return;
    }
    if n.stage == 1 {
        server_flight(false);
        check(n.suite == SUITES[param(2) as usize], "the offered suite");
        n.stage = 2;
    } else {
        check(take().is_empty(), "nothing is sent while the client is to send");
    }
    let item = if n.steps as u64 > param(0) { 0 } else { pick("item", 0, 11) };
    let f = finished();
    if item == 0 {
        sealed(22, &f, 0);
        n.done = true;
    } else {
        wrong(item, &f);
    }
}
/// A server without client authentication. Params: choices in total, choices before the ClientHello, suite, length of
/// the session id, 1: the insecure random generator.
#[no_mangle]
pub extern "C" fn h_srv_order() {
    files();
    w().peer = Some(srv_peer);
    let mut b = server_config();
    if param(4) == 1 {
        b = b.set_prng(PRNG::Simple);
    }
    let mut r = accept(b.build().unwrap());
    if outcome(&r) {
        exchange(r.as_mut().unwrap());
    }
    std::mem::forget(r);
}

fn approve(c: &X509) -> bool {
    net().aux.push(1);
    c.get_public_key().is_some() && param(2) == 1
}
pub fn add(m: &[u8]) {
    net().ts.extend_from_slice(m);
}
/// 0..=11 or the next values up to 33.
pub fn part(name: &'static str, n: u64) -> u64 {
    let k = pick(name, 0, n + 3);
    if k > 11 { k + 8 } else { k }
}
fn auth_peer() {
    let n = net();
    check(n.stop.is_none() && !n.done, "the handshake goes on after it has ended");
    if n.stop.is_some() || n.done {
        end_path();
    }
    n.steps += 1;
    match n.stage {
        0 => {
            let h = client_hello(&[SUITES[param(3) as usize]], 32, None);
            plain(22, &h);
            n.ts = h;
            n.stage = 1;
            return;
        }
        1 => {
            server_flight(true);
            n.stage = 2;
        }
        _ => check(take().is_empty(), "nothing is sent while the client is to send"),
    }
    // from here on: 2 Certificate, 3 CertificateVerify, 4 Finished
    if n.stage == 2 {
        let good = msg(11, &cert_body(&n.context, &der(CLIENT_CERT)));
        // 20..: what is wrong with the certificate message; 0: nothing; 1..11 as in wrong()
        let k = if param(0) & 1 == 0 { 0 } else { part("certificate", 22) };
        if k > 0 && k < 20 {
            wrong(k, &good);
            return;
        }
        n.stage = 3;
        n.bad |= k > 0;
        let mut d = der(CLIENT_CERT);
        let len = d.len();
        let mut c = n.context.clone();
        match k {
            20 => d.clear(),
            21 => d = der(SERVER_CERT),
            // the CA's own certificate is signed by the CA: not a defect, but the client does not have its key
            22 => d = der(CA_CERT),
            23 => d[len - 1] ^= 1,
            24 => d[60] ^= 1,
            25 => {
                // the subject's name
                let at = (0..len - 5).find(|i| d[*i..*i + 5] == *b"otsmr").unwrap();
                d[at] ^= 0x20;
            }
            26 => d.truncate(len - 1),
            27 => {
                c[[0, 13, 31][pick("at", 0, 2) as usize]] ^= 1 << pick("bit", 0, 7);
            }
            28 => c.clear(),
            29 => {
                c.pop();
            }
            30 => c.push(0),
            31 => w().now = 1_600_000_000,
            32 => w().now = 1_800_000_000,
            _ => {}
        }
        let mut m = msg(11, &cert_body(&c, &d));
        if k == 33 {
            // bytes after the list
            m = msg(11, &[&cert_body(&c, &d)[..], &[0]].concat());
        }
        sealed(22, &m, 0);
        add(&m);
        n.aux.push(k as u8);
        if param(1) == 1 && k == 0 && param(2) == 0 {
            // the custom function will deny it
            n.bad = true;
        }
        return;
    }
    let before = n.ts.clone();
    if n.stage == 3 {
        if n.aux[0] == 20 {
            // no certificate, no CertificateVerify
            n.stage = 4;
        } else {
            // 0 nothing is wrong; 1..11; 20.. the CertificateVerify; 40: left out
            let k = if param(0) & 2 == 0 { 0 } else { part("verify", 19) };
            let key = match n.aux[0] {
                21 => SERVER_SECRET,
                _ => CLIENT_SECRET,
            };
            if n.aux[0] == 22 {
                n.bad = true;
            }
            let good = cert_verify(key, false, &before);
            if k > 0 && k < 20 {
                wrong(k, &msg(15, &good));
                return;
            }
            n.stage = 4;
            n.bad |= k > 0;
            let mut v = good;
            let len = v.len();
            match k {
                20 => v = cert_verify(CA_SECRET, false, &before),
                21 => v = cert_verify(key, true, &before),
                22 => {
                    let t = n.ts_app.clone();
                    v = cert_verify(key, false, &t);
                }
                23 => {
                    let i = pick("bit", 0, 15) as usize;
                    v[i / 8] ^= 1 << (i % 8);
                }
                24 => {
                    let i = pick("bit", 0, 15) as usize;
                    v[2 + i / 8] ^= 1 << (i % 8);
                }
                25 => v.truncate(pick("cut", 0, 9) as usize),
                26 => v.truncate(len - 1),
                27 => v = vec![4, 3, 0, 8, 0x30, 6, 2, 1, 0, 2, 1, 0],
                28 => v = vec![4, 3, 0, 8, 0x30, 6, 2, 1, 1, 2, 1, 1],
                29 => v[len - 1] ^= 1,
                30 => v[9] ^= 1,
                _ => {}
            }
            let m = msg(15, &v);
            sealed(22, &m, 0);
            add(&m);
            return;
        }
    }
    // 12: an empty Finished, 13: Finished over the transcript without the last message
    let f = finished();
    let k = if param(0) & 4 == 0 { 0 } else { pick("finished", 0, 12) };
    match k {
        0 => {
            sealed(22, &f, 0);
            if n.bad {
                n.stop = Some(0);
            } else {
                n.done = true;
            }
        }
        12 => {
            sealed(22, &msg(20, &[]), 0);
            n.stop = Some(0);
        }
        _ => wrong(k, &f),
    }
}
/// A server that requires a client certificate. Params: which of Certificate (1), CertificateVerify (2) and Finished (4) is
/// free, 1: custom verification function, its answer, suite.
#[no_mangle]
pub extern "C" fn h_srv_auth() {
    files();
    w().peer = Some(auth_peer);
    let mut b = server_config().add_client_cert_ca("/vh/ca.cert".to_string());
    if param(1) == 1 {
        b = b.set_client_cert_custom_verify_fn(approve);
    }
    let mut r = accept(b.build().unwrap());
    if outcome(&r) {
        if param(1) == 1 {
            check(net().aux.len() == 2, "the verification function is asked");
        }
        exchange(r.as_mut().unwrap());
    }
    std::mem::forget(r);
}

/// A genuine client, one message per call. Stages: 0 ClientHello, 2 Certificate, 3 CertificateVerify, 4 Finished, 5 done.
fn good_reads(auth: bool) {
    let n = net();
    if n.stage == 1 {
        server_flight(auth);
        n.stage = if auth { 2 } else { 4 };
    } else {
        check(take().is_empty(), "nothing is sent while the client is to send");
    }
}
fn good_sends() {
    let n = net();
    match n.stage {
        0 => {
            let h = client_hello(&[SUITES[param(0) as usize]], 32, None);
            plain(22, &h);
            n.ts = h;
        }
        2 => {
            let m = msg(11, &cert_body(&n.context, &der(CLIENT_CERT)));
            sealed(22, &m, 0);
            add(&m);
        }
        3 => {
            let m = msg(15, &cert_verify(CLIENT_SECRET, false, &n.ts));
            sealed(22, &m, 0);
            add(&m);
        }
        4 => {
            sealed(22, &finished(), 0);
            n.done = true;
        }
        _ => return,
    }
    n.stage += 1;
}
/// The verify data of a Finished: the right one of `good`, of n bytes and with free differences. True: it is right.
pub fn bent(good: &[u8], n: usize) -> (Vec<u8>, bool) {
    let x = sym_vec("diff", n);
    let v: Vec<u8> = (0..n).map(|i| if i < good.len() { x[i] ^ good[i] } else { x[i] }).collect();
    (v, n == good.len() && same(&x, &vec![0; n]))
}
fn finished_peer() {
    let n = net();
    let auth = param(2) == 1;
    good_reads(auth);
    if n.stage == 4 {
        let (v, ok) = bent(&verify_data(false), pick("len", param(3), param(4)) as usize);
        let mut m = msg(20, &v);
        m.push(22);
        sealed_free(&m);
        n.stage = 5;
        if ok {
            n.done = true;
        } else {
            n.stop = Some(51);
        }
        return;
    }
    good_sends();
}
/// A server gets a Finished with free verify data. Params: suite, unused, client authentication, range of lengths.
#[no_mangle]
pub extern "C" fn h_srv_finished() {
    files();
    w().peer = Some(finished_peer);
    let mut b = server_config();
    if param(2) == 1 {
        b = b.add_client_cert_ca("/vh/ca.cert".to_string());
    }
    let mut r = accept(b.build().unwrap());
    if outcome(&r) {
        exchange(r.as_mut().unwrap());
    }
    std::mem::forget(r);
}
/// A free record: protected content (k = 0), a handshake message of a free type in the clear (1) or a whole free record (2).
pub fn free_record(k: u64, lo: u64, hi: u64) {
    let n = pick("n", lo, hi) as usize;
    let x = sym_vec("x", n);
    match k {
        0 => sealed_free(&x),
        1 => plain(22, &x),
        _ => {
            // the length field says what is there, or one more or less
            let t = sym_u8("type");
            let v = sym_u16("version");
            let d = pick("d", 0, 2) as usize;
            if n + d == 0 {
                end_path();
            }
            let mut r = vec![t, (v >> 8) as u8, v as u8];
            p16(&mut r, n + d - 1);
            r.extend_from_slice(&x);
            w().inp.extend_from_slice(&r);
        }
    }
}
fn bytes_peer() {
    let n = net();
    if n.stage == 9 {
        // the end of the stream
        return;
    }
    let auth = param(1) == 1;
    if n.stage == 1 {
        server_flight(auth);
        n.stage = if auth { 2 } else { 4 };
    }
    if n.stage as u64 == param(2) {
        n.stage = 9;
        free_record(param(3), param(4), param(5));
        return;
    }
    good_sends();
}
/// C03: a server gets a free record in some state. Params: suite, client authentication, the state (0 ClientHello,
/// 2 Certificate, 3 CertificateVerify, 4 Finished, 5 application data), the kind of record, range of sizes.
#[no_mangle]
pub extern "C" fn h_srv_bytes() {
    files();
    w().peer = Some(bytes_peer);
    let mut b = server_config();
    if param(1) == 1 {
        b = b.add_client_cert_ca("/vh/ca.cert".to_string());
    }
    let mut r = accept(b.build().unwrap());
    match &mut r {
        Ok(s) => {
            check(param(2) == 5, "no handshake completes");
            app_keys();
            free_read(s);
        }
        Err(_) => {
            check(param(2) < 5, "a genuine handshake completes");
            reach("refused");
        }
    }
    std::mem::forget(r);
}
/// Reads until an error.
pub fn free_read(s: &mut TlsStream) {
    let mut b = [0u8; 7];
    for _ in 0..8 {
        match s.tls_read(&mut b) {
            Ok(n) => {
                check(n <= 7, "no more than fits");
                reach("read");
            }
            Err(_) => {
                reach("refused");
                return;
            }
        }
    }
    check(false, "reading ends");
}

fn hello_peer() {
    let n = net();
    check(n.stop.is_none() && !n.done, "the handshake goes on after it has ended");
    if n.stop.is_some() || n.done {
        end_path();
    }
    if n.stage == 1 {
        server_flight(false);
        check(n.suite == 0x1301, "the only common suite");
        sealed(22, &finished(), 0);
        n.done = true;
        return;
    }
    n.stage = 1;
    let k = pick("hello", 0, 22);
    let ver = e_versions(&[0x7f1c, 0x0304, 0x0303]);
    let sh = e_shares(&[share(0x17, &[4; 65]), share(0x1d, &public())].concat());
    let al = e_algs(&[0x0804, 0x0403]);
    let gr = ext(0x0a, &[0, 2, 0, 0x1d]);
    let mut suites = vec![0x1304, 0x1301, 0x00ff];
    let mut sid = 32;
    let mut version = 0x0303;
    // 0..=3 are fine
    let e = match k {
        0 => [ver, sh, al, gr].concat(),
        1 => [gr, ext(0x1234, &[1, 2, 3]), al, sh, ver].concat(),
        2 => [ver, sh].concat(),
        3 => [ver, e_name(b"localhost"), sh, al].concat(),
        4 => [sh, al].concat(),
        5 => {
            let x = sym_u16("version");
            assume(x != 0x0304);
            [e_versions(&[x]), sh, al].concat()
        }
        6 => [ver, al, gr].concat(),
        7 => [ver, e_shares(&share(0x17, &[4; 65])), al].concat(),
        8 => {
            suites = vec![0x1304, 0xc02b];
            [ver, sh, al].concat()
        }
        9 => {
            let x = sym_u16("algorithm");
            assume(x != 0x0403);
            [ver, sh, e_algs(&[x])].concat()
        }
        10 => [ver, e_name(b"localhos"), sh, al].concat(),
        11 => [ver, e_name(b"localhosu"), sh, al].concat(),
        12 => {
            let x = sym_u16("legacy");
            assume(x != 0x0303);
            version = x;
            [ver, sh, al].concat()
        }
        13 => [ver, e_shares(&share(0x1d, &[0; 32])), al].concat(),
        14 => {
            sid = 33;
            [ver, sh, al].concat()
        }
        15 => [ver, e_shares(&share(0x1d, &public()[..31])), al].concat(),
        16 => {
            suites = vec![];
            [ver, sh, al].concat()
        }
        17 => {
            suites = vec![0x00ff];
            [ver, sh, al].concat()
        }
        18 => [ver, e_shares(&[]), al].concat(),
        19 => [ver, sh, al, vec![0, 0x2b, 0, 9, 2]].concat(),
        20 => [ver, e_shares(&share(0x1d, &[&public()[..], &[0]].concat())), al].concat(),
        21 => {
            let mut one = vec![0; 32];
            one[0] = 1;
            [ver, e_shares(&share(0x1d, &one)), al].concat()
        }
        _ => [ver, sh, al, vec![0]].concat(),
    };
    let h = hello_with(version, sid, &suites, &e);
    plain(22, &h);
    n.ts = h;
    if k > 3 {
        n.stop = Some(0);
    }
}
/// C05 on the wire: acceptable ClientHellos complete, all others are answered with one alert in the clear and nothing else.
#[no_mangle]
pub extern "C" fn h_srv_hello() {
    files();
    w().peer = Some(hello_peer);
    let b = server_config().set_server_name("localhost".to_string());
    let mut r = accept(b.build().unwrap());
    if outcome(&r) {
        exchange(r.as_mut().unwrap());
    }
    std::mem::forget(r);
}
/// What the key log has to contain.
pub fn check_keylog() {
    let n = net();
    let f = sys::file("/vh/keylog");
    check(f.is_some(), "the key log exists");
    if let Some(f) = f {
        let t = String::from_utf8_lossy(&f.data).to_string();
        let lines: Vec<&str> = t.lines().collect();
        check(lines.len() == 4 && t.ends_with('\n'), "four lines");
        let names = [
            "CLIENT_HANDSHAKE_TRAFFIC_SECRET", "SERVER_HANDSHAKE_TRAFFIC_SECRET", "CLIENT_TRAFFIC_SECRET_0", "SERVER_TRAFFIC_SECRET_0",
        ];
        for i in 0..4 {
            let mut want = names[i].to_string();
            for part in [&n.random, &n.log[i]] {
                want.push(' ');
                for b in part {
                    for d in [b >> 4, b & 15] {
                        want.push(if d < 10 { 48 + d } else { 87 + d } as char);
                    }
                }
            }
            check(lines.iter().filter(|l| **l == want).count() == 1, "label, client random and secret");
        }
        reach("logged");
    }
}
fn good_peer() {
    let auth = param(1) == 1;
    good_reads(auth);
    good_sends();
}
/// C28: the key log of a server. Params: suite, client authentication, 1: logging enabled.
#[no_mangle]
pub extern "C" fn h_srv_keylog() {
    files();
    w().peer = Some(good_peer);
    let before = w().files.len();
    let mut b = server_config();
    if param(1) == 1 {
        b = b.add_client_cert_ca("/vh/ca.cert".to_string());
    }
    if param(2) == 1 {
        b = b.set_keylog_path("/vh/keylog".to_string());
    }
    let mut r = accept(b.build().unwrap());
    if outcome(&r) {
        exchange(r.as_mut().unwrap());
        if param(2) == 1 {
            check_keylog();
        } else {
            check(w().files.len() == before, "no file is created");
            reach("not logged");
        }
    }
    std::mem::forget(r);
}
/// Cuts of a stream of this many bytes: one anywhere (0), two anywhere in steps (>1), or every byte on its own (1).
pub fn cuts(how: u64, n: usize) -> Vec<usize> {
    match how {
        0 => vec![pick("cut", 1, n as u64) as usize, 1 << 20],
        1 => vec![1; n],
        k => {
            let a = pick("cut", 1, n as u64 / k) * k;
            let b = pick("second", 1, n as u64 / k) * k;
            vec![a as usize, b as usize, 1 << 20]
        }
    }
}
fn cuts_peer() {
    let n = net();
    let auth = param(1) == 1;
    if n.stage == 0 {
        good_sends();
        if param(3) == 0 {
            let k = w().inp.len();
            w().read_cuts = cuts(param(2), k);
        }
        return;
    }
    good_reads(auth);
    check(n.stage != 5, "everything is there");
    // the rest in one go: change_cipher_spec, the client's flight and application data
    if auth {
        good_sends();
    }
    plain(20, &[1]);
    if auth {
        good_sends();
    }
    good_sends();
    app_keys();
    sealed(23, b"first", 3);
    sealed(23, b"", 0);
    sealed(23, b"second", 0);
    if param(3) == 1 {
        let k = w().inp.len();
        w().read_cuts = cuts(param(2), k);
    }
}
/// C21: the client's stream cut anywhere. Params: suite, client authentication, how, 0: the ClientHello, 1: what follows it.
#[no_mangle]
pub extern "C" fn h_srv_cuts() {
    files();
    w().peer = Some(cuts_peer);
    let mut b = server_config();
    if param(1) == 1 {
        b = b.add_client_cert_ca("/vh/ca.cert".to_string());
    }
    let mut r = accept(b.build().unwrap());
    match &mut r {
        Ok(s) => {
            joined(s);
        }
        Err(_) => check(false, "the handshake completes however the stream is cut"),
    }
    std::mem::forget(r);
}
/// The two messages arrive in order and nothing else does.
pub fn joined(s: &mut TlsStream) {
    let mut v = vec![];
    let mut b = [0u8; 4];
    while v.len() < 11 {
        match s.tls_read(&mut b) {
            Ok(k) => v.extend_from_slice(&b[..k]),
            Err(_) => break,
        }
    }
    check(v[..] == *b"firstsecond", "the bytes that were sent");
    w().peer = None;
    check(s.tls_read(&mut b) == Err(TlsError::BrokenPipe), "then the end");
    reach("joined");
}
