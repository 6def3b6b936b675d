//! Whole handshakes of the client under test against a server played by the harness.
use crate::net::{add, bent, check_keylog, cuts, exchange, free_read, free_record, joined, outcome, part, wrong, SUITES};
use crate::peer::*;
use crate::rt::*;
use crate::spec;
use crate::sys::{self, w};
use anothertls::net::alert::TlsError;
use anothertls::net::client::{ClientConfig, ClientConnection};
use anothertls::net::stream::TlsStream;
use std::net::TcpStream;
use std::os::fd::FromRawFd;

crate::harnesses! { h_cli_order, h_cli_hello, h_cli_finished, h_cli_bytes, h_cli_keylog, h_cli_cuts, h_cli_join, h_cli_request }

fn connect(cfg: &ClientConfig) -> Result<TlsStream, TlsError> {
    net().client = true;
    ClientConnection::connect(unsafe { TcpStream::from_raw_fd(sys::SOCK) }, cfg)
}
fn u16at(b: &[u8], i: usize) -> usize {
    (b[i] as usize) << 8 | b[i + 1] as usize
}
/// Checks the ClientHello and returns the client's key share.
fn read_hello(name: Option<&[u8]>) -> Vec<u8> {
    let v = take();
    check(v.len() == 1 && v[0].0 == 22, "one ClientHello record");
    let m = v[0].1.clone();
    let n = net();
    n.ts = m.clone();
    check(m.len() > 80 && m[0] == 1 && m[1] == 0 && u16at(&m, 2) == m.len() - 4, "one ClientHello message");
    let x = &m[4..];
    check(x[0] == 3 && x[1] == 3, "version field of the ClientHello");
    n.random = x[2..34].to_vec();
    let k = x[34] as usize;
    check(k <= 32, "session id of the ClientHello");
    n.sid = x[35..35 + k].to_vec();
    let x = &x[35 + k..];
    let k = u16at(x, 0);
    check(k == 6, "three suites");
    for s in SUITES {
        check((0..3).any(|i| u16at(x, 2 + 2 * i) == s as usize), "the suites offered");
    }
    let x = &x[2 + k..];
    check(x[0] == 1 && x[1] == 0, "compression methods");
    check(u16at(x, 2) == x.len() - 4, "length of the extensions");
    let mut x = &x[4..];
    let mut key = vec![];
    let mut seen = vec![];
    while !x.is_empty() {
        check(x.len() >= 4 && x.len() >= 4 + u16at(x, 2), "extensions of the ClientHello");
        let (t, l) = (u16at(x, 0), u16at(x, 2));
        let e = &x[4..4 + l];
        x = &x[4 + l..];
        check(!seen.contains(&t), "each extension once");
        seen.push(t);
        match t {
            0x33 => {
                check(l == 38 && u16at(e, 0) == 36 && u16at(e, 2) == 0x1d && u16at(e, 4) == 32, "key share of the ClientHello");
                key = e[6..].to_vec();
            }
            0x2b => check(*e == [2, 3, 4], "supported_versions of the ClientHello"),
            0x0d => {
                check(l >= 4 && u16at(e, 0) == l - 2 && l % 2 == 0, "signature_algorithms of the ClientHello");
                check((2..l).step_by(2).any(|i| u16at(e, i) == 0x0403), "ecdsa_secp256r1_sha256 is offered");
            }
            0x0a => {
                check(l >= 4 && u16at(e, 0) == l - 2 && l % 2 == 0, "supported_groups of the ClientHello");
                check((2..l).step_by(2).any(|i| u16at(e, i) == 0x1d), "x25519 is offered");
            }
            0 => {
                let want = e_name(name.unwrap_or(b""));
                check(name.is_some() && *e == want[4..], "server_name of the ClientHello");
            }
            _ => {}
        }
    }
    for t in [0x33, 0x2b, 0x0d, 0x0a] {
        check(seen.contains(&t), "mandatory extensions");
    }
    check(name.is_some() == seen.contains(&0), "server_name when configured");
    key
}
struct Sh {
    version: u16,
    sid: Vec<u8>,
    suite: u16,
    ext: Vec<u8>,
}
impl Sh {
    fn bytes(&self) -> Vec<u8> {
        let mut b = vec![(self.version >> 8) as u8, self.version as u8];
        b.extend((0..32).map(|i| 0x30 + i as u8));
        b.push(self.sid.len() as u8);
        b.extend_from_slice(&self.sid);
        b.extend_from_slice(&[(self.suite >> 8) as u8, self.suite as u8, 0]);
        p16(&mut b, self.ext.len());
        b.extend_from_slice(&self.ext);
        msg(2, &b)
    }
}
fn e_version() -> Vec<u8> {
    ext(0x2b, &[3, 4])
}
fn e_share(group: usize, key: &[u8]) -> Vec<u8> {
    ext(0x33, &share(group, key))
}
/// A fine ServerHello.
fn fine() -> Sh {
    Sh { version: 0x0303, sid: net().sid.clone(), suite: net().suite, ext: [e_share(0x1d, &public()), e_version()].concat() }
}
/// Sends it in the clear and derives the keys.
fn say_hello(sh: &Sh, key: &[u8]) {
    let m = sh.bytes();
    plain(22, &m);
    add(&m);
    handshake_keys(&spec::x25519(&scalar(), key));
}
const CONTEXT: [u8; 5] = [9, 8, 7, 6, 5];
fn request(context: &[u8], e: &[u8]) -> Vec<u8> {
    let mut b = vec![context.len() as u8];
    b.extend_from_slice(context);
    p16(&mut b, e.len());
    b.extend_from_slice(e);
    msg(13, &b)
}
/// Stages: 0 ServerHello, 1 EncryptedExtensions, 2 CertificateRequest, 3 Certificate, 4 CertificateVerify, 5 Finished.
fn message(stage: u32) -> Vec<u8> {
    match stage {
        1 => msg(8, &ext(0x0a, &[0, 2, 0, 0x1d]).iter().fold(vec![0, 8], |mut a, x| {
            a.push(*x);
            a
        })),
        2 => request(&CONTEXT, &e_algs(&[0x0804, 0x0403])),
        3 => msg(11, &cert_body(&[], &der(SERVER_CERT))),
        4 => msg(15, &cert_verify(SERVER_SECRET, true, &net().ts)),
        _ => msg(20, &verify_data(true)),
    }
}
/// The client's answer to a complete server flight.
fn client_flight(requested: bool, cert: bool) {
    let n = net();
    let v = take();
    let want = 1 + requested as usize + (requested && cert) as usize;
    check(v.len() == want, "the flight of the client");
    for (t, _) in &v {
        check(*t == 22, "handshake messages");
    }
    let mut i = 0;
    if requested {
        let d = if cert { der(CLIENT_CERT) } else { vec![] };
        let m = msg(11, &cert_body(&n.context, &d));
        check(same(&v[0].1, &m), "the client's Certificate");
        add(&m);
        i = 1;
        if cert {
            check_cv(&v[1].1, CLIENT_SECRET, false);
            add(&v[1].1);
            i = 2;
        }
    }
    check(same(&v[i].1, &msg(20, &verify_data(false))), "the client's Finished");
}
/// First things of a call: nothing after the end, and the ClientHello answered in stage 0. True: a message is to be sent.
fn begin() -> bool {
    let n = net();
    check(n.stop.is_none() && !n.done, "the handshake goes on after it has ended");
    if n.stop.is_some() || n.done {
        end_path();
    }
    n.steps += 1;
    if n.stage > 0 {
        check(take().is_empty(), "nothing is sent while the server is to send");
        return true;
    }
    false
}
fn answer(name: Option<&[u8]>) {
    let key = read_hello(name);
    net().suite = SUITES[param(0) as usize];
    say_hello(&fine(), &key);
    plain(20, &[1]);
    net().stage = 1;
}
/// Params: suite, 1: a CertificateRequest is sent, 1: the client has a certificate.
fn order_peer() {
    let n = net();
    let mask = param(3);
    if !begin() {
        let k = if mask & 1 == 0 || n.steps > 2 { 0 } else { pick("first", 0, 8) };
        if k == 0 {
            if n.steps > 1 {
                check(take().is_empty(), "nothing is sent while the server is to send");
            }
            return answer(Some(b"localhost"));
        }
        let key = read_hello(Some(b"localhost"));
        n.suite = SUITES[param(0) as usize];
        let h = fine().bytes();
        n.stop = Some(0);
        match k {
            1 => plain(20, &[1]),
            2 => {
                let c = sym_u8("code");
                plain(21, &[2, c]);
                n.stop = Some(256 + c as u32);
            }
            3 => {
                let mut m = h;
                m[0] = [1u8, 4, 8, 11, 15, 20, 3][pick("typ", 0, 6) as usize];
                plain(22, &m);
            }
            4 => plain(23, &h),
            5 => n.stop = Some(512),
            6 => {
                let t = sym_u8("type");
                assume((t < 20) | (t > 23));
                plain(t, &h);
            }
            7 => plain(22, &[]),
            _ => {
                // EncryptedExtensions under the keys of a ServerHello that was never sent
                add(&h);
                handshake_keys(&spec::x25519(&scalar(), &key));
                sealed(22, &message(1), 0);
                n.c = None;
                n.s = None;
            }
        }
        return;
    }
    if n.stage == 2 && param(1) == 0 {
        n.stage = 3;
    }
    let m = message(n.stage);
    let free = mask >> n.stage & 1 == 1;
    let k = if !free {
        0
    } else {
        match n.stage {
            3 => part("item", 12),
            4 => part("item", 19),
            _ => pick("item", 0, 12),
        }
    };
    if k == 5 {
        // another message in its place; the request may be left out
        let t = [1u8, 2, 4, 5, 8, 11, 13, 15, 20, 24, 254][pick("typ", 0, 10) as usize];
        assume(t != m[0]);
        if t == 11 && n.stage == 2 || t == 13 && n.stage == 3 && param(1) == 0 {
            end_path();
        }
        // the message that would come later, or this one under another type
        let mut o = m;
        o[0] = t;
        sealed(22, &o, 0);
        if !n.bad || t == 20 {
            n.stop = Some(0);
        } else {
                // once the other side's certificate has failed, other messages may be read before its Finished
                n.ccs += 2;
                if n.ccs > 2 {
                    end_path();
                }
            }
        return;
    }
    if k == 12 && n.stage != 5 {
        // left out: the next message comes
        if n.stage == 2 {
            end_path();
        }
        n.stage += 1;
        if n.stage == 2 && param(1) == 0 {
            n.stage = 3;
        }
        let m = message(n.stage);
        sealed(22, &m, 0);
        if n.stage == 4 && n.aux.is_empty() || !n.bad {
            n.stop = Some(0);
        }
        return;
    }
    if k > 0 && k < 12 {
        wrong(k, &m);
        return;
    }
    match n.stage {
        3 if k >= 20 => {
            let mut d = der(SERVER_CERT);
            let len = d.len();
            n.bad = true;
            match k {
                20 => d = der(CA_CERT),
                21 => d.clear(),
                22 => d.truncate(len - 1),
                _ => {
                    // a byte of the public key
                    let at = (0..len - 3).find(|i| d[*i..*i + 4] == [3, 0x42, 0, 4]).unwrap();
                    d[at + 4 + 9 * pick("at", 0, 7) as usize] ^= 1;
                }
            }
            let m = msg(11, &cert_body(&[], &d));
            sealed(22, &m, 0);
            add(&m);
        }
        4 if k >= 20 => {
            n.bad = true;
            let mut v = m[4..].to_vec();
            let len = v.len();
            let t = n.ts.clone();
            match k {
                20 => v = cert_verify(CA_SECRET, true, &t),
                21 => v = cert_verify(SERVER_SECRET, false, &t),
                22 => v = cert_verify(SERVER_SECRET, true, &t[..t.len() - 1]),
                23 => {
                    let i = pick("bit", 0, 15) as usize;
                    v[i / 8] ^= 1 << (i % 8);
                }
                24 => {
                    let i = pick("bit", 0, 15) as usize;
                    v[2 + i / 8] ^= 1 << (i % 8);
                }
                25 => v.truncate(pick("cut", 0, 9) as usize),
                26 => v.truncate(len - 1),
                27 => v = vec![4, 3, 0, 8, 0x30, 6, 2, 1, 0, 2, 1, 0],
                28 => v = vec![4, 3, 0, 8, 0x30, 6, 2, 1, 1, 2, 1, 1],
                29 => v[len - 1] ^= 1,
                _ => v[9] ^= 1,
            }
            let m = msg(15, &v);
            sealed(22, &m, 0);
            add(&m);
        }
        5 if k == 12 => {
            sealed(22, &msg(20, &[]), 0);
            n.stop = Some(0);
        }
        _ => {
            if n.stage == 2 {
                n.context = CONTEXT.to_vec();
            }
            sealed(22, &m, 0);
            add(&m);
            if n.stage == 5 {
                n.ts_app = n.ts.clone();
                if n.bad {
                    n.stop = Some(0);
                } else {
                    n.done = true;
                }
            }
        }
    }
    n.stage += 1;
}
fn run(cfg: ClientConfig, requested: bool, cert: bool) -> Option<TlsStream> {
    let mut r = connect(&cfg);
    let ok = outcome(&r);
    if ok {
        client_flight(requested, cert);
        exchange(r.as_mut().unwrap());
    } else if !net().ts_app.is_empty() && !is_sym() {
        eprintln!("refused");
    }
    std::mem::forget(cfg);
    match r {
        Ok(s) => Some(s),
        Err(_) => None,
    }
}
/// C18, C06, C19: a client against a server that does something else at the stages of a bit mask.
/// Params: suite, 1: the server asks for a certificate, 1: the client has one, mask of the free stages.
#[no_mangle]
pub extern "C" fn h_cli_order() {
    files();
    w().peer = Some(order_peer);
    let cfg = client_config(param(2) == 1).set_server_name("localhost".to_string()).build().unwrap();
    std::mem::forget(run(cfg, param(1) == 1, param(2) == 1));
}

fn hello_peer() {
    let n = net();
    if begin() {
        if n.stage == 2 {
            n.stage = 3;
        }
        let m = message(n.stage);
        sealed(22, &m, 0);
        add(&m);
        if n.stage == 5 {
            n.ts_app = n.ts.clone();
            n.done = true;
        }
        n.stage += 1;
        return;
    }
    let name = [None, Some(&b"a"[..]), Some(b"server.example.org")][param(0) as usize];
    let key = read_hello(name);
    let k = pick("hello", 0, 20);
    n.suite = SUITES[pick("suite", 0, if k == 0 { 2 } else { 0 }) as usize];
    let mut h = fine();
    match k {
        0 => {}
        1 => h.ext = [e_version(), e_share(0x1d, &public())].concat(),
        2 => {
            h.version = sym_u16("v");
            assume(h.version != 0x0303);
        }
        3 => {
            let x = sym_u8("sid");
            assume(x != 0);
            h.sid[pick("at", 0, 31) as usize] ^= x;
        }
        4 => h.sid.truncate([0, 1, 31][pick("len", 0, 2) as usize]),
        5 => h.sid.push(0),
        6 => {
            h.suite = sym_u16("suite");
            for s in SUITES {
                assume(h.suite != s);
            }
        }
        7 => {
            let x = sym_u16("version");
            assume(x != 0x0304);
            h.ext = [e_share(0x1d, &public()), ext(0x2b, &[(x >> 8) as u8, x as u8])].concat();
        }
        8 => h.ext = e_share(0x1d, &public()),
        9 => h.ext = e_version(),
        10 => {
            let x = sym_u16("group");
            assume(x != 0x1d);
            let mut s = share(0x1d, &public());
            s[0] = (x >> 8) as u8;
            s[1] = x as u8;
            h.ext = [ext(0x33, &s), e_version()].concat();
        }
        11 => {
            let l = [0, 1, 31, 33, 64][pick("len", 0, 4) as usize];
            h.ext = [e_share(0x1d, &vec![0x21; l]), e_version()].concat();
        }
        12 => {
            // points of small order
            let mut p = vec![0u8; 32];
            match pick("point", 0, 3) {
                0 => {}
                1 => p[0] = 1,
                2 => {
                    p = vec![0xff; 32];
                    p[0] = 0xec;
                    p[31] = 0x7f;
                }
                _ => {
                    p = vec![0xff; 32];
                    p[0] = 0xed;
                    p[31] = 0x7f;
                }
            }
            h.ext = [e_share(0x1d, &p), e_version()].concat();
        }
        13 => h.ext = [e_share(0x1d, &public()), ext(0x2b, &[3])].concat(),
        14 => h.ext = [e_share(0x1d, &public()), ext(0x2b, &[])].concat(),
        15 => h.ext.push(0),
        16 => h.ext = [e_share(0x1d, &public()), vec![0, 0x2b, 0, 3, 3, 4]].concat(),
        17 => h.ext = vec![],
        18 => {
            // the length of the share says less or more
            let mut s = share(0x1d, &public());
            s[3] = [31, 33][pick("len", 0, 1) as usize];
            h.ext = [ext(0x33, &s), e_version()].concat();
        }
        _ => {}
    }
    n.stage = 1;
    if k < 2 {
        say_hello(&h, &key);
        return;
    }
    n.stop = Some(0);
    let mut m = h.bytes();
    if k >= 19 {
        // cut off, anywhere, or with a wrong length of the extensions
        let l = m.len();
        if k == 19 {
            m.truncate(4 + pick("cut", 0, 85) as usize);
        } else {
            m[4 + 71] = 47;
        }
        assume(m.len() < l || k == 20);
        let b = m[4..].to_vec();
        m = msg(2, &b);
    }
    plain(22, &m);
}
/// C06: the ClientHello and what the client makes of a ServerHello. Param: server name.
#[no_mangle]
pub extern "C" fn h_cli_hello() {
    files();
    w().peer = Some(hello_peer);
    let mut b = client_config(false);
    match param(0) {
        0 => {}
        1 => b = b.set_server_name("a".to_string()),
        _ => b = b.set_server_name("server.example.org".to_string()),
    }
    std::mem::forget(run(b.build().unwrap(), false, false));
}

/// The next message of a genuine server; `n.stage` advances.
fn good() -> Vec<u8> {
    let n = net();
    if n.stage == 2 {
        if param(1) == 0 {
            n.stage = 3;
        } else {
            n.context = CONTEXT.to_vec();
        }
    }
    let m = message(n.stage);
    n.stage += 1;
    m
}
fn good_step() {
    let n = net();
    if n.stage == 0 {
        return answer(None);
    }
    if n.stage > 5 {
        return;
    }
    let m = good();
    sealed(22, &m, 0);
    add(&m);
    if n.stage == 6 {
        n.ts_app = n.ts.clone();
        n.done = true;
    }
}
fn finished_peer() {
    let n = net();
    begin();
    if n.stage == 5 {
        let (v, ok) = bent(&verify_data(true), pick("len", param(3), param(4)) as usize);
        let mut m = msg(20, &v);
        n.stage = 6;
        if ok {
            let g = msg(20, &verify_data(true));
            add(&g);
            n.ts_app = n.ts.clone();
            n.done = true;
            // the same bytes, on this path
            m = g;
        } else {
            n.stop = Some(51);
        }
        m.push(22);
        sealed_free(&m);
        return;
    }
    good_step();
}
/// C14: a client gets a Finished with free verify data. Params: suite, request, client certificate, range of lengths.
#[no_mangle]
pub extern "C" fn h_cli_finished() {
    files();
    w().peer = Some(finished_peer);
    let cfg = client_config(param(2) == 1).build().unwrap();
    std::mem::forget(run(cfg, param(1) == 1, param(2) == 1));
}
fn bytes_peer() {
    let n = net();
    if n.stage == 9 {
        return;
    }
    if n.stage > 0 {
        take();
    }
    if n.stage as u64 == param(2) {
        n.stage = 9;
        if param(2) == 0 {
            read_hello(None);
            n.suite = SUITES[param(0) as usize];
        }
        match param(3) {
            3 => {
                // a ServerHello with free extensions and a free window
                let mut h = fine();
                h.ext = sym_vec("x", pick("n", param(4), param(5)) as usize);
                plain(22, &h.bytes());
            }
            k => free_record(k, param(4), param(5)),
        }
        return;
    }
    good_step();
}
/// C03: a client gets a free record in some state. Params: suite, request, the state (0 ServerHello .. 5 Finished,
/// 6 application data), the kind of record, range of sizes.
#[no_mangle]
pub extern "C" fn h_cli_bytes() {
    files();
    w().peer = Some(bytes_peer);
    let cfg = client_config(true).build().unwrap();
    let mut r = connect(&cfg);
    match &mut r {
        Ok(s) => {
            check(param(2) == 6, "no handshake completes");
            take();
            app_keys();
            free_read(s);
        }
        Err(_) => {
            check(param(2) < 6, "a genuine handshake completes");
            reach("refused");
        }
    }
    std::mem::forget((r, cfg));
}
fn good_peer() {
    begin();
    good_step();
}
/// C28: the key log of a client. Params: suite, request, 1: logging enabled.
#[no_mangle]
pub extern "C" fn h_cli_keylog() {
    files();
    w().peer = Some(good_peer);
    let before = w().files.len();
    let mut b = client_config(param(1) == 1);
    if param(2) == 1 {
        b = b.set_keylog_path("/vh/keylog".to_string());
    }
    std::mem::forget(run(b.build().unwrap(), param(1) == 1, param(1) == 1));
    if param(2) == 1 {
        check_keylog();
    } else {
        check(w().files.len() == before, "no file is created");
        reach("not logged");
    }
}
/// The rest of the server's flight with the messages joined into records as the mask says, and application data.
fn flight(mask: u64, data: bool) {
    let n = net();
    let mut acc = vec![];
    let mut i = 0;
    while n.stage < 6 {
        let m = good();
        add(&m);
        acc.extend_from_slice(&m);
        if mask >> i & 1 == 1 || n.stage == 6 {
            sealed(22, &acc, 0);
            acc.clear();
        }
        i += 1;
    }
    n.ts_app = n.ts.clone();
    if data {
        // application keys for what follows, the client's flight is not looked at
        app_keys();
        sealed(23, b"first", 0);
        sealed(23, b"", 2);
        sealed(23, b"second", 0);
    }
    n.done = true;
}
fn cuts_peer() {
    let n = net();
    if n.stage > 0 {
        // only asked again once everything is read
        check(n.done, "everything is there");
        return;
    }
    answer(None);
    flight(param(3), true);
    let k = w().inp.len();
    w().read_cuts = cuts(param(2), k);
}
/// C21: the server's stream cut anywhere. Params: suite, request, how, which messages end a record.
#[no_mangle]
pub extern "C" fn h_cli_cuts() {
    files();
    w().peer = Some(cuts_peer);
    let cfg = client_config(true).build().unwrap();
    let mut r = connect(&cfg);
    match &mut r {
        Ok(s) => joined(s),
        Err(_) => check(false, "the handshake completes however the stream is cut"),
    }
    std::mem::forget((r, cfg));
}
fn join_peer() {
    let n = net();
    if begin() {
        let m = pick("join", 0, 15);
        flight(m, false);
        return;
    }
    answer(None);
    n.stage = 1;
}
/// C18: the messages of the server's flight in one record or several. Params: suite, request.
#[no_mangle]
pub extern "C" fn h_cli_join() {
    files();
    w().peer = Some(join_peer);
    let cfg = client_config(true).build().unwrap();
    std::mem::forget(run(cfg, param(1) == 1, true));
}
fn request_peer() {
    let n = net();
    if begin() && n.stage == 2 {
        let c: Vec<u8> = (0..param(3)).map(|i| 0xf0 ^ i as u8).collect();
        let k = pick("extensions", 0, 10);
        let (e, ok) = match k {
            0 => (e_algs(&[0x0403]), true),
            1 => ([ext(0x1234, &[1]), e_algs(&[0x0804, 0x0403])].concat(), true),
            2 => (vec![0, 0x0d, 0, 9, 1], false),
            3 => (vec![0x0d], false),
            _ => (vec![], false),
        };
        let mut m = request(&c, &e);
        // malformed as a whole
        let raw: [&[u8]; 7] = [&[], &[5], &[0], &[0, 0], &[0, 0, 1], &[255, 0, 0], &[1, 0]];
        if k > 3 {
            m = msg(13, raw[k as usize - 4]);
        }
        let mut i = m.clone();
        i.push(22);
        sealed_free(&i);
        add(&m);
        n.context = c;
        n.bad = !ok;
        n.stage = 3;
        return;
    }
    if n.stage == 5 && n.bad {
        let m = good();
        sealed_free(&[&m[..], &[22]].concat());
        n.stop = Some(0);
        return;
    }
    good_step();
}
/// The context of a CertificateRequest is echoed. Params: suite, 1, 1: the client has a certificate, length of the context.
#[no_mangle]
pub extern "C" fn h_cli_request() {
    files();
    w().peer = Some(request_peer);
    let cfg = client_config(param(2) == 1).build().unwrap();
    std::mem::forget(run(cfg, true, param(2) == 1));
}
