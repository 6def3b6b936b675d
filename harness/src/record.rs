//! C07, C08: record protection through RecordPayloadProtection.
use crate::rt::*;
use crate::spec;
use anothertls::crypto::{Cipher, CipherSuite};
use anothertls::hash::{HashType, Hkdf};
use anothertls::net::alert::TlsError;
use anothertls::net::key_schedule::{Key, KeySchedule, WriteKeys};
use anothertls::net::record::{Record, RecordPayloadProtection, RecordType, Value};
use std::cell::RefCell;
use std::sync::Arc;

crate::harnesses! { h_rec_seal, h_rec_open, h_rec_plain, h_rec_order, h_nonce, h_nonce_count, h_nonce_spy, h_rec_long }

fn pat(n: usize, k: u8) -> Vec<u8> {
    (0..n).map(|i| (i as u8).wrapping_mul(7).wrapping_add(k.wrapping_mul(41))).collect()
}
/// Traffic secrets of the fixed connection: 0 client handshake, 1 server handshake, 2 master, application below.
struct Keys {
    h: usize,
    c: (Vec<u8>, Vec<u8>),
    s: (Vec<u8>, Vec<u8>),
}
fn keys(suite: u16, app: bool) -> Keys {
    let h = spec::hash_len(suite);
    let kl = spec::key_len(suite);
    let (c, s) = if app {
        let t = suite_hash(suite);
        spec::app_secrets(h, &pat(h, 3), &t)
    } else {
        (pat(h, 1), pat(h, 2))
    };
    Keys { h, c: spec::key_iv(h, &c, kl), s: spec::key_iv(h, &s, kl) }
}
fn suite_hash(suite: u16) -> Vec<u8> {
    spec::sha(spec::hash_len(suite), b"transcript")
}
fn rpp(suite: u16, is_client: bool, app: bool) -> RecordPayloadProtection {
    let cs = CipherSuite::new(suite).unwrap();
    let h = spec::hash_len(suite);
    let t = if h == 32 { HashType::SHA256 } else { HashType::SHA384 };
    let k = KeySchedule {
        client_handshake_traffic_secret: Hkdf::from_prk(t, pat(h, 1)),
        server_handshake_traffic_secret: Hkdf::from_prk(t, pat(h, 2)),
        hkdf_master_secret: Hkdf::from_prk(t, pat(h, 3)),
    };
    let mut r = RecordPayloadProtection::new(k, cs.get_cipher().unwrap(), is_client).unwrap();
    if app {
        let mut th = cs.get_tshash().unwrap();
        th.update(b"transcript");
        check(r.generate_application_keys(th.as_ref()).is_ok(), "application keys");
    }
    r
}
fn header(n: usize) -> [u8; 5] {
    [23, 3, 3, (n >> 8) as u8, n as u8]
}
fn typ(t: u8) -> RecordType {
    RecordType::new(t).unwrap()
}
/// What a peer would send: the record with the given inner plaintext.
fn sealed(suite: u16, k: &(Vec<u8>, Vec<u8>), seq: u64, head: &[u8], inner: &[u8]) -> (Vec<u8>, [u8; 16]) {
    spec::seal(suite, &k.0, &spec::nonce(&k.1, seq), head, inner)
}
fn deliver(r: &mut RecordPayloadProtection, bytes: &[u8]) -> Result<(RecordType, Vec<u8>), TlsError> {
    let (used, rec) = Record::from_raw(bytes)?;
    check(used == bytes.len(), "the record is read completely");
    r.decrypt(rec)
}
/// Sealing at a position, then opening at the peer. Params: suite, data length lo hi, position.
#[no_mangle]
pub extern "C" fn h_rec_seal() {
    let suite = param(0) as u16;
    let n = pick("n", param(1), param(2)) as usize;
    let is_client = pick("client", 0, 1) == 1;
    let app = pick("app", 0, 1) == 1;
    let t = [20u8, 21, 22, 23][pick("type", 0, 3) as usize];
    let pos = param(3);
    let data = sym_vec("data", n);
    let k = keys(suite, app);
    let mine = if is_client { &k.c } else { &k.s };
    let (mut tx, mut rx) = (rpp(suite, is_client, app), rpp(suite, !is_client, app));
    for i in 0..pos {
        let e = tx.encrypt(Record::new(typ(22), Value::Ref(&[i as u8]))).unwrap();
        let d = deliver(&mut rx, &e);
        check(d.map(|d| d.1 == [i as u8]).unwrap_or(false), "an earlier record");
    }
    let r = if t == 22 { tx.encrypt_handshake(&data) } else { tx.encrypt(Record::new(typ(t), Value::Ref(&data))) };
    check(r.is_ok(), "protects");
    let got = r.unwrap_or_default();
    let mut inner = data.clone();
    inner.push(t);
    let head = header(n + 17);
    let (ct, tag) = sealed(suite, mine, pos, &head, &inner);
    check_eq(&got, &[&head[..], &ct, &tag].concat(), "the protected record");
    emit(&got);
    match deliver(&mut rx, &got) {
        Ok((rt, d)) => {
            check(rt as u8 == t, "content type");
            check_eq(&d, &data, "content");
            reach("delivered");
        }
        Err(_) => check(false, "the peer opens the record"),
    }
    // replayed, it is not accepted again (with more free bytes some content collides)
    if n < 3 {
        check(deliver(&mut rx, &got).is_err(), "no replay");
    }
}
/// Opening: free inner plaintext (with its padding), free header version and a free difference to the right tag.
/// Params: suite, length lo hi, position, how far off the position may be, whether the direction may be wrong.
#[no_mangle]
pub extern "C" fn h_rec_open() {
    let suite = param(0) as u16;
    let n = pick("n", param(1), param(2)) as usize;
    let is_client = pick("client", 0, 1) == 1;
    let app = pick("app", 0, 1) == 1;
    let pos = param(3);
    let k = keys(suite, app);
    let peer = if is_client { &k.s } else { &k.c };
    let mut rx = rpp(suite, is_client, app);
    for i in 0..pos {
        let h = header(18);
        let (c, t) = sealed(suite, peer, i, &h, &[i as u8, 22]);
        check(deliver(&mut rx, &[&h[..], &c, &t].concat()).is_ok(), "an earlier record");
    }
    let inner = sym_vec("inner", n);
    let mut head = header(n + 16);
    sym_into("ver", &mut head[1..3]);
    // the position the record was sealed for, and the direction
    let seq = pos + pick("shift", 0, param(4));
    let own = pick("own", 0, param(5)) == 1;
    let (ct, tag) = sealed(suite, if own { if is_client { &k.c } else { &k.s } } else { peer }, seq, &head, &inner);
    let d = sym::<16>("d");
    let mut t = tag;
    for i in 0..16 {
        t[i] ^= d[i];
    }
    let right = spec::unseal(suite, &peer.0, &spec::nonce(&peer.1, pos), &head, &ct).1;
    let good = same(&t, &right);
    let r = deliver(&mut rx, &[&head[..], &ct, &t].concat());
    let end = (0..n).rev().find(|i| inner[*i] != 0);
    match r {
        Ok((rt, data)) => {
            check(good, "only the right tag is accepted");
            if own || seq != pos {
                return;
            }
            match end {
                Some(e) => {
                    check(rt as u8 == inner[e], "content type");
                    check_eq(&data, &inner[..e], "content without padding");
                    reach("opened");
                }
                None => {
                    check(rt == RecordType::Invalid && data.is_empty(), "only padding: nothing delivered");
                    reach("padding");
                }
            }
        }
        Err(_) => {
            check(!good || (!own && seq == pos && end.map(|e| RecordType::new(inner[e]).is_err()).unwrap_or(false)) || own || seq != pos, "a good record is accepted");
            reach("refused");
        }
    }
}
/// Records that are not protected are never accepted once keys exist, and short ones are refused.
#[no_mangle]
pub extern "C" fn h_rec_plain() {
    let is_client = pick("client", 0, 1) == 1;
    let app = pick("app", 0, 1) == 1;
    let mut rx = rpp(0x1303, is_client, app);
    let n = pick("n", 0, 20) as usize;
    let b = sym_vec("b", 5 + n);
    if let Ok((_, rec)) = Record::from_raw(&b) {
        let (ct, len) = (rec.content_type, rec.len);
        let r = rx.decrypt(rec);
        if ct != RecordType::ApplicationData {
            check(r.is_err(), "unprotected records are refused");
            reach("plain");
        } else if len < 16 {
            check(r.is_err(), "short records are refused");
            reach("short");
        }
    }
}
/// Three records: whatever is delivered is what was sent at that position; any order but the sent one stops it.
#[no_mangle]
pub extern "C" fn h_rec_order() {
    let suite = param(0) as u16;
    let is_client = pick("client", 0, 1) == 1;
    let (mut tx, mut rx) = (rpp(suite, is_client, true), rpp(suite, !is_client, true));
    let mut sent = vec![];
    for i in 0..3u8 {
        let data = sym_vec("data", 2);
        sent.push((data.clone(), tx.encrypt(Record::new(typ(23), Value::Ref(&data))).unwrap(), i));
    }
    for j in 0..3 {
        let i = pick("next", 0, 2) as usize;
        match deliver(&mut rx, &sent[i].1) {
            Ok((t, d)) => {
                check(i == j, "in order only");
                check(t == RecordType::ApplicationData, "type");
                check_eq(&d, &sent[j].0, "content");
                if j == 2 {
                    reach("all");
                }
            }
            Err(_) => {
                check(i != j, "the next record is accepted");
                reach("refused");
                return;
            }
        }
    }
}
/// A long record: params suite, length, free bytes at the end.
#[no_mangle]
pub extern "C" fn h_rec_long() {
    let suite = param(0) as u16;
    let n = param(1) as usize;
    let is_client = pick("client", 0, 1) == 1;
    let mut data = pat(n, 9);
    sym_into("tail", &mut data[n - 2..]);
    let k = keys(suite, true);
    let mine = if is_client { &k.c } else { &k.s };
    let (mut tx, mut rx) = (rpp(suite, is_client, true), rpp(suite, !is_client, true));
    let got = tx.encrypt(Record::new(typ(23), Value::Ref(&data))).unwrap_or_default();
    let head = header(n + 17);
    let (ct, tag) = sealed(suite, mine, 0, &head, &[&data[..], &[23]].concat());
    check_eq(&got, &[&head[..], &ct, &tag].concat(), "the protected record");
    let d = deliver(&mut rx, &got);
    check(d.is_ok(), "opens");
    check_eq(&d.map(|d| d.1).unwrap_or_default(), &data, "content");
    reach("long");
}

fn some_key(iv: [u8; 12]) -> Key {
    let mut k = Key::from_hkdf(&Hkdf::from_prk(HashType::SHA256, vec![7; 32]), 16, 12).unwrap();
    k.iv = iv;
    k
}
const W: usize = std::mem::size_of::<Key>() / 8;
fn words(k: &Key) -> [u64; W] {
    let mut o = [0; W];
    for i in 0..W {
        o[i] = unsafe { std::ptr::read_volatile((k as *const Key as *const u64).add(i)) };
    }
    o
}
/// Every record number: the nonce is the write IV xor the number, and the number goes up by one or the call fails.
/// The private counter is found as the one word of the key that goes 0, 1, 2.
#[no_mangle]
pub extern "C" fn h_nonce() {
    let mut k = some_key([9; 12]);
    let a = words(&k);
    let _ = k.get_per_record_nonce();
    let b = words(&k);
    let _ = k.get_per_record_nonce();
    let c = words(&k);
    let at: Vec<usize> = (0..W).filter(|i| a[*i] == 0 && b[*i] == 1 && c[*i] == 2).collect();
    if at.len() != 1 {
        // another representation: h_nonce_count covers the first numbers
        reach("nonce");
        reach("limit");
        return;
    }
    let seq = sym_u64("seq");
    k.iv = sym("iv");
    let iv = k.iv;
    unsafe { std::ptr::write_volatile((&mut k as *mut Key as *mut u64).add(at[0]), seq) };
    let r = k.get_per_record_nonce();
    match r {
        Ok(n) => {
            check_eq(&n, &spec::nonce(&iv, seq), "nonce");
            match k.get_per_record_nonce() {
                Ok(m) => {
                    check(seq != u64::MAX, "the number never wraps");
                    check_eq(&m, &spec::nonce(&iv, seq.wrapping_add(1)), "the next nonce");
                    reach("nonce");
                }
                Err(_) => {
                    check(seq >= u64::MAX - 1, "only the last number ends the connection");
                    reach("limit");
                }
            }
        }
        Err(_) => {
            check(seq == u64::MAX, "only the last number is refused");
            reach("limit");
        }
    }
    check(same(&k.iv, &iv), "the IV stays");
}
/// The first records from a fresh key, one by one.
#[no_mangle]
pub extern "C" fn h_nonce_count() {
    let iv = sym::<12>("iv");
    let mut k = some_key(iv);
    for s in 0..param(0) {
        let n = k.get_per_record_nonce();
        check(n.is_ok(), "a nonce");
        check_eq(&n.unwrap_or_default(), &spec::nonce(&iv, s), "nonce");
    }
    reach("nonces");
}
/// A cipher that notes what it was asked to do.
struct Spy(RefCell<Vec<(bool, Vec<u8>, Vec<u8>)>>);
unsafe impl Send for Spy {}
unsafe impl Sync for Spy {}
impl Cipher for Spy {
    fn encrypt(&self, key: &[u8], iv: &[u8], pt: &[u8], _a: &[u8]) -> Result<(Vec<u8>, [u8; 16]), TlsError> {
        self.0.borrow_mut().push((true, key.to_vec(), iv.to_vec()));
        Ok((pt.to_vec(), [1; 16]))
    }
    fn decrypt(&self, key: &[u8], iv: &[u8], ct: &[u8], _a: &[u8], _t: &[u8]) -> Result<Vec<u8>, TlsError> {
        self.0.borrow_mut().push((false, key.to_vec(), iv.to_vec()));
        if ct.first() == Some(&0xee) {
            return Err(TlsError::BadRecordMac);
        }
        Ok(ct.to_vec())
    }
    fn get_cipher_suite(&self) -> CipherSuite {
        CipherSuite::TLS_AES_128_GCM_SHA256
    }
}
/// Every sequence of sends, receives and a key change, with free keys and IVs: which key and nonce is used.
#[no_mangle]
pub extern "C" fn h_nonce_spy() {
    let is_client = pick("client", 0, 1) == 1;
    let steps = param(0);
    let spy = Arc::new(Spy(RefCell::new(vec![])));
    let mut r = rpp(0x1301, is_client, false);
    r.cipher = spy.clone();
    let free = |w: &mut WriteKeys| {
        w.client.key = sym_vec("ck", 16);
        w.client.iv = sym("civ");
        w.server.key = sym_vec("sk", 16);
        w.server.iv = sym("siv");
    };
    let snap = |w: &WriteKeys| ((w.client.key.clone(), w.client.iv), (w.server.key.clone(), w.server.iv));
    free(&mut r.handshake_keys);
    let mut k = snap(&r.handshake_keys);
    let (mut tx, mut rx) = (0u64, 0u64);
    let mut app = false;
    for _ in 0..steps {
        let op = pick("op", 0, 3);
        spy.0.borrow_mut().clear();
        let (mine, peer) = if is_client { (&k.0, &k.1) } else { (&k.1, &k.0) };
        match op {
            0 => {
                let _ = r.encrypt(Record::new(typ(23), Value::Ref(&[5, 6])));
                let l = spy.0.borrow();
                check(l.len() == 1 && l[0].0, "one encryption");
                check_eq(&l[0].1, &mine.0, "own write key");
                check_eq(&l[0].2, &spec::nonce(&mine.1, tx), "send nonce");
                tx += 1;
            }
            1 | 2 => {
                let b = [23, 3, 3, 0, 18, if op == 1 { 7 } else { 0xee }, 22, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1];
                let res = deliver(&mut r, &b);
                check(res.is_ok() == (op == 1), "the cipher's verdict");
                let l = spy.0.borrow();
                check(l.len() == 1 && !l[0].0, "one decryption");
                check_eq(&l[0].1, &peer.0, "the peer's write key");
                check_eq(&l[0].2, &spec::nonce(&peer.1, rx), "receive nonce");
                rx += 1;
                if op == 2 {
                    return; // a connection ends here
                }
            }
            _ => {
                if app {
                    continue;
                }
                let th = CipherSuite::new(0x1301).unwrap().get_tshash().unwrap();
                check(r.generate_application_keys(th.as_ref()).is_ok(), "key change");
                let w = r.application_keys.as_mut().unwrap();
                free(w);
                k = snap(w);
                app = true;
                tx = 0;
                rx = 0;
            }
        }
    }
    reach(if app { "application" } else { "handshake" });
}
