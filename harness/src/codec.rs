//! C26: Base64, hexadecimal, integer and DER signature encodings.
use crate::rt::*;
use anothertls::crypto::ellipticcurve::Signature;
use anothertls::utils::bytes::{self, ByteOrder};
use anothertls::utils::base64;
use ibig::{ibig, IBig};

crate::harnesses! { h_b64_enc, h_b64_dec, h_hex, h_ints, h_ibig, h_sig_der, h_sig_in, h_digits }

fn eqs(a: &[u8], b: &[u8], m: &str) {
    check(same(a, b), m);
}

fn ch(v: u8) -> u8 {
    let v = (v & 63) as u64;
    let (a, b, c) = (ite(v < 26, 65 + v, 97u64.wrapping_add(v).wrapping_sub(26)), ite(v < 62, 48u64.wrapping_add(v).wrapping_sub(52), 43), ite(v == 63, 47, 43));
    ite(v < 52, a, ite(v < 62, b, c)) as u8
}
fn spec_enc(x: &[u8]) -> Vec<u8> {
    let mut o = vec![];
    for c in x.chunks(3) {
        let g = |i: usize| *c.get(i).unwrap_or(&0);
        o.push(ch(g(0) >> 2));
        o.push(ch(g(0) << 4 | g(1) >> 4));
        o.push(if c.len() > 1 { ch(g(1) << 2 | g(2) >> 6) } else { b'=' });
        o.push(if c.len() > 2 { ch(g(2)) } else { b'=' });
    }
    o
}
/// Params: length, index of the free byte, context selector. The other bytes take fixed values.
#[no_mangle]
pub extern "C" fn h_b64_enc() {
    let n = param(0) as usize;
    let at = param(1) as usize;
    let fill = [0u8, 0xff, 0x5a][pick("fill", 0, 2) as usize];
    let mut x = vec![fill; n];
    if at < n {
        x[at] = sym_u8("b");
    }
    let e = base64::encode(&x);
    check_eq(e.as_bytes(), &spec_enc(&x), "Base64 of the bytes");
    let d = base64::decode(&e);
    check(d.is_some(), "decodes");
    check_eq(&d.unwrap_or_default(), &x, "decoding inverts encoding");
    reach("round trip");
}
/// Decoding text with free characters: what is accepted has only alphabet characters, padding at the end, and is the
/// encoding (up to the unused bits) of what comes out. Params: length, first free position, number of free ones.
#[no_mangle]
pub extern "C" fn h_b64_dec() {
    let n = param(0) as usize;
    let (at, k) = (param(1) as usize, param(2) as usize);
    let pad = pick("pad", 0, 2) as usize;
    let mut t = vec![b'r'; n];
    for i in 0..pad.min(n) {
        t[n - 1 - i] = b'=';
    }
    for i in at..(at + k).min(n) {
        let c = sym_u8("c");
        assume(c < 128);
        t[i] = c;
    }
    let r = base64::decode(std::str::from_utf8(&t).unwrap_or(""));
    // the specification
    let mut good = n % 4 == 0;
    let mut val = vec![];
    let mut pads = 0;
    for i in 0..n {
        let c = t[i];
        let alpha = (c >= b'A') & (c <= b'Z') | (c >= b'a') & (c <= b'z') | (c >= b'0') & (c <= b'9') | (c == b'+') | (c == b'/');
        let v = ite(c == b'/', 63, ite(c == b'+', 62, ite(c <= b'9', (c as u64).wrapping_add(4), ite(c <= b'Z', (c as u64).wrapping_sub(65), (c as u64).wrapping_sub(71)))));
        if c == b'=' {
            good &= i + 2 >= n;
            pads += 1;
        } else {
            good &= alpha && pads == 0;
        }
        val.push(v as u8);
    }
    match r {
        None => {
            check(!good, "well-formed Base64 is decoded");
            reach("rejected");
        }
        Some(d) => {
            check(good, "only well-formed Base64 is decoded");
            let mut want = vec![];
            for i in 0..n / 4 {
                let g = |j: usize| if t[4 * i + j] == b'=' { 0 } else { val[4 * i + j] };
                want.extend_from_slice(&[g(0) << 2 | g(1) >> 4, g(1) << 4 | g(2) >> 2, g(2) << 6 | g(3)]);
            }
            want.truncate((n / 4 * 3).saturating_sub(pads));
            check_eq(&d, &want, "the decoded bytes");
            reach("accepted");
        }
    }
}
fn hexd(v: u8) -> u8 {
    ite(v < 10, 48 + v as u64, 87 + v as u64) as u8
}
#[no_mangle]
pub extern "C" fn h_hex() {
    let n = pick("n", 0, param(0)) as usize;
    let x = sym_vec("x", n);
    let h = bytes::to_hex(&x);
    let mut want = vec![];
    for b in &x {
        want.push(hexd(b >> 4));
        want.push(hexd(b & 15));
    }
    check_eq(h.as_bytes(), &want, "lower-case hexadecimal of the bytes");
    let back = bytes::from_hex(std::str::from_utf8(&want).unwrap_or(""));
    check_eq(&back, &x, "from_hex inverts to_hex");
    reach("hex");
}
/// Fixed-width integer conversions on free bytes.
#[no_mangle]
pub extern "C" fn h_ints() {
    let x = sym::<16>("x");
    let v = u128::from_be_bytes(x);
    check(bytes::to_u128_be(&x) == v, "to_u128_be");
    check(bytes::to_u128_le(&x) == u128::from_le_bytes(x), "to_u128_le");
    check_eq(&bytes::u128_to_bytes_be(v), &x, "u128_to_bytes_be");
    let mut y = [0u8; 8];
    y.copy_from_slice(&x[..8]);
    check(bytes::to_u64_le(&x[..8]) == u64::from_le_bytes(y), "to_u64_le");
    check_eq(&bytes::u64_to_bytes_le(u64::from_le_bytes(y)), &y, "u64_to_bytes_le");
    check(bytes::to_u16(&x[..2]) == u16::from_be_bytes([x[0], x[1]]), "to_u16");
    let n = pick("n", 0, 16) as usize;
    let mut be = [0u8; 16];
    be[16 - n..].copy_from_slice(&x[..n]);
    check(bytes::to_u128_be_fill(&x[..n]) == u128::from_be_bytes(be), "to_u128_be_fill keeps the value of short input");
    let mut le = [0u8; 16];
    le[..n].copy_from_slice(&x[..n]);
    check(bytes::to_u128_le(&x[..n]) == u128::from_le_bytes(le), "to_u128_le of short input");
    reach("integers");
}
/// Big integers: n free bytes, big and little endian, fixed and minimal width.
#[no_mangle]
pub extern "C" fn h_ibig() {
    let n = pick("n", param(0), param(1)) as usize;
    let x = sym_vec("x", n);
    let (b, l) = (bytes::to_ibig_be(&x), bytes::to_ibig_le(&x));
    let fixed = pick("fixed", 0, 1) == 1;
    let mut rev = x.clone();
    rev.reverse();
    check(bytes::to_ibig_le(&rev) == b, "big and little endian agree");
    let mut w = [0u8; 32];
    let m = n.min(32);
    w[..m].copy_from_slice(&x[..m]);
    if fixed {
        if n <= 32 {
        eqs(&bytes::ibig_to_32bytes(l.clone(), ByteOrder::Little), &w, "32 little-endian bytes");
        let mut be = w;
        be.reverse();
        eqs(&bytes::ibig_to_32bytes(l.clone(), ByteOrder::Big), &be, "32 big-endian bytes");
        }
        reach("fixed width");
        return;
    }
    let v = bytes::ibig_to_vec(b.clone(), ByteOrder::Big);
    check(v.len() <= n, "no longer than the input");
    if v.len() <= n {
        check(same(&v, &x[n - v.len()..]), "the significant bytes");
        check(same(&vec![0u8; n - v.len()], &x[..n - v.len()]), "only zeros are dropped");
        check(v.is_empty() || v[0] != 0, "minimal");
    }
    let mut lv = bytes::ibig_to_vec(b, ByteOrder::Little);
    lv.reverse();
    eqs(&lv, &v, "the byte orders mirror each other");
    reach("integers");
}
fn der_int(x: &[u8]) -> Vec<u8> {
    let mut i = 0;
    while i < x.len() && x[i] == 0 {
        i += 1;
    }
    let m = &x[i..];
    let z = m.is_empty() || m[0] >= 128;
    let mut o = vec![2, (m.len() + z as usize) as u8];
    if z {
        o.push(0);
    }
    o.extend_from_slice(m);
    o
}
/// A signature with r and s of the given sizes (free bytes, leading zeros included). Params: r bytes lo hi, s bytes lo hi.
#[no_mangle]
pub extern "C" fn h_sig_der() {
    let (a, b) = (pick("a", param(0), param(1)) as usize, pick("b", param(2), param(3)) as usize);
    let (r, s) = (sym_vec("r", a), sym_vec("s", b));
    let sig = Signature::new(bytes::to_ibig_be(&s), bytes::to_ibig_be(&r));
    let der = sig.to_der();
    let (ri, si) = (der_int(&r), der_int(&s));
    let want = [&[0x30, (ri.len() + si.len()) as u8][..], &ri, &si].concat();
    eqs(&der, &want, "DER with minimal non-negative integers");
    // decoded in place, with other bytes behind it
    let more = [&want[..], &sym::<2>("tail")].concat();
    match Signature::from_der(&more) {
        Ok((g, used)) => {
            check(g.r == sig.r, "r");
            check(g.s == sig.s, "s");
            check(used == want.len(), "consumed bytes");
            reach("round trip");
        }
        Err(_) => check(false, "a signature is decoded"),
    }
}
/// Any bytes: what is accepted is two non-negative integers that fill the sequence.
#[no_mangle]
pub extern "C" fn h_sig_in() {
    let n = pick("n", 0, param(0)) as usize;
    let x = sym_vec("x", n);
    match Signature::from_der(&x) {
        Ok((g, used)) => {
            check(used <= n, "inside the input");
            check(g.r >= ibig!(0) && g.s >= ibig!(0), "non-negative");
            check(x[0] & 0x3f == 0x30, "a sequence");
            check(g.r < IBig::from(1) << (8 * n) && g.s < IBig::from(1) << (8 * n), "from the input");
            if x[1] < 128 && x[3] < 128 {
                let rl = conc(x[3] as u64) as usize;
                check(x[2] & 0x3f == 2 && x[4 + rl] & 0x3f == 2, "integers");
                check(used == 2 + x[1] as usize, "the sequence is filled");
                check(g.r == bytes::to_ibig_be(&x[4..4 + rl]), "r is the first integer");
                if x[5 + rl] < 128 {
                    check(used == 6 + rl + x[5 + rl] as usize, "s ends the sequence");
                }
            }
            reach("accepted");
        }
        Err(_) => reach("rejected"),
    }
}
#[no_mangle]
pub extern "C" fn h_digits() {
    let d = sym::<2>("d");
    assume(d[0] >= 48 && d[0] <= 57 && d[1] >= 48 && d[1] <= 57);
    let s = std::str::from_utf8(&d).unwrap_or("00");
    check(bytes::str_to_u8(&s[..1]) == d[0] - 48, "digit");
    check(bytes::str_to_u16(s) == (d[0] - 48) as u16 * 10 + (d[1] - 48) as u16, "two digits");
    reach("digits");
}
