//! C16: ECDSA on curves of small prime order, where everything is free, and the range checks of P-256.
use crate::rt::*;
use crate::spec::ec;
use crate::sys::w;
use anothertls::crypto::ellipticcurve::curve::Equation;
use anothertls::crypto::ellipticcurve::{math, Curve, Ecdsa, Point, PrivateKey, PublicKey, Signature};
use ibig::IBig;

crate::harnesses! { h_ec_verify, h_ec_key, h_ec_sign, h_ec_add, h_ec_mul, h_ec_range, h_ec_edge }

/// p, a, b, order, generator
const CURVES: [(i64, i64, i64, i64, (i64, i64)); 8] = [
    (5, 2, 1, 7, (0, 1)),
    (7, 0, 3, 13, (1, 2)),
    (11, 2, 7, 7, (6, 2)),
    (11, 6, 6, 7, (2, 2)),
    (17, 2, 6, 11, (1, 3)),
    (19, 2, 10, 17, (3, 9)),
    (23, 5, 22, 17, (3, 8)),
    (31, 1, 28, 23, (0, 11)),
];
struct Small {
    p: i64,
    a: i64,
    n: i64,
    /// k G for k in 1..n; nothing at 0
    pts: Vec<(i64, i64)>,
    c: Curve,
}
fn inv(x: i64, p: i64) -> i64 {
    (1..p).find(|i| (x * i).rem_euclid(p) == 1).unwrap_or(0)
}
fn plus(p: i64, a: i64, q: (i64, i64), r: (i64, i64)) -> (i64, i64) {
    let l = if q == r { (3 * q.0 * q.0 + a) * inv((2 * q.1).rem_euclid(p), p) } else { (r.1 - q.1) * inv((r.0 - q.0).rem_euclid(p), p) };
    let x = (l * l - q.0 - r.0).rem_euclid(p);
    (x, (l * (q.0 - x) - q.1).rem_euclid(p))
}
fn small() -> Small {
    let (p, a, b, n, g) = CURVES[param(0) as usize];
    let mut pts = vec![(0, 0), g];
    for k in 2..n {
        pts.push(plus(p, a, pts[k as usize - 1], g));
    }
    let i = |x: i64| IBig::from(x);
    let c = Curve { name: String::new(), equation: Equation::ShortWeierstrass, p: i(p), a: i(a), b: i(b), n: i(n), g: Point::new(i(g.0), i(g.1)) };
    Small { p, a, n, pts, c }
}
fn pt(q: (i64, i64)) -> Point {
    Point::new(q.0.into(), q.1.into())
}
/// The residue of a number, small enough for narrow arithmetic.
fn residue(z: &[u8], n: i64) -> u16 {
    let mut r = 0u16;
    for b in z {
        r = (r * 256 + *b as u16) % n as u16;
    }
    r
}
/// The ECDSA equation; r and s known numbers if they are in range.
fn valid(c: &Small, d: i64, r: i64, s: i64, z: &[u8]) -> bool {
    if d == 0 || r < 1 || r >= c.n || s < 1 || s >= c.n {
        return false;
    }
    let w = inv(s, c.n);
    let z = residue(z, c.n);
    let mut want = 0;
    for t in 0..c.n {
        let k = (t * w + r * w * d) % c.n;
        let v = k > 0 && c.pts[k as usize].0 % c.n == r;
        want = ite(z == t as u16, v as u64, want);
    }
    want == 1
}
/// One verification. Params: curve, range of private keys, 1: two-byte digests.
#[no_mangle]
pub extern "C" fn h_ec_verify() {
    let c = small();
    let d = pick("d", param(1), param(2).min(c.n as u64 - 1)) as i64;
    // every value in range by itself, the others together
    let one = |n: &str| {
        let v = sym_u8(n);
        if (v as i64) < c.n { conc(v as u64) as u8 } else { v }
    };
    let (r, s) = (one("r"), one("s"));
    let z = sym_vec("z", 1 + param(3) as usize);
    let ok = Ecdsa::verify(PublicKey::new(pt(c.pts[d as usize]), c.c.clone()), &Signature::new(IBig::from(s), IBig::from(r)), &z);
    let want = valid(&c, d, r as i64, s as i64, &z);
    check(ok == want, "exactly the valid signatures");
    reach(if ok { "valid" } else { "not valid" });
    std::mem::forget(c);
}
/// Keys that are not points of the curve.
#[no_mangle]
pub extern "C" fn h_ec_key() {
    let c = small();
    let (x, y) = (sym_u8("x"), sym_u8("y"));
    let (r, s) = (pick("r", 1, c.n as u64 - 1), pick("s", 1, 2));
    let (xx, yy) = (x as i64, y as i64);
    let on = xx < c.p && yy < c.p && (yy * yy - xx * xx * xx - c.a * xx - CURVES[param(0) as usize].2).rem_euclid(c.p) == 0;
    assume(!on);
    check(!Ecdsa::verify(PublicKey::new(Point::new(x.into(), y.into()), c.c.clone()), &Signature::new(IBig::from(s), IBig::from(r)), &[7]), "no point of the curve, not valid");
    check(!c.c.contains(&Point::new(x.into(), y.into())), "not on the curve");
    reach("not valid");
    std::mem::forget(c);
}
/// A signature by a free private key with a free nonce, over a free digest. Params: curve, range of private keys, 1: digests
/// below twice the order, one by one.
#[no_mangle]
pub extern "C" fn h_ec_sign() {
    let c = small();
    let d = pick("d", param(1), param(2).min(c.n as u64 - 1)) as i64;
    let mut z = sym_u8("z");
    if param(3) == 1 {
        assume((z as i64) < 2 * c.n);
        z = conc(z as u64) as u8;
    }
    // the random numbers: a free one, then others
    let mut first = vec![0u8; 32];
    let k = pick("k", 0, c.n as u64) as u8;
    first[31] = k;
    w().rnd_script = first;
    let key = PrivateKey::new(c.c.clone(), d.into());
    let q = key.get_public_key().point;
    check(q == pt(c.pts[d as usize]), "public key");
    let g = Ecdsa::urandom().sign(&key, &[z]);
    match g {
        Ok(g) => {
            let n = IBig::from(c.n);
            check(g.r > 0.into() && g.r < n && g.s > 0.into() && g.s < n, "in range");
            let (r, s) = (conc(u64::try_from(&g.r).unwrap_or(0)) as i64, conc(u64::try_from(&g.s).unwrap_or(0)) as i64);
            let want = valid(&c, d, r, s, &[z]);
            check(want, "a valid signature");
            check(Ecdsa::verify(key.get_public_key(), &g, &[z]), "the signature is accepted");
            reach("signed");
        }
        Err(_) => check(false, "a signature"),
    }
    std::mem::forget((c, key));
}
/// The sum of any two points, the neutral element being (0, 0).
#[no_mangle]
pub extern "C" fn h_ec_add() {
    let c = small();
    let (i, j) = (pick("i", 0, c.n as u64 - 1) as usize, pick("j", 0, c.n as u64 - 1) as usize);
    let r = math::add(pt(c.pts[i]), pt(c.pts[j]), &c.c);
    check(r == pt(c.pts[(i + j) % c.n as usize]), "sum");
    reach("sum");
    std::mem::forget(c);
}
/// Any multiple of any point.
#[no_mangle]
pub extern "C" fn h_ec_mul() {
    let c = small();
    let i = pick("i", 0, c.n as u64 - 1) as i64;
    let k = sym_vec("k", 1 + param(1) as usize);
    let kr = residue(&k, c.n);
    let r = math::multiply(&pt(c.pts[i as usize]), ec::big(&k), &c.c);
    let mut want = (0, 0);
    for k in 1..c.n {
        let q = c.pts[(k * i % c.n) as usize];
        want = (ite(kr == k as u16, q.0 as u64, want.0), ite(kr == k as u16, q.1 as u64, want.1));
    }
    check(r.x == want.0.into() && r.y == want.1.into(), "multiple");
    reach("multiple");
    std::mem::forget(c);
}
fn p256_key(d: &IBig) -> PublicKey {
    let c = ec::p256();
    let (x, y) = ec::public(&c, d).unwrap_or_default();
    PublicKey::new(Point::new(x, y), Curve::secp256r1())
}
/// P-256: r, s or a coordinate of the key out of range, anything else genuine. Params: which.
#[no_mangle]
pub extern "C" fn h_ec_range() {
    let c = ec::p256();
    let d = IBig::from(0x1234_5678u32);
    let z = ec::big(&[0x5a; 32]);
    let (mut r, mut s) = ec::sign(&c, &d, &IBig::from(77), &z);
    let mut k = p256_key(&d);
    let v = ec::big(&sym_vec("v", 33));
    match param(0) {
        0 | 1 => {
            assume(v == 0.into() || v >= c.n);
            if param(0) == 0 { r = v } else { s = v }
        }
        2 | 3 => {
            assume(v >= c.p);
            if param(0) == 2 { k.point.x = v } else { k.point.y = v }
        }
        _ => {
            if param(0) == 4 { r = -&r - v } else { s = -&s - v }
        }
    }
    check(!Ecdsa::verify(k, &Signature::new(s, r), &[0x5a; 32]), "out of range, not valid");
    reach("not valid");
}
/// P-256 at the edges: keys 1 and n - 1, nonces that make the two halves of the sum equal or opposite, digests 0, n and the largest. Params: which key, which nonce.
#[no_mangle]
pub extern "C" fn h_ec_edge() {
    let c = ec::p256();
    let one = IBig::from(1);
    let d = [one.clone(), IBig::from(2), &c.n - IBig::from(1), ec::big(&[0x42; 32])][param(0) as usize].clone();
    let k = [one.clone(), IBig::from(2), &c.n - IBig::from(1), ec::big(&[0x17; 32])][param(1) as usize].clone();
    let r = ec::md(ec::public(&c, &k).unwrap_or_default().0, &c.n);
    let z = match pick("z", 0, 5) {
        0 => IBig::from(0),
        1 => c.n.clone(),
        2 => ec::big(&[0xff; 32]),
        // u1 G = u2 Q
        3 => ec::md(&r * &d, &c.n),
        // u1 G = -u2 Q: no valid signature
        4 => ec::md(-(&r * &d), &c.n),
        _ => ec::big(&[0x5a; 32]),
    };
    let (r, s) = ec::sign(&c, &d, &k, &z);
    let zb = ec::bytes(&z, 32);
    let bad = [IBig::from(0), one.clone(), &c.n - &r, &c.n - &one][pick("bad", 0, 3) as usize].clone();
    let q = ec::public(&c, &d).unwrap_or_default();
    for (rr, ss) in [(ec::md(&r + &bad, &c.n), s.clone()), (r.clone(), ec::md(&s + &bad, &c.n)), (r.clone(), &c.n - &s)] {
        let want = ec::verify(&c, &q, &rr, &ss, &z);
        let got = Ecdsa::verify(p256_key(&d), &Signature::new(ss, rr), &zb);
        check(got == want, "exactly the valid signatures");
        reach(if got { "valid" } else { "not valid" });
    }
}
