//! Fixed-width bit-vector values (little-endian u64 limbs), used for constants and model evaluation.

pub fn limbs(w: u32) -> usize {
    ((w as usize) + 63) / 64
}
pub fn mask64(w: u32) -> u64 {
    if w >= 64 {
        !0
    } else {
        (1u64 << w) - 1
    }
}

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum Bv {
    S(u64),
    L(Box<[u64]>),
}

fn trim_top(w: u32, v: &mut [u64]) {
    let r = w % 64;
    if r != 0 {
        let n = v.len();
        v[n - 1] &= mask64(r);
    }
}

impl Bv {
    pub fn new(w: u32, v: u64) -> Bv {
        if w <= 64 {
            Bv::S(v & mask64(w))
        } else {
            let mut x = vec![0u64; limbs(w)];
            x[0] = v;
            Bv::L(x.into_boxed_slice())
        }
    }
    pub fn from_limbs(w: u32, v: &[u64]) -> Bv {
        if w <= 64 {
            Bv::S(v.first().copied().unwrap_or(0) & mask64(w))
        } else {
            let n = limbs(w);
            let mut x = vec![0u64; n];
            for i in 0..n.min(v.len()) {
                x[i] = v[i];
            }
            trim_top(w, &mut x);
            Bv::L(x.into_boxed_slice())
        }
    }
    pub fn from_u128(w: u32, v: u128) -> Bv {
        Bv::from_limbs(w, &[v as u64, (v >> 64) as u64])
    }
    pub fn ones(w: u32) -> Bv {
        if w <= 64 {
            Bv::S(mask64(w))
        } else {
            Bv::from_limbs(w, &vec![!0u64; limbs(w)])
        }
    }
    pub fn sl(&self) -> &[u64] {
        match self {
            Bv::S(v) => std::slice::from_ref(v),
            Bv::L(b) => b,
        }
    }
    pub fn lo64(&self) -> u64 {
        self.sl()[0]
    }
    pub fn to_u128(&self) -> u128 {
        let s = self.sl();
        s[0] as u128 | (if s.len() > 1 { (s[1] as u128) << 64 } else { 0 })
    }
    pub fn is_zero(&self) -> bool {
        self.sl().iter().all(|x| *x == 0)
    }
    pub fn is_one(&self) -> bool {
        let s = self.sl();
        s[0] == 1 && s[1..].iter().all(|x| *x == 0)
    }
    pub fn is_ones(&self, w: u32) -> bool {
        *self == Bv::ones(w)
    }
    pub fn bit(&self, i: u32) -> bool {
        (self.sl()[(i / 64) as usize] >> (i % 64)) & 1 == 1
    }
    pub fn fits64(&self) -> bool {
        self.sl()[1..].iter().all(|x| *x == 0)
    }
    /// number of significant bits
    pub fn bits(&self) -> u32 {
        let s = self.sl();
        for i in (0..s.len()).rev() {
            if s[i] != 0 {
                return (i as u32) * 64 + 64 - s[i].leading_zeros();
            }
        }
        0
    }
}

macro_rules! bitop {
    ($n:ident,$op:tt) => {
        pub fn $n(w: u32, a: &Bv, b: &Bv) -> Bv {
            match (a, b) {
                (Bv::S(x), Bv::S(y)) => Bv::S((x $op y) & mask64(w)),
                _ => { let v: Vec<u64> = a.sl().iter().zip(b.sl()).map(|(x,y)| x $op y).collect(); Bv::from_limbs(w,&v) }
            }
        }
    };
}
bitop!(and, &);
bitop!(or, |);
bitop!(xor, ^);
pub fn not(w: u32, a: &Bv) -> Bv {
    xor(w, a, &Bv::ones(w))
}
pub fn add(w: u32, a: &Bv, b: &Bv) -> Bv {
    match (a, b) {
        (Bv::S(x), Bv::S(y)) => Bv::S(x.wrapping_add(*y) & mask64(w)),
        _ => {
            let mut c = 0u128;
            let mut o = Vec::with_capacity(limbs(w));
            for (x, y) in a.sl().iter().zip(b.sl()) {
                let s = *x as u128 + *y as u128 + c;
                o.push(s as u64);
                c = s >> 64;
            }
            Bv::from_limbs(w, &o)
        }
    }
}
pub fn neg(w: u32, a: &Bv) -> Bv {
    add(w, &not(w, a), &Bv::new(w, 1))
}
pub fn sub(w: u32, a: &Bv, b: &Bv) -> Bv {
    match (a, b) {
        (Bv::S(x), Bv::S(y)) => Bv::S(x.wrapping_sub(*y) & mask64(w)),
        _ => add(w, a, &neg(w, b)),
    }
}
pub fn mul(w: u32, a: &Bv, b: &Bv) -> Bv {
    match (a, b) {
        (Bv::S(x), Bv::S(y)) => Bv::S(x.wrapping_mul(*y) & mask64(w)),
        _ => {
            let n = limbs(w);
            let (x, y) = (a.sl(), b.sl());
            let mut o = vec![0u64; n];
            for i in 0..n {
                if x[i] == 0 {
                    continue;
                }
                let mut c = 0u128;
                for j in 0..n - i {
                    let t = x[i] as u128 * y[j] as u128 + o[i + j] as u128 + c;
                    o[i + j] = t as u64;
                    c = t >> 64;
                }
            }
            Bv::from_limbs(w, &o)
        }
    }
}
pub fn ult(a: &Bv, b: &Bv) -> bool {
    match (a, b) {
        (Bv::S(x), Bv::S(y)) => x < y,
        _ => {
            let (x, y) = (a.sl(), b.sl());
            for i in (0..x.len()).rev() {
                if x[i] != y[i] {
                    return x[i] < y[i];
                }
            }
            false
        }
    }
}
pub fn slt(w: u32, a: &Bv, b: &Bv) -> bool {
    let (sa, sb) = (a.bit(w - 1), b.bit(w - 1));
    if sa != sb {
        return sa;
    }
    ult(a, b)
}
pub fn shl(w: u32, a: &Bv, s: u32) -> Bv {
    if s >= w {
        return Bv::new(w, 0);
    }
    match a {
        Bv::S(x) => Bv::S((x << s) & mask64(w)),
        Bv::L(x) => {
            let n = x.len();
            let (q, r) = ((s / 64) as usize, s % 64);
            let mut o = vec![0u64; n];
            for i in q..n {
                o[i] = x[i - q] << r;
                if r != 0 && i > q {
                    o[i] |= x[i - q - 1] >> (64 - r);
                }
            }
            Bv::from_limbs(w, &o)
        }
    }
}
pub fn lshr(w: u32, a: &Bv, s: u32) -> Bv {
    if s >= w {
        return Bv::new(w, 0);
    }
    match a {
        Bv::S(x) => Bv::S(x >> s),
        Bv::L(x) => {
            let n = x.len();
            let (q, r) = ((s / 64) as usize, s % 64);
            let mut o = vec![0u64; n];
            for i in 0..n - q {
                o[i] = x[i + q] >> r;
                if r != 0 && i + q + 1 < n {
                    o[i] |= x[i + q + 1] << (64 - r);
                }
            }
            Bv::from_limbs(w, &o)
        }
    }
}
pub fn ashr(w: u32, a: &Bv, s: u32) -> Bv {
    let neg_ = a.bit(w - 1);
    let s = s.min(w);
    let r = lshr(w, a, s);
    if neg_ && s > 0 {
        let m = not(w, &lshr(w, &Bv::ones(w), s));
        or(w, &r, &m)
    } else {
        r
    }
}
pub fn zext(_w: u32, nw: u32, a: &Bv) -> Bv {
    Bv::from_limbs(nw, a.sl())
}
pub fn sext(w: u32, nw: u32, a: &Bv) -> Bv {
    if a.bit(w - 1) {
        let z = zext(w, nw, a);
        or(nw, &z, &shl(nw, &Bv::ones(nw), w))
    } else {
        zext(w, nw, a)
    }
}
/// bits [lo, lo+w) of a (of width aw)
pub fn extract(aw: u32, a: &Bv, lo: u32, w: u32) -> Bv {
    match a {
        Bv::S(x) => Bv::S((x >> lo) & mask64(w)),
        Bv::L(x) => {
            if w <= 64 {
                let (q, r) = ((lo / 64) as usize, lo % 64);
                let mut v = x[q] >> r;
                if r != 0 && q + 1 < x.len() {
                    v |= x[q + 1] << (64 - r);
                }
                Bv::S(v & mask64(w))
            } else {
                let s = lshr(aw, a, lo);
                Bv::from_limbs(w, &s.sl()[..limbs(w)])
            }
        }
    }
}
/// hi ++ lo
pub fn concat(hw: u32, h: &Bv, lw: u32, l: &Bv) -> Bv {
    let w = hw + lw;
    if w <= 64 {
        return Bv::S((h.lo64() << lw) | l.lo64());
    }
    let hh = shl(w, &zext(hw, w, h), lw);
    or(w, &hh, &zext(lw, w, l))
}
fn divrem(w: u32, a: &Bv, b: &Bv) -> (Bv, Bv) {
    // b != 0
    match (a, b) {
        (Bv::S(x), Bv::S(y)) => (Bv::S(x / y), Bv::S(x % y)),
        _ => {
            if ult(a, b) {
                return (Bv::new(w, 0), a.clone());
            }
            if a.bits() <= 128 {
                let (x, y) = (a.to_u128(), b.to_u128());
                return (Bv::from_u128(w, x / y), Bv::from_u128(w, x % y));
            }
            if b.fits64() {
                let d = b.lo64() as u128;
                let mut r = 0u128;
                let x = a.sl();
                let mut q = vec![0u64; x.len()];
                for i in (0..x.len()).rev() {
                    let cur = (r << 64) | x[i] as u128;
                    q[i] = (cur / d) as u64;
                    r = cur % d;
                }
                return (Bv::from_limbs(w, &q), Bv::from_u128(w, r));
            }
            knuth(w, a, b)
        }
    }
}
fn knuth(w: u32, a: &Bv, b: &Bv) -> (Bv, Bv) {
    let n = ((b.bits() + 63) / 64) as usize;
    let ma = ((a.bits() + 63) / 64) as usize;
    let s = b.sl()[n - 1].leading_zeros();
    let shl_vec = |x: &[u64], len: usize| -> Vec<u64> {
        let mut o = vec![0u64; len + 1];
        for i in 0..len {
            o[i] |= x[i] << s;
            if s > 0 {
                o[i + 1] = x[i] >> (64 - s);
            }
        }
        o
    };
    let v = shl_vec(b.sl(), n);
    let mut u = shl_vec(a.sl(), ma);
    let m = ma - n;
    let mut q = vec![0u64; limbs(w).max(m + 1)];
    for j in (0..=m).rev() {
        let num = ((u[j + n] as u128) << 64) | u[j + n - 1] as u128;
        let mut qhat = num / v[n - 1] as u128;
        let mut rhat = num % v[n - 1] as u128;
        while qhat >> 64 != 0 || qhat * v[n - 2] as u128 > ((rhat << 64) | u[j + n - 2] as u128) {
            qhat -= 1;
            rhat += v[n - 1] as u128;
            if rhat >> 64 != 0 {
                break;
            }
        }
        let mut borrow = 0i128;
        let mut carry = 0u128;
        for i in 0..n {
            let p = qhat * v[i] as u128 + carry;
            carry = p >> 64;
            let t = u[i + j] as i128 - borrow - (p as u64) as i128;
            u[i + j] = t as u64;
            borrow = if t < 0 { 1 } else { 0 };
        }
        let t = u[j + n] as i128 - borrow - carry as i128;
        u[j + n] = t as u64;
        if t < 0 {
            qhat -= 1;
            let mut c = 0u128;
            for i in 0..n {
                let t = u[i + j] as u128 + v[i] as u128 + c;
                u[i + j] = t as u64;
                c = t >> 64;
            }
            u[j + n] = u[j + n].wrapping_add(c as u64);
        }
        q[j] = qhat as u64;
    }
    let mut r = vec![0u64; limbs(w)];
    for i in 0..n {
        r[i] = u[i] >> s;
        if s > 0 {
            r[i] |= u[i + 1] << (64 - s);
        }
    }
    (Bv::from_limbs(w, &q), Bv::from_limbs(w, &r))
}
// SMT-LIB semantics for division by zero
pub fn udiv(w: u32, a: &Bv, b: &Bv) -> Bv {
    if b.is_zero() {
        Bv::ones(w)
    } else {
        divrem(w, a, b).0
    }
}
pub fn urem(w: u32, a: &Bv, b: &Bv) -> Bv {
    if b.is_zero() {
        a.clone()
    } else {
        divrem(w, a, b).1
    }
}
pub fn sdiv(w: u32, a: &Bv, b: &Bv) -> Bv {
    let (na, nb) = (a.bit(w - 1), b.bit(w - 1));
    let x = if na { neg(w, a) } else { a.clone() };
    let y = if nb { neg(w, b) } else { b.clone() };
    let q = udiv(w, &x, &y);
    if na != nb {
        neg(w, &q)
    } else {
        q
    }
}
pub fn srem(w: u32, a: &Bv, b: &Bv) -> Bv {
    let (na, nb) = (a.bit(w - 1), b.bit(w - 1));
    let x = if na { neg(w, a) } else { a.clone() };
    let y = if nb { neg(w, b) } else { b.clone() };
    let r = urem(w, &x, &y);
    if na {
        neg(w, &r)
    } else {
        r
    }
}

#[cfg(test)]
mod tests {
    use super::*;
    #[test]
    fn div_roundtrip() {
        let mut s = 0x1234_5678_9abc_def1u64;
        let mut rnd = || {
            s ^= s << 13;
            s ^= s >> 7;
            s ^= s << 17;
            s
        };
        for it in 0..20000 {
            let w = 65 + (rnd() % 700) as u32;
            let n = limbs(w);
            let av: Vec<u64> = (0..n).map(|_| if rnd() % 5 == 0 { !0 } else { rnd() }).collect();
            let bl = 1 + (rnd() as usize % n);
            let bvv: Vec<u64> = (0..n)
                .map(|i| if i < bl { if rnd() % 5 == 0 { !0 } else { rnd() >> (it % 60) } } else { 0 })
                .collect();
            let a = Bv::from_limbs(w, &av);
            let b = Bv::from_limbs(w, &bvv);
            if b.is_zero() {
                continue;
            }
            let q = udiv(w, &a, &b);
            let r = urem(w, &a, &b);
            assert!(ult(&r, &b));
            assert_eq!(add(w, &mul(w, &q, &b), &r), a);
        }
    }
}
