//! C27: the random generators.
use crate::rt::*;
use crate::sys::{self, w};
use anothertls::rand::{RngCore, SeedableRng, SimpleRng, URandomRng};
use ibig::IBig;

crate::harnesses! { h_urandom_bytes, h_urandom_eof, h_urandom_between, h_simple_bytes, h_simple_between, h_simple32 }

/// Bytes of the system generator: the requested number, and each is a byte of the source, used once. The source is a
/// fixed sequence masked with a free byte. Params: size lo hi.
#[no_mangle]
pub extern "C" fn h_urandom_bytes() {
    let n = pick("n", param(0), param(1)) as usize;
    let m = sym_u8("mask");
    w().rnd_mode = 3;
    w().rnd_mask = m;
    w().rnd_max_chunk = [1usize << 20, 1, 7, 33][pick("chunk", 0, 3) as usize];
    let b = URandomRng::new().bytes(n);
    check(b.len() == n, "the requested number of bytes");
    let read = w().rnd_read;
    check(read >= n, "as many bytes were read");
    w().rnd_state = 1;
    let src: Vec<u8> = (0..read).map(|_| sys::rnd_next()).collect();
    let mut p = 0;
    for x in b {
        let v = x ^ m;
        while p < read && src[p] != v {
            p += 1;
        }
        check(p < read, "the bytes come from the source, each used once");
        p += 1;
    }
    reach("bytes");
}
/// A source that ends: never fewer bytes than requested.
#[no_mangle]
pub extern "C" fn h_urandom_eof() {
    let n = pick("n", param(0), param(1)) as usize;
    let avail = pick("avail", param(0), param(1)) as usize;
    w().rnd_mode = 1;
    w().rnd_log = true;
    w().rnd_avail = avail;
    allow_panics(true);
    let b = URandomRng::new().bytes(n);
    allow_panics(false);
    check(b.len() == n && n <= w().rnd_seen.len(), "fails rather than returning fewer bytes");
    reach("enough");
}
fn pow(e: usize) -> IBig {
    IBig::from(1) << (8 * e)
}
#[no_mangle]
pub extern "C" fn h_urandom_between() {
    let (lo, hi) = (param(0) as usize, param(1) as usize);
    w().rnd_mode = 2;
    let v = URandomRng::new().between(lo, hi);
    check(v >= pow(lo), "not below the range");
    check(v < pow(hi), "not above the range");
    reach("number");
}
#[no_mangle]
pub extern "C" fn h_simple_bytes() {
    let n = pick("n", param(0), param(1)) as usize;
    let mut r = SimpleRng::<IBig>::from_seed(IBig::from(sym_u64("seed")));
    let b = r.bytes(n);
    check(b.len() == n, "the requested number of bytes");
    let b = r.bytes(n + 1);
    check(b.len() == n + 1, "the requested number of bytes, again");
    let mut r = SimpleRng::<u32>::from_seed(sym_u32("seed"));
    check(r.bytes(n).len() == n, "the requested number of bytes (32 bit)");
    reach("bytes");
}
#[no_mangle]
pub extern "C" fn h_simple_between() {
    let lo = pick("lo", 0, 31) as usize;
    let hi = [lo + 1, 32, 40][pick("hi", 0, 2) as usize];
    let mut r = SimpleRng::<IBig>::from_seed(IBig::from(sym_u64("seed")));
    for _ in 0..2 {
        let v = r.between(lo, hi);
        check(v >= pow(lo), "not below the range");
        check(v < pow(hi), "not above the range");
    }
    reach("number");
}
#[no_mangle]
pub extern "C" fn h_simple32() {
    let (lo, hi) = (sym_u32("lo"), sym_u32("hi"));
    assume(lo < hi);
    let mut r = SimpleRng::<u32>::from_seed(sym_u32("seed"));
    for _ in 0..2 {
        let v = r.between(lo as usize, hi as usize);
        check(v >= lo && v < hi, "in the range");
    }
    reach("number");
}
