//! Model of the `ibig` 0.3.6 API. A value is a handle to a signed bit-vector term of exact (unbounded) width
//! owned by the symbolic executor; each operation is an engine intrinsic. Only used when the harness is compiled
//! for symbolic execution; counterexample replay links the real crate.
use core::cmp::Ordering;
use core::convert::TryFrom;
use core::fmt;
use core::ops::*;

extern "C" {
    fn vi_from_bytes(p: *const u8, n: usize, be: i32) -> u64;
    fn vi_from_u64(v: u64) -> u64;
    fn vi_from_i64(v: i64) -> u64;
    fn vi_add(a: u64, b: u64) -> u64;
    fn vi_sub(a: u64, b: u64) -> u64;
    fn vi_mul(a: u64, b: u64) -> u64;
    fn vi_div(a: u64, b: u64) -> u64;
    fn vi_rem(a: u64, b: u64) -> u64;
    fn vi_and(a: u64, b: u64) -> u64;
    fn vi_or(a: u64, b: u64) -> u64;
    fn vi_xor(a: u64, b: u64) -> u64;
    fn vi_neg(a: u64) -> u64;
    fn vi_shl(a: u64, n: usize) -> u64;
    fn vi_shr(a: u64, n: usize) -> u64;
    fn vi_cmp(a: u64, b: u64) -> i32;
    fn vi_eq(a: u64, b: u64) -> i32;
    fn vi_is_neg(a: u64) -> i32;
    fn vi_bytes_len(a: u64) -> usize;
    fn vi_to_bytes(a: u64, p: *mut u8, n: usize, be: i32);
    fn vi_to_u64(a: u64) -> u64;
}

#[derive(Clone)]
pub struct IBig(u64);
#[derive(Clone)]
pub struct UBig(u64);

pub mod error {
    #[derive(Debug, Clone, Copy, PartialEq, Eq)]
    pub struct OutOfBoundsError;
    #[derive(Debug, Clone, Copy, PartialEq, Eq)]
    pub enum ParseError {
        NoDigits,
        InvalidDigit,
    }
    impl core::fmt::Display for OutOfBoundsError {
        fn fmt(&self, f: &mut core::fmt::Formatter) -> core::fmt::Result {
            f.write_str("number out of bounds")
        }
    }
    impl core::fmt::Display for ParseError {
        fn fmt(&self, f: &mut core::fmt::Formatter) -> core::fmt::Result {
            f.write_str("parse error")
        }
    }
}
pub use error::{OutOfBoundsError, ParseError};
pub mod ops {
    pub trait Abs {
        type Output;
        fn abs(self) -> Self::Output;
    }
    impl Abs for super::IBig {
        type Output = super::IBig;
        fn abs(self) -> super::IBig {
            if self.neg_p() {
                -self
            } else {
                self
            }
        }
    }
    pub trait RemEuclid<R = Self> {
        type Output;
        fn rem_euclid(self, r: R) -> Self::Output;
    }
    macro_rules! re {
        ($a:ty, $b:ty) => {
            impl<'a, 'b> RemEuclid<$b> for $a {
                type Output = super::IBig;
                fn rem_euclid(self, r: $b) -> super::IBig {
                    let m = self.clone() % r.clone();
                    if m.neg_p() {
                        if r.neg_p() {
                            m - r.clone()
                        } else {
                            m + r.clone()
                        }
                    } else {
                        m
                    }
                }
            }
        };
    }
    re!(super::IBig, super::IBig);
    re!(super::IBig, &'b super::IBig);
    re!(&'a super::IBig, super::IBig);
    re!(&'a super::IBig, &'b super::IBig);
}

impl IBig {
    #[inline]
    fn neg_p(&self) -> bool {
        unsafe { vi_is_neg(self.0) != 0 }
    }
    pub fn pow(&self, mut e: usize) -> IBig {
        let mut r = IBig::from(1u8);
        let mut b = self.clone();
        while e > 0 {
            if e & 1 == 1 {
                r = &r * &b;
            }
            e >>= 1;
            if e > 0 {
                b = &b * &b;
            }
        }
        r
    }
    pub fn from_str_radix(s: &str, radix: u32) -> Result<IBig, ParseError> {
        let (neg, d) = match s.as_bytes().first() {
            Some(b'-') => (true, &s[1..]),
            Some(b'+') => (false, &s[1..]),
            _ => (false, s),
        };
        let u = UBig::from_str_radix(d, radix)?;
        let r = IBig(u.0);
        Ok(if neg { -r } else { r })
    }
    pub fn signum(&self) -> IBig {
        if self.neg_p() {
            IBig::from(-1i32)
        } else if *self == IBig::from(0u8) {
            IBig::from(0u8)
        } else {
            IBig::from(1u8)
        }
    }
    pub fn zero() -> IBig {
        IBig::from(0u8)
    }
    pub fn one() -> IBig {
        IBig::from(1u8)
    }
}
impl UBig {
    pub fn to_le_bytes(&self) -> Vec<u8> {
        self.bytes(0)
    }
    pub fn to_be_bytes(&self) -> Vec<u8> {
        self.bytes(1)
    }
    fn bytes(&self, be: i32) -> Vec<u8> {
        unsafe {
            let n = vi_bytes_len(self.0);
            let mut v = vec![0u8; n];
            vi_to_bytes(self.0, v.as_mut_ptr(), v.len(), be);
            v
        }
    }
    pub fn from_le_bytes(b: &[u8]) -> UBig {
        UBig(unsafe { vi_from_bytes(b.as_ptr(), b.len(), 0) })
    }
    pub fn from_be_bytes(b: &[u8]) -> UBig {
        UBig(unsafe { vi_from_bytes(b.as_ptr(), b.len(), 1) })
    }
    pub fn pow(&self, e: usize) -> UBig {
        UBig(IBig(self.0).pow(e).0)
    }
    pub fn bit_len(&self) -> usize {
        let b = self.to_be_bytes();
        if b.is_empty() {
            0
        } else {
            b.len() * 8 - b[0].leading_zeros() as usize
        }
    }
    pub fn bit(&self, n: usize) -> bool {
        (IBig(self.0) >> n) & IBig::from(1u8) == IBig::from(1u8)
    }
    pub fn trailing_zeros(&self) -> Option<usize> {
        let b = self.to_le_bytes();
        b.iter().position(|x| *x != 0).map(|i| i * 8 + b[i].trailing_zeros() as usize)
    }
    pub fn from_str_radix(s: &str, radix: u32) -> Result<UBig, ParseError> {
        let mut any = false;
        if radix == 16 {
            // big-endian nibbles
            let mut nib: Vec<u8> = Vec::new();
            for c in s.bytes() {
                if c == b'_' {
                    continue;
                }
                let d = match c {
                    b'0'..=b'9' => c - b'0',
                    b'a'..=b'f' => c - b'a' + 10,
                    b'A'..=b'F' => c - b'A' + 10,
                    _ => return Err(ParseError::InvalidDigit),
                };
                nib.push(d);
                any = true;
            }
            if !any {
                return Err(ParseError::NoDigits);
            }
            if nib.len() % 2 == 1 {
                nib.insert(0, 0);
            }
            let b: Vec<u8> = nib.chunks(2).map(|c| c[0] << 4 | c[1]).collect();
            return Ok(UBig::from_be_bytes(&b));
        }
        let mut r = IBig::from(0u8);
        for c in s.bytes() {
            if c == b'_' {
                continue;
            }
            let d = match c {
                b'0'..=b'9' => c - b'0',
                b'a'..=b'z' => c - b'a' + 10,
                b'A'..=b'Z' => c - b'A' + 10,
                _ => return Err(ParseError::InvalidDigit),
            };
            if d as u32 >= radix {
                return Err(ParseError::InvalidDigit);
            }
            any = true;
            r = r * IBig::from(radix) + IBig::from(d);
        }
        if !any {
            return Err(ParseError::NoDigits);
        }
        Ok(UBig(r.0))
    }
}
impl core::str::FromStr for IBig {
    type Err = ParseError;
    fn from_str(s: &str) -> Result<IBig, ParseError> {
        IBig::from_str_radix(s, 10)
    }
}
impl core::str::FromStr for UBig {
    type Err = ParseError;
    fn from_str(s: &str) -> Result<UBig, ParseError> {
        UBig::from_str_radix(s, 10)
    }
}
impl TryFrom<IBig> for UBig {
    type Error = OutOfBoundsError;
    fn try_from(v: IBig) -> Result<UBig, OutOfBoundsError> {
        if v.neg_p() {
            Err(OutOfBoundsError)
        } else {
            Ok(UBig(v.0))
        }
    }
}
impl<'a> TryFrom<&'a IBig> for UBig {
    type Error = OutOfBoundsError;
    fn try_from(v: &'a IBig) -> Result<UBig, OutOfBoundsError> {
        UBig::try_from(v.clone())
    }
}
impl From<UBig> for IBig {
    fn from(v: UBig) -> IBig {
        IBig(v.0)
    }
}
impl<'a> From<&'a UBig> for IBig {
    fn from(v: &'a UBig) -> IBig {
        IBig(v.0)
    }
}
macro_rules! from_u {
    ($($t:ty),*) => {$(
        impl From<$t> for IBig { fn from(v: $t) -> IBig { IBig(unsafe { vi_from_u64(v as u64) }) } }
        impl From<$t> for UBig { fn from(v: $t) -> UBig { UBig(unsafe { vi_from_u64(v as u64) }) } }
        prim!($t);
    )*};
}
macro_rules! from_i {
    ($($t:ty),*) => {$(
        impl From<$t> for IBig { fn from(v: $t) -> IBig { IBig(unsafe { vi_from_i64(v as i64) }) } }
        prim!($t);
    )*};
}
macro_rules! prim {
    ($t:ty) => {
        impl TryFrom<IBig> for $t {
            type Error = OutOfBoundsError;
            fn try_from(v: IBig) -> Result<$t, OutOfBoundsError> {
                let x = unsafe { vi_to_u64(v.0) } as $t;
                if IBig::from(x) == v {
                    Ok(x)
                } else {
                    Err(OutOfBoundsError)
                }
            }
        }
        impl<'a> TryFrom<&'a IBig> for $t {
            type Error = OutOfBoundsError;
            fn try_from(v: &'a IBig) -> Result<$t, OutOfBoundsError> {
                <$t>::try_from(v.clone())
            }
        }
        primop!($t, Add, add);
        primop!($t, Sub, sub);
        primop!($t, Mul, mul);
        primop!($t, Div, div);
        impl AddAssign<$t> for IBig { fn add_assign(&mut self, r: $t) { *self = &*self + IBig::from(r); } }
        impl SubAssign<$t> for IBig { fn sub_assign(&mut self, r: $t) { *self = &*self - IBig::from(r); } }
        impl MulAssign<$t> for IBig { fn mul_assign(&mut self, r: $t) { *self = &*self * IBig::from(r); } }
    };
}
macro_rules! primop {
    ($t:ty, $tr:ident, $f:ident) => {
        impl $tr<$t> for IBig {
            type Output = IBig;
            fn $f(self, r: $t) -> IBig {
                $tr::$f(self, IBig::from(r))
            }
        }
        impl<'a> $tr<$t> for &'a IBig {
            type Output = IBig;
            fn $f(self, r: $t) -> IBig {
                $tr::$f(self, IBig::from(r))
            }
        }
    };
}
from_u!(u8, u16, u32, u64, usize);
from_i!(i8, i16, i32, i64, isize);
impl From<u128> for IBig {
    fn from(v: u128) -> IBig {
        let b = v.to_le_bytes();
        IBig(unsafe { vi_from_bytes(b.as_ptr(), 16, 0) })
    }
}
impl From<u128> for UBig {
    fn from(v: u128) -> UBig {
        let b = v.to_le_bytes();
        UBig(unsafe { vi_from_bytes(b.as_ptr(), 16, 0) })
    }
}
impl TryFrom<UBig> for u64 {
    type Error = OutOfBoundsError;
    fn try_from(v: UBig) -> Result<u64, OutOfBoundsError> {
        u64::try_from(IBig(v.0))
    }
}
macro_rules! binop {
    ($tr:ident, $f:ident, $tra:ident, $fa:ident, $ext:ident) => {
        impl $tr<IBig> for IBig { type Output = IBig; fn $f(self, r: IBig) -> IBig { IBig(unsafe { $ext(self.0, r.0) }) } }
        impl<'a> $tr<&'a IBig> for IBig { type Output = IBig; fn $f(self, r: &'a IBig) -> IBig { IBig(unsafe { $ext(self.0, r.0) }) } }
        impl<'a> $tr<IBig> for &'a IBig { type Output = IBig; fn $f(self, r: IBig) -> IBig { IBig(unsafe { $ext(self.0, r.0) }) } }
        impl<'a, 'b> $tr<&'b IBig> for &'a IBig { type Output = IBig; fn $f(self, r: &'b IBig) -> IBig { IBig(unsafe { $ext(self.0, r.0) }) } }
        impl $tra<IBig> for IBig { fn $fa(&mut self, r: IBig) { self.0 = unsafe { $ext(self.0, r.0) } } }
        impl<'a> $tra<&'a IBig> for IBig { fn $fa(&mut self, r: &'a IBig) { self.0 = unsafe { $ext(self.0, r.0) } } }
        impl $tr<UBig> for UBig { type Output = UBig; fn $f(self, r: UBig) -> UBig { UBig(unsafe { $ext(self.0, r.0) }) } }
        impl<'a> $tr<&'a UBig> for UBig { type Output = UBig; fn $f(self, r: &'a UBig) -> UBig { UBig(unsafe { $ext(self.0, r.0) }) } }
        impl<'a> $tr<UBig> for &'a UBig { type Output = UBig; fn $f(self, r: UBig) -> UBig { UBig(unsafe { $ext(self.0, r.0) }) } }
        impl<'a, 'b> $tr<&'b UBig> for &'a UBig { type Output = UBig; fn $f(self, r: &'b UBig) -> UBig { UBig(unsafe { $ext(self.0, r.0) }) } }
        impl $tra<UBig> for UBig { fn $fa(&mut self, r: UBig) { self.0 = unsafe { $ext(self.0, r.0) } } }
        impl<'a> $tra<&'a UBig> for UBig { fn $fa(&mut self, r: &'a UBig) { self.0 = unsafe { $ext(self.0, r.0) } } }
    };
}
binop!(Add, add, AddAssign, add_assign, vi_add);
binop!(Sub, sub, SubAssign, sub_assign, vi_sub);
binop!(Mul, mul, MulAssign, mul_assign, vi_mul);
binop!(Div, div, DivAssign, div_assign, vi_div);
binop!(Rem, rem, RemAssign, rem_assign, vi_rem);
binop!(BitAnd, bitand, BitAndAssign, bitand_assign, vi_and);
binop!(BitOr, bitor, BitOrAssign, bitor_assign, vi_or);
binop!(BitXor, bitxor, BitXorAssign, bitxor_assign, vi_xor);
macro_rules! shiftop {
    ($t:ident) => {
        impl Shl<usize> for $t { type Output = $t; fn shl(self, n: usize) -> $t { $t(unsafe { vi_shl(self.0, n) }) } }
        impl<'a> Shl<usize> for &'a $t { type Output = $t; fn shl(self, n: usize) -> $t { $t(unsafe { vi_shl(self.0, n) }) } }
        impl Shr<usize> for $t { type Output = $t; fn shr(self, n: usize) -> $t { $t(unsafe { vi_shr(self.0, n) }) } }
        impl<'a> Shr<usize> for &'a $t { type Output = $t; fn shr(self, n: usize) -> $t { $t(unsafe { vi_shr(self.0, n) }) } }
        impl ShlAssign<usize> for $t { fn shl_assign(&mut self, n: usize) { self.0 = unsafe { vi_shl(self.0, n) } } }
        impl ShrAssign<usize> for $t { fn shr_assign(&mut self, n: usize) { self.0 = unsafe { vi_shr(self.0, n) } } }
        impl PartialEq for $t { fn eq(&self, o: &$t) -> bool { unsafe { vi_eq(self.0, o.0) != 0 } } }
        impl Eq for $t {}
        impl PartialOrd for $t { fn partial_cmp(&self, o: &$t) -> Option<Ordering> { Some(self.cmp(o)) } }
        impl Ord for $t {
            fn cmp(&self, o: &$t) -> Ordering {
                let c = unsafe { vi_cmp(self.0, o.0) };
                if c < 0 { Ordering::Less } else if c > 0 { Ordering::Greater } else { Ordering::Equal }
            }
        }
        impl fmt::Debug for $t { fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { f.write_str("<big>") } }
        impl fmt::Display for $t { fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { f.write_str("<big>") } }
        impl fmt::LowerHex for $t { fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { f.write_str("<big>") } }
        impl fmt::UpperHex for $t { fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { f.write_str("<big>") } }
        impl Default for $t { fn default() -> $t { $t::from(0u8) } }
    };
}
shiftop!(IBig);
shiftop!(UBig);
impl Neg for IBig {
    type Output = IBig;
    fn neg(self) -> IBig {
        IBig(unsafe { vi_neg(self.0) })
    }
}
impl<'a> Neg for &'a IBig {
    type Output = IBig;
    fn neg(self) -> IBig {
        IBig(unsafe { vi_neg(self.0) })
    }
}
impl core::hash::Hash for IBig {
    fn hash<H: core::hash::Hasher>(&self, _h: &mut H) {}
}

/// Parse one literal token: optional `_` prefix (identifier form), type suffixes are not used.
pub fn model_parse(s: &str, radix: u32) -> IBig {
    IBig::from_str_radix(s, radix).unwrap()
}
#[macro_export]
macro_rules! ibig {
    (- $val:ident) => { -$crate::model_parse(stringify!($val), 10) };
    (- $val:tt base $radix:literal) => { -$crate::model_parse(stringify!($val), $radix) };
    (- $val:literal) => { -<$crate::IBig as ::core::convert::From<u128>>::from($val) };
    ($val:literal) => { <$crate::IBig as ::core::convert::From<u128>>::from($val) };
    ($val:ident) => { $crate::model_parse(stringify!($val), 10) };
    ($val:tt base $radix:literal) => { $crate::model_parse(stringify!($val), $radix) };
}
#[macro_export]
macro_rules! ubig {
    ($val:tt) => { <$crate::UBig as core::convert::TryFrom<$crate::IBig>>::try_from($crate::model_parse(stringify!($val), 10)).unwrap() };
    ($val:tt base $radix:literal) => { <$crate::UBig as core::convert::TryFrom<$crate::IBig>>::try_from($crate::model_parse(stringify!($val), $radix)).unwrap() };
}
pub mod prelude {
    pub use crate::{ibig, ubig, IBig, UBig};
}
