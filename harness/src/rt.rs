//! Harness runtime: the same harness code runs under the symbolic executor (where these functions are engine
//! intrinsics) and natively (counterexample replay and translator validation).
#![allow(dead_code)]

extern "C" {
    fn vh_sym(p: *mut u8, n: usize, name: *const u8, nl: usize);
    fn vh_assume(c: i32);
    fn vh_assert(c: i32, m: *const u8, ml: usize);
    fn vh_eq(a: *const u8, b: *const u8, n: usize, m: *const u8, ml: usize);
    fn vh_reach(m: *const u8, ml: usize);
    fn vh_param(i: u64) -> u64;
    fn vh_conc(v: u64) -> u64;
    fn vh_is_sym() -> i32;
    fn vh_panic_mode(v: i32);
    fn vh_abort_path();
    fn vh_emit(p: *const u8, n: usize);
    fn vh_ite(c: i32, a: u64, b: u64) -> u64;
    fn vh_dump(v: u64);
}

pub fn sym_into(name: &str, buf: &mut [u8]) {
    unsafe { vh_sym(buf.as_mut_ptr(), buf.len(), name.as_ptr(), name.len()) }
}
pub fn sym<const N: usize>(name: &str) -> [u8; N] {
    let mut b = [0u8; N];
    sym_into(name, &mut b);
    b
}
pub fn sym_vec(name: &str, n: usize) -> Vec<u8> {
    let mut b = vec![0u8; n];
    sym_into(name, &mut b);
    b
}
pub fn sym_u8(name: &str) -> u8 {
    sym::<1>(name)[0]
}
pub fn sym_u16(name: &str) -> u16 {
    u16::from_le_bytes(sym::<2>(name))
}
pub fn sym_u32(name: &str) -> u32 {
    u32::from_le_bytes(sym::<4>(name))
}
pub fn sym_u64(name: &str) -> u64 {
    u64::from_le_bytes(sym::<8>(name))
}
pub fn sym_bool(name: &str) -> bool {
    let b = sym_u8(name);
    assume(b < 2);
    b == 1
}
/// A symbolic value in lo..=hi, made concrete by case split (every value is explored).
pub fn pick(name: &str, lo: u64, hi: u64) -> u64 {
    let v = sym_u32(name) as u64;
    assume(v >= lo);
    assume(v <= hi);
    conc(v)
}
pub fn assume(c: bool) {
    unsafe { vh_assume(c as i32) }
}
pub fn check(c: bool, m: &str) {
    unsafe { vh_assert(c as i32, m.as_ptr(), m.len()) }
}
/// Byte equality decided with structural sweeping first (for long computations).
pub fn check_eq(a: &[u8], b: &[u8], m: &str) {
    check(a.len() == b.len(), m);
    unsafe { vh_eq(a.as_ptr(), b.as_ptr(), a.len(), m.as_ptr(), m.len()) }
}
/// Byte equality as one boolean without branching per byte.
pub fn same(a: &[u8], b: &[u8]) -> bool {
    if a.len() != b.len() {
        return false;
    }
    let mut d = 0u8;
    for i in 0..a.len() {
        d |= a[i] ^ b[i];
    }
    d == 0
}
pub fn reach(m: &str) {
    unsafe { vh_reach(m.as_ptr(), m.len()) }
}
pub fn param(i: u64) -> u64 {
    unsafe { vh_param(i) }
}
pub fn conc(v: u64) -> u64 {
    unsafe { vh_conc(v) }
}
pub fn is_sym() -> bool {
    unsafe { vh_is_sym() != 0 }
}
/// From here on a panic ends the path without being a violation.
pub fn allow_panics(v: bool) {
    unsafe { vh_panic_mode(v as i32) }
}
pub fn end_path() {
    unsafe { vh_abort_path() }
}
pub fn emit(b: &[u8]) {
    unsafe { vh_emit(b.as_ptr(), b.len()) }
}
pub fn ite(c: bool, a: u64, b: u64) -> u64 {
    unsafe { vh_ite(c as i32, a, b) }
}
pub fn dump(v: u64) {
    unsafe { vh_dump(v) }
}
