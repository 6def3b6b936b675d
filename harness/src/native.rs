//! Native side of the runtime: symbolic inputs come from a file, a failed assertion is exit status 77, an
//! assumption that does not hold is 66 and a panic where panics are allowed is 78.
use std::cell::RefCell;
use std::collections::HashMap;
use std::sync::atomic::{AtomicBool, Ordering};

thread_local! {
    static SYMS: RefCell<HashMap<String, Vec<Vec<u8>>>> = RefCell::new(HashMap::new());
    static SEEN: RefCell<HashMap<String, usize>> = RefCell::new(HashMap::new());
    static PARAMS: RefCell<Vec<u64>> = RefCell::new(vec![]);
    static RNG: RefCell<u64> = RefCell::new(0);
}
pub static PANIC_OK: AtomicBool = AtomicBool::new(false);

fn unhex(s: &str) -> Vec<u8> {
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect()
}
/// File format: lines "param N", "seed N", "sym <hexname> <hexbytes>".
pub fn load(path: &str) {
    let t = std::fs::read_to_string(path).unwrap();
    for l in t.lines() {
        let p: Vec<&str> = l.split(' ').collect();
        match p[0] {
            "param" => PARAMS.with(|v| v.borrow_mut().push(p[1].parse().unwrap())),
            "seed" => RNG.with(|v| *v.borrow_mut() = p[1].parse().unwrap()),
            "sym" => {
                let n = String::from_utf8(unhex(p[1])).unwrap();
                SYMS.with(|v| v.borrow_mut().entry(n).or_default().push(unhex(p.get(2).unwrap_or(&""))));
            }
            _ => {}
        }
    }
}
unsafe fn st(p: *const u8, n: usize) -> String {
    String::from_utf8_lossy(std::slice::from_raw_parts(p, n)).to_string()
}
#[no_mangle]
unsafe extern "C" fn vh_sym(p: *mut u8, n: usize, name: *const u8, nl: usize) {
    let name = st(name, nl);
    let k = SEEN.with(|s| {
        let mut s = s.borrow_mut();
        let e = s.entry(name.clone()).or_insert(0);
        *e += 1;
        *e - 1
    });
    let out = std::slice::from_raw_parts_mut(p, n);
    let seed = RNG.with(|r| *r.borrow());
    SYMS.with(|s| match s.borrow().get(&name).and_then(|v| v.get(k)) {
        Some(v) => {
            for i in 0..n {
                out[i] = v.get(i).copied().unwrap_or(0);
            }
        }
        None if seed != 0 => RNG.with(|r| {
            let mut x = r.borrow_mut();
            for b in out.iter_mut() {
                *x ^= *x << 13;
                *x ^= *x >> 7;
                *x ^= *x << 17;
                *b = (*x >> 24) as u8;
            }
        }),
        None => out.fill(0),
    })
}
#[no_mangle]
extern "C" fn vh_assume(c: i32) {
    if c == 0 {
        std::process::exit(66)
    }
}
#[no_mangle]
unsafe extern "C" fn vh_assert(c: i32, m: *const u8, ml: usize) {
    if c == 0 {
        println!("ASSERTION FAILED: {}", st(m, ml));
        std::process::exit(77)
    }
}
#[no_mangle]
unsafe extern "C" fn vh_eq(a: *const u8, b: *const u8, n: usize, m: *const u8, ml: usize) {
    let (x, y) = (std::slice::from_raw_parts(a, n), std::slice::from_raw_parts(b, n));
    if x != y {
        println!("ASSERTION FAILED: {}: {:02x?} != {:02x?}", st(m, ml), x, y);
        std::process::exit(77)
    }
}
#[no_mangle]
unsafe extern "C" fn vh_reach(m: *const u8, ml: usize) {
    println!("REACHED: {}", st(m, ml));
}
#[no_mangle]
extern "C" fn vh_param(i: u64) -> u64 {
    PARAMS.with(|p| p.borrow().get(i as usize).copied().unwrap_or(0))
}
#[no_mangle]
extern "C" fn vh_conc(v: u64) -> u64 {
    v
}
#[no_mangle]
extern "C" fn vh_is_sym() -> i32 {
    0
}
#[no_mangle]
extern "C" fn vh_panic_mode(v: i32) {
    PANIC_OK.store(v != 0, Ordering::SeqCst);
}
#[no_mangle]
extern "C" fn vh_abort_path() {
    std::process::exit(0)
}
#[no_mangle]
unsafe extern "C" fn vh_emit(p: *const u8, n: usize) {
    let b = std::slice::from_raw_parts(p, n);
    println!("EMIT: {}", b.iter().map(|x| format!("{:02x}", x)).collect::<String>());
}
#[no_mangle]
extern "C" fn vh_ite(c: i32, a: u64, b: u64) -> u64 {
    if c != 0 { a } else { b }
}
#[no_mangle]
extern "C" fn vh_dump(v: u64) {
    println!("DUMP: {:x}", v);
}
pub fn main(table: &[(&str, fn())]) {
    let a: Vec<String> = std::env::args().collect();
    if a.len() > 2 {
        load(&a[2]);
    }
    std::panic::set_hook(Box::new(|i| {
        println!("PANIC: {}", i);
        std::process::exit(if PANIC_OK.load(Ordering::SeqCst) { 78 } else { 101 });
    }));
    for (n, f) in table {
        if *n == a[1] {
            f();
            println!("DONE");
            std::process::exit(0);
        }
    }
    eprintln!("no such harness");
    std::process::exit(2);
}
