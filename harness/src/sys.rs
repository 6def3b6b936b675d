//! The operating system as the harnesses see it: sockets, /dev/urandom, files and the clock are played by the
//! harness. The same definitions take the place of libc's in the symbolic and in the native build.
#![allow(static_mut_refs, dead_code)]
use crate::rt;

pub const SOCK: i32 = 10_000;
pub const LISTENER: i32 = 10_001;
const URANDOM: i32 = 10_002;
const FILES: i32 = 10_100;

pub struct File {
    pub path: String,
    pub data: Vec<u8>,
    pub pos: usize,
    pub flags: i32,
    pub open: bool,
}
pub struct World {
    /// bytes the endpoint has not read yet / bytes it has written
    pub inp: Vec<u8>,
    pub out: Vec<u8>,
    /// called when the endpoint reads and nothing is there
    pub peer: Option<fn()>,
    /// sizes of the next reads and writes (empty: as much as possible)
    pub read_cuts: Vec<usize>,
    pub write_cuts: Vec<usize>,
    pub recv_calls: usize,
    pub closed: bool,
    pub send_fails: bool,
    /// 0: a fixed sequence, 1: symbolic bytes
    pub rnd_mode: u8,
    pub rnd_state: u32,
    pub rnd_read: usize,
    pub rnd_max_chunk: usize,
    pub rnd_script: Vec<u8>,
    pub rnd_mask: u8,
    pub rnd_log: bool,
    pub rnd_seen: Vec<u8>,
    pub rnd_avail: usize,
    pub rnd_opens: usize,
    pub files: Vec<File>,
    pub now: i64,
}
static mut W: World = World {
    inp: Vec::new(),
    out: Vec::new(),
    peer: None,
    read_cuts: Vec::new(),
    write_cuts: Vec::new(),
    recv_calls: 0,
    closed: false,
    send_fails: false,
    rnd_mode: 0,
    rnd_state: 1,
    rnd_read: 0,
    rnd_max_chunk: 1 << 20,
    rnd_script: Vec::new(),
    rnd_mask: 0,
    rnd_log: false,
    rnd_seen: Vec::new(),
    rnd_avail: usize::MAX,
    rnd_opens: 0,
    files: Vec::new(),
    now: 1_700_000_000,
};
pub fn w() -> &'static mut World {
    unsafe { &mut W }
}
pub fn set_file(path: &str, data: &[u8]) {
    w().files.push(File { path: path.to_string(), data: data.to_vec(), pos: 0, flags: 0, open: false });
}
pub fn file(path: &str) -> Option<&'static File> {
    w().files.iter().find(|f| f.path == path)
}

extern "C" {
    fn __errno_location() -> *mut i32;
    fn syscall(n: i64, ...) -> i64;
}
unsafe fn err(e: i32) -> isize {
    *__errno_location() = e;
    -1
}
unsafe fn put(dst: *mut u8, src: &[u8]) {
    for i in 0..src.len() {
        *dst.add(i) = src[i];
    }
}

#[no_mangle]
unsafe extern "C" fn recv(fd: i32, buf: *mut u8, n: usize, _flags: i32) -> isize {
    if fd != SOCK {
        return err(9);
    }
    let w = w();
    w.recv_calls += 1;
    if w.inp.is_empty() {
        if let Some(p) = w.peer {
            p();
        }
    }
    let mut k = n.min(w.inp.len());
    if !w.read_cuts.is_empty() && k > 0 {
        k = k.min(w.read_cuts.remove(0).max(1));
    }
    put(buf, &w.inp[..k]);
    w.inp.drain(..k);
    k as isize
}
#[no_mangle]
unsafe extern "C" fn send(fd: i32, buf: *const u8, n: usize, _flags: i32) -> isize {
    if fd != SOCK {
        return err(9);
    }
    let w = w();
    if w.send_fails {
        return err(32);
    }
    let mut k = n;
    if !w.write_cuts.is_empty() {
        k = k.min(w.write_cuts.remove(0).max(1));
    }
    w.out.extend_from_slice(std::slice::from_raw_parts(buf, k));
    k as isize
}
#[no_mangle]
unsafe extern "C" fn accept4(fd: i32, addr: *mut u8, len: *mut u32, _flags: i32) -> i32 {
    if fd != LISTENER {
        return err(9) as i32;
    }
    for i in 0..16 {
        *addr.add(i) = 0;
    }
    *addr = 2;
    *len = 16;
    SOCK
}
#[no_mangle]
unsafe extern "C" fn close(fd: i32) -> i32 {
    if fd == SOCK {
        w().closed = true;
    }
    if fd >= SOCK {
        if fd >= FILES {
            w().files[(fd - FILES) as usize].open = false;
        }
        return 0;
    }
    if rt::is_sym() {
        return 0;
    }
    syscall(3, fd as i64) as i32
}
unsafe fn cstr(p: *const u8) -> &'static str {
    let mut n = 0;
    while *p.add(n) != 0 {
        n += 1;
    }
    std::str::from_utf8_unchecked(std::slice::from_raw_parts(p, n))
}
unsafe fn do_open(path: *const u8, flags: i32, mode: u32) -> i32 {
    let p = cstr(path);
    let w = w();
    if p == "/dev/urandom" {
        w.rnd_opens += 1;
        return URANDOM;
    }
    for (i, f) in w.files.iter_mut().enumerate() {
        if f.path == p {
            f.pos = if flags & 0o2000 != 0 { f.data.len() } else { 0 };
            f.flags = flags;
            f.open = true;
            return FILES + i as i32;
        }
    }
    if p.starts_with("/vh/") {
        if flags & 0o100 == 0 {
            return err(2) as i32;
        }
        w.files.push(File { path: p.to_string(), data: vec![], pos: 0, flags, open: true });
        return FILES + w.files.len() as i32 - 1;
    }
    if rt::is_sym() {
        return err(2) as i32;
    }
    syscall(2, path, flags as i64, mode as i64) as i32
}
#[no_mangle]
unsafe extern "C" fn open64(path: *const u8, flags: i32, mode: u32) -> i32 {
    do_open(path, flags, mode)
}
pub fn rnd_next() -> u8 {
    let w = w();
    if !w.rnd_script.is_empty() {
        return w.rnd_script.remove(0);
    }
    w.rnd_state = w.rnd_state.wrapping_mul(1_103_515_245).wrapping_add(12345);
    (w.rnd_state >> 16) as u8
}
#[no_mangle]
unsafe extern "C" fn read(fd: i32, buf: *mut u8, n: usize) -> isize {
    let w = w();
    if fd == URANDOM {
        let k = n.min(w.rnd_max_chunk).min(w.rnd_avail);
        w.rnd_avail -= k;
        if w.rnd_mode == 3 {
            // a fixed sequence, masked with one free byte
            for i in 0..k {
                *buf.add(i) = rnd_next() ^ w.rnd_mask;
            }
        } else if w.rnd_mode > 0 {
            rt::sym_into("rnd", std::slice::from_raw_parts_mut(buf, k));
            // 2: the second to eighth byte of a read are zero
            if w.rnd_mode == 2 {
                for i in 1..k.min(8) {
                    *buf.add(i) = 0;
                }
            }
        } else {
            for i in 0..k {
                *buf.add(i) = rnd_next();
            }
        }
        if w.rnd_log {
            w.rnd_seen.extend_from_slice(std::slice::from_raw_parts(buf, k));
        }
        w.rnd_read += k;
        return k as isize;
    }
    if fd >= FILES {
        let f = &mut w.files[(fd - FILES) as usize];
        let k = n.min(f.data.len() - f.pos);
        put(buf, &f.data[f.pos..f.pos + k]);
        f.pos += k;
        return k as isize;
    }
    if rt::is_sym() {
        return 0;
    }
    syscall(0, fd as i64, buf, n) as isize
}
#[no_mangle]
unsafe extern "C" fn write(fd: i32, buf: *const u8, n: usize) -> isize {
    if fd >= FILES {
        let f = &mut w().files[(fd - FILES) as usize];
        f.data.extend_from_slice(std::slice::from_raw_parts(buf, n));
        return n as isize;
    }
    if rt::is_sym() {
        return n as isize;
    }
    syscall(1, fd as i64, buf, n) as isize
}
#[no_mangle]
unsafe extern "C" fn lseek64(fd: i32, off: i64, whence: i32) -> i64 {
    if fd >= SOCK || rt::is_sym() {
        return err(29) as i64;
    }
    syscall(8, fd as i64, off, whence as i64)
}
#[no_mangle]
unsafe extern "C" fn clock_gettime(clk: i32, ts: *mut i64) -> i32 {
    if clk != 0 && !rt::is_sym() {
        return syscall(228, clk as i64, ts) as i32;
    }
    *ts = w().now;
    *ts.add(1) = 0;
    0
}
#[no_mangle]
unsafe extern "C" fn statx(_d: i32, _p: *const u8, _f: i32, _m: u32, _b: *mut u8) -> i32 {
    err(38) as i32
}
#[no_mangle]
unsafe extern "C" fn fstat64(_fd: i32, _b: *mut u8) -> i32 {
    err(38) as i32
}
/// The debug build asks whether descriptors are open before it closes them.
#[no_mangle]
unsafe extern "C" fn fcntl(fd: i32, cmd: i32, arg: i64) -> i32 {
    if fd >= SOCK || rt::is_sym() {
        return 0;
    }
    syscall(72, fd as i64, cmd as i64, arg) as i32
}
