//! SMT back end: SMT-LIB2 over pipes to long-lived solver processes.
use crate::bv::Bv;
use crate::term::*;
use std::os::fd::AsRawFd;
use std::io::{BufRead, BufReader, Write};
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};
use std::time::Instant;

thread_local! {
    static DEADLINE: std::cell::Cell<Option<Instant>> = const { std::cell::Cell::new(None) };
}
pub fn set_deadline(d: Instant) {
    DEADLINE.with(|x| x.set(Some(d)));
}
fn deadline() -> Option<Instant> {
    DEADLINE.with(|x| x.get())
}
fn readable(fd: &i32, ms: i64) -> bool {
    #[repr(C)]
    struct PollFd {
        fd: i32,
        events: i16,
        revents: i16,
    }
    extern "C" {
        fn poll(p: *mut PollFd, n: u64, ms: i32) -> i32;
    }
    let mut p = PollFd { fd: *fd, events: 1, revents: 0 };
    unsafe { poll(&mut p, 1, ms.clamp(1, 1 << 30) as i32) != 0 }
}

pub struct Proc {
    kind: String,
    child: Child,
    inp: ChildStdin,
    out: BufReader<ChildStdout>,
    defined: FxSet<T>,
    tables: FxSet<u32>,
    ndef: usize,
    timeout_ms: u64,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Res {
    Sat(Vec<(u32, Bv)>),
    Unsat,
    Unknown(String),
}

pub fn smt_const(w: u32, v: &Bv) -> String {
    if w % 4 == 0 {
        let mut s = String::with_capacity(w as usize / 4 + 2);
        s.push_str("#x");
        for i in (0..w / 4).rev() {
            let q = i * 4;
            let d = (v.sl()[(q / 64) as usize] >> (q % 64)) & 15;
            s.push(std::char::from_digit(d as u32, 16).unwrap());
        }
        s
    } else {
        let mut s = String::from("#b");
        for i in (0..w).rev() {
            s.push(if v.bit(i) { '1' } else { '0' });
        }
        s
    }
}

pub fn emit_term(cx: &Ctx, t: T) -> String {
    let n = cx.n(t);
    let w = n.w;
    let r = |a: T| -> String {
        let m = cx.n(a);
        match &m.val {
            Some(v) => smt_const(m.w, v),
            None => format!("t{}", a),
        }
    };
    let nary = |op: &str, xs: &[String]| -> String {
        if xs.len() == 1 {
            xs[0].clone()
        } else {
            let mut s = format!("({} {} {})", op, xs[0], xs[1]);
            for x in &xs[2..] {
                s = format!("({} {} {})", op, s, x);
            }
            s
        }
    };
    let a = |i: usize| r(n.args[i]);
    match n.op {
        Op::Const => smt_const(w, n.val.as_ref().unwrap()),
        Op::Var | Op::Uf => unreachable!(),
        Op::And => format!("(bvand {} {})", a(0), a(1)),
        Op::Or => format!("(bvor {} {})", a(0), a(1)),
        Op::Xor => {
            if n.args.len() == 2 && cx.cv(n.args[0]).map_or(false, |v| v.is_ones(w)) {
                return format!("(bvnot {})", a(1));
            }
            let v: Vec<String> = n.args.iter().map(|x| r(*x)).collect();
            nary("bvxor", &v)
        }
        Op::Lin => {
            let mut v = vec![];
            if !cx.cv(n.args[0]).unwrap().is_zero() {
                v.push(a(0));
            }
            let mut i = 1;
            let mut negs = vec![];
            while i < n.args.len() {
                let k = cx.cv(n.args[i + 1]).unwrap();
                if k.is_one() {
                    v.push(a(i));
                } else if k.is_ones(w) {
                    negs.push(a(i));
                } else {
                    v.push(format!("(bvmul {} {})", smt_const(w, k), a(i)));
                }
                i += 2;
            }
            let mut s = if v.is_empty() { smt_const(w, &Bv::new(w, 0)) } else { nary("bvadd", &v) };
            for x in negs {
                s = format!("(bvsub {} {})", s, x);
            }
            s
        }
        Op::Mul => format!("(bvmul {} {})", a(0), a(1)),
        Op::UDiv => format!("(bvudiv {} {})", a(0), a(1)),
        Op::URem => format!("(bvurem {} {})", a(0), a(1)),
        Op::SDiv => format!("(bvsdiv {} {})", a(0), a(1)),
        Op::SRem => format!("(bvsrem {} {})", a(0), a(1)),
        Op::Shl => format!("(bvshl {} {})", a(0), a(1)),
        Op::LShr => format!("(bvlshr {} {})", a(0), a(1)),
        Op::AShr => format!("(bvashr {} {})", a(0), a(1)),
        Op::Concat => {
            let v: Vec<String> = n.args.iter().map(|x| r(*x)).collect();
            nary("concat", &v)
        }
        Op::Extract => format!("((_ extract {} {}) {})", n.x + w - 1, n.x, a(0)),
        Op::Ite => format!("(ite (= {} #b1) {} {})", a(0), a(1), a(2)),
        Op::Eq => format!("(ite (= {} {}) #b1 #b0)", a(0), a(1)),
        Op::Ult => format!("(ite (bvult {} {}) #b1 #b0)", a(0), a(1)),
        Op::Slt => format!("(ite (bvslt {} {}) #b1 #b0)", a(0), a(1)),
        Op::SExt => format!("((_ sign_extend {}) {})", w - cx.w(n.args[0]), a(0)),
        Op::Table => format!("(tbl{} {})", n.x, a(0)),
    }
}

fn emit_table(cx: &Ctx, id: u32) -> String {
    let tb = &cx.tables[id as usize];
    fn rec(tb: &Table, lo: usize, bit: u32) -> String {
        if bit == 0 {
            return smt_const(tb.ow, &Bv::new(tb.ow, tb.data[lo]));
        }
        let b = bit - 1;
        let z = rec(tb, lo, b);
        let o = rec(tb, lo + (1 << b), b);
        if z == o {
            return z;
        }
        format!("(ite (= ((_ extract {} {}) x) #b1) {} {})", b, b, o, z)
    }
    format!("(define-fun tbl{} ((x (_ BitVec {}))) (_ BitVec {}) {})\n", id, tb.iw, tb.ow, rec(tb, 0, tb.iw))
}

impl Proc {
    pub fn new(kind: &str, timeout_ms: u64) -> Proc {
        let (cmd, args): (&str, Vec<String>) = match kind {
            "cvc5" => ("cvc5", vec!["--incremental".into(), "--lang=smt2".into(), "--produce-models".into(), format!("--tlimit-per={}", timeout_ms)]),
            _ => ("z3-new", vec!["-in".into(), "-smt2".into()]),
        };
        let mut child = Command::new(cmd)
            .args(&args)
            .stdin(Stdio::piped())
            .stdout(Stdio::piped())
            .stderr(Stdio::null())
            .spawn()
            .expect("solver process");
        let mut inp = child.stdin.take().unwrap();
        let out = BufReader::with_capacity(1 << 16, child.stdout.take().unwrap());
        let pre = if kind == "cvc5" {
            "(set-option :print-success false)\n(set-logic QF_BV)\n".to_string()
        } else {
            format!("(set-option :print-success false)\n(set-option :timeout {})\n(set-logic QF_BV)\n", timeout_ms)
        };
        inp.write_all(pre.as_bytes()).unwrap();
        Proc { kind: kind.into(), child, inp, out, defined: FxSet::default(), tables: FxSet::default(), ndef: 0, timeout_ms }
    }
    fn restart(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
        let k = self.kind.clone();
        *self = Proc::new(&k, self.timeout_ms);
    }
    /// emit definitions of the cone of ts
    fn define(&mut self, cx: &Ctx, ts: &[T], buf: &mut String, vars: &mut FxMap<u32, T>, seen: &mut FxSet<T>) {
        let mut st: Vec<(T, bool)> = ts.iter().map(|t| (*t, false)).collect();
        while let Some((t, done)) = st.pop() {
            let n = cx.n(t);
            if n.op == Op::Const {
                continue;
            }
            if done {
                if self.defined.insert(t) {
                    self.ndef += 1;
                    if n.op == Op::Table && self.tables.insert(n.x) {
                        buf.push_str(&emit_table(cx, n.x));
                    }
                    buf.push_str(&format!("(define-fun t{} () (_ BitVec {}) {})\n", t, n.w, emit_term(cx, t)));
                }
                continue;
            }
            if !seen.insert(t) {
                continue;
            }
            if n.op == Op::Var || n.op == Op::Uf {
                if n.op == Op::Var {
                    vars.insert(n.x, t);
                }
                if self.defined.insert(t) {
                    buf.push_str(&format!("(declare-const t{} (_ BitVec {}))\n", t, n.w));
                }
                continue;
            }
            st.push((t, true));
            for a in n.args.iter() {
                st.push((*a, false));
            }
        }
    }
    fn line(&mut self) -> String {
        let mut s = String::new();
        if self.out.read_line(&mut s).unwrap_or(0) == 0 {
            return "eof".into();
        }
        s.trim().to_string()
    }
    pub fn check(&mut self, cx: &Ctx, conds: &[T], want_model: bool) -> Res {
        if self.ndef > 150_000 {
            self.restart();
        }
        let mut buf = String::new();
        let mut vars = FxMap::default();
        let mut seen = FxSet::default();
        self.define(cx, conds, &mut buf, &mut vars, &mut seen);
        buf.push_str("(push 1)\n");
        for c in conds {
            let s = match cx.cv(*c) {
                Some(v) => smt_const(1, v),
                None => format!("t{}", c),
            };
            buf.push_str(&format!("(assert (= {} #b1))\n", s));
        }
        buf.push_str("(check-sat)\n");
        if let Ok(p) = std::env::var("SYMEX_DUMP") {
            use std::io::Write;
            let mut f = std::fs::OpenOptions::new().append(true).create(true).open(p).unwrap();
            let _ = f.write_all(buf.as_bytes());
            let _ = f.write_all(b"(pop 1)\n");
        }
        if self.inp.write_all(buf.as_bytes()).is_err() || self.inp.flush().is_err() {
            self.restart();
            return Res::Unknown("pipe".into());
        }
        // the solver's own time limit does not cover preprocessing
        let mut left = self.timeout_ms as i64 + 2000;
        if let Some(d) = deadline() {
            left = left.min(d.saturating_duration_since(Instant::now()).as_millis() as i64 + 500);
        }
        if self.out.buffer().is_empty() && !readable(&self.out.get_ref().as_raw_fd(), left) {
            self.restart();
            return Res::Unknown("hard timeout".into());
        }
        let r = self.line();
        let res = match r.as_str() {
            "unsat" => Res::Unsat,
            "sat" => {
                if want_model && !vars.is_empty() {
                    let mut q = String::from("(get-value (");
                    let order: Vec<(u32, T)> = vars.iter().map(|(a, b)| (*a, *b)).collect();
                    for (_, t) in &order {
                        q.push_str(&format!("t{} ", t));
                    }
                    q.push_str("))\n");
                    if self.inp.write_all(q.as_bytes()).is_err() {
                        self.restart();
                        return Res::Unknown("pipe".into());
                    }
                    let _ = self.inp.flush();
                    // read balanced parens
                    let mut txt = String::new();
                    let mut depth = 0i64;
                    loop {
                        let mut l = String::new();
                        if self.out.read_line(&mut l).unwrap_or(0) == 0 {
                            self.restart();
                            return Res::Unknown("eof".into());
                        }
                        for c in l.chars() {
                            if c == '(' {
                                depth += 1
                            } else if c == ')' {
                                depth -= 1
                            }
                        }
                        txt.push_str(&l);
                        if depth == 0 {
                            break;
                        }
                    }
                    if txt.contains("error") {
                        self.restart();
                        return Res::Unknown(txt);
                    }
                    let mut byt: FxMap<T, u32> = FxMap::default();
                    for (v, t) in &order {
                        byt.insert(*t, *v);
                    }
                    let toks: Vec<&str> = txt.split(|c: char| c == '(' || c == ')' || c.is_whitespace()).filter(|s| !s.is_empty()).collect();
                    let mut out = vec![];
                    let mut i = 0;
                    while i + 1 < toks.len() {
                        let t: T = toks[i][1..].parse().unwrap();
                        let v = toks[i + 1];
                        let w = cx.w(t);
                        let mut limbs = vec![0u64; crate::bv::limbs(w)];
                        if let Some(h) = v.strip_prefix("#x") {
                            for (k, c) in h.chars().rev().enumerate() {
                                limbs[k / 16] |= (c.to_digit(16).unwrap() as u64) << (4 * (k % 16));
                            }
                        } else if let Some(b) = v.strip_prefix("#b") {
                            for (k, c) in b.chars().rev().enumerate() {
                                if c == '1' {
                                    limbs[k / 64] |= 1u64 << (k % 64);
                                }
                            }
                        }
                        out.push((byt[&t], Bv::from_limbs(w, &limbs)));
                        i += 2;
                    }
                    Res::Sat(out)
                } else {
                    Res::Sat(vec![])
                }
            }
            "unknown" | "timeout" => Res::Unknown("unknown/timeout".into()),
            _ => {
                self.restart();
                return Res::Unknown(r);
            }
        };
        if self.inp.write_all(b"(pop 1)\n").is_err() {
            self.restart();
        }
        res
    }
}
impl Drop for Proc {
    fn drop(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}

#[derive(Default, Clone, Debug)]
pub struct Stats {
    pub queries: u64,
    pub sat: u64,
    pub unsat: u64,
    pub unknown: u64,
    pub cache_hits: u64,
    pub model_hits: u64,
    pub folded: u64,
    pub secs: f64,
    pub max_secs: f64,
    pub assert_queries: u64,
    pub xcheck_queries: u64,
    pub xcheck_secs: f64,
    pub sweep_queries: u64,
    pub sweep_merges: u64,
}

pub struct Solver {
    pub z3: Proc,
    pub alt: Option<Proc>,
    pub stats: Stats,
    cache: FxMap<Vec<T>, Res>,
    pub hard_ms: u64,
}

impl Solver {
    pub fn new(timeout_ms: u64) -> Solver {
        Solver { z3: Proc::new("z3", timeout_ms), alt: None, stats: Stats::default(), cache: FxMap::default(), hard_ms: timeout_ms }
    }
    pub fn check(&mut self, cx: &Ctx, conds: &[T], model: bool) -> Res {
        self.check2(cx, conds, model, true)
    }
    /// One solver only.
    pub fn check1(&mut self, cx: &Ctx, conds: &[T], model: bool) -> Res {
        self.check2(cx, conds, model, false)
    }
    fn check2(&mut self, cx: &Ctx, conds: &[T], model: bool, second: bool) -> Res {
        let mut key: Vec<T> = conds.iter().copied().filter(|c| !cx.cv(*c).map_or(false, |v| v.is_one())).collect();
        key.sort_unstable();
        key.dedup();
        if key.iter().any(|c| cx.cv(*c).map_or(false, |v| v.is_zero())) {
            self.stats.folded += 1;
            return Res::Unsat;
        }
        if let Some(r) = self.cache.get(&key) {
            self.stats.cache_hits += 1;
            return r.clone();
        }
        let t0 = Instant::now();
        let mut r = self.z3.check(cx, &key, model);
        if let (Res::Unknown(_), true) = (&r, second) {
            // second opinion
            if self.alt.is_none() {
                self.alt = Some(Proc::new("cvc5", self.hard_ms));
            }
            r = self.alt.as_mut().unwrap().check(cx, &key, model);
        }
        let dt = t0.elapsed().as_secs_f64();
        if dt > std::env::var("SYMEX_SLOWT").ok().and_then(|x| x.parse().ok()).unwrap_or(2.0) && std::env::var("SYMEX_SLOW").is_ok() {
            eprintln!("slow query {:.1}s {:?} conds: {}", dt, matches!(r, Res::Unsat), key.iter().map(|k| cx.show(*k, std::env::var("SYMEX_SLOW").unwrap().parse().unwrap_or(3))).collect::<Vec<_>>().join(" ; "));
        }
        self.stats.queries += 1;
        self.stats.secs += dt;
        if dt > self.stats.max_secs {
            self.stats.max_secs = dt;
        }
        match r {
            Res::Sat(_) => self.stats.sat += 1,
            Res::Unsat => self.stats.unsat += 1,
            _ => self.stats.unknown += 1,
        }
        if !matches!(r, Res::Unknown(_)) {
            self.cache.insert(key, r.clone());
        }
        r
    }
    /// final assertion query, re-checked with the second solver
    pub fn xcheck(&mut self, cx: &Ctx, conds: &[T]) -> Res {
        let t0 = Instant::now();
        if self.alt.is_none() {
            self.alt = Some(Proc::new("cvc5", self.hard_ms));
        }
        let r = self.alt.as_mut().unwrap().check(cx, conds, false);
        self.stats.xcheck_queries += 1;
        self.stats.xcheck_secs += t0.elapsed().as_secs_f64();
        r
    }
}
