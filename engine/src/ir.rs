//! Textual LLVM IR reader: lazily parses functions and globals of one whole-program module.
use std::collections::HashMap;
use std::rc::Rc;

#[derive(Clone, PartialEq, Debug)]
pub enum Ty {
    Void,
    Int(u32),
    Ptr,
    F32,
    F64,
    Arr(u64, Rc<Ty>),
    Struct(Rc<Vec<Ty>>, bool),
    Vec(u32, Rc<Ty>),
    Other,
}
impl Ty {
    pub fn align(&self) -> u64 {
        match self {
            Ty::Int(w) => {
                let b = ((*w as u64) + 7) / 8;
                b.next_power_of_two().min(16)
            }
            Ty::Ptr | Ty::F64 => 8,
            Ty::F32 => 4,
            Ty::Arr(_, t) => t.align(),
            Ty::Struct(f, packed) => {
                if *packed {
                    1
                } else {
                    f.iter().map(|t| t.align()).max().unwrap_or(1)
                }
            }
            Ty::Vec(..) => self.size().next_power_of_two().max(1),
            _ => 1,
        }
    }
    pub fn store_size(&self) -> u64 {
        match self {
            Ty::Int(w) => ((*w as u64) + 7) / 8,
            _ => self.size(),
        }
    }
    pub fn size(&self) -> u64 {
        match self {
            Ty::Int(_) => {
                let a = self.align();
                (self.store_size() + a - 1) / a * a
            }
            Ty::Ptr | Ty::F64 => 8,
            Ty::F32 => 4,
            Ty::Arr(n, t) => n * t.size(),
            Ty::Struct(f, packed) => {
                let mut o = 0;
                for t in f.iter() {
                    if !packed {
                        let a = t.align();
                        o = (o + a - 1) / a * a;
                    }
                    o += t.size();
                }
                if !packed {
                    let a = self.align();
                    o = (o + a - 1) / a * a;
                }
                o
            }
            Ty::Vec(n, t) => ((*n as u64) * t.bits() as u64 + 7) / 8,
            _ => 0,
        }
    }
    pub fn bits(&self) -> u32 {
        match self {
            Ty::Int(w) => *w,
            Ty::Ptr | Ty::F64 => 64,
            Ty::F32 => 32,
            Ty::Vec(n, t) => n * t.bits(),
            _ => 0,
        }
    }
    pub fn field(&self, i: u64) -> (u64, Ty) {
        match self {
            Ty::Arr(_, t) => (i * t.size(), (**t).clone()),
            Ty::Vec(_, t) => (i * t.size(), (**t).clone()),
            Ty::Struct(f, packed) => {
                let mut o = 0;
                for (j, t) in f.iter().enumerate() {
                    if !packed {
                        let a = t.align();
                        o = (o + a - 1) / a * a;
                    }
                    if j as u64 == i {
                        return (o, t.clone());
                    }
                    o += t.size();
                }
                panic!("field")
            }
            _ => panic!("field of {:?}", self),
        }
    }
}

/// Constant (resolved lazily into engine values)
#[derive(Clone, Debug)]
pub enum C {
    Int(u32, Vec<u64>),
    Undef(Ty),
    Zero(Ty),
    Global(String),
    Agg(Ty, Rc<Vec<C>>),
    Bytes(Rc<Vec<u8>>),
    /// base + byte offset
    Add(Box<C>, i64),
    Sub(Box<C>, Box<C>),
    Trunc(Box<C>, u32),
}

#[derive(Clone, Debug)]
pub enum Opd {
    R(u32),
    K(u32), // index into module constant pool
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum B {
    Add,
    Sub,
    Mul,
    UDiv,
    SDiv,
    URem,
    SRem,
    Shl,
    LShr,
    AShr,
    And,
    Or,
    Xor,
}
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum P {
    Eq,
    Ne,
    Ult,
    Ule,
    Ugt,
    Uge,
    Slt,
    Sle,
    Sgt,
    Sge,
}
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Cast {
    Trunc,
    ZExt,
    SExt,
    Bit,
    FpToUi,
    FpToSi,
    UiToFp,
    SiToFp,
    FpExt,
    FpTrunc,
}

#[derive(Clone, Debug)]
pub enum Callee {
    F(u32),
    Opd(Opd),
    Asm,
}

#[derive(Clone, Debug)]
pub enum I {
    Bin { op: B, w: u32, lanes: u32, a: Opd, b: Opd, d: u32 },
    FBin { op: u8, dbl: bool, a: Opd, b: Opd, d: u32 },
    FCmp { pred: u8, dbl: bool, a: Opd, b: Opd, d: u32 },
    Icmp { p: P, w: u32, lanes: u32, a: Opd, b: Opd, d: u32 },
    Cast { k: Cast, from: Ty, to: Ty, a: Opd, d: u32 },
    Select { c: Opd, a: Opd, b: Opd, ty: Ty, vc: bool, d: u32 },
    Load { ty: Ty, p: Opd, d: u32 },
    Store { ty: Ty, v: Opd, p: Opd },
    Alloca { ty: Ty, n: Option<Opd>, d: u32 },
    Gep { base: Opd, off: i64, idx: Vec<(Opd, u32, u64)>, d: u32 },
    Call { c: Callee, args: Vec<(Ty, Opd)>, ret: Ty, d: u32 },
    ExtractValue { a: Opd, path: Vec<u32>, d: u32 },
    InsertValue { a: Opd, ty: Ty, v: Opd, path: Vec<u32>, d: u32 },
    ExtractElement { a: Opd, i: Opd, d: u32 },
    InsertElement { a: Opd, v: Opd, i: Opd, n: u32, d: u32 },
    Shuffle { a: Opd, b: Opd, n: u32, mask: Vec<i64>, d: u32 },
    Rmw { op: u8, ty: Ty, p: Opd, v: Opd, d: u32 },
    CmpXchg { ty: Ty, p: Opd, c: Opd, n: Opd, d: u32 },
    Copy { a: Opd, d: u32 },
    Fence,
    Landing,
}
#[derive(Clone, Debug)]
pub enum Term {
    Ret(Option<Opd>),
    Br(u32),
    CondBr(Opd, u32, u32),
    Switch(Opd, u32, u32, Vec<(Vec<u64>, u32)>),
    Unreachable,
}
#[derive(Clone, Debug)]
pub struct Phi {
    pub d: u32,
    pub ty: Ty,
    pub inc: Vec<(u32, Opd)>,
}
#[derive(Debug)]
pub struct Block {
    pub phis: Vec<Phi>,
    pub ins: Vec<I>,
    pub term: Term,
    pub npred: u32,
}
#[derive(Debug)]
pub struct Func {
    pub name: String,
    pub params: Vec<u32>,
    pub blocks: Vec<Block>,
    pub nregs: u32,
    pub ret: Ty,
}

pub struct GlobalDef {
    pub name: String,
    pub text: (usize, usize),
    pub constant: bool,
    pub ext: bool,
}

pub struct Module {
    pub src: Vec<u8>,
    pub fdefs: Vec<(String, Option<(usize, usize)>)>, // define text span or declaration
    pub fidx: HashMap<String, u32>,
    pub globals: Vec<GlobalDef>,
    pub gidx: HashMap<String, u32>,
    pub named: HashMap<String, Ty>,
    pub named_txt: HashMap<String, (usize, usize)>,
    pub consts: Vec<C>,
    pub aliases: HashMap<String, String>,
}

pub struct Ps<'a> {
    s: &'a [u8],
    i: usize,
}

fn isid(c: u8) -> bool {
    c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'$' || c == b'-'
}

impl<'a> Ps<'a> {
    fn ws(&mut self) {
        loop {
            while self.i < self.s.len() && (self.s[self.i] as char).is_ascii_whitespace() {
                self.i += 1;
            }
            if self.i < self.s.len() && self.s[self.i] == b';' {
                while self.i < self.s.len() && self.s[self.i] != b'\n' {
                    self.i += 1;
                }
            } else {
                return;
            }
        }
    }
    fn peek(&mut self) -> u8 {
        self.ws();
        if self.i < self.s.len() {
            self.s[self.i]
        } else {
            0
        }
    }
    fn eat(&mut self, c: u8) -> bool {
        if self.peek() == c {
            self.i += 1;
            true
        } else {
            false
        }
    }
    fn expect(&mut self, c: u8) {
        if !self.eat(c) {
            let e = (self.i + 80).min(self.s.len());
            let b = self.i.saturating_sub(80);
            panic!("expected '{}' at: {} >>> {}", c as char, String::from_utf8_lossy(&self.s[b..self.i]), String::from_utf8_lossy(&self.s[self.i..e]));
        }
    }
    fn word(&mut self) -> &'a str {
        self.ws();
        let b = self.i;
        while self.i < self.s.len() && isid(self.s[self.i]) {
            self.i += 1;
        }
        std::str::from_utf8(&self.s[b..self.i]).unwrap()
    }
    fn peek_word(&mut self) -> &'a str {
        self.ws();
        let b = self.i;
        let w = self.word();
        self.i = b;
        w
    }
    fn eatw(&mut self, w: &str) -> bool {
        if self.peek_word() == w {
            self.word();
            true
        } else {
            false
        }
    }
    fn name(&mut self) -> String {
        // after % or @
        if self.s[self.i] == b'"' {
            self.i += 1;
            let b = self.i;
            while self.s[self.i] != b'"' {
                self.i += 1;
            }
            let r = String::from_utf8_lossy(&self.s[b..self.i]).to_string();
            self.i += 1;
            r
        } else {
            let b = self.i;
            while self.i < self.s.len() && isid(self.s[self.i]) {
                self.i += 1;
            }
            String::from_utf8_lossy(&self.s[b..self.i]).to_string()
        }
    }
    fn balanced(&mut self) {
        // at '(' / '[' / '{' / '<'
        let mut d = 0;
        loop {
            let c = self.s[self.i];
            match c {
                b'(' | b'[' | b'{' => d += 1,
                b')' | b']' | b'}' => d -= 1,
                b'"' => {
                    self.i += 1;
                    while self.s[self.i] != b'"' {
                        self.i += 1;
                    }
                }
                _ => {}
            }
            self.i += 1;
            if d == 0 {
                return;
            }
        }
    }
    fn string(&mut self) -> Vec<u8> {
        // at "
        self.expect(b'"');
        let mut o = vec![];
        while self.s[self.i] != b'"' {
            if self.s[self.i] == b'\\' {
                let h = |c: u8| (c as char).to_digit(16).unwrap() as u8;
                if self.s[self.i + 1] == b'\\' {
                    o.push(b'\\');
                    self.i += 2;
                } else {
                    o.push(h(self.s[self.i + 1]) * 16 + h(self.s[self.i + 2]));
                    self.i += 3;
                }
            } else {
                o.push(self.s[self.i]);
                self.i += 1;
            }
        }
        self.i += 1;
        o
    }
    fn int_lit(&mut self) -> Vec<u64> {
        let w = self.word();
        parse_int(w)
    }
}

pub fn parse_int(w: &str) -> Vec<u64> {
    let (neg, d) = if let Some(r) = w.strip_prefix('-') { (true, r) } else { (false, w) };
    let mut v: Vec<u64> = vec![0; 10];
    if let Some(h) = d.strip_prefix("u0x").or(d.strip_prefix("s0x")) {
        for c in h.chars() {
            let mut carry = c.to_digit(16).unwrap() as u128;
            for x in v.iter_mut() {
                let t = (*x as u128) * 16 + carry;
                *x = t as u64;
                carry = t >> 64;
            }
        }
    } else {
        for c in d.chars() {
            let mut carry = c.to_digit(10).unwrap_or_else(|| panic!("int literal {}", w)) as u128;
            for x in v.iter_mut() {
                let t = (*x as u128) * 10 + carry;
                *x = t as u64;
                carry = t >> 64;
            }
        }
    }
    if neg {
        let mut c = 1u128;
        for x in v.iter_mut() {
            let t = (!*x) as u128 + c;
            *x = t as u64;
            c = t >> 64;
        }
    }
    v
}

struct FnCtx {
    regs: HashMap<String, u32>,
    labels: HashMap<String, u32>,
}
impl FnCtx {
    fn reg(&mut self, n: String) -> u32 {
        let l = self.regs.len() as u32;
        *self.regs.entry(n).or_insert(l)
    }
    fn label(&mut self, n: String) -> u32 {
        let l = self.labels.len() as u32;
        *self.labels.entry(n).or_insert(l)
    }
}

impl Module {
    pub fn load(path: &str) -> Module {
        let src = std::fs::read(path).expect("read ll");
        let mut m = Module {
            src: vec![],
            fdefs: vec![],
            fidx: HashMap::new(),
            globals: vec![],
            gidx: HashMap::new(),
            named: HashMap::new(),
            named_txt: HashMap::new(),
            consts: vec![],
            aliases: HashMap::new(),
        };
        let mut i = 0;
        while i < src.len() {
            let e = src[i..].iter().position(|c| *c == b'\n').map(|p| i + p).unwrap_or(src.len());
            let line = &src[i..e];
            let mut next = e + 1;
            if line.starts_with(b"@") {
                let mut p = Ps { s: &src, i: i + 1 };
                let name = p.name();
                p.expect(b'=');
                // multi-line globals: scan until a line beginning with non-space after balanced braces
                let mut text_end = e;
                {
                    let mut d: i64 = 0;
                    let mut j = i;
                    loop {
                        let c = src[j];
                        match c {
                            b'"' => {
                                j += 1;
                                while src[j] != b'"' {
                                    j += 1;
                                }
                            }
                            b'(' | b'[' | b'{' => d += 1,
                            b')' | b']' | b'}' => d -= 1,
                            b'\n' if d == 0 => {
                                text_end = j;
                                break;
                            }
                            _ => {}
                        }
                        j += 1;
                        if j >= src.len() {
                            break;
                        }
                    }
                }
                next = text_end + 1;
                let b = p.i;
                // find whether constant/global/alias
                let mut constant = false;
                let mut ext = false;
                let mut alias = false;
                loop {
                    let w = p.word();
                    match w {
                        "constant" => {
                            constant = true;
                            break;
                        }
                        "global" => break,
                        "alias" => {
                            alias = true;
                            break;
                        }
                        "external" | "extern_weak" => ext = true,
                        "" => {
                            // ( ... ) such as thread_local(initialexec)
                            if p.peek() == b'(' {
                                p.balanced();
                            } else {
                                panic!("global {}", String::from_utf8_lossy(&src[i..(i + 200).min(e)]));
                            }
                        }
                        _ => {
                            if p.peek() == b'(' {
                                p.balanced();
                            }
                        }
                    }
                }
                let _ = b;
                if alias {
                    let t = String::from_utf8_lossy(&src[p.i..text_end]).to_string();
                    let tgt = t[t.find('@').unwrap() + 1..].trim().split(',').next().unwrap().trim_matches('"').to_string();
                    m.aliases.insert(name, tgt);
                } else {
                    let idx = m.globals.len() as u32;
                    m.gidx.insert(name.clone(), idx);
                    m.globals.push(GlobalDef { name, text: (p.i, text_end), constant, ext });
                }
            } else if line.starts_with(b"define") || line.starts_with(b"declare") {
                let at = line.iter().position(|c| *c == b'@').unwrap();
                let mut p = Ps { s: &src, i: i + at + 1 };
                let name = p.name();
                let idx = m.fdefs.len() as u32;
                if line.starts_with(b"define") {
                    // ends at "\n}"
                    let mut j = e;
                    loop {
                        if src[j] == b'\n' && src[j + 1] == b'}' {
                            break;
                        }
                        j += 1;
                    }
                    next = j + 3;
                    m.fidx.insert(name.clone(), idx);
                    m.fdefs.push((name, Some((i, j + 1))));
                } else {
                    m.fidx.insert(name.clone(), idx);
                    m.fdefs.push((name, None));
                }
            } else if line.starts_with(b"%") {
                let mut p = Ps { s: &src, i: i + 1 };
                let name = p.name();
                p.expect(b'=');
                p.eatw("type");
                m.named_txt.insert(name, (p.i, e));
            }
            i = next;
        }
        m.src = src;
        m
    }

    fn ty(&mut self, p: &mut Ps) -> Ty {
        let t = match p.peek() {
            b'[' => {
                p.i += 1;
                let n = p.int_lit()[0];
                assert!(p.eatw("x"));
                let t = self.ty(p);
                p.expect(b']');
                Ty::Arr(n, Rc::new(t))
            }
            b'<' => {
                p.i += 1;
                if p.peek() == b'{' {
                    let t = self.ty(p);
                    p.expect(b'>');
                    if let Ty::Struct(f, _) = t {
                        Ty::Struct(f, true)
                    } else {
                        unreachable!()
                    }
                } else {
                    let n = p.int_lit()[0];
                    assert!(p.eatw("x"));
                    let t = self.ty(p);
                    p.expect(b'>');
                    Ty::Vec(n as u32, Rc::new(t))
                }
            }
            b'{' => {
                p.i += 1;
                let mut f = vec![];
                if !p.eat(b'}') {
                    loop {
                        f.push(self.ty(p));
                        if p.eat(b'}') {
                            break;
                        }
                        p.expect(b',');
                    }
                }
                Ty::Struct(Rc::new(f), false)
            }
            b'%' => {
                p.i += 1;
                let n = p.name();
                if let Some(t) = self.named.get(&n) {
                    t.clone()
                } else if let Some((b, e)) = self.named_txt.get(&n).copied() {
                    let s = self.src[b..e].to_vec();
                    let mut q = Ps { s: &s, i: 0 };
                    let t = if q.eatw("opaque") { Ty::Other } else { self.ty(&mut q) };
                    self.named.insert(n, t.clone());
                    t
                } else {
                    panic!("named type {}", n)
                }
            }
            _ => {
                let w = p.word();
                match w {
                    "void" => Ty::Void,
                    "ptr" => Ty::Ptr,
                    "float" => Ty::F32,
                    "double" => Ty::F64,
                    "metadata" | "token" | "label" | "half" | "x86_fp80" | "fp128" => Ty::Other,
                    _ if w.starts_with('i') => Ty::Int(w[1..].parse().unwrap_or_else(|_| panic!("type {}", w))),
                    _ => panic!("type '{}' near {}", w, String::from_utf8_lossy(&p.s[p.i.saturating_sub(60)..(p.i + 60).min(p.s.len())])),
                }
            }
        };
        t
    }
    fn looks_type(p: &mut Ps) -> bool {
        match p.peek() {
            b'[' | b'<' | b'{' | b'%' => true,
            _ => {
                let w = p.peek_word();
                matches!(w, "void" | "ptr" | "float" | "double" | "metadata" | "token" | "label" | "half" | "x86_fp80" | "fp128")
                    || (w.len() > 1 && w.as_bytes()[0] == b'i' && w[1..].bytes().all(|c| c.is_ascii_digit()))
            }
        }
    }
    fn constant(&mut self, p: &mut Ps, ty: &Ty) -> C {
        match p.peek() {
            b'@' => {
                p.i += 1;
                C::Global(p.name())
            }
            b'c' if p.s[p.i + 1] == b'"' => {
                p.i += 1;
                C::Bytes(Rc::new(p.string()))
            }
            b'[' | b'{' | b'<' => {
                let open = p.s[p.i];
                p.i += 1;
                let mut packed_inner = false;
                if open == b'<' && p.peek() == b'{' {
                    p.i += 1;
                    packed_inner = true;
                }
                let close = match open {
                    b'[' => b']',
                    b'{' => b'}',
                    _ => {
                        if packed_inner {
                            b'}'
                        } else {
                            b'>'
                        }
                    }
                };
                let mut v = vec![];
                if !p.eat(close) {
                    loop {
                        let t = self.ty(p);
                        v.push(self.constant(p, &t));
                        if p.eat(close) {
                            break;
                        }
                        p.expect(b',');
                    }
                }
                if packed_inner {
                    p.expect(b'>');
                }
                C::Agg(ty.clone(), Rc::new(v))
            }
            c if c == b'-' || c.is_ascii_digit() => {
                let w = p.word();
                match ty {
                    Ty::Int(n) => C::Int(*n, parse_int(w)),
                    Ty::F32 | Ty::F64 => {
                        let d: f64 = if let Some(h) = w.strip_prefix("0x") {
                            f64::from_bits(u64::from_str_radix(h, 16).unwrap())
                        } else {
                            // the exponent sign '+' is not an identifier character
                            let mut s = w.to_string();
                            if p.s[p.i] == b'+' {
                                p.i += 1;
                                s.push_str(p.word());
                            }
                            s.parse().unwrap_or_else(|_| panic!("float {}", s))
                        };
                        if *ty == Ty::F32 {
                            C::Int(32, vec![(d as f32).to_bits() as u64])
                        } else {
                            C::Int(64, vec![d.to_bits()])
                        }
                    }
                    _ => panic!("numeric const of type {:?} {}", ty, w),
                }
            }
            _ => {
                let w = p.word();
                match w {
                    "true" => C::Int(1, vec![1]),
                    "false" => C::Int(1, vec![0]),
                    "null" | "zeroinitializer" | "none" => C::Zero(ty.clone()),
                    "undef" | "poison" => C::Undef(ty.clone()),
                    "splat" => {
                        p.expect(b'(');
                        let t = self.ty(p);
                        let c = self.constant(p, &t);
                        p.expect(b')');
                        let n = match ty {
                            Ty::Vec(n, _) => *n as usize,
                            Ty::Arr(n, _) => *n as usize,
                            _ => panic!("splat"),
                        };
                        C::Agg(ty.clone(), Rc::new(vec![c; n]))
                    }
                    "u0x" => panic!("u0x"),
                    "f0x" => panic!("f0x"),
                    "getelementptr" => {
                        while p.peek() != b'(' {
                            p.word();
                            if p.peek() == b'(' {
                                // inrange(...)
                                let save = p.i;
                                p.balanced();
                                if p.peek() != b'(' {
                                    p.i = save;
                                    break;
                                }
                            }
                        }
                        p.expect(b'(');
                        let t = self.ty(p);
                        p.expect(b',');
                        let bt = self.ty(p);
                        let base = self.constant(p, &bt);
                        let mut off = 0i64;
                        let mut cur = t;
                        let mut first = true;
                        while p.eat(b',') {
                            let it = self.ty(p);
                            let c = self.constant(p, &it);
                            let k = match c {
                                C::Int(_, v) => v[0] as i64,
                                C::Zero(_) => 0,
                                _ => panic!("gep const idx"),
                            };
                            if first {
                                off += k * cur.size() as i64;
                                first = false;
                            } else {
                                let (o, n) = cur.field(k as u64);
                                off += o as i64;
                                cur = n;
                            }
                        }
                        p.expect(b')');
                        C::Add(Box::new(base), off)
                    }
                    "inttoptr" | "ptrtoint" | "bitcast" | "addrspacecast" | "ptrtoaddr" => {
                        p.expect(b'(');
                        let t = self.ty(p);
                        let c = self.constant(p, &t);
                        p.eatw("to");
                        let to = self.ty(p);
                        p.expect(b')');
                        if let Ty::Int(w) = to {
                            if w < 64 {
                                return C::Trunc(Box::new(c), w);
                            }
                        }
                        c
                    }
                    "trunc" => {
                        p.expect(b'(');
                        let t = self.ty(p);
                        let c = self.constant(p, &t);
                        p.eatw("to");
                        let to = self.ty(p);
                        p.expect(b')');
                        C::Trunc(Box::new(c), to.bits())
                    }
                    "sub" | "add" => {
                        let is_sub = w == "sub";
                        while p.peek() != b'(' {
                            p.word();
                        }
                        p.expect(b'(');
                        let t = self.ty(p);
                        let a = self.constant(p, &t);
                        p.expect(b',');
                        let t2 = self.ty(p);
                        let b = self.constant(p, &t2);
                        p.expect(b')');
                        if is_sub {
                            C::Sub(Box::new(a), Box::new(b))
                        } else {
                            match b {
                                C::Int(_, v) => C::Add(Box::new(a), v[0] as i64),
                                _ => panic!("add constexpr"),
                            }
                        }
                    }
                    _ if w.starts_with("u0x") || w.starts_with("s0x") => C::Int(ty.bits(), parse_int(w)),
                    _ if w.starts_with("0x") => panic!("hex"),
                    _ => panic!("constant '{}' ty {:?} near {}", w, ty, String::from_utf8_lossy(&p.s[p.i.saturating_sub(80)..(p.i + 40).min(p.s.len())])),
                }
            }
        }
    }
    pub fn global_init(&mut self, gi: u32) -> (Ty, Option<C>, u64) {
        let (b, e) = self.globals[gi as usize].text;
        let s = self.src[b..e].to_vec();
        let mut p = Ps { s: &s, i: 0 };
        let t = self.ty(&mut p);
        let c = if self.globals[gi as usize].ext { None } else { Some(self.constant(&mut p, &t)) };
        let sz = t.size();
        (t, c, sz)
    }

    fn opd(&mut self, p: &mut Ps, ty: &Ty, f: &mut FnCtx) -> Opd {
        if p.peek() == b'%' {
            p.i += 1;
            let n = p.name();
            return Opd::R(f.reg(n));
        }
        let c = self.constant(p, ty);
        self.konst(c)
    }
    fn konst(&mut self, c: C) -> Opd {
        let k = self.consts.len() as u32;
        self.consts.push(c);
        Opd::K(k)
    }
    fn topd(&mut self, p: &mut Ps, f: &mut FnCtx) -> (Ty, Opd) {
        let t = self.ty(p);
        let o = self.opd(p, &t, f);
        (t, o)
    }
    fn label(&mut self, p: &mut Ps, f: &mut FnCtx) -> u32 {
        p.eatw("label");
        p.expect(b'%');
        let n = p.name();
        f.label(n)
    }
    fn skip_attrs(p: &mut Ps) {
        // skip attribute words until a type / operand start
        loop {
            if Self::looks_type(p) {
                return;
            }
            match p.peek() {
                b'#' => {
                    p.i += 1;
                    p.word();
                }
                b'"' => {
                    p.string();
                    if p.eat(b'=') {
                        p.string();
                    }
                }
                b'@' | b'%' | 0 | b',' | b')' => return,
                _ => {
                    let w = p.word();
                    if w.is_empty() {
                        return;
                    }
                    if p.peek() == b'(' {
                        p.balanced();
                    } else if w == "align" {
                        p.word();
                    }
                }
            }
        }
    }

    pub fn parse_func(&mut self, fi: u32) -> Func {
        let (b, e) = self.fdefs[fi as usize].1.expect("define");
        let s = self.src[b..e].to_vec();
        let name = self.fdefs[fi as usize].0.clone();
        let mut p = Ps { s: &s, i: 0 };
        let mut f = FnCtx { regs: HashMap::new(), labels: HashMap::new() };
        p.eatw("define");
        Self::skip_attrs(&mut p);
        let ret = self.ty(&mut p);
        p.expect(b'@');
        p.name();
        p.expect(b'(');
        let mut params = vec![];
        let mut anon = 0;
        if !p.eat(b')') {
            loop {
                if p.peek() == b'.' {
                    p.i += 3;
                    p.expect(b')');
                    break;
                }
                let _t = self.ty(&mut p);
                // attrs then name
                loop {
                    match p.peek() {
                        b'%' => {
                            p.i += 1;
                            let n = p.name();
                            params.push(f.reg(n));
                            break;
                        }
                        b',' | b')' => {
                            params.push(f.reg(anon.to_string()));
                            break;
                        }
                        b'"' => {
                            p.string();
                            if p.eat(b'=') {
                                p.string();
                            }
                        }
                        _ => {
                            let w = p.word();
                            if w.is_empty() {
                                panic!("param attr in {}", name);
                            }
                            if p.peek() == b'(' {
                                p.balanced();
                            } else if w == "align" {
                                p.word();
                            }
                        }
                    }
                }
                anon += 1;
                if p.eat(b')') {
                    break;
                }
                p.expect(b',');
            }
        }
        // to the body
        while p.s[p.i] != b'{' || p.s.get(p.i + 1) != Some(&b'\n') {
            p.i += 1;
        }
        p.i += 2;
        let mut blocks: Vec<Option<Block>> = vec![];
        // first block may be unlabeled
        let mut cur: Option<(u32, Vec<Phi>, Vec<I>)> = None;
        let put = |blocks: &mut Vec<Option<Block>>, id: u32, b: Block| {
            while blocks.len() <= id as usize {
                blocks.push(None);
            }
            blocks[id as usize] = Some(b);
        };
        loop {
            let c = p.peek();
            if c == b'}' || c == 0 {
                break;
            }
            // label?
            {
                let save = p.i;
                let n = if c == b'"' { p.name() } else { p.word().to_string() };
                if !n.is_empty() && p.i < p.s.len() && p.s[p.i] == b':' {
                    p.i += 1;
                    let id = f.label(n);
                    cur = Some((id, vec![], vec![]));
                    continue;
                }
                p.i = save;
            }
            if cur.is_none() {
                // entry without label: numbered after the params
                let nnum = f.regs.keys().filter(|k| k.bytes().all(|c| c.is_ascii_digit())).count();
                let id = f.label(format!("{}", nnum));
                cur = Some((id, vec![], vec![]));
            }
            let mut term: Option<Term> = None;
            {
                let (_, phis, ins) = cur.as_mut().unwrap();
                self.inst(&mut p, &mut f, phis, ins, &mut term, &name);
            }
            // skip trailing metadata to end of line
            while p.i < p.s.len() && p.s[p.i] != b'\n' {
                p.i += 1;
            }
            if let Some(t) = term {
                let (id, phis, ins) = cur.take().unwrap();
                put(&mut blocks, id, Block { phis, ins, term: t, npred: 0 });
            }
        }
        let mut blocks: Vec<Block> = blocks
            .into_iter()
            .map(|b| b.unwrap_or(Block { phis: vec![], ins: vec![], term: Term::Unreachable, npred: 0 }))
            .collect();
        while blocks.len() < f.labels.len() {
            blocks.push(Block { phis: vec![], ins: vec![], term: Term::Unreachable, npred: 0 });
        }
        let mut np = vec![0u32; blocks.len()];
        for b in &blocks {
            match &b.term {
                Term::Br(x) => np[*x as usize] += 1,
                Term::CondBr(_, x, y) => {
                    np[*x as usize] += 1;
                    np[*y as usize] += 1;
                }
                Term::Switch(_, _, d, v) => {
                    np[*d as usize] += 1;
                    for x in v {
                        np[x.1 as usize] += 1;
                    }
                }
                _ => {}
            }
        }
        for (b, n) in blocks.iter_mut().zip(np) {
            b.npred = n;
        }
        Func { name, params, blocks, nregs: f.regs.len() as u32, ret }
    }

    fn inst(&mut self, p: &mut Ps, f: &mut FnCtx, phis: &mut Vec<Phi>, ins: &mut Vec<I>, term: &mut Option<Term>, fname: &str) {
        let mut d = u32::MAX;
        if p.peek() == b'%' {
            p.i += 1;
            let n = p.name();
            d = f.reg(n);
            p.expect(b'=');
        }
        let mut op = p.word();
        while matches!(op, "tail" | "musttail" | "notail") {
            op = p.word();
        }
        let binop = |s: &str| {
            Some(match s {
                "add" => B::Add,
                "sub" => B::Sub,
                "mul" => B::Mul,
                "udiv" => B::UDiv,
                "sdiv" => B::SDiv,
                "urem" => B::URem,
                "srem" => B::SRem,
                "shl" => B::Shl,
                "lshr" => B::LShr,
                "ashr" => B::AShr,
                "and" => B::And,
                "or" => B::Or,
                "xor" => B::Xor,
                _ => return None,
            })
        };
        let castop = |s: &str| {
            Some(match s {
                "trunc" => Cast::Trunc,
                "zext" => Cast::ZExt,
                "sext" => Cast::SExt,
                "bitcast" | "ptrtoint" | "inttoptr" | "addrspacecast" | "ptrtoaddr" => Cast::Bit,
                "fptoui" => Cast::FpToUi,
                "fptosi" => Cast::FpToSi,
                "uitofp" => Cast::UiToFp,
                "sitofp" => Cast::SiToFp,
                "fpext" => Cast::FpExt,
                "fptrunc" => Cast::FpTrunc,
                _ => return None,
            })
        };
        if let Some(b) = binop(op) {
            while matches!(p.peek_word(), "nuw" | "nsw" | "exact" | "disjoint") {
                p.word();
            }
            let t = self.ty(p);
            let a = self.opd(p, &t, f);
            p.expect(b',');
            let c = self.opd(p, &t, f);
            let (w, lanes) = match &t {
                Ty::Vec(n, e) => (e.bits(), *n),
                _ => (t.bits(), 0),
            };
            ins.push(I::Bin { op: b, w, lanes, a, b: c, d });
            return;
        }
        if let Some(k) = castop(op) {
            while matches!(p.peek_word(), "nuw" | "nsw" | "nneg") {
                p.word();
            }
            let (from, a) = self.topd(p, f);
            p.eatw("to");
            let to = self.ty(p);
            ins.push(I::Cast { k, from, to, a, d });
            return;
        }
        match op {
            "fadd" | "fsub" | "fmul" | "fdiv" | "frem" => {
                while !Self::looks_type(p) {
                    p.word();
                }
                let t = self.ty(p);
                let a = self.opd(p, &t, f);
                p.expect(b',');
                let b = self.opd(p, &t, f);
                ins.push(I::FBin { op: op.as_bytes()[1], dbl: t == Ty::F64, a, b, d });
            }
            "fneg" => {
                let (t, a) = self.topd(p, f);
                ins.push(I::FBin { op: b'n', dbl: t == Ty::F64, a: a.clone(), b: a, d });
            }
            "fcmp" => {
                let mut w = p.word();
                while matches!(w, "nnan" | "ninf" | "nsz" | "fast") {
                    w = p.word();
                }
                let t = self.ty(p);
                let a = self.opd(p, &t, f);
                p.expect(b',');
                let b = self.opd(p, &t, f);
                let pred = match w {
                    "oeq" => 1,
                    "ogt" => 2,
                    "oge" => 3,
                    "olt" => 4,
                    "ole" => 5,
                    "one" => 6,
                    "ord" => 7,
                    "uno" => 8,
                    "ueq" => 9,
                    "ugt" => 10,
                    "uge" => 11,
                    "ult" => 12,
                    "ule" => 13,
                    "une" => 14,
                    _ => panic!("fcmp {}", w),
                };
                ins.push(I::FCmp { pred, dbl: t == Ty::F64, a, b, d });
            }
            "icmp" => {
                p.eatw("samesign");
                let w = p.word();
                let pr = match w {
                    "eq" => P::Eq,
                    "ne" => P::Ne,
                    "ult" => P::Ult,
                    "ule" => P::Ule,
                    "ugt" => P::Ugt,
                    "uge" => P::Uge,
                    "slt" => P::Slt,
                    "sle" => P::Sle,
                    "sgt" => P::Sgt,
                    "sge" => P::Sge,
                    _ => panic!("icmp {}", w),
                };
                let t = self.ty(p);
                let a = self.opd(p, &t, f);
                p.expect(b',');
                let b = self.opd(p, &t, f);
                let (w, lanes) = match &t {
                    Ty::Vec(n, e) => (e.bits(), *n),
                    _ => (t.bits(), 0),
                };
                ins.push(I::Icmp { p: pr, w, lanes, a, b, d });
            }
            "select" => {
                let (ct, c) = self.topd(p, f);
                p.expect(b',');
                let (t, a) = self.topd(p, f);
                p.expect(b',');
                let (_, b) = self.topd(p, f);
                ins.push(I::Select { c, a, b, ty: t, vc: matches!(ct, Ty::Vec(..)), d });
            }
            "phi" => {
                let t = self.ty(p);
                let mut inc = vec![];
                loop {
                    p.expect(b'[');
                    let o = self.opd(p, &t, f);
                    p.expect(b',');
                    p.expect(b'%');
                    let n = p.name();
                    let l = f.label(n);
                    p.expect(b']');
                    inc.push((l, o));
                    // continue only if ", ["
                    let save = p.i;
                    if p.eat(b',') && p.peek() == b'[' {
                        continue;
                    }
                    p.i = save;
                    break;
                }
                phis.push(Phi { d, ty: t, inc });
            }
            "alloca" => {
                p.eatw("inalloca");
                let t = self.ty(p);
                let mut n = None;
                let save = p.i;
                if p.eat(b',') && Self::looks_type(p) {
                    let (_, o) = self.topd(p, f);
                    n = Some(o);
                } else {
                    p.i = save;
                }
                ins.push(I::Alloca { ty: t, n, d });
            }
            "load" => {
                while matches!(p.peek_word(), "atomic" | "volatile") {
                    p.word();
                }
                let t = self.ty(p);
                p.expect(b',');
                let (_, o) = self.topd(p, f);
                ins.push(I::Load { ty: t, p: o, d });
            }
            "store" => {
                while matches!(p.peek_word(), "atomic" | "volatile") {
                    p.word();
                }
                let (t, v) = self.topd(p, f);
                p.expect(b',');
                let (_, o) = self.topd(p, f);
                ins.push(I::Store { ty: t, v, p: o });
            }
            "getelementptr" => {
                while matches!(p.peek_word(), "inbounds" | "nuw" | "nusw" | "inrange") {
                    p.word();
                }
                let t = self.ty(p);
                p.expect(b',');
                let (_, base) = self.topd(p, f);
                let mut off = 0i64;
                let mut idx = vec![];
                let mut cur = t;
                let mut first = true;
                loop {
                    let save = p.i;
                    if !(p.eat(b',') && Self::looks_type(p)) {
                        p.i = save;
                        break;
                    }
                    let it = self.ty(p);
                    let o = self.opd(p, &it, f);
                    let kc = match &o {
                        Opd::K(k) => match &self.consts[*k as usize] {
                            C::Int(w, v) => {
                                let x = v[0];
                                Some(if *w < 64 { ((x << (64 - w)) as i64) >> (64 - w) } else { x as i64 })
                            }
                            C::Zero(_) => Some(0),
                            _ => None,
                        },
                        _ => None,
                    };
                    if first {
                        let sz = cur.size();
                        match kc {
                            Some(k) => off = off.wrapping_add(k.wrapping_mul(sz as i64)),
                            None => idx.push((o, it.bits(), sz)),
                        }
                        first = false;
                    } else {
                        match kc {
                            Some(k) => {
                                let (o2, n) = if let Ty::Arr(_, e) = &cur { (k.wrapping_mul(e.size() as i64), (**e).clone()) } else { let (a, b) = cur.field(k as u64); (a as i64, b) };
                                off = off.wrapping_add(o2);
                                cur = n;
                            }
                            None => {
                                let (e, es) = match &cur {
                                    Ty::Arr(_, e) | Ty::Vec(_, e) => ((**e).clone(), e.size()),
                                    _ => panic!("gep var idx into {:?}", cur),
                                };
                                idx.push((o, it.bits(), es));
                                cur = e;
                            }
                        }
                    }
                }
                ins.push(I::Gep { base, off, idx, d });
            }
            "extractvalue" => {
                let (_, a) = self.topd(p, f);
                let mut path = vec![];
                loop {
                    let save = p.i;
                    if p.eat(b',') && p.peek().is_ascii_digit() {
                        path.push(p.int_lit()[0] as u32);
                    } else {
                        p.i = save;
                        break;
                    }
                }
                ins.push(I::ExtractValue { a, path, d });
            }
            "insertvalue" => {
                let (ty, a) = self.topd(p, f);
                p.expect(b',');
                let (_, v) = self.topd(p, f);
                let mut path = vec![];
                loop {
                    let save = p.i;
                    if p.eat(b',') && p.peek().is_ascii_digit() {
                        path.push(p.int_lit()[0] as u32);
                    } else {
                        p.i = save;
                        break;
                    }
                }
                ins.push(I::InsertValue { a, ty, v, path, d });
            }
            "extractelement" => {
                let (_, a) = self.topd(p, f);
                p.expect(b',');
                let (_, i) = self.topd(p, f);
                ins.push(I::ExtractElement { a, i, d });
            }
            "insertelement" => {
                let (t, a) = self.topd(p, f);
                p.expect(b',');
                let (_, v) = self.topd(p, f);
                p.expect(b',');
                let (_, i) = self.topd(p, f);
                let n = if let Ty::Vec(n, _) = t { n } else { 0 };
                ins.push(I::InsertElement { a, v, i, n, d });
            }
            "shufflevector" => {
                let (t, a) = self.topd(p, f);
                p.expect(b',');
                let (_, b) = self.topd(p, f);
                p.expect(b',');
                let mt = self.ty(p);
                let mc = self.constant(p, &mt);
                let n = if let Ty::Vec(n, _) = t { n } else { 0 };
                let mn = if let Ty::Vec(n, _) = mt { n } else { 0 };
                let mask = match mc {
                    C::Agg(_, v) => v
                        .iter()
                        .map(|c| match c {
                            C::Int(_, v) => v[0] as i64,
                            C::Zero(_) => 0,
                            _ => -1,
                        })
                        .collect(),
                    C::Zero(_) => vec![0; mn as usize],
                    _ => vec![-1; mn as usize],
                };
                ins.push(I::Shuffle { a, b, n, mask, d });
            }
            "call" | "invoke" => {
                Self::skip_attrs(p);
                let ret = self.ty(p);
                if p.peek() == b'(' {
                    p.balanced();
                }
                Self::skip_attrs(p);
                let mut c;
                match p.peek() {
                    b'@' => {
                        p.i += 1;
                        let n = p.name();
                        let n = self.aliases.get(&n).cloned().unwrap_or(n);
                        c = match self.fidx.get(&n) {
                            Some(i) => Callee::F(*i),
                            None => panic!("callee {}", n),
                        };
                    }
                    b'%' => {
                        p.i += 1;
                        let n = p.name();
                        c = Callee::Opd(Opd::R(f.reg(n)));
                    }
                    _ => {
                        if p.eatw("asm") {
                            while p.peek() != b'"' {
                                p.word();
                            }
                            p.string();
                            p.expect(b',');
                            p.string();
                            c = Callee::Asm;
                        } else {
                            let k = self.constant(p, &Ty::Ptr);
                            c = Callee::Opd(self.konst(k));
                        }
                    }
                }
                let mut args = vec![];
                p.expect(b'(');
                let is_meta = |p: &mut Ps| p.peek_word() == "metadata";
                if !p.eat(b')') {
                    loop {
                        if is_meta(p) {
                            // skip until , or ) at depth 0
                            let mut dd = 0;
                            loop {
                                let ch = p.s[p.i];
                                if dd == 0 && (ch == b',' || ch == b')') {
                                    break;
                                }
                                if ch == b'(' {
                                    dd += 1
                                }
                                if ch == b')' {
                                    dd -= 1
                                }
                                if ch == b'"' {
                                    p.string();
                                    continue;
                                }
                                p.i += 1;
                            }
                        } else {
                            let t = self.ty(p);
                            // attributes before the value
                            loop {
                                let pk = p.peek();
                                if pk == b'%' || pk == b'@' || pk == b'-' || pk.is_ascii_digit() || pk == b'<' || pk == b'{' || pk == b'[' {
                                    break;
                                }
                                if pk == b'"' {
                                    p.string();
                                    if p.eat(b'=') {
                                        p.string();
                                    }
                                    continue;
                                }
                                let w = p.peek_word();
                                if matches!(w, "true" | "false" | "null" | "undef" | "poison" | "zeroinitializer" | "getelementptr" | "inttoptr" | "ptrtoint" | "splat" | "c" | "trunc" | "sub" | "add" | "bitcast")
                                    || w.starts_with("u0x")
                                {
                                    break;
                                }
                                p.word();
                                if w.is_empty() {
                                    panic!("call attr in {}: {}", fname, String::from_utf8_lossy(&p.s[p.i.saturating_sub(100)..(p.i + 50).min(p.s.len())]));
                                }
                                if p.peek() == b'(' {
                                    p.balanced();
                                } else if w == "align" {
                                    p.word();
                                }
                            }
                            let o = self.opd(p, &t, f);
                            args.push((t, o));
                        }
                        if p.eat(b')') {
                            break;
                        }
                        p.expect(b',');
                    }
                }
                if let Callee::Asm = c {
                    c = Callee::Asm;
                }
                ins.push(I::Call { c, args, ret, d });
                if op == "invoke" {
                    // ... to label %x unwind label %y
                    loop {
                        if p.peek_word() == "to" {
                            break;
                        }
                        if p.peek() == b'[' {
                            p.balanced();
                            continue;
                        }
                        if p.peek() == b'#' {
                            p.i += 1;
                        }
                        if p.word().is_empty() {
                            p.i += 1;
                        }
                    }
                    p.word();
                    let l = self.label(p, f);
                    p.eatw("unwind");
                    self.label(p, f);
                    *term = Some(Term::Br(l));
                }
            }
            "landingpad" => {
                let _ = self.ty(p);
                ins.push(I::Landing);
                // following clause lines
                loop {
                    let save = p.i;
                    let w = p.peek_word();
                    if w == "cleanup" {
                        p.word();
                    } else if w == "catch" || w == "filter" {
                        p.ws();
                        while p.i < p.s.len() && p.s[p.i] != b'\n' {
                            p.i += 1;
                        }
                    } else {
                        p.i = save;
                        break;
                    }
                }
            }
            "resume" => *term = Some(Term::Unreachable),
            "atomicrmw" => {
                p.eatw("volatile");
                let w = p.word();
                let (_, ptr) = self.topd(p, f);
                p.expect(b',');
                let (t, v) = self.topd(p, f);
                let op = match w {
                    "xchg" => 0,
                    "add" => 1,
                    "sub" => 2,
                    "and" => 3,
                    "or" => 4,
                    "xor" => 5,
                    "umax" => 6,
                    "umin" => 7,
                    _ => panic!("atomicrmw {}", w),
                };
                ins.push(I::Rmw { op, ty: t, p: ptr, v, d });
            }
            "cmpxchg" => {
                while matches!(p.peek_word(), "weak" | "volatile") {
                    p.word();
                }
                let (_, ptr) = self.topd(p, f);
                p.expect(b',');
                let (t, c) = self.topd(p, f);
                p.expect(b',');
                let (_, n) = self.topd(p, f);
                ins.push(I::CmpXchg { ty: t, p: ptr, c, n, d });
            }
            "fence" => ins.push(I::Fence),
            "freeze" => {
                let (_, a) = self.topd(p, f);
                ins.push(I::Copy { a, d });
            }
            "ret" => {
                let t = self.ty(p);
                *term = Some(if t == Ty::Void { Term::Ret(None) } else { Term::Ret(Some(self.opd(p, &t, f))) });
            }
            "br" => {
                if p.peek_word() == "label" {
                    let l = self.label(p, f);
                    *term = Some(Term::Br(l));
                } else {
                    let (_, c) = self.topd(p, f);
                    p.expect(b',');
                    let a = self.label(p, f);
                    p.expect(b',');
                    let b = self.label(p, f);
                    *term = Some(Term::CondBr(c, a, b));
                }
            }
            "switch" => {
                let (t, c) = self.topd(p, f);
                p.expect(b',');
                let d = self.label(p, f);
                p.expect(b'[');
                let mut v = vec![];
                while !p.eat(b']') {
                    let _ = self.ty(p);
                    let k = if p.eatw("true") {
                        vec![1]
                    } else if p.eatw("false") {
                        vec![0]
                    } else {
                        p.int_lit()
                    };
                    p.expect(b',');
                    let l = self.label(p, f);
                    v.push((k, l));
                }
                *term = Some(Term::Switch(c, t.bits(), d, v));
            }
            "unreachable" => *term = Some(Term::Unreachable),
            _ => panic!("instruction '{}' in {}", op, fname),
        }
    }
}
