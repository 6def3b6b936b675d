//! Hash-consed bit-vector term DAG with normalising constructors.
use crate::bv::{self, Bv};
use std::collections::HashMap;
use std::hash::{BuildHasherDefault, Hasher};

#[derive(Default, Clone)]
pub struct Fx(u64);
impl Hasher for Fx {
    fn finish(&self) -> u64 {
        self.0 ^ (self.0 >> 32)
    }
    fn write(&mut self, b: &[u8]) {
        for c in b.chunks(8) {
            let mut v = 0u64;
            for (i, x) in c.iter().enumerate() {
                v |= (*x as u64) << (8 * i);
            }
            self.write_u64(v);
        }
    }
    fn write_u64(&mut self, v: u64) {
        self.0 = (self.0.rotate_left(5) ^ v).wrapping_mul(0x517cc1b727220a95);
    }
    fn write_u32(&mut self, v: u32) {
        self.write_u64(v as u64)
    }
    fn write_usize(&mut self, v: usize) {
        self.write_u64(v as u64)
    }
    fn write_u8(&mut self, v: u8) {
        self.write_u64(v as u64)
    }
}
pub type FxB = BuildHasherDefault<Fx>;
pub type FxMap<K, V> = HashMap<K, V, FxB>;
pub type FxSet<K> = std::collections::HashSet<K, FxB>;

pub type T = u32;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Op {
    Const,
    Var,
    And,
    Or,
    Xor,
    Lin,
    Mul,
    UDiv,
    URem,
    SDiv,
    SRem,
    Shl,
    LShr,
    AShr,
    Concat,
    Extract,
    Ite,
    Eq,
    Ult,
    Slt,
    Table,
    SExt,
    Uf,
}

pub struct Node {
    pub op: Op,
    pub w: u32,
    pub x: u32,
    pub args: Box<[T]>,
    pub val: Option<Bv>,
    pub lo: u64,
    pub hi: u64,
}

pub struct Table {
    pub iw: u32,
    pub ow: u32,
    pub data: Vec<u64>,
}

pub struct Ctx {
    pub nodes: Vec<Node>,
    tab: Vec<u32>,
    pub tables: Vec<Table>,
    table_idx: HashMap<(u32, Vec<u64>), u32>,
    pub vars: Vec<(String, u32, T)>,
    pub ufs: Vec<String>,
    uf_idx: HashMap<String, u32>,
    pub tt: T,
    pub ff: T,
    ext_memo: FxMap<(T, u64), T>,
}

const MAXLIN: usize = 48;
const MAXXOR: usize = 140;

fn hash_key(op: Op, w: u32, x: u32, args: &[T], val: &Option<Bv>) -> u64 {
    let mut h = Fx(0);
    h.write_u64(op as u64);
    h.write_u64(((w as u64) << 32) | x as u64);
    for a in args {
        h.write_u64(*a as u64);
    }
    if let Some(v) = val {
        for l in v.sl() {
            h.write_u64(*l);
        }
    }
    let z = h.0;
    (z ^ (z >> 29)).wrapping_mul(0xbf58476d1ce4e5b9) >> 7
}

impl Ctx {
    pub fn new() -> Ctx {
        let mut c = Ctx {
            nodes: vec![],
            tab: vec![u32::MAX; 1 << 16],
            tables: vec![],
            table_idx: HashMap::new(),
            vars: vec![],
            ufs: vec![],
            uf_idx: HashMap::new(),
            tt: 0,
            ff: 0,
            ext_memo: FxMap::default(),
        };
        c.ff = c.c64(1, 0);
        c.tt = c.c64(1, 1);
        c
    }
    #[inline]
    pub fn n(&self, t: T) -> &Node {
        &self.nodes[t as usize]
    }
    #[inline]
    pub fn w(&self, t: T) -> u32 {
        self.nodes[t as usize].w
    }
    #[inline]
    pub fn op(&self, t: T) -> Op {
        self.nodes[t as usize].op
    }
    #[inline]
    pub fn cv(&self, t: T) -> Option<&Bv> {
        self.nodes[t as usize].val.as_ref()
    }
    pub fn cv64(&self, t: T) -> Option<u64> {
        match self.cv(t) {
            Some(b) if b.fits64() => Some(b.lo64()),
            _ => None,
        }
    }
    pub fn is_const(&self, t: T) -> bool {
        self.nodes[t as usize].val.is_some()
    }
    fn is_zero(&self, t: T) -> bool {
        self.cv(t).map_or(false, |v| v.is_zero())
    }

    fn range(&self, op: Op, w: u32, x: u32, args: &[T], val: &Option<Bv>) -> (u64, u64) {
        if w > 64 {
            // hi == MAX means unknown
            return match (op, val) {
                (Op::Const, Some(v)) if v.fits64() && v.lo64() < u64::MAX => (v.lo64(), v.lo64()),
                (Op::Concat, _) => {
                    let last = *args.last().unwrap();
                    let n = self.n(last);
                    if args.len() == 2 && self.is_zero(args[0]) && n.w <= 64 {
                        (n.lo, n.hi)
                    } else {
                        (0, u64::MAX)
                    }
                }
                _ => (0, u64::MAX),
            };
        }
        let m = bv::mask64(w);
        match op {
            Op::Const => {
                let v = val.as_ref().unwrap().lo64();
                (v, v)
            }
            Op::And => {
                let h = args.iter().map(|a| self.n(*a).hi).min().unwrap();
                (0, h.min(m))
            }
            Op::Or | Op::Xor => {
                let mut b = 0u64;
                for a in args {
                    b |= self.n(*a).hi;
                }
                let bits = 64 - b.leading_zeros();
                let lo = if op == Op::Or { args.iter().map(|a| self.n(*a).lo).max().unwrap() } else { 0 };
                (lo, bv::mask64(bits.max(1)).min(m))
            }
            Op::Lin => {
                // try without wrap in i128 with signed coefficients
                let mut lo: i128 = 0;
                let mut hi: i128 = 0;
                let sg = |v: u64| -> i128 {
                    if (v >> (w - 1)) & 1 == 1 {
                        v as i128 - (1i128 << w)
                    } else {
                        v as i128
                    }
                };
                let c = sg(self.cv(args[0]).unwrap().lo64());
                lo += c;
                hi += c;
                let mut i = 1;
                while i < args.len() {
                    let k = sg(self.cv(args[i + 1]).unwrap().lo64());
                    let n = self.n(args[i]);
                    let (a, b) = (k.checked_mul(n.lo as i128), k.checked_mul(n.hi as i128));
                    match (a, b) {
                        (Some(a), Some(b)) => {
                            let (l, h) = if k >= 0 { (a, b) } else { (b, a) };
                            match (lo.checked_add(l), hi.checked_add(h)) {
                                (Some(l), Some(h)) => {
                                    lo = l;
                                    hi = h;
                                }
                                _ => return (0, m),
                            }
                        }
                        _ => return (0, m),
                    }
                    i += 2;
                }
                let md = 1i128 << w;
                // shift into range if whole interval lies in one period
                let q = lo.div_euclid(md);
                if hi.div_euclid(md) == q {
                    ((lo - q * md) as u64, (hi - q * md) as u64)
                } else {
                    (0, m)
                }
            }
            Op::Mul => {
                let (a, b) = (self.n(args[0]), self.n(args[1]));
                match a.hi.checked_mul(b.hi) {
                    Some(h) if h <= m => (a.lo * b.lo, h),
                    _ => (0, m),
                }
            }
            Op::UDiv => {
                let (a, b) = (self.n(args[0]), self.n(args[1]));
                if b.lo > 0 {
                    (a.lo / b.hi, a.hi / b.lo)
                } else {
                    (0, m)
                }
            }
            Op::URem => {
                let (a, b) = (self.n(args[0]), self.n(args[1]));
                if b.lo > 0 {
                    (0, a.hi.min(b.hi - 1))
                } else {
                    (0, m)
                }
            }
            Op::LShr => (0, self.n(args[0]).hi),
            Op::Concat => {
                let mut lo = 0u64;
                let mut hi = 0u64;
                for a in args {
                    let n = self.n(*a);
                    let sh = n.w;
                    lo = if sh >= 64 { 0 } else { lo << sh } | n.lo;
                    hi = if sh >= 64 { 0 } else { hi << sh } | n.hi;
                }
                (lo, hi)
            }
            Op::Extract => {
                let n = self.n(args[0]);
                if x == 0 && n.w <= 64 && n.hi <= m {
                    (n.lo, n.hi)
                } else if n.w <= 64 {
                    let h = n.hi >> x;
                    if h <= m {
                        (n.lo >> x, h)
                    } else {
                        (0, m)
                    }
                } else {
                    (0, m)
                }
            }
            Op::Ite => {
                let (a, b) = (self.n(args[1]), self.n(args[2]));
                (a.lo.min(b.lo), a.hi.max(b.hi))
            }
            Op::Table => {
                let d = &self.tables[x as usize].data;
                (*d.iter().min().unwrap(), *d.iter().max().unwrap())
            }
            _ => (0, m),
        }
    }

    fn mk(&mut self, op: Op, w: u32, x: u32, args: &[T], val: Option<Bv>) -> T {
        let h = hash_key(op, w, x, args, &val);
        let mask = self.tab.len() - 1;
        let mut i = h as usize & mask;
        loop {
            let e = self.tab[i];
            if e == u32::MAX {
                break;
            }
            let n = &self.nodes[e as usize];
            if n.op == op && n.w == w && n.x == x && *n.args == *args && n.val == val {
                return e;
            }
            i = (i + 1) & mask;
        }
        let (lo, hi) = self.range(op, w, x, args, &val);
        let id = self.nodes.len() as T;
        if lo == hi && w <= 64 && op != Op::Const {
            // value is determined by ranges
            return self.c64(w, lo);
        }
        self.nodes.push(Node { op, w, x, args: args.into(), val, lo, hi });
        self.tab[i] = id;
        if self.nodes.len() * 2 > self.tab.len() {
            let nl = self.tab.len() * 2;
            self.tab = vec![u32::MAX; nl];
            for (id, n) in self.nodes.iter().enumerate() {
                let mut i = hash_key(n.op, n.w, n.x, &n.args, &n.val) as usize & (nl - 1);
                while self.tab[i] != u32::MAX {
                    i = (i + 1) & (nl - 1);
                }
                self.tab[i] = id as u32;
            }
        }
        id
    }

    pub fn cbv(&mut self, w: u32, v: Bv) -> T {
        self.mk(Op::Const, w, 0, &[], Some(v))
    }
    pub fn c64(&mut self, w: u32, v: u64) -> T {
        self.cbv(w, Bv::new(w, v))
    }
    pub fn ones(&mut self, w: u32) -> T {
        self.cbv(w, Bv::ones(w))
    }
    pub fn var(&mut self, name: &str, w: u32) -> T {
        let id = self.vars.len() as u32;
        let t = self.mk(Op::Var, w, id, &[], None);
        self.vars.push((name.to_string(), w, t));
        t
    }
    pub fn uf(&mut self, name: &str, w: u32, args: &[T]) -> T {
        let key = format!("{}#{}#{}", name, w, args.iter().map(|a| self.w(*a).to_string()).collect::<Vec<_>>().join("_"));
        let id = match self.uf_idx.get(&key) {
            Some(i) => *i,
            None => {
                let i = self.ufs.len() as u32;
                self.ufs.push(key.clone());
                self.uf_idx.insert(key, i);
                i
            }
        };
        self.mk(Op::Uf, w, id, args, None)
    }
    pub fn not(&mut self, a: T) -> T {
        let w = self.w(a);
        // a wide xor is not flattened any more: drop the constant here
        let n = self.n(a);
        if n.op == Op::Xor && n.args.len() > 2 && matches!(self.cv(n.args[0]), Some(v) if v.is_ones(w)) {
            let rest = n.args[1..].to_vec();
            return self.mk(Op::Xor, w, 0, &rest, None);
        }
        let o = self.ones(w);
        self.xor(&[a, o])
    }
    pub fn b(&self, v: bool) -> T {
        if v {
            self.tt
        } else {
            self.ff
        }
    }
    /// is `t` the boolean/bitwise negation of something: returns inner
    fn not_inner(&mut self, t: T) -> Option<T> {
        let n = self.n(t);
        if n.op == Op::Xor {
            let w = n.w;
            if let Some(v) = self.cv(n.args[0]) {
                if v.is_ones(w) {
                    return Some(self.not(t));
                }
            }
        }
        None
    }

    pub fn xor2(&mut self, a: T, b: T) -> T {
        self.xor(&[a, b])
    }
    pub fn xor(&mut self, xs: &[T]) -> T {
        let w = self.w(xs[0]);
        let mut cst = Bv::new(w, 0);
        let mut v: Vec<T> = vec![];
        let mut stack: Vec<T> = xs.to_vec();
        let total: usize = xs.iter().map(|x| if self.op(*x) == Op::Xor { self.n(*x).args.len() } else { 1 }).sum();
        let flat = total <= MAXXOR;
        while let Some(t) = stack.pop() {
            let n = self.n(t);
            if let Some(c) = &n.val {
                cst = bv::xor(w, &cst, c);
            } else if n.op == Op::Xor && (flat || n.args.len() <= 3) {
                stack.extend_from_slice(&n.args);
            } else {
                v.push(t);
            }
        }
        v.sort_unstable();
        let mut o: Vec<T> = Vec::with_capacity(v.len() + 1);
        for t in v {
            if o.last() == Some(&t) {
                o.pop();
            } else {
                o.push(t);
            }
        }
        if o.is_empty() {
            return self.cbv(w, cst);
        }
        if o.len() == 1 && cst.is_zero() {
            return o[0];
        }
        if w == 1 && o.len() == 1 && cst.is_one() {
            // negations of comparisons kept as Xor(1, x)
        }
        // disjoint pieces?
        if o.len() == 2 && cst.is_zero() {
            if let Some(r) = self.disjoint(o[0], o[1]) {
                return r;
            }
        }
        if o.len() == 1 && w > 1 && self.op(o[0]) == Op::Concat {
            // xor of a concat with a constant: split at concat boundaries when it has constant parts
            let args = self.n(o[0]).args.clone();
            if args.iter().any(|a| self.is_const(*a)) {
                return self.map_pieces_const(&args, w, &cst, Op::Xor);
            }
        }
        // combine ite with same condition: xor(ite(c,a,b), ite(c,d,e)) only for 2 args
        if o.len() == 2 && cst.is_zero() {
            let (p, q) = (self.n(o[0]), self.n(o[1]));
            if p.op == Op::Ite && q.op == Op::Ite && p.args[0] == q.args[0] {
                let (c, a, b, d, e) = (p.args[0], p.args[1], p.args[2], q.args[1], q.args[2]);
                let x = self.xor2(a, d);
                let y = self.xor2(b, e);
                return self.ite(c, x, y);
            }
        }
        if o.len() == 1 && w > 1 {
            let p = self.n(o[0]);
            if p.op == Op::Ite && (self.is_const(p.args[1]) || self.is_const(p.args[2])) {
                let (c, a, b) = (p.args[0], p.args[1], p.args[2]);
                let k = self.cbv(w, cst);
                let x = self.xor2(a, k);
                let y = self.xor2(b, k);
                return self.ite(c, x, y);
            }
        }
        if !cst.is_zero() {
            let k = self.cbv(w, cst);
            o.insert(0, k);
        }
        self.mk(Op::Xor, w, 0, &o, None)
    }
    fn map_pieces_const(&mut self, args: &[T], w: u32, c: &Bv, op: Op) -> T {
        let mut pos = w;
        let mut out = vec![];
        for a in args {
            let aw = self.w(*a);
            pos -= aw;
            let k = bv::extract(w, c, pos, aw);
            let kt = self.cbv(aw, k);
            out.push(match op {
                Op::Xor => self.xor2(*a, kt),
                Op::And => self.and(*a, kt),
                _ => self.or(*a, kt),
            });
        }
        self.concat(&out)
    }
    /// pieces as (term,width) from msb; consts split
    fn has_zero_piece(&self, t: T) -> bool {
        let n = self.n(t);
        n.op == Op::Concat && n.args.iter().any(|a| self.is_zero(*a))
    }
    /// If for every bit position one of a,b is constant 0, the combined concat; else None.
    fn disjoint(&mut self, a: T, b: T) -> Option<T> {
        if !(self.has_zero_piece(a) && self.has_zero_piece(b)) {
            return None;
        }
        let w = self.w(a);
        let pa: Vec<T> = self.n(a).args.to_vec();
        let pb: Vec<T> = self.n(b).args.to_vec();
        let mut i = 0;
        let mut j = 0;
        let (mut ra, mut rb) = (self.w(pa[0]), self.w(pb[0]));
        let mut rem = w;
        let mut out: Vec<(T, u32, u32)> = vec![];
        while rem > 0 {
            let k = ra.min(rb);
            let (za, zb) = (self.is_zero(pa[i]), self.is_zero(pb[j]));
            if za {
                out.push((pb[j], rb - k, k));
            } else if zb {
                out.push((pa[i], ra - k, k));
            } else {
                return None;
            }
            ra -= k;
            rb -= k;
            rem -= k;
            if rem > 0 {
                if ra == 0 {
                    i += 1;
                    ra = self.w(pa[i]);
                }
                if rb == 0 {
                    j += 1;
                    rb = self.w(pb[j]);
                }
            }
        }
        let parts: Vec<T> = out.into_iter().map(|(t, lo, k)| self.extract(t, lo, k)).collect();
        Some(self.concat(&parts))
    }

    pub fn and(&mut self, a: T, b: T) -> T {
        if a == b {
            return a;
        }
        let w = self.w(a);
        let (a, b) = if self.is_const(b) { (b, a) } else { (a, b) };
        if let Some(c) = self.cv(a).cloned() {
            if c.is_zero() {
                return a;
            }
            if c.is_ones(w) {
                return b;
            }
            if let Some(d) = self.cv(b) {
                let r = bv::and(w, &c, d);
                return self.cbv(w, r);
            }
            // mask -> pieces
            return self.mask_pieces(b, &c);
        }
        if w == 1 {
            // complement
            let na = self.not(a);
            if na == b {
                return self.ff;
            }
            // absorption: a & (a & x)
            for (p, q) in [(a, b), (b, a)] {
                let n = self.n(p);
                if n.op == Op::And && (n.args[0] == q || n.args[1] == q) {
                    return p;
                }
            }
            if let Some(r) = self.cmp_and(a, b) {
                return r;
            }
        }
        for (p, q) in [(a, b), (b, a)] {
            let n = self.n(p);
            if n.op == Op::Ite {
                let (c, x, y) = (n.args[0], n.args[1], n.args[2]);
                let z = |s: &Ctx, t: T| s.cv(t).map_or(false, |v| v.is_zero() || v.is_ones(w));
                if z(self, x) && z(self, y) {
                    let l = self.and(x, q);
                    let r = self.and(y, q);
                    return self.ite(c, l, r);
                }
            }
            if self.has_zero_piece(p) {
                let args = self.n(p).args.clone();
                let mut pos = w;
                let mut out = vec![];
                for x in args.iter() {
                    let xw = self.w(*x);
                    pos -= xw;
                    let e = self.extract(q, pos, xw);
                    out.push(self.and(*x, e));
                }
                return self.concat(&out);
            }
        }
        let (a, b) = if a < b { (a, b) } else { (b, a) };
        self.mk(Op::And, w, 0, &[a, b], None)
    }
    // x == c1 & x == c2 (c1 != c2) -> false; x==c & !(x==d) -> x==c
    fn cmp_and(&mut self, a: T, b: T) -> Option<T> {
        let (na, nb) = (self.n(a), self.n(b));
        if na.op == Op::Eq && nb.op == Op::Eq && na.args[1] == nb.args[1] && self.is_const(na.args[0]) && self.is_const(nb.args[0]) {
            return Some(self.ff);
        }
        None
    }
    fn mask_pieces(&mut self, b: T, c: &Bv) -> T {
        let w = self.w(b);
        // runs from msb
        let mut parts = vec![];
        let mut i = w;
        let mut runs = 0;
        let mut j = w;
        while j > 0 {
            let bit = c.bit(j - 1);
            let mut k = j;
            while k > 0 && c.bit(k - 1) == bit {
                k -= 1;
            }
            runs += 1;
            j = k;
        }
        if runs > 16 {
            let k = self.cbv(w, c.clone());
            return self.mk(Op::And, w, 0, &[k.min(b), k.max(b)], None);
        }
        while i > 0 {
            let bit = c.bit(i - 1);
            let mut k = i;
            while k > 0 && c.bit(k - 1) == bit {
                k -= 1;
            }
            if bit {
                parts.push(self.extract(b, k, i - k));
            } else {
                parts.push(self.c64(i - k, 0));
            }
            i = k;
        }
        self.concat(&parts)
    }
    pub fn or(&mut self, a: T, b: T) -> T {
        if a == b {
            return a;
        }
        let w = self.w(a);
        let (a, b) = if self.is_const(b) { (b, a) } else { (a, b) };
        if let Some(c) = self.cv(a).cloned() {
            if c.is_zero() {
                return b;
            }
            if c.is_ones(w) {
                return a;
            }
            if let Some(d) = self.cv(b) {
                let r = bv::or(w, &c, d);
                return self.cbv(w, r);
            }
            // pieces: where c==1 -> 1, else b
            let nc = bv::not(w, &c);
            let m = self.mask_pieces(b, &nc);
            if self.op(m) == Op::Concat {
                // m disjoint from c
                let args = self.n(m).args.clone();
                return self.map_pieces_const(&args, w, &c, Op::Xor);
            }
            return self.xor2(m, a);
        }
        if w == 1 {
            let (na, nb) = (self.not(a), self.not(b));
            let r = self.and(na, nb);
            return self.not(r);
        }
        if let Some(r) = self.disjoint(a, b) {
            return r;
        }
        for (p, q) in [(a, b), (b, a)] {
            let n = self.n(p);
            if n.op == Op::Ite {
                let (c, x, y) = (n.args[0], n.args[1], n.args[2]);
                let z = |s: &Ctx, t: T| s.cv(t).map_or(false, |v| v.is_zero() || v.is_ones(w));
                if z(self, x) && z(self, y) {
                    let l = self.or(x, q);
                    let r = self.or(y, q);
                    return self.ite(c, l, r);
                }
            }
        }
        if self.has_zero_piece(a) || self.has_zero_piece(b) {
            let p = if self.has_zero_piece(a) { a } else { b };
            let q = if p == a { b } else { a };
            let args = self.n(p).args.clone();
            let mut pos = w;
            let mut out = vec![];
            for x in args.iter() {
                let xw = self.w(*x);
                pos -= xw;
                let e = self.extract(q, pos, xw);
                out.push(self.or(*x, e));
            }
            return self.concat(&out);
        }
        let (a, b) = if a < b { (a, b) } else { (b, a) };
        self.mk(Op::Or, w, 0, &[a, b], None)
    }

    pub fn neg(&mut self, a: T) -> T {
        let w = self.w(a);
        let m = self.ones(w);
        self.mulc(a, m)
    }
    pub fn mulc(&mut self, a: T, k: T) -> T {
        let w = self.w(a);
        let kb = self.cv(k).unwrap().clone();
        self.lin(w, &[(a, kb)], Bv::new(w, 0))
    }
    pub fn add(&mut self, a: T, b: T) -> T {
        let w = self.w(a);
        if let (Some(x), Some(y)) = (self.cv(a), self.cv(b)) {
            let r = bv::add(w, x, y);
            return self.cbv(w, r);
        }
        if self.is_zero(a) {
            return b;
        }
        if self.is_zero(b) {
            return a;
        }
        if w == 1 {
            return self.xor2(a, b);
        }
        if let Some(r) = self.disjoint(a, b) {
            return r;
        }
        let o = Bv::new(w, 1);
        self.lin(w, &[(a, o.clone()), (b, o)], Bv::new(w, 0))
    }
    pub fn sub(&mut self, a: T, b: T) -> T {
        let w = self.w(a);
        if w == 1 {
            return self.xor2(a, b);
        }
        self.lin(w, &[(a, Bv::new(w, 1)), (b, Bv::ones(w))], Bv::new(w, 0))
    }
    /// sum of coef*term + c
    pub fn lin(&mut self, w: u32, ts: &[(T, Bv)], c: Bv) -> T {
        let mut c0 = c;
        let mut v: Vec<(T, Bv)> = vec![];
        let total: usize = ts.iter().map(|x| if self.op(x.0) == Op::Lin { self.n(x.0).args.len() / 2 } else { 1 }).sum();
        for (t, k) in ts {
            let n = self.n(*t);
            if let Some(cv) = &n.val {
                c0 = bv::add(w, &c0, &bv::mul(w, cv, k));
            } else if n.op == Op::Lin && (total <= MAXLIN || n.args.len() / 2 <= 2) {
                let cc = self.cv(n.args[0]).unwrap();
                c0 = bv::add(w, &c0, &bv::mul(w, cc, k));
                let mut i = 1;
                while i < n.args.len() {
                    let kk = bv::mul(w, k, self.cv(n.args[i + 1]).unwrap());
                    v.push((n.args[i], kk));
                    i += 2;
                }
            } else if n.op == Op::Xor && n.args.len() == 2 && self.cv(n.args[0]).map_or(false, |x| x.is_ones(w)) {
                // ~x = -x - 1
                let inner = n.args[1];
                c0 = bv::sub(w, &c0, k);
                let nk = bv::neg(w, k);
                if self.op(inner) == Op::Lin {
                    let r = self.lin(w, &[(inner, nk)], Bv::new(w, 0));
                    v.push((r, Bv::new(w, 1)));
                } else {
                    v.push((inner, nk));
                }
            } else if n.op == Op::Concat && self.cv(n.args[0]).map_or(false, |x| !x.is_zero()) {
                // a constant head is part of the constant
                let args = n.args.clone();
                let h = args[0];
                let hw = self.w(h);
                let hv = bv::shl(w, &bv::zext(hw, w, self.cv(h).unwrap()), w - hw);
                c0 = bv::add(w, &c0, &bv::mul(w, &hv, k));
                let z = self.c64(hw, 0);
                let mut a2 = vec![z];
                a2.extend_from_slice(&args[1..]);
                let r = self.concat(&a2);
                v.push((r, k.clone()));
            } else {
                v.push((*t, k.clone()));
            }
        }
        v.sort_by_key(|x| x.0);
        let mut o: Vec<(T, Bv)> = Vec::with_capacity(v.len());
        for (t, k) in v {
            match o.last_mut() {
                Some(l) if l.0 == t => l.1 = bv::add(w, &l.1, &k),
                _ => o.push((t, k)),
            }
        }
        o.retain(|x| !x.1.is_zero());
        if o.is_empty() {
            return self.cbv(w, c0);
        }
        if o.len() == 1 && c0.is_zero() {
            if o[0].1.is_one() {
                return o[0].0;
            }
            // power of two -> shift
            let k = &o[0].1;
            let bits = k.bits();
            if bits > 1 && *k == bv::shl(w, &Bv::new(w, 1), bits - 1) {
                let t = o[0].0;
                return self.shlc(t, bits - 1);
            }
        }
        // ite with constant leaves, single atom: push through
        if o.len() == 1 {
            let n = self.n(o[0].0);
            if n.op == Op::Ite && (self.is_const(n.args[1]) && self.is_const(n.args[2])) {
                let (cc, a, b) = (n.args[0], n.args[1], n.args[2]);
                let va = bv::add(w, &c0, &bv::mul(w, &o[0].1, self.cv(a).unwrap()));
                let vb = bv::add(w, &c0, &bv::mul(w, &o[0].1, self.cv(b).unwrap()));
                let (x, y) = (self.cbv(w, va), self.cbv(w, vb));
                return self.ite(cc, x, y);
            }
            // -zext(bit) => ite(bit, ones, 0) (+c0)
            if n.op == Op::Concat && n.args.len() == 2 && self.is_zero(n.args[0]) && self.w(n.args[1]) == 1 {
                let bit = n.args[1];
                let va = bv::add(w, &c0, &o[0].1);
                if !(o[0].1.is_one() && c0.is_zero()) {
                    let (x, y) = (self.cbv(w, va), self.cbv(w, c0));
                    return self.ite(bit, x, y);
                }
            }
        }
        if o.len() == 2 && c0.is_zero() && o[0].1.is_one() && o[1].1.is_one() {
            if let Some(r) = self.disjoint(o[0].0, o[1].0) {
                return r;
            }
        }
        if o.len() == 1 && o[0].1.is_one() && self.op(o[0].0) == Op::Concat && !c0.is_zero() {
            // constant added into zero low/any piece region: try disjoint with constant
            let args = self.n(o[0].0).args.clone();
            let mut pos = w;
            let mut ok = true;
            for a in args.iter() {
                let aw = self.w(*a);
                pos -= aw;
                let k = bv::extract(w, &c0, pos, aw);
                if !k.is_zero() && !self.is_zero(*a) {
                    ok = false;
                    break;
                }
            }
            if ok {
                return self.map_pieces_const(&args, w, &c0, Op::Xor);
            }
        }
        let mut args = Vec::with_capacity(1 + 2 * o.len());
        args.push(self.cbv(w, c0));
        for (t, k) in o {
            args.push(t);
            let kt = self.cbv(w, k);
            args.push(kt);
        }
        self.mk(Op::Lin, w, 0, &args, None)
    }
    pub fn mul(&mut self, a: T, b: T) -> T {
        let w = self.w(a);
        let (a, b) = if self.is_const(b) { (b, a) } else { (a, b) };
        if let Some(x) = self.cv(a) {
            if let Some(y) = self.cv(b) {
                let r = bv::mul(w, x, y);
                return self.cbv(w, r);
            }
            return self.mulc(b, a);
        }
        for (p, q) in [(a, b), (b, a)] {
            let n = self.n(p);
            if n.op == Op::Ite {
                let (c, x, y) = (n.args[0], n.args[1], n.args[2]);
                let z = |s: &Ctx, t: T| s.cv(t).map_or(false, |v| v.is_zero() || v.is_one());
                if z(self, x) && z(self, y) {
                    let l = self.mul(x, q);
                    let r = self.mul(y, q);
                    return self.ite(c, l, r);
                }
            }
            if n.op == Op::Concat && n.args.len() == 2 && self.is_zero(n.args[0]) && self.w(n.args[1]) == 1 {
                let bit = n.args[1];
                let z = self.c64(w, 0);
                return self.ite(bit, q, z);
            }
        }
        let (a, b) = if a < b { (a, b) } else { (b, a) };
        self.mk(Op::Mul, w, 0, &[a, b], None)
    }
    pub fn divop(&mut self, op: Op, a: T, b: T) -> T {
        let w = self.w(a);
        if let (Some(x), Some(y)) = (self.cv(a), self.cv(b)) {
            let r = match op {
                Op::UDiv => bv::udiv(w, x, y),
                Op::URem => bv::urem(w, x, y),
                Op::SDiv => bv::sdiv(w, x, y),
                _ => bv::srem(w, x, y),
            };
            return self.cbv(w, r);
        }
        if let Some(y) = self.cv(b).cloned() {
            let bits = y.bits();
            let p2 = bits > 0 && y == bv::shl(w, &Bv::new(w, 1), bits - 1);
            match op {
                Op::UDiv if p2 => return self.lshrc(a, bits - 1),
                Op::URem if p2 => {
                    if bits == 1 {
                        return self.c64(w, 0);
                    }
                    let e = self.extract(a, 0, bits - 1);
                    return self.zext(e, w);
                }
                _ => {}
            }
            if w <= 64 && matches!(op, Op::URem | Op::UDiv) {
                let n = self.n(a);
                if n.hi < y.lo64() {
                    return if op == Op::URem { a } else { self.c64(w, 0) };
                }
            }
            // narrow: zext operand with const divisor
            if matches!(op, Op::URem | Op::UDiv) {
                let n = self.n(a);
                if n.op == Op::Concat && n.args.len() >= 2 && self.is_zero(n.args[0]) {
                    let zw = self.w(n.args[0]);
                    let nw = w - zw;
                    if y.bits() <= nw {
                        let na = self.extract(a, 0, nw);
                        let nb = self.extract(b, 0, nw);
                        let r = self.divop(op, na, nb);
                        return self.zext(r, w);
                    } else if op == Op::URem {
                        return a;
                    } else {
                        return self.c64(w, 0);
                    }
                }
            }
        }
        self.mk(op, w, 0, &[a, b], None)
    }
    pub fn shlc(&mut self, a: T, s: u32) -> T {
        let w = self.w(a);
        if s == 0 {
            return a;
        }
        if s >= w {
            return self.c64(w, 0);
        }
        let e = self.extract(a, 0, w - s);
        let z = self.c64(s, 0);
        self.concat(&[e, z])
    }
    pub fn lshrc(&mut self, a: T, s: u32) -> T {
        let w = self.w(a);
        if s == 0 {
            return a;
        }
        if s >= w {
            return self.c64(w, 0);
        }
        let e = self.extract(a, s, w - s);
        let z = self.c64(s, 0);
        self.concat(&[z, e])
    }
    pub fn ashrc(&mut self, a: T, s: u32) -> T {
        let w = self.w(a);
        if s == 0 {
            return a;
        }
        let s = s.min(w - 1);
        let e = self.extract(a, s, w - s);
        self.sext(e, w)
    }
    pub fn shift(&mut self, op: Op, a: T, b: T) -> T {
        let w = self.w(a);
        if let Some(y) = self.cv(b) {
            let s = if y.fits64() { y.lo64().min(w as u64) as u32 } else { w };
            return match op {
                Op::Shl => self.shlc(a, s),
                Op::LShr => self.lshrc(a, s),
                _ => self.ashrc(a, s),
            };
        }
        self.mk(op, w, 0, &[a, b], None)
    }
    pub fn zext(&mut self, a: T, nw: u32) -> T {
        let w = self.w(a);
        if nw == w {
            return a;
        }
        let z = self.c64(nw - w, 0);
        self.concat(&[z, a])
    }
    pub fn sext(&mut self, a: T, nw: u32) -> T {
        let w = self.w(a);
        if nw == w {
            return a;
        }
        if let Some(v) = self.cv(a) {
            let r = bv::sext(w, nw, v);
            return self.cbv(nw, r);
        }
        if w == 1 {
            let o = self.ones(nw);
            let z = self.c64(nw, 0);
            return self.ite(a, o, z);
        }
        let n = self.n(a);
        if n.op == Op::SExt {
            let i = n.args[0];
            return self.sext(i, nw);
        }
        if n.op == Op::Ite && (self.is_const(n.args[1]) || self.is_const(n.args[2])) {
            let (c, x, y) = (n.args[0], n.args[1], n.args[2]);
            let x = self.sext(x, nw);
            let y = self.sext(y, nw);
            return self.ite(c, x, y);
        }
        if (w <= 64 && n.hi <= bv::mask64(w) >> 1) || (n.op == Op::Concat && self.is_const(n.args[0]) && !self.cv(n.args[0]).unwrap().bit(self.w(n.args[0]) - 1)) {
            return self.zext(a, nw);
        }
        self.mk(Op::SExt, nw, 0, &[a], None)
    }

    pub fn extract(&mut self, t: T, lo: u32, w: u32) -> T {
        let n = self.n(t);
        if n.w == w {
            return t;
        }
        if !matches!(n.op, Op::Xor | Op::And | Op::Or | Op::Ite | Op::Concat | Op::Lin) {
            return self.extract0(t, lo, w);
        }
        let key = (t, (lo as u64) << 32 | w as u64);
        if let Some(r) = self.ext_memo.get(&key) {
            return *r;
        }
        let r = self.extract0(t, lo, w);
        if self.ext_memo.len() > 4_000_000 {
            self.ext_memo.clear();
        }
        self.ext_memo.insert(key, r);
        r
    }
    fn extract0(&mut self, t: T, lo: u32, w: u32) -> T {
        let n = self.n(t);
        let tw = n.w;
        debug_assert!(lo + w <= tw, "extract {} {} of {}", lo, w, tw);
        match n.op {
            Op::Const => {
                let r = bv::extract(tw, n.val.as_ref().unwrap(), lo, w);
                self.cbv(w, r)
            }
            Op::Extract => {
                let (i, l) = (n.args[0], n.x);
                self.extract(i, l + lo, w)
            }
            Op::Concat => {
                let args = n.args.clone();
                let mut pos = tw;
                let mut out = vec![];
                for a in args.iter() {
                    let aw = self.w(*a);
                    pos -= aw;
                    // piece covers [pos, pos+aw)
                    let l = lo.max(pos);
                    let h = (lo + w).min(pos + aw);
                    if l < h {
                        out.push(self.extract(*a, l - pos, h - l));
                    }
                }
                self.concat(&out)
            }
            Op::Xor => {
                let args: Vec<T> = n.args.to_vec();
                let v: Vec<T> = args.into_iter().map(|a| self.extract(a, lo, w)).collect();
                self.xor(&v)
            }
            Op::And => {
                let (a, b) = (n.args[0], n.args[1]);
                let x = self.extract(a, lo, w);
                let y = self.extract(b, lo, w);
                self.and(x, y)
            }
            Op::Or => {
                let (a, b) = (n.args[0], n.args[1]);
                let x = self.extract(a, lo, w);
                let y = self.extract(b, lo, w);
                self.or(x, y)
            }
            Op::Ite => {
                let (c, a, b) = (n.args[0], n.args[1], n.args[2]);
                let x = self.extract(a, lo, w);
                let y = self.extract(b, lo, w);
                self.ite(c, x, y)
            }
            Op::SExt => {
                let i = n.args[0];
                let iw = self.w(i);
                if lo + w <= iw {
                    self.extract(i, lo, w)
                } else if lo < iw {
                    let e = self.extract(i, lo, iw - lo);
                    self.sext(e, w)
                } else {
                    let s = self.extract(i, iw - 1, 1);
                    self.sext(s, w)
                }
            }
            Op::Lin if lo == 0 && tw <= 64 => {
                let args = n.args.clone();
                let simple = args.iter().skip(1).step_by(2).all(|a| {
                    let m = self.n(*a);
                    match m.op {
                        Op::Var | Op::Extract => true,
                        Op::Concat => self.is_const(m.args[0]),
                        Op::SExt => true,
                        Op::Ite => self.is_const(m.args[1]) || self.is_const(m.args[2]),
                        _ => false,
                    }
                }) && args.len() <= 9;
                if simple {
                    let c = bv::extract(tw, self.cv(args[0]).unwrap(), 0, w);
                    let mut v = vec![];
                    let mut i = 1;
                    while i < args.len() {
                        let k = bv::extract(tw, self.cv(args[i + 1]).unwrap(), 0, w);
                        let e = self.extract(args[i], 0, w);
                        v.push((e, k));
                        i += 2;
                    }
                    self.lin(w, &v, c)
                } else {
                    self.mk(Op::Extract, w, lo, &[t], None)
                }
            }
            Op::Mul if lo == 0 => {
                let (a, b) = (n.args[0], n.args[1]);
                let z = |s: &Ctx, t: T| {
                    let m = s.n(t);
                    m.op == Op::Var || m.op == Op::Extract || m.op == Op::SExt || (m.op == Op::Concat && s.is_const(m.args[0]))
                };
                if z(self, a) && z(self, b) {
                    let x = self.extract(a, 0, w);
                    let y = self.extract(b, 0, w);
                    self.mul(x, y)
                } else {
                    self.mk(Op::Extract, w, lo, &[t], None)
                }
            }
            _ => {
                if tw <= 64 {
                    let h = n.hi;
                    if lo > 0 && (h >> lo) == 0 {
                        return self.c64(w, 0);
                    }
                }
                self.mk(Op::Extract, w, lo, &[t], None)
            }
        }
    }
    /// Try to fuse adjacent pieces.
    fn fuse(&mut self, h: T, l: T) -> Option<T> {
        let (hw, lw) = (self.w(h), self.w(l));
        if let (Some(a), Some(b)) = (self.cv(h), self.cv(l)) {
            let r = bv::concat(hw, a, lw, b);
            return Some(self.cbv(hw + lw, r));
        }
        let hn = self.n(h);
        match hn.op {
            Op::Extract => {
                let (t, x) = (hn.args[0], hn.x);
                if x >= lw {
                    let ln = self.n(l);
                    if ln.op == Op::Extract {
                        if ln.args[0] == t && ln.x + lw == x {
                            return Some(self.extract(t, x - lw, hw + lw));
                        }
                        return None;
                    }
                    if ln.op == Op::Lin || ln.op == Op::Mul {
                        let e = self.extract(t, x - lw, lw);
                        if e == l {
                            return Some(self.extract(t, x - lw, hw + lw));
                        }
                    }
                }
                None
            }
            Op::Ite => {
                let ln = self.n(l);
                if ln.op == Op::Ite && ln.args[0] == hn.args[0] {
                    let (c, a1, b1, a0, b0) = (hn.args[0], hn.args[1], hn.args[2], ln.args[1], ln.args[2]);
                    let a = self.concat(&[a1, a0]);
                    let b = self.concat(&[b1, b0]);
                    return Some(self.ite(c, a, b));
                }
                None
            }
            Op::Xor | Op::And | Op::Or => {
                let op = hn.op;
                let ln = self.n(l);
                if ln.op != op || ln.args.len() != hn.args.len() || hn.args.len() > 24 {
                    return None;
                }
                let ha = hn.args.to_vec();
                let mut la = ln.args.to_vec();
                let mut out = vec![];
                for a in ha {
                    let mut found = None;
                    for (i, b) in la.iter().enumerate() {
                        let (an, bn) = (self.n(a), self.n(*b));
                        let quick = match (an.op, bn.op) {
                            (Op::Const, Op::Const) => true,
                            (Op::Extract, Op::Extract) => an.args[0] == bn.args[0] && bn.x + lw == an.x,
                            (Op::Extract, Op::Lin) | (Op::Extract, Op::Mul) => true,
                            (Op::Xor, Op::Xor) | (Op::And, Op::And) | (Op::Or, Op::Or) | (Op::Ite, Op::Ite) => true,
                            (Op::Concat, _) | (_, Op::Concat) => true,
                            _ => false,
                        };
                        if !quick {
                            continue;
                        }
                        let bb = *b;
                        if let Some(r) = self.fuse_deep(a, bb) {
                            found = Some((i, r));
                            break;
                        }
                    }
                    match found {
                        Some((i, r)) => {
                            la.remove(i);
                            out.push(r);
                        }
                        None => return None,
                    }
                }
                Some(match op {
                    Op::Xor => self.xor(&out),
                    Op::And => self.and(out[0], out[1]),
                    _ => self.or(out[0], out[1]),
                })
            }
            Op::SExt => {
                // sext(x) over x's own top: SExt(e) ++ l where l == whole source
                None
            }
            _ => None,
        }
    }
    /// like fuse but through concats: last piece of h with first piece of l
    fn fuse_deep(&mut self, h: T, l: T) -> Option<T> {
        let ha: Vec<T> = if self.op(h) == Op::Concat { self.n(h).args.to_vec() } else { vec![h] };
        let la: Vec<T> = if self.op(l) == Op::Concat { self.n(l).args.to_vec() } else { vec![l] };
        if ha.len() == 1 && la.len() == 1 {
            return self.fuse(h, l);
        }
        let f = self.fuse(*ha.last().unwrap(), la[0])?;
        let mut v = ha[..ha.len() - 1].to_vec();
        v.push(f);
        v.extend_from_slice(&la[1..]);
        Some(self.concat(&v))
    }
    /// msb-first
    pub fn concat(&mut self, parts: &[T]) -> T {
        if parts.len() == 1 {
            return parts[0];
        }
        let mut v: Vec<T> = Vec::with_capacity(parts.len());
        let mut w = 0;
        for p in parts {
            w += self.w(*p);
            let list: Vec<T> = if self.op(*p) == Op::Concat { self.n(*p).args.to_vec() } else { vec![*p] };
            for q in list {
                let mut cur = q;
                // fuse with previous
                loop {
                    match v.last() {
                        Some(l) => {
                            let l = *l;
                            match self.fuse(l, cur) {
                                Some(r) if self.op(r) != Op::Concat => {
                                    v.pop();
                                    cur = r;
                                }
                                Some(r) => {
                                    v.pop();
                                    let a = self.n(r).args.to_vec();
                                    v.extend_from_slice(&a[..a.len() - 1]);
                                    cur = a[a.len() - 1];
                                    break;
                                }
                                None => break,
                            }
                        }
                        None => break,
                    }
                }
                v.push(cur);
            }
        }
        if v.len() == 1 {
            return v[0];
        }
        self.mk(Op::Concat, w, 0, &v, None)
    }
    pub fn ite(&mut self, c: T, a: T, b: T) -> T {
        if let Some(v) = self.cv(c) {
            return if v.is_one() { a } else { b };
        }
        if a == b {
            return a;
        }
        if let Some(nc) = self.not_inner(c) {
            return self.ite(nc, b, a);
        }
        let w = self.w(a);
        if w == 1 {
            let (ca, cb) = (self.cv(a).map(|v| v.is_one()), self.cv(b).map(|v| v.is_one()));
            match (ca, cb) {
                (Some(true), Some(false)) => return c,
                (Some(false), Some(true)) => return self.not(c),
                (Some(true), None) => return self.or(c, b),
                (Some(false), None) => {
                    let nc = self.not(c);
                    return self.and(nc, b);
                }
                (None, Some(true)) => {
                    let nc = self.not(c);
                    return self.or(nc, a);
                }
                (None, Some(false)) => return self.and(c, a),
                _ => {}
            }
            if a == c {
                return self.or(c, b);
            }
            if b == c {
                return self.and(c, a);
            }
        }
        let an = self.n(a);
        if an.op == Op::Ite && an.args[0] == c {
            let x = an.args[1];
            return self.ite(c, x, b);
        }
        let bn = self.n(b);
        if bn.op == Op::Ite && bn.args[0] == c {
            let y = bn.args[2];
            return self.ite(c, a, y);
        }
        // ite(c, a, ite(d, a, e)) -> ite(c|d, a, e)
        if bn.op == Op::Ite && bn.args[1] == a {
            let (d, e) = (bn.args[0], bn.args[2]);
            let cd = self.or(c, d);
            return self.ite(cd, a, e);
        }
        // 0/1 constants: zext(c)
        if let (Some(x), Some(y)) = (self.cv(a), self.cv(b)) {
            if x.is_one() && y.is_zero() {
                return self.zext(c, w);
            }
            if x.is_zero() && y.is_one() {
                let nc = self.not(c);
                return self.zext(nc, w);
            }
        }
        // split off common concat prefix (e.g. both zero-extended)
        if self.op(a) == Op::Concat || self.op(b) == Op::Concat {
            let fa = if self.op(a) == Op::Concat { self.n(a).args[0] } else { a };
            let fb = if self.op(b) == Op::Concat { self.n(b).args[0] } else { b };
            let za = self.cv(fa).is_some();
            let zb = self.cv(fb).is_some();
            if za && zb && (self.op(a) == Op::Concat || self.op(b) == Op::Concat) {
                let k = self.w(fa).min(self.w(fb));
                if k < w {
                    let ta = self.extract(a, w - k, k);
                    let tb = self.extract(b, w - k, k);
                    if ta == tb {
                        let ra = self.extract(a, 0, w - k);
                        let rb = self.extract(b, 0, w - k);
                        let r = self.ite(c, ra, rb);
                        return self.concat(&[ta, r]);
                    }
                    // leading zeros of the constant side
                    let zl = |s: &Ctx, t: T| -> u32 {
                        let v = s.cv(t).unwrap();
                        s.w(t) - v.bits()
                    };
                    let kk = zl(self, ta).min(zl(self, tb));
                    if kk > 0 {
                        let z = self.c64(kk, 0);
                        let ra = self.extract(a, 0, w - kk);
                        let rb = self.extract(b, 0, w - kk);
                        let r = self.ite(c, ra, rb);
                        return self.concat(&[z, r]);
                    }
                }
            }
        }
        self.mk(Op::Ite, w, 0, &[c, a, b], None)
    }
    pub fn eq(&mut self, a: T, b: T) -> T {
        if a == b {
            return self.tt;
        }
        let w = self.w(a);
        let (a, b) = if self.is_const(b) || (!self.is_const(a) && b < a) { (b, a) } else { (a, b) };
        if self.is_const(a) && self.is_const(b) {
            return self.ff; // hash-consed: distinct
        }
        if w == 1 {
            let x = self.xor2(a, b);
            return self.not(x);
        }
        if w <= 64 {
            let (x, y) = (self.n(a), self.n(b));
            if x.hi < y.lo || y.hi < x.lo {
                return self.ff;
            }
        }
        if let Some(k) = self.cv(a).cloned() {
            let n = self.n(b);
            match n.op {
                Op::Concat => {
                    let args = n.args.clone();
                    if args.iter().any(|x| self.is_const(*x)) || args.len() <= 4 {
                        let mut pos = w;
                        let mut r = self.tt;
                        let mut parts = vec![];
                        for x in args.iter() {
                            let xw = self.w(*x);
                            pos -= xw;
                            let kk = bv::extract(w, &k, pos, xw);
                            if let Some(c) = self.cv(*x) {
                                if *c != kk {
                                    return self.ff;
                                }
                            } else {
                                parts.push((*x, kk, xw));
                            }
                        }
                        for (x, kk, xw) in parts {
                            let kt = self.cbv(xw, kk);
                            let e = self.eq(x, kt);
                            r = self.and(r, e);
                        }
                        return r;
                    }
                }
                Op::Ite => {
                    let (c, x, y) = (n.args[0], n.args[1], n.args[2]);
                    if self.is_const(x) || self.is_const(y) {
                        let ex = self.eq(x, a);
                        let ey = self.eq(y, a);
                        return self.ite(c, ex, ey);
                    }
                }
                Op::Xor => {
                    if let Some(c) = self.cv(n.args[0]) {
                        let k2 = bv::xor(w, c, &k);
                        let rest = n.args[1..].to_vec();
                        let r = self.xor(&rest);
                        let kt = self.cbv(w, k2);
                        return self.eq(kt, r);
                    }
                    if k.is_zero() && n.args.len() == 2 {
                        let (x, y) = (n.args[0], n.args[1]);
                        return self.eq(x, y);
                    }
                }
                Op::Lin => {
                    let c0 = self.cv(n.args[0]).unwrap().clone();
                    if n.args.len() == 3 {
                        let kk = self.cv(n.args[2]).unwrap().clone();
                        let atom = n.args[1];
                        if kk.is_one() {
                            let v = bv::sub(w, &k, &c0);
                            let kt = self.cbv(w, v);
                            return self.eq(kt, atom);
                        }
                        if kk.is_ones(w) {
                            let v = bv::sub(w, &c0, &k);
                            let kt = self.cbv(w, v);
                            return self.eq(kt, atom);
                        }
                    } else if n.args.len() == 5 && bv::sub(w, &k, &c0).is_zero() {
                        // x - y == 0
                        let (k1, k2) = (self.cv(n.args[2]).unwrap(), self.cv(n.args[4]).unwrap());
                        if (k1.is_one() && k2.is_ones(w)) || (k1.is_ones(w) && k2.is_one()) {
                            let (x, y) = (n.args[1], n.args[3]);
                            return self.eq(x, y);
                        }
                    }
                }
                Op::SExt => {
                    let i = n.args[0];
                    let iw = self.w(i);
                    let t = bv::extract(w, &k, 0, iw);
                    if bv::sext(iw, w, &t) != k {
                        return self.ff;
                    }
                    let kt = self.cbv(iw, t);
                    return self.eq(kt, i);
                }
                _ => {}
            }
        } else {
            let (x, y) = (self.n(a), self.n(b));
            if x.op == Op::Lin || y.op == Op::Lin {
                let d = self.lin(w, &[(a, Bv::new(w, 1)), (b, Bv::ones(w))], Bv::new(w, 0));
                if let Some(v) = self.cv(d) {
                    let z = v.is_zero();
                    return self.b(z);
                }
                if self.op(d) == Op::Lin && self.n(d).args.len() == 3 {
                    let z = self.c64(w, 0);
                    return self.eq(z, d);
                }
            }
            // both zero extended
            let (x, y) = (self.n(a), self.n(b));
            let zx = if x.op == Op::Concat && self.is_zero(x.args[0]) { self.w(x.args[0]) } else { 0 };
            let zy = if y.op == Op::Concat && self.is_zero(y.args[0]) { self.w(y.args[0]) } else { 0 };
            let z = zx.min(zy);
            if z > 0 {
                let p = self.extract(a, 0, w - z);
                let q = self.extract(b, 0, w - z);
                return self.eq(p, q);
            }
            // terms common to two exclusive ors, and common parts of concatenations
            if self.xor_common(a, b) {
                let p = self.xor_args(a);
                let q = self.xor_args(b);
                let mut v: Vec<T> = p.iter().filter(|t| !q.contains(t)).copied().collect();
                v.extend(q.iter().filter(|t| !p.contains(t)));
                let r = self.xor(&v);
                let z = self.c64(w, 0);
                return self.eq(z, r);
            }
            let (x, y) = (self.n(a), self.n(b));
            if x.op == Op::Concat && y.op == Op::Concat && x.args.len() == y.args.len() {
                let (p, q) = (x.args.to_vec(), y.args.to_vec());
                if p.iter().zip(&q).all(|(s, t)| self.w(*s) == self.w(*t)) && p.iter().zip(&q).any(|(s, t)| s == t || self.xor_common(*s, *t)) {
                    let mut r = self.tt;
                    for (s, t) in p.into_iter().zip(q) {
                        let e = self.eq(s, t);
                        r = self.and(r, e);
                    }
                    return r;
                }
            }
            let (x, y) = (self.n(a), self.n(b));
            if x.op == Op::Ite && y.op == Op::Ite && x.args[0] == y.args[0] {
                let (c, p, q, r, s) = (x.args[0], x.args[1], x.args[2], y.args[1], y.args[2]);
                let e1 = self.eq(p, r);
                let e2 = self.eq(q, s);
                return self.ite(c, e1, e2);
            }
        }
        let (a, b) = if self.is_const(a) || a < b { (a, b) } else { (b, a) };
        self.mk(Op::Eq, 1, 0, &[a, b], None)
    }
    fn xor_args(&self, t: T) -> Vec<T> {
        if self.op(t) == Op::Xor {
            self.n(t).args.to_vec()
        } else {
            vec![t]
        }
    }
    fn xor_common(&self, a: T, b: T) -> bool {
        if self.op(a) != Op::Xor && self.op(b) != Op::Xor {
            return false;
        }
        let p = self.xor_args(a);
        self.xor_args(b).iter().any(|t| p.contains(t))
    }
    pub fn ult(&mut self, a: T, b: T) -> T {
        if a == b {
            return self.ff;
        }
        let w = self.w(a);
        if let (Some(x), Some(y)) = (self.cv(a), self.cv(b)) {
            let r = bv::ult(x, y);
            return self.b(r);
        }
        {
            let (x, y) = (self.n(a), self.n(b));
            if w <= 64 || (x.hi < u64::MAX && y.hi < u64::MAX) {
                if x.hi < y.lo {
                    return self.tt;
                }
                if x.lo >= y.hi {
                    return self.ff;
                }
            }
        }
        if w == 1 {
            let na = self.not(a);
            return self.and(na, b);
        }
        if self.is_zero(b) {
            return self.ff;
        }
        if let Some(v) = self.cv(b) {
            if v.is_one() {
                let z = self.c64(w, 0);
                return self.eq(a, z);
            }
        }
        if self.is_zero(a) {
            let z = self.c64(w, 0);
            let e = self.eq(b, z);
            return self.not(e);
        }
        // strip a common leading or trailing part
        if w > 1 && (self.op(a) == Op::Concat || self.op(b) == Op::Concat) {
            for top in [true, false] {
                let edge = |s: &Ctx, t: T| -> u32 {
                    if s.op(t) == Op::Concat {
                        let l = &s.n(t).args;
                        s.w(if top { l[0] } else { l[l.len() - 1] })
                    } else {
                        w
                    }
                };
                let k = edge(self, a).min(edge(self, b));
                if k < w {
                    let (p, q) = if top { (self.extract(a, w - k, k), self.extract(b, w - k, k)) } else { (self.extract(a, 0, k), self.extract(b, 0, k)) };
                    if p == q {
                        let (x, y) = if top { (self.extract(a, 0, w - k), self.extract(b, 0, w - k)) } else { (self.extract(a, k, w - k), self.extract(b, k, w - k)) };
                        return self.ult(x, y);
                    }
                }
            }
        }
        // strip common leading zeros
        let lz = |s: &Ctx, t: T| -> u32 {
            let n = s.n(t);
            if let Some(v) = &n.val {
                return w - v.bits();
            }
            if n.op == Op::Concat && s.is_zero(n.args[0]) {
                return s.w(n.args[0]);
            }
            0
        };
        let z = lz(self, a).min(lz(self, b));
        if z > 0 && z < w {
            let p = self.extract(a, 0, w - z);
            let q = self.extract(b, 0, w - z);
            return self.ult(p, q);
        }
        // const vs ite-of-const
        for side in 0..2 {
            let (p, q) = if side == 0 { (a, b) } else { (b, a) };
            let n = self.n(p);
            if n.op == Op::Ite && self.is_const(q) && (self.is_const(n.args[1]) || self.is_const(n.args[2])) {
                let (c, x, y) = (n.args[0], n.args[1], n.args[2]);
                let (l, r) = if side == 0 { (self.ult(x, q), self.ult(y, q)) } else { (self.ult(q, x), self.ult(q, y)) };
                return self.ite(c, l, r);
            }
        }
        // canonical: constants as  ult(x, k) ; ult(k, x) == !ult(x, k+1)
        if let Some(k) = self.cv(a).cloned() {
            if !k.is_ones(w) {
                let k1 = bv::add(w, &k, &Bv::new(w, 1));
                let kt = self.cbv(w, k1);
                let r = self.mk(Op::Ult, 1, 0, &[b, kt], None);
                return self.not(r);
            }
            return self.ff;
        }
        self.mk(Op::Ult, 1, 0, &[a, b], None)
    }
    pub fn slt(&mut self, a: T, b: T) -> T {
        if a == b {
            return self.ff;
        }
        let w = self.w(a);
        if let (Some(x), Some(y)) = (self.cv(a), self.cv(b)) {
            let r = bv::slt(w, x, y);
            return self.b(r);
        }
        let nonneg = |s: &Ctx, t: T| -> bool {
            let n = s.n(t);
            if let Some(v) = &n.val {
                return !v.bit(w - 1);
            }
            if w <= 64 && n.hi <= (bv::mask64(w) >> 1) {
                return true;
            }
            n.op == Op::Concat && s.cv(n.args[0]).map_or(false, |v| !v.bit(s.w(n.args[0]) - 1))
        };
        let (na, nb) = (nonneg(self, a), nonneg(self, b));
        if na && nb {
            return self.ult(a, b);
        }
        // sign test
        if self.is_zero(b) {
            return self.extract(a, w - 1, 1);
        }
        if let Some(v) = self.cv(a) {
            if v.is_ones(w) {
                let s = self.extract(b, w - 1, 1);
                return self.not(s);
            }
        }
        // narrow sign-extended operands
        let sw = |s: &Ctx, t: T| -> u32 {
            let n = s.n(t);
            match n.op {
                Op::SExt => s.w(n.args[0]),
                Op::Const => {
                    let v = n.val.as_ref().unwrap();
                    if v.bit(w - 1) {
                        bv::not(w, v).bits() + 1
                    } else {
                        v.bits() + 1
                    }
                }
                Op::Concat if s.is_zero(n.args[0]) => w - s.w(n.args[0]) + 1,
                _ => w,
            }
        };
        let k = sw(self, a).max(sw(self, b));
        if k < w {
            let p = self.extract(a, 0, k);
            let q = self.extract(b, 0, k);
            return self.slt(p, q);
        }
        for side in 0..2 {
            let (p, q) = if side == 0 { (a, b) } else { (b, a) };
            let n = self.n(p);
            if n.op == Op::Ite && self.is_const(q) && self.is_const(n.args[1]) && self.is_const(n.args[2]) {
                let (c, x, y) = (n.args[0], n.args[1], n.args[2]);
                let (l, r) = if side == 0 { (self.slt(x, q), self.slt(y, q)) } else { (self.slt(q, x), self.slt(q, y)) };
                return self.ite(c, l, r);
            }
        }
        self.mk(Op::Slt, 1, 0, &[a, b], None)
    }
    pub fn table_id(&mut self, iw: u32, ow: u32, data: Vec<u64>) -> u32 {
        let key = (iw | (ow << 8), data.clone());
        if let Some(i) = self.table_idx.get(&key) {
            return *i;
        }
        let i = self.tables.len() as u32;
        self.tables.push(Table { iw, ow, data });
        self.table_idx.insert(key, i);
        i
    }
    /// table lookup; idx has width tables[id].iw and data.len() == 1<<iw
    pub fn table(&mut self, id: u32, idx: T) -> T {
        let tb = &self.tables[id as usize];
        let ow = tb.ow;
        if let Some(v) = self.cv64(idx) {
            let d = self.tables[id as usize].data[v as usize];
            return self.c64(ow, d);
        }
        if tb.iw == 1 {
            let (a, b) = (tb.data[1], tb.data[0]);
            let x = self.c64(ow, a);
            let y = self.c64(ow, b);
            return self.ite(idx, x, y);
        }
        self.mk(Op::Table, ow, id, &[idx], None)
    }

    /// Rebuild a node with new args through the normalising constructors.
    pub fn rebuild(&mut self, t: T, args: &[T]) -> T {
        let (op, w, x) = {
            let n = self.n(t);
            (n.op, n.w, n.x)
        };
        match op {
            Op::Const | Op::Var => t,
            Op::And => self.and(args[0], args[1]),
            Op::Or => self.or(args[0], args[1]),
            Op::Xor => self.xor(args),
            Op::Lin => {
                let c = self.cv(args[0]).unwrap().clone();
                let mut v = vec![];
                let mut i = 1;
                while i < args.len() {
                    v.push((args[i], self.cv(args[i + 1]).unwrap().clone()));
                    i += 2;
                }
                self.lin(w, &v, c)
            }
            Op::Mul => self.mul(args[0], args[1]),
            Op::UDiv | Op::URem | Op::SDiv | Op::SRem => self.divop(op, args[0], args[1]),
            Op::Shl | Op::LShr | Op::AShr => self.shift(op, args[0], args[1]),
            Op::Concat => self.concat(args),
            Op::Extract => self.extract(args[0], x, w),
            Op::Ite => self.ite(args[0], args[1], args[2]),
            Op::Eq => self.eq(args[0], args[1]),
            Op::Ult => self.ult(args[0], args[1]),
            Op::Slt => self.slt(args[0], args[1]),
            Op::Table => self.table(x, args[0]),
            Op::SExt => self.sext(args[0], w),
            Op::Uf => self.mk(Op::Uf, w, x, args, None),
        }
    }

    pub fn eval_node(&self, t: T, get: &dyn Fn(T) -> Bv, model: &Model) -> Bv {
        let n = self.n(t);
        let w = n.w;
        let a = |i: usize| get(n.args[i]);
        let aw = |i: usize| self.w(n.args[i]);
        match n.op {
            Op::Const => n.val.clone().unwrap(),
            Op::Var => model.get(n.x, w),
            Op::And => bv::and(w, &a(0), &a(1)),
            Op::Or => bv::or(w, &a(0), &a(1)),
            Op::Xor => {
                let mut r = a(0);
                for i in 1..n.args.len() {
                    r = bv::xor(w, &r, &a(i));
                }
                r
            }
            Op::Lin => {
                let mut r = a(0);
                let mut i = 1;
                while i < n.args.len() {
                    r = bv::add(w, &r, &bv::mul(w, &a(i), &a(i + 1)));
                    i += 2;
                }
                r
            }
            Op::Mul => bv::mul(w, &a(0), &a(1)),
            Op::UDiv => bv::udiv(w, &a(0), &a(1)),
            Op::URem => bv::urem(w, &a(0), &a(1)),
            Op::SDiv => bv::sdiv(w, &a(0), &a(1)),
            Op::SRem => bv::srem(w, &a(0), &a(1)),
            Op::Shl | Op::LShr | Op::AShr => {
                let s = a(1);
                let k = if s.fits64() { s.lo64().min(w as u64) as u32 } else { w };
                match n.op {
                    Op::Shl => bv::shl(w, &a(0), k),
                    Op::LShr => bv::lshr(w, &a(0), k),
                    _ => bv::ashr(w, &a(0), k),
                }
            }
            Op::Concat => {
                let mut r = a(0);
                let mut cw = aw(0);
                for i in 1..n.args.len() {
                    r = bv::concat(cw, &r, aw(i), &a(i));
                    cw += aw(i);
                }
                r
            }
            Op::Extract => bv::extract(aw(0), &a(0), n.x, w),
            Op::Ite => {
                if a(0).is_one() {
                    a(1)
                } else {
                    a(2)
                }
            }
            Op::Eq => Bv::S((a(0) == a(1)) as u64),
            Op::Ult => Bv::S(bv::ult(&a(0), &a(1)) as u64),
            Op::Slt => Bv::S(bv::slt(aw(0), &a(0), &a(1)) as u64),
            Op::Table => {
                let i = a(0).lo64() as usize;
                Bv::new(w, self.tables[n.x as usize].data[i])
            }
            Op::SExt => bv::sext(aw(0), w, &a(0)),
            Op::Uf => {
                let mut h = Fx(n.x as u64 + 77);
                for i in 0..n.args.len() {
                    for l in a(i).sl() {
                        h.write_u64(*l);
                    }
                }
                let mut v = vec![];
                let mut z = h.0;
                for _ in 0..bv::limbs(w) {
                    z = z.wrapping_add(0x9e3779b97f4a7c15);
                    let mut y = z;
                    y = (y ^ (y >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
                    y = (y ^ (y >> 27)).wrapping_mul(0x94d049bb133111eb);
                    v.push(y ^ (y >> 31));
                }
                Bv::from_limbs(w, &v)
            }
        }
    }
    pub fn eval(&self, t: T, model: &Model, cache: &mut FxMap<T, Bv>) -> Bv {
        if let Some(v) = self.cv(t) {
            return v.clone();
        }
        if let Some(v) = cache.get(&t) {
            return v.clone();
        }
        let mut st = vec![t];
        while let Some(&x) = st.last() {
            if cache.contains_key(&x) {
                st.pop();
                continue;
            }
            let n = self.n(x);
            // lazy ite
            if n.op == Op::Ite {
                let c = n.args[0];
                let cvv = self.cv(c).cloned().or_else(|| cache.get(&c).cloned());
                match cvv {
                    None => {
                        st.push(c);
                        continue;
                    }
                    Some(v) => {
                        let br = if v.is_one() { n.args[1] } else { n.args[2] };
                        let r = self.cv(br).cloned().or_else(|| cache.get(&br).cloned());
                        match r {
                            Some(r) => {
                                cache.insert(x, r);
                                st.pop();
                            }
                            None => st.push(br),
                        }
                        continue;
                    }
                }
            }
            let mut ready = true;
            for a in n.args.iter() {
                if !self.is_const(*a) && !cache.contains_key(a) {
                    st.push(*a);
                    ready = false;
                }
            }
            if ready {
                let v = {
                    let cr: &FxMap<T, Bv> = cache;
                    let get = |a: T| -> Bv {
                        match self.cv(a) {
                            Some(v) => v.clone(),
                            None => cr[&a].clone(),
                        }
                    };
                    self.eval_node(x, &get, model)
                };
                cache.insert(x, v);
                st.pop();
            }
        }
        cache[&t].clone()
    }
    pub fn vars_of(&self, t: T, memo: &mut FxMap<T, std::rc::Rc<Vec<u32>>>) -> std::rc::Rc<Vec<u32>> {
        if let Some(v) = memo.get(&t) {
            return v.clone();
        }
        // full cone walk
        let mut seen: FxSet<T> = FxSet::default();
        let mut out = vec![];
        let mut st = vec![t];
        while let Some(x) = st.pop() {
            if !seen.insert(x) {
                continue;
            }
            if let Some(v) = memo.get(&x) {
                out.extend(v.iter().copied());
                continue;
            }
            let n = self.n(x);
            if n.op == Op::Var {
                out.push(n.x);
            } else if n.op == Op::Uf {
                out.push(0x8000_0000 | n.x);
            }
            st.extend_from_slice(&n.args);
        }
        out.sort_unstable();
        out.dedup();
        let r = std::rc::Rc::new(out);
        memo.insert(t, r.clone());
        r
    }
    pub fn show(&self, t: T, depth: usize) -> String {
        let n = self.n(t);
        match n.op {
            Op::Const => format!("{:#x}", n.val.as_ref().unwrap().to_u128()),
            Op::Var => self.vars[n.x as usize].0.clone(),
            _ if depth == 0 => format!("t{}", t),
            _ => {
                let a: Vec<String> = n.args.iter().take(12).map(|a| self.show(*a, depth - 1)).collect();
                let x = if matches!(n.op, Op::Extract | Op::Table | Op::Uf) { format!("[{}:{}]", n.x, n.w) } else { String::new() };
                format!("{:?}{}({})", n.op, x, a.join(","))
            }
        }
    }
}

#[derive(Clone, Default)]
pub struct Model {
    pub vals: Vec<Option<Bv>>,
}
impl Model {
    pub fn get(&self, v: u32, w: u32) -> Bv {
        match self.vals.get(v as usize) {
            Some(Some(b)) => b.clone(),
            _ => Bv::new(w, 0),
        }
    }
    pub fn set(&mut self, v: u32, b: Bv) {
        if self.vals.len() <= v as usize {
            self.vals.resize(v as usize + 1, None);
        }
        self.vals[v as usize] = Some(b);
    }
}
