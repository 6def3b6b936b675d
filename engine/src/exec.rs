//! Symbolic executor.
use crate::bv::{self, Bv};
use crate::ir::*;
use crate::mem::*;
use crate::solver::*;
use crate::term::*;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::rc::Rc;
use std::time::Instant;

#[derive(Clone, Debug)]
pub enum V {
    I(u64),
    W([u64; 2]),
    T(T),
    A(Rc<Vec<V>>),
}

pub struct ModelBox {
    pub m: Model,
    pub cache: std::cell::RefCell<FxMap<T, Bv>>,
    /// The model satisfies the path condition with its long multiplications and divisions replaced by free
    /// variables only: the path may be infeasible. Sound for proofs; nothing is reported from such a path without
    /// a real model.
    pub ghost: bool,
}
impl ModelBox {
    fn new(m: Model) -> Rc<ModelBox> {
        Rc::new(ModelBox { m, cache: Default::default(), ghost: false })
    }
}

#[derive(Clone)]
pub struct Frame {
    pub f: Rc<Func>,
    pub fi: u32,
    pub bb: u32,
    pub pc: usize,
    pub regs: Vec<V>,
    pub ret_d: u32,
    pub stack_base: usize,
}

#[derive(Clone)]
pub struct State {
    pub frames: Vec<Frame>,
    pub mem: Mem,
    pub pc: Vec<T>,
    pub model: Rc<ModelBox>,
    pub known: Rc<FxMap<T, u64>>,
    pub steps: u64,
    pub syms: Vec<(String, Vec<T>)>,
    pub panic_ok: bool,
    pub errno: u64,
    pub marks: Vec<(String, Option<Rc<Vec<T>>>)>,
    pub forks: u32,
    pub trace: Vec<String>,
}

#[derive(Clone, Debug)]
pub struct Cex {
    pub kind: String,
    pub msg: String,
    pub syms: Vec<(String, Vec<u8>)>,
    pub stack: Vec<String>,
}

/// One completed path: concrete inputs that follow it and what it reported on the way.
pub struct Sample {
    pub end: String,
    pub syms: Vec<(String, Vec<u8>)>,
    pub marks: Vec<String>,
}

pub struct Opts {
    pub samples: usize,
    pub max_steps: u64,
    pub max_secs: f64,
    pub max_cex: usize,
    pub params: Vec<u64>,
    pub xcheck: bool,
    pub trace: bool,
    pub ifconv: bool,
    pub switchconv: bool,
    pub uf_fns: Vec<String>,
    pub maxpaths: u64,
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Hook {
    Unknown,
    None,
    Panic,
    Intrinsic,
}

pub struct Exec {
    pub cx: Ctx,
    pub sv: Solver,
    pub md: Module,
    pub funcs: Vec<Option<Rc<Func>>>,
    hooks: Vec<Hook>,
    kvals: Vec<V>,
    pub opts: Opts,
    pub work: Vec<State>,
    pub cex: Vec<Cex>,
    pub cex_keys: BTreeSet<String>,
    pub reached: BTreeMap<String, u64>,
    pub paths: u64,
    pub panics_allowed: u64,
    pub total_steps: u64,
    pub ended: BTreeMap<String, u64>,
    pub incomplete: Vec<String>,
    pub called: Vec<u64>,
    pub asserts: BTreeMap<String, u64>,
    pub asserts_folded: u64,
    pub t0: Instant,
    pub varsmemo: FxMap<T, Rc<Vec<u32>>>,
    pub ifconverted: u64,
    pub loc_pool: HashMap<u32, String>,
    pub recent: Vec<Rc<ModelBox>>,
    hcuts: FxMap<T, T>,
    lemmas: FxMap<u32, T>,
    mix: FxMap<T, (u32, u8)>,
    quick: Option<Solver>,
    slow_full: u32,
    pub ghosts: u64,
    pub profile: HashMap<(u32, u32), u64>,
    pub samples: Vec<Sample>,
    sample_keys: std::collections::HashSet<String>,
    pub ok_paths: u64,
    purecache: HashMap<(u32, u32), bool>,
    pub sweeper: crate::sweep::Sweeper,
    pub symid: HashMap<(String, usize), T>,
    pub fresh: u64,
}

pub enum Step {
    Cont,
    End(String),
}

type R<X> = Result<X, String>;

macro_rules! endpath {
    ($($a:tt)*) => { return Err(format!($($a)*)) };
}

fn w_of(ty: &Ty) -> u32 {
    ty.bits()
}
#[inline]
fn m64(w: u32) -> u64 {
    bv::mask64(w)
}
#[inline]
fn sx(v: u64, w: u32) -> i64 {
    if w >= 64 {
        v as i64
    } else {
        ((v << (64 - w)) as i64) >> (64 - w)
    }
}
fn w128(v: &[u64; 2]) -> u128 {
    v[0] as u128 | ((v[1] as u128) << 64)
}
fn m128(w: u32) -> u128 {
    if w >= 128 {
        !0
    } else {
        (1u128 << w) - 1
    }
}
fn sx128(v: u128, w: u32) -> i128 {
    if w >= 128 {
        v as i128
    } else {
        ((v << (128 - w)) as i128) >> (128 - w)
    }
}
fn mkw(v: u128) -> V {
    V::W([v as u64, (v >> 64) as u64])
}

impl Exec {
    pub fn new(md: Module, opts: Opts, qtimeout: u64) -> Exec {
        let nf = md.fdefs.len();
        Exec {
            cx: Ctx::new(),
            sv: Solver::new(qtimeout),
            md,
            funcs: (0..nf).map(|_| None).collect(),
            hooks: vec![Hook::Unknown; nf],
            kvals: vec![],
            opts,
            work: vec![],
            cex: vec![],
            cex_keys: BTreeSet::new(),
            reached: BTreeMap::new(),
            paths: 0,
            panics_allowed: 0,
            total_steps: 0,
            ended: BTreeMap::new(),
            incomplete: vec![],
            called: vec![0; nf],
            asserts: BTreeMap::new(),
            asserts_folded: 0,
            t0: Instant::now(),
            varsmemo: FxMap::default(),
            ifconverted: 0,
            loc_pool: HashMap::new(),
            recent: vec![],
            hcuts: FxMap::default(),
            lemmas: FxMap::default(),
            mix: FxMap::default(),
            quick: None,
            slow_full: 0,
            ghosts: 0,
            profile: HashMap::new(),
            samples: vec![],
            sample_keys: Default::default(),
            ok_paths: 0,
            purecache: HashMap::new(),
            sweeper: crate::sweep::Sweeper::new(),
            symid: HashMap::new(),
            fresh: 0,
        }
    }

    // ---------- values ----------
    pub fn tt(&mut self, v: &V, w: u32) -> T {
        match v {
            V::I(x) => self.cx.c64(w, *x),
            V::W(x) => self.cx.cbv(w, Bv::from_limbs(w, x)),
            V::T(t) => *t,
            V::A(l) => {
                // vector -> integer, element 0 least significant
                let n = l.len() as u32;
                let ew = w / n;
                let parts: Vec<T> = l.iter().rev().map(|e| self.tt(e, ew)).collect();
                self.cx.concat(&parts)
            }
        }
    }
    pub fn ft(&self, t: T) -> V {
        match self.cx.cv(t) {
            None => V::T(t),
            Some(b) => {
                let w = self.cx.w(t);
                if w <= 64 {
                    V::I(b.lo64())
                } else if w <= 128 {
                    V::W([b.sl()[0], b.sl()[1]])
                } else {
                    V::T(t)
                }
            }
        }
    }
    fn zero(&self, ty: &Ty) -> V {
        match ty {
            Ty::Int(w) if *w > 128 => panic!("wide zero"),
            Ty::Int(w) if *w > 64 => V::W([0, 0]),
            Ty::Int(_) | Ty::Ptr | Ty::F32 | Ty::F64 => V::I(0),
            Ty::Arr(n, t) => V::A(Rc::new(vec![self.zero(t); *n as usize])),
            Ty::Vec(n, t) => V::A(Rc::new(vec![self.zero(t); *n as usize])),
            Ty::Struct(f, _) => V::A(Rc::new(f.iter().map(|t| self.zero(t)).collect())),
            _ => V::I(0),
        }
    }
    fn cval(&mut self, c: &C) -> V {
        match c {
            C::Int(w, v) => {
                if *w <= 64 {
                    V::I(v[0] & m64(*w))
                } else if *w <= 128 {
                    let x = (v[0] as u128 | ((v[1] as u128) << 64)) & m128(*w);
                    mkw(x)
                } else {
                    V::T(self.cx.cbv(*w, Bv::from_limbs(*w, v)))
                }
            }
            C::Undef(t) | C::Zero(t) => {
                if let Ty::Int(w) = t {
                    if *w > 128 {
                        return V::T(self.cx.c64(*w, 0));
                    }
                }
                self.zero(t)
            }
            C::Global(n) => V::I(self.gaddr(n)),
            C::Agg(_, l) => V::A(Rc::new(l.iter().map(|c| self.cval(c)).collect())),
            C::Bytes(b) => V::A(Rc::new(b.iter().map(|x| V::I(*x as u64)).collect())),
            C::Add(b, o) => match self.cval(b) {
                V::I(x) => V::I(x.wrapping_add(*o as u64)),
                _ => panic!("const add"),
            },
            C::Sub(a, b) => match (self.cval(a), self.cval(b)) {
                (V::I(x), V::I(y)) => V::I(x.wrapping_sub(y)),
                _ => panic!("const sub"),
            },
            C::Trunc(a, w) => match self.cval(a) {
                V::I(x) => V::I(x & m64(*w)),
                _ => panic!("const trunc"),
            },
        }
    }
    fn gaddr(&self, n: &str) -> u64 {
        let n = self.md.aliases.get(n).map(|s| s.as_str()).unwrap_or(n);
        if let Some(i) = self.md.gidx.get(n) {
            (GBASE + *i as u64) << 32
        } else if let Some(i) = self.md.fidx.get(n) {
            (FBASE + *i as u64) << 32
        } else {
            panic!("symbol {}", n)
        }
    }
    fn write_const(&mut self, o: &mut Obj, off: u64, ty: &Ty, c: &C) {
        match (c, ty) {
            (C::Undef(_), _) | (C::Zero(_), _) => {}
            (C::Bytes(b), _) => o.data[off as usize..off as usize + b.len()].copy_from_slice(b),
            (C::Agg(_, l), _) => {
                for (i, e) in l.iter().enumerate() {
                    let (fo, ft) = ty.field(i as u64);
                    self.write_const(o, off + fo, &ft, e);
                }
            }
            _ => {
                let n = ty.store_size() as usize;
                let v = match self.cval(c) {
                    V::I(x) => vec![x],
                    V::W(x) => x.to_vec(),
                    V::T(t) => self.cx.cv(t).unwrap().sl().to_vec(),
                    _ => panic!("const write"),
                };
                for i in 0..n {
                    o.data[off as usize + i] = (v[i / 8] >> (8 * (i % 8))) as u8;
                }
            }
        }
    }
    fn ensure_global(&mut self, st: &mut State, gi: usize) {
        if st.mem.globals.len() <= gi {
            st.mem.globals.resize(gi + 1, None);
        }
        if st.mem.globals[gi].is_none() {
            let (ty, c, sz) = self.md.global_init(gi as u32);
            let mut o = Obj::new(sz as usize);
            if let Some(c) = c {
                self.write_const(&mut o, 0, &ty, &c);
            }
            o.ro = self.md.globals[gi].constant;
            st.mem.globals[gi] = Some(Rc::new(o));
        }
    }
    pub fn func(&mut self, fi: u32) -> Rc<Func> {
        if let Some(f) = &self.funcs[fi as usize] {
            return f.clone();
        }
        let f = Rc::new(self.md.parse_func(fi));
        while self.kvals.len() < self.md.consts.len() {
            let c = self.md.consts[self.kvals.len()].clone();
            let v = self.cval(&c);
            self.kvals.push(v);
        }
        self.funcs[fi as usize] = Some(f.clone());
        f
    }
    fn hook(&mut self, fi: u32) -> Hook {
        let h = self.hooks[fi as usize];
        if h != Hook::Unknown {
            return h;
        }
        let (n, def) = &self.md.fdefs[fi as usize];
        let h = if n.contains("4core9panicking") || n.contains("3std9panicking") && n.contains("begin_panic") || n.contains("handle_alloc_error") || n.contains("rust_begin_unwind") || n.contains("panic_display") {
            Hook::Panic
        } else if def.is_none() || self.opts.uf_fns.iter().any(|u| n.contains(u.split_once('=').map_or(u.as_str(), |x| x.0))) {
            Hook::Intrinsic
        } else if n.starts_with("vh_") || n.starts_with("vi_") {
            Hook::Intrinsic
        } else {
            Hook::None
        };
        self.hooks[fi as usize] = h;
        h
    }

    // ---------- solver helpers ----------
    fn mval(&mut self, mb: &ModelBox, t: T) -> Bv {
        let t = if mb.ghost { self.hcut(t) } else { t };
        let mut c = mb.cache.borrow_mut();
        self.cx.eval(t, &mb.m, &mut c)
    }
    fn eval_bool(&mut self, st: &State, t: T) -> bool {
        self.mval(&st.model, t).is_one()
    }
    fn eval64(&mut self, st: &State, t: T) -> u64 {
        self.mval(&st.model, t).lo64()
    }
    /// t with its long multiplications and divisions replaced by free variables.
    pub fn hcut(&mut self, t: T) -> T {
        if let Some(r) = self.hcuts.get(&t) {
            return *r;
        }
        let mut st = vec![(t, false)];
        while let Some((x, done)) = st.pop() {
            if self.hcuts.contains_key(&x) {
                continue;
            }
            let n = self.cx.n(x);
            let (op, w) = (n.op, n.w);
            if matches!(op, Op::Const | Op::Var) || n.args.is_empty() {
                self.hcuts.insert(x, x);
                continue;
            }
            let args: Vec<T> = n.args.to_vec();
            let by_sym = op == Op::URem && w >= 24 && !self.cx.is_const(args[1]);
            let hard = (w >= 48 && matches!(op, Op::Mul | Op::URem | Op::UDiv | Op::SRem | Op::SDiv)) && !by_sym || by_sym && done;
            let mut mixed = false;
            if done && w >= 8 {
                // mixing layers: alternations of additions, bitwise operations and table lookups
                let g = match op {
                    Op::Lin => 1,
                    Op::Xor | Op::And | Op::Or => 2,
                    Op::Table => 3,
                    _ => 0u8,
                };
                let (mut lv, mut lg) = (0u32, 0u8);
                for a in args.iter() {
                    let (l, q) = self.mix.get(a).copied().unwrap_or((0, 0));
                    let l = l + (g != 0 && q != 0 && q != g) as u32;
                    if l > lv || lg == 0 {
                        lv = l;
                        lg = if g != 0 { g } else { q };
                    }
                }
                if g != 0 {
                    lg = g;
                }
                if g != 0 && lv >= 12 {
                    mixed = true;
                } else {
                    self.mix.insert(x, (lv, lg));
                }
            } else if done {
                let m = args.iter().map(|a| self.mix.get(a).copied().unwrap_or((0, 0))).max().unwrap_or((0, 0));
                self.mix.insert(x, m);
            }
            if hard || mixed {
                let v = self.cx.var("hard", w);
                if op == Op::URem {
                    // x % d < d unless d is zero
                    let d = if by_sym { self.hcuts[&args[1]] } else { args[1] };
                    let l = self.cx.ult(v, d);
                    let z = self.cx.c64(w, 0);
                    let z = self.cx.eq(d, z);
                    let l = self.cx.or(l, z);
                    if let Op::Var = self.cx.op(v) {
                        self.lemmas.insert(self.cx.n(v).x, l);
                    }
                }
                self.hcuts.insert(x, v);
                continue;
            }
            if !done {
                st.push((x, true));
                for a in args.iter() {
                    if !self.hcuts.contains_key(a) {
                        st.push((*a, false));
                    }
                }
                continue;
            }
            let na: Vec<T> = args.iter().map(|a| self.hcuts[a]).collect();
            let r = if na == args { x } else { self.cx.rebuild(x, &na) };
            self.hcuts.insert(x, r);
        }
        self.hcuts[&t]
    }
    /// The abstraction of a conjunction, with what is known of the variables it introduces.
    fn hcut_all(&mut self, q: &[T]) -> Vec<T> {
        let mut out: Vec<T> = q.iter().map(|t| self.hcut(*t)).collect();
        let mut ls = vec![];
        for t in out.iter() {
            for v in self.cx.vars_of(*t, &mut self.varsmemo).iter() {
                if let Some(l) = self.lemmas.get(v) {
                    ls.push(*l);
                }
            }
        }
        ls.sort_unstable();
        ls.dedup();
        out.extend(ls);
        out
    }
    fn is_hard(&mut self, q: &[T]) -> bool {
        q.iter().any(|t| self.hcut(*t) != *t)
    }
    fn with_vals(&self, st: &State, vals: Vec<(u32, Bv)>, ghost: bool) -> Rc<ModelBox> {
        let mut m = st.model.m.clone();
        for (v, b) in vals {
            m.set(v, b);
        }
        let mut mb = ModelBox::new(m);
        Rc::get_mut(&mut mb).unwrap().ghost = ghost;
        mb
    }
    fn quick_check(&mut self, q: &[T]) -> Res {
        if self.quick.is_none() {
            self.quick = Some(Solver::new(2000));
        }
        let mut qs = self.quick.take().unwrap();
        let r = qs.check1(&self.cx, q, true);
        let (a, b) = (&mut self.sv.stats, &qs.stats);
        a.queries += b.queries;
        a.sat += b.sat;
        a.unsat += b.unsat;
        a.unknown += b.unknown;
        a.secs += b.secs;
        a.max_secs = a.max_secs.max(b.max_secs);
        a.cache_hits += b.cache_hits;
        a.folded += b.folded;
        qs.stats = Stats::default();
        self.quick = Some(qs);
        r
    }
    /// A real model for a path that has an abstract one only: Ok(false) if the path turns out to be infeasible.
    fn realize(&mut self, st: &mut State) -> R<bool> {
        if !st.model.ghost {
            return Ok(true);
        }
        let tt = self.cx.tt;
        if let Some(m) = self.random_model(st, tt, 60) {
            st.model = m;
            return Ok(true);
        }
        let q = st.pc.clone();
        match self.sv.check(&self.cx, &q, true) {
            Res::Unsat => Ok(false),
            Res::Sat(vals) => {
                st.model = self.with_vals(st, vals, false);
                Ok(true)
            }
            Res::Unknown(e) => Err(format!("INCONCLUSIVE: no model of the path: {}", e)),
        }
    }
    fn slice(&mut self, st: &State, c: T) -> Vec<T> {
        let mut vars: FxSet<u32> = self.cx.vars_of(c, &mut self.varsmemo).iter().copied().collect();
        let vs: Vec<Rc<Vec<u32>>> = st.pc.iter().map(|p| self.cx.vars_of(*p, &mut self.varsmemo)).collect();
        let mut used = vec![false; vs.len()];
        let mut out = vec![];
        loop {
            let mut ch = false;
            for i in 0..vs.len() {
                if !used[i] && vs[i].iter().any(|v| vars.contains(v)) {
                    used[i] = true;
                    ch = true;
                    out.push(st.pc[i]);
                    vars.extend(vs[i].iter().copied());
                }
            }
            if !ch {
                break;
            }
        }
        out
    }
    /// feasibility of pc && c ; returns new model when sat
    pub fn feasible(&mut self, st: &State, c: T) -> R<Option<Rc<ModelBox>>> {
        if let Some(v) = self.cx.cv(c) {
            return Ok(if v.is_one() { Some(st.model.clone()) } else { None });
        }
        if self.eval_bool(st, c) {
            self.sv.stats.model_hits += 1;
            return Ok(Some(st.model.clone()));
        }
        // Cheap syntactic check: c's negation is in pc
        let nc = self.cx.not(c);
        if st.pc.contains(&nc) {
            return Ok(None);
        }
        let mut q = self.slice(st, c);
        q.push(c);
        let hard = self.is_hard(&q);
        if st.model.ghost && !hard {
            return match self.sv.check(&self.cx, &q, true) {
                Res::Unsat => Ok(None),
                Res::Sat(v) => Ok(Some(self.with_vals(st, v, true))),
                Res::Unknown(e) => Err(format!("INCONCLUSIVE: solver unknown: {}", e)),
            };
        }
        if hard {
            let qa = self.hcut_all(&q);
            let vals = match self.quick_check(&qa) {
                Res::Unsat => return Ok(None),
                Res::Sat(v) => Some(v),
                Res::Unknown(_) => None,
            };
            if let Some(m) = self.random_model(st, c, 40) {
                return Ok(Some(m));
            }
            if self.slow_full < 1 || vals.is_none() {
                match self.quick_check(&q) {
                    Res::Unsat => return Ok(None),
                    // a model for the slice only is a real one if the model of the path is
                    Res::Sat(v) if !st.model.ghost => return Ok(Some(self.with_vals(st, v, false))),
                    Res::Sat(_) => {}
                    Res::Unknown(_) => self.slow_full += 1,
                }
            }
            return match vals {
                Some(v) => Ok(Some(self.with_vals(st, v, true))),
                None => Err("INCONCLUSIVE: solver unknown on an abstracted query".into()),
            };
        }
        match self.sv.check(&self.cx, &q, true) {
            Res::Unsat => Ok(None),
            Res::Sat(vals) => {
                let mb = self.with_vals(st, vals, false);
                // validate model (guards against solver/encoding mismatch, and uninterpreted functions)
                let mut cache = mb.cache.borrow_mut();
                let ok = self.cx.eval(c, &mb.m, &mut cache).is_one() && q.iter().all(|p| self.cx.eval(*p, &mb.m, &mut cache).is_one());
                drop(cache);
                if !ok {
                    // uninterpreted functions: model for UF nodes is not under our control; accept as feasible
                    // without a concrete witness is not possible -> inconclusive
                    return Err("INCONCLUSIVE: solver model does not evaluate (uninterpreted function)".into());
                }
                Ok(Some(mb))
            }
            Res::Unknown(e) => match self.random_model(st, c, 60) {
                Some(m) => Ok(Some(m)),
                None => Err(format!("INCONCLUSIVE: solver unknown: {}", e)),
            },
        }
    }
    /// Looks for a model of pc && c among random assignments (a found model is checked by evaluation; finding none
    /// says nothing).
    fn random_model(&mut self, st: &State, c: T, tries: u64) -> Option<Rc<ModelBox>> {
        let vars: Vec<u32> = self.cx.vars_of(c, &mut self.varsmemo).iter().copied().collect();
        let mut s = 0x1234_5678_9abc_def1u64;
        let mut next = || {
            s ^= s << 13;
            s ^= s >> 7;
            s ^= s << 17;
            s.wrapping_mul(0x2545_f491_4f6c_dd1d)
        };
        let groups: Vec<Vec<T>> = st.syms.iter().map(|x| x.1.clone()).collect();
        for k in 0..tries + groups.len() as u64 {
            let mut m = st.model.m.clone();
            if k >= tries {
                // one group of symbols all zero
                for t in &groups[(k - tries) as usize] {
                    if self.cx.op(*t) == Op::Var {
                        m.set(self.cx.n(*t).x, Bv::new(self.cx.w(*t), 0));
                    }
                }
            } else {
            for v in &vars {
                let w = self.cx.vars[*v as usize].1;
                let keep = k % 4 == 3 && next() % 8 != 0;
                if keep {
                    continue;
                }
                let l: Vec<u64> = (0..crate::bv::limbs(w))
                    .map(|_| match k % 4 {
                        2 => [0, !0, 1, 1 << (w.min(64) - 1)][(next() >> 33) as usize % 4],
                        _ => next(),
                    })
                    .collect();
                m.set(*v, Bv::from_limbs(w, &l));
            }
            }
            let mb = ModelBox::new(m);
            let ok = {
                let mut cache = mb.cache.borrow_mut();
                st.pc.iter().all(|p| self.cx.eval(*p, &mb.m, &mut cache).is_one()) && self.cx.eval(c, &mb.m, &mut cache).is_one()
            };
            if ok {
                return Some(mb);
            }
        }
        None
    }
    fn add_pc(&mut self, st: &mut State, c: T) {
        if self.cx.is_const(c) {
            return;
        }
        // split conjunctions
        let n = self.cx.n(c);
        if n.op == Op::And {
            let (a, b) = (n.args[0], n.args[1]);
            self.add_pc(st, a);
            self.add_pc(st, b);
            return;
        }
        if !st.pc.contains(&c) {
            st.pc.push(c);
        }
        if n.op == Op::Eq {
            if let Some(k) = self.cx.cv64(n.args[0]) {
                let t = n.args[1];
                Rc::make_mut(&mut st.known).insert(t, k);
            }
        }
    }
    /// Make a term concrete; other values become separate states re-executing the current instruction.
    pub fn conc(&mut self, st: &mut State, t: T) -> R<u64> {
        if let Some(v) = self.cx.cv(t) {
            return Ok(v.lo64());
        }
        if let Some(v) = st.known.get(&t) {
            return Ok(*v);
        }
        let w = self.cx.w(t);
        let v = self.eval64(st, t);
        let k = self.cx.c64(w, v);
        let e = self.cx.eq(t, k);
        let ne = self.cx.not(e);
        if let Some(m) = self.feasible(st, ne)? {
            let mut o = st.clone();
            o.model = m;
            o.forks += 1;
            self.add_pc(&mut o, ne);
            self.push_work(o);
            self.add_pc(st, e);
            st.forks += 1;
        }
        Rc::make_mut(&mut st.known).insert(t, v);
        Ok(v)
    }
    pub fn concv(&mut self, st: &mut State, v: &V) -> R<u64> {
        match v {
            V::I(x) => Ok(*x),
            V::W(x) => Ok(x[0]),
            V::T(t) => self.conc(st, *t),
            V::A(_) => panic!("concv agg"),
        }
    }
    fn push_work(&mut self, s: State) {
        self.work.push(s);
    }
    /// Decide a boolean; if both possible forks (true taken now, false state re-executes the instruction).
    /// An equivalent condition in which sub-terms proved equal are shared.
    fn swept(&mut self, st: &State, c: T) -> T {
        let mut sw = std::mem::replace(&mut self.sweeper, crate::sweep::Sweeper::new());
        let r = sw.reduce(&mut self.cx, &mut self.sv, &st.pc, c, self.t0, self.opts.max_secs);
        self.sweeper = sw;
        r
    }
    fn decide(&mut self, st: &mut State, c: T) -> R<bool> {
        if let Some(v) = self.cx.cv(c) {
            return Ok(v.is_one());
        }
        if let Some(v) = st.known.get(&c) {
            return Ok(*v == 1);
        }
        let c0 = c;
        let c = if self.is_hard(&[c]) { self.swept(st, c) } else { c };
        if c != c0 {
            let r = self.decide(st, c)?;
            Rc::make_mut(&mut st.known).insert(c0, r as u64);
            return Ok(r);
        }
        let v = self.eval_bool(st, c);
        let nc = self.cx.not(c);
        let (mine, other) = if v { (c, nc) } else { (nc, c) };
        match self.feasible(st, other)? {
            Some(m) => {
                let mut o = st.clone();
                o.model = m;
                o.forks += 1;
                self.add_pc(&mut o, other);
                Rc::make_mut(&mut o.known).insert(c, !v as u64);
                self.push_work(o);
                self.add_pc(st, mine);
                st.forks += 1;
                Rc::make_mut(&mut st.known).insert(c, v as u64);
            }
            None => {
                Rc::make_mut(&mut st.known).insert(c, v as u64);
            }
        }
        Ok(v)
    }

    // ---------- memory ----------
    fn obj_size(&mut self, st: &mut State, id: u64) -> Option<u64> {
        if id >= GBASE && id < FBASE {
            let gi = (id - GBASE) as usize;
            if gi < self.md.globals.len() {
                self.ensure_global(st, gi);
            }
        }
        st.mem.get(id).map(|o| o.data.len() as u64)
    }
    /// Resolve an address for an access of n bytes. Returns (object id, Ok(concrete offset) | Err(symbolic offset term))
    fn resolve(&mut self, st: &mut State, p: &V, n: u64) -> R<(u64, Result<u64, T>)> {
        match p {
            V::I(a) => {
                let id = a >> 32;
                let off = a & 0xffff_ffff;
                match self.obj_size(st, id) {
                    Some(sz) if n <= sz && off <= sz - n => Ok((id, Ok(off))),
                    Some(sz) => endpath!("MEMERR: out of bounds access obj {:#x} off {} len {} size {}", id, off, n, sz),
                    None => endpath!("MEMERR: access to invalid address {:#x}", a),
                }
            }
            V::T(t) => {
                let t = *t;
                if let Some(k) = st.known.get(&t) {
                    let k = *k;
                    return self.resolve(st, &V::I(k), n);
                }
                // pointer choice: fork on the condition
                let nd = self.cx.n(t);
                if nd.op == Op::Ite {
                    let (c, a, b) = (nd.args[0], nd.args[1], nd.args[2]);
                    let (va, vb) = (self.eval64(st, a) >> 32, self.eval64(st, b) >> 32);
                    if va != vb {
                        let d = self.decide(st, c)?;
                        let x = self.ft(if d { a } else { b });
                        return self.resolve(st, &x, n);
                    }
                }
                let a = self.eval64(st, t);
                let id = a >> 32;
                let sz = match self.obj_size(st, id) {
                    Some(s) => s,
                    None => {
                        let v = self.conc(st, t)?;
                        return self.resolve(st, &V::I(v), n);
                    }
                };
                if sz < n {
                    let v = self.conc(st, t)?;
                    return self.resolve(st, &V::I(v), n);
                }
                let base = self.cx.c64(64, id << 32);
                let off = self.cx.sub(t, base);
                let lim = self.cx.c64(64, sz - n + 1);
                let inb = self.cx.ult(off, lim);
                let d = self.decide(st, inb)?;
                if !d {
                    let v = self.conc(st, t)?;
                    return self.resolve(st, &V::I(v), n);
                }
                Ok((id, Err(off)))
            }
            _ => endpath!("MEMERR: bad pointer value"),
        }
    }
    fn byte_t(&mut self, b: (u8, T)) -> T {
        if b.1 == NOSYM {
            self.cx.c64(8, b.0 as u64)
        } else {
            b.1
        }
    }
    pub fn read_bytes_t(&mut self, st: &State, id: u64, off: u64, n: u64) -> Vec<T> {
        let o = st.mem.get(id).unwrap().clone();
        (0..n).map(|i| self.byte_t(o.byte((off + i) as usize))).collect()
    }
    fn load_conc(&mut self, st: &State, id: u64, off: u64, n: u64, w: u32) -> V {
        let o = st.mem.get(id).unwrap();
        let off = off as usize;
        let n = n as usize;
        if o.is_conc(off, n) {
            if w <= 64 {
                let mut v = 0u64;
                for i in (0..n).rev() {
                    v = (v << 8) | o.data[off + i] as u64;
                }
                return V::I(v & m64(w));
            } else if w <= 128 {
                let mut v = 0u128;
                for i in (0..n).rev() {
                    v = (v << 8) | o.data[off + i] as u128;
                }
                return mkw(v & m128(w));
            }
            let mut l = vec![0u64; (n + 7) / 8];
            for i in 0..n {
                l[i / 8] |= (o.data[off + i] as u64) << (8 * (i % 8));
            }
            return V::T(self.cx.cbv(w, Bv::from_limbs(w, &l)));
        }
        let o = o.clone();
        let parts: Vec<T> = (0..n).rev().map(|i| self.byte_t(o.byte(off + i))).collect();
        let t = self.cx.concat(&parts);
        let t = if self.cx.w(t) > w { self.cx.extract(t, 0, w) } else { t };
        self.ft(t)
    }
    fn trailing_zeros(&self, t: T) -> u32 {
        let n = self.cx.n(t);
        match n.op {
            Op::Concat => {
                let l = *n.args.last().unwrap();
                match self.cx.cv(l) {
                    Some(v) if v.is_zero() => self.cx.w(l),
                    _ => 0,
                }
            }
            Op::Lin => {
                let mut k = 64;
                let c = self.cx.cv(n.args[0]).unwrap().lo64();
                if c != 0 {
                    k = k.min(c.trailing_zeros());
                }
                let mut i = 1;
                while i < n.args.len() {
                    let z = self.cx.cv(n.args[i + 1]).unwrap().lo64().trailing_zeros() + self.trailing_zeros(n.args[i]);
                    k = k.min(z);
                    i += 2;
                }
                k
            }
            Op::Ite => self.trailing_zeros(n.args[1]).min(self.trailing_zeros(n.args[2])),
            Op::Const => {
                let v = n.val.as_ref().unwrap().lo64();
                if v == 0 {
                    64
                } else {
                    v.trailing_zeros()
                }
            }
            _ => 0,
        }
    }
    fn load_sym(&mut self, st: &mut State, id: u64, off: T, n: u64, w: u32) -> R<V> {
        let size = st.mem.get(id).unwrap().data.len() as u64;
        let nd = self.cx.n(off);
        let mut lo = nd.lo;
        let mut hi = nd.hi.min(size - n);
        if lo > hi {
            lo = 0;
        }
        let tz = self.trailing_zeros(off).min(12);
        let stride = 1u64 << tz;
        lo = lo / stride * stride;
        let mut cnt = (hi - lo) / stride + 1;
        let cheap = cnt <= 4096 && st.mem.get(id).unwrap().is_conc(lo as usize, (hi + n - lo) as usize);
        if cnt > 96 && !cheap {
            // tighten the upper bound with the solver
            let mut a = self.eval64(st, off); // feasible value
            let mut b = hi;
            while a < b {
                let mid = a + (b - a) / 2;
                let k = self.cx.c64(64, mid);
                let gt = self.cx.ult(k, off);
                match self.feasible(st, gt)? {
                    Some(m) => {
                        let v = self.mval(&m, off).lo64();
                        a = v.max(mid + 1).min(b);
                    }
                    None => b = mid,
                }
            }
            hi = a;
            cnt = (hi - lo) / stride + 1;
        }
        let conc = st.mem.get(id).unwrap().is_conc(lo as usize, (hi + n - lo) as usize);
        if (!conc && cnt > 600) || cnt > 70000 || w > 64 && conc && cnt > 600 {
            let v = self.conc(st, off)?;
            return Ok(self.load_conc(st, id, v, n, w));
        }
        if cnt == 1 {
            return Ok(self.load_conc(st, id, lo, n, w));
        }
        let iw = 64 - (cnt - 1).leading_zeros();
        let lt = self.cx.c64(64, lo);
        let rel = self.cx.sub(off, lt);
        let idx = self.cx.extract(rel, tz, iw);
        if conc && w <= 64 {
            let mut data = Vec::with_capacity(1 << iw);
            for i in 0..cnt {
                match self.load_conc(st, id, lo + i * stride, n, w) {
                    V::I(x) => data.push(x),
                    _ => unreachable!(),
                }
            }
            data.resize(1 << iw, 0);
            if data.iter().all(|x| *x == data[0]) {
                return Ok(V::I(data[0]));
            }
            let tid = self.cx.table_id(iw, w, data);
            let t = self.cx.table(tid, idx);
            return Ok(self.ft(t));
        }
        let mut leaves: Vec<T> = vec![];
        for i in 0..cnt {
            let v = self.load_conc(st, id, lo + i * stride, n, w);
            let t = self.tt(&v, w);
            leaves.push(t);
        }
        let r = self.mux(&leaves, idx, iw);
        Ok(self.ft(r))
    }
    fn mux(&mut self, leaves: &[T], idx: T, bits: u32) -> T {
        if leaves.len() == 1 || bits == 0 {
            return leaves[0];
        }
        let half = 1usize << (bits - 1);
        if leaves.len() <= half {
            return self.mux(leaves, idx, bits - 1);
        }
        let l = self.mux(&leaves[..half], idx, bits - 1);
        let r = self.mux(&leaves[half..], idx, bits - 1);
        let b = self.cx.extract(idx, bits - 1, 1);
        self.cx.ite(b, r, l)
    }
    fn load(&mut self, st: &mut State, ty: &Ty, p: &V) -> R<V> {
        match ty {
            Ty::Struct(f, _) => {
                let mut v = vec![];
                for i in 0..f.len() {
                    let (o, t) = ty.field(i as u64);
                    let q = self.padd(p, o as i64);
                    v.push(self.load(st, &t, &q)?);
                }
                Ok(V::A(Rc::new(v)))
            }
            Ty::Arr(n, e) => {
                let mut v = vec![];
                for i in 0..*n {
                    let q = self.padd(p, (i * e.size()) as i64);
                    v.push(self.load(st, e, &q)?);
                }
                Ok(V::A(Rc::new(v)))
            }
            Ty::Vec(n, e) => {
                let eb = e.bits();
                if eb % 8 != 0 {
                    let tot = ty.size();
                    let it = self.load(st, &Ty::Int((tot * 8) as u32), p)?;
                    let t = self.tt(&it, (tot * 8) as u32);
                    let mut v = vec![];
                    for i in 0..*n {
                        let x = self.cx.extract(t, i * eb, eb);
                        v.push(self.ft(x));
                    }
                    return Ok(V::A(Rc::new(v)));
                }
                let mut v = vec![];
                for i in 0..*n {
                    let q = self.padd(p, (i as u64 * e.size()) as i64);
                    v.push(self.load(st, e, &q)?);
                }
                Ok(V::A(Rc::new(v)))
            }
            _ => {
                let n = ty.store_size();
                let w = ty.bits();
                let (id, off) = self.resolve(st, p, n)?;
                match off {
                    Ok(o) => Ok(self.load_conc(st, id, o, n, w)),
                    Err(t) => self.load_sym(st, id, t, n, w),
                }
            }
        }
    }
    fn padd(&mut self, p: &V, o: i64) -> V {
        if o == 0 {
            return p.clone();
        }
        match p {
            V::I(a) => V::I(a.wrapping_add(o as u64)),
            _ => {
                let t = self.tt(p, 64);
                let k = self.cx.c64(64, o as u64);
                let r = self.cx.add(t, k);
                self.ft(r)
            }
        }
    }
    fn obj_mut<'a>(st: &'a mut State, id: u64) -> R<&'a mut Obj> {
        match st.mem.get_mut(id) {
            Some(o) => {
                if o.ro {
                    return Err("MEMERR: write to read-only object".into());
                }
                Ok(Rc::make_mut(o))
            }
            None => Err("MEMERR: write to invalid object".into()),
        }
    }
    fn store_conc_off(&mut self, st: &mut State, id: u64, off: u64, n: u64, w: u32, v: &V) -> R<()> {
        match v {
            V::I(x) => {
                let b = x.to_le_bytes();
                let o = Self::obj_mut(st, id)?;
                if n <= 8 {
                    o.set_conc(off as usize, &b[..n as usize]);
                } else {
                    let mut l = b.to_vec();
                    l.resize(n as usize, 0);
                    o.set_conc(off as usize, &l);
                }
            }
            V::W(x) => {
                let b = w128(x).to_le_bytes();
                let o = Self::obj_mut(st, id)?;
                o.set_conc(off as usize, &b[..n as usize]);
            }
            V::T(t) => {
                let mut t = *t;
                if w < n as u32 * 8 {
                    t = self.cx.zext(t, n as u32 * 8);
                }
                let parts: Vec<T> = (0..n as u32).map(|i| self.cx.extract(t, i * 8, 8)).collect();
                let cs: Vec<Option<u64>> = parts.iter().map(|p| self.cx.cv64(*p)).collect();
                let o = Self::obj_mut(st, id)?;
                for i in 0..n as usize {
                    match cs[i] {
                        Some(c) => o.set_conc(off as usize + i, &[c as u8]),
                        None => o.set_sym(off as usize + i, parts[i]),
                    }
                }
            }
            V::A(_) => {
                let t = self.tt(v, w);
                let x = self.ft(t);
                return self.store_conc_off(st, id, off, n, w, &x);
            }
        }
        Ok(())
    }
    fn store(&mut self, st: &mut State, ty: &Ty, v: &V, p: &V) -> R<()> {
        match ty {
            Ty::Struct(f, _) => {
                let l = if let V::A(l) = v { l.clone() } else { endpath!("UNSUPPORTED: store struct") };
                for i in 0..f.len() {
                    let (o, t) = ty.field(i as u64);
                    let q = self.padd(p, o as i64);
                    self.store(st, &t, &l[i], &q)?;
                }
                Ok(())
            }
            Ty::Arr(_, e) | Ty::Vec(_, e) if !(matches!(ty, Ty::Vec(..)) && e.bits() % 8 != 0) => {
                let l = if let V::A(l) = v { l.clone() } else { endpath!("UNSUPPORTED: store arr") };
                for (i, x) in l.iter().enumerate() {
                    let q = self.padd(p, (i as u64 * e.size()) as i64);
                    self.store(st, e, x, &q)?;
                }
                Ok(())
            }
            Ty::Vec(..) => {
                let n = ty.size();
                let t = self.tt(v, ty.bits());
                let x = self.ft(t);
                let (id, off) = self.resolve(st, p, n)?;
                let off = match off {
                    Ok(o) => o,
                    Err(t) => self.conc(st, t)?,
                };
                self.store_conc_off(st, id, off, n, ty.bits(), &x)
            }
            _ => {
                let n = ty.store_size();
                let w = ty.bits();
                let (id, off) = self.resolve(st, p, n)?;
                match off {
                    Ok(o) => self.store_conc_off(st, id, o, n, w, v),
                    Err(t) => {
                        let size = st.mem.get(id).unwrap().data.len() as u64;
                        if n == 1 && size <= 300 {
                            // byte-wise conditional update
                            let nv = self.tt(v, 8);
                            let nd = self.cx.n(t);
                            let (lo, hi) = (nd.lo.min(size - 1), nd.hi.min(size - 1));
                            for i in lo..=hi {
                                let old = self.load_conc(st, id, i, 1, 8);
                                let old = self.tt(&old, 8);
                                let k = self.cx.c64(64, i);
                                let c = self.cx.eq(t, k);
                                let x = self.cx.ite(c, nv, old);
                                let x = self.ft(x);
                                self.store_conc_off(st, id, i, 1, 8, &x)?;
                            }
                            return Ok(());
                        }
                        let o = self.conc(st, t)?;
                        self.store_conc_off(st, id, o, n, w, v)
                    }
                }
            }
        }
    }
    pub fn read_sym_bytes(&mut self, st: &mut State, p: &V, n: u64) -> R<Vec<T>> {
        if n == 0 {
            return Ok(vec![]);
        }
        let (id, off) = self.resolve(st, p, n)?;
        match off {
            Ok(o) => Ok(self.read_bytes_t(st, id, o, n)),
            Err(_) => {
                let mut v = vec![];
                for i in 0..n {
                    let q = self.padd(p, i as i64);
                    let x = self.load(st, &Ty::Int(8), &q)?;
                    v.push(self.tt(&x, 8));
                }
                Ok(v)
            }
        }
    }
    pub fn write_sym_bytes(&mut self, st: &mut State, p: &V, b: &[T]) -> R<()> {
        if b.is_empty() {
            return Ok(());
        }
        let (id, off) = self.resolve(st, p, b.len() as u64)?;
        let off = match off {
            Ok(o) => o,
            Err(t) => self.conc(st, t)?,
        };
        let cs: Vec<Option<u64>> = b.iter().map(|p| self.cx.cv64(*p)).collect();
        let o = Self::obj_mut(st, id)?;
        for (i, t) in b.iter().enumerate() {
            match cs[i] {
                Some(c) => o.set_conc(off as usize + i, &[c as u8]),
                None => o.set_sym(off as usize + i, *t),
            }
        }
        Ok(())
    }
    fn memcpy(&mut self, st: &mut State, d: &V, s: &V, n: u64) -> R<()> {
        if n == 0 {
            return Ok(());
        }
        if n > 1 << 28 {
            endpath!("MEMERR: huge memcpy {}", n);
        }
        let (sid, so) = self.resolve(st, s, n)?;
        let (did, dof) = self.resolve(st, d, n)?;
        if let (Ok(so), Ok(dof)) = (&so, &dof) {
            let (so, dof) = (*so as usize, *dof as usize);
            let n = n as usize;
            let so_ = st.mem.get(sid).unwrap();
            if so_.is_conc(so, n) {
                let tmp = so_.data[so..so + n].to_vec();
                Self::obj_mut(st, did)?.set_conc(dof, &tmp);
            } else {
                let tmp: Vec<(u8, T)> = (0..n).map(|i| so_.byte(so + i)).collect();
                let o = Self::obj_mut(st, did)?;
                for (i, (c, t)) in tmp.into_iter().enumerate() {
                    if t == NOSYM {
                        o.set_conc(dof + i, &[c]);
                    } else {
                        o.set_sym(dof + i, t);
                    }
                }
            }
            return Ok(());
        }
        // resolve destination first (may fork before any side effect)
        let dp = match dof {
            Ok(o) => V::I((did << 32) + o),
            Err(t) => {
                let o = self.conc(st, t)?;
                V::I((did << 32) + o)
            }
        };
        let b = self.read_sym_bytes(st, s, n)?;
        self.write_sym_bytes(st, &dp, &b)
    }

    // ---------- arithmetic ----------
    fn bin(&mut self, op: B, w: u32, a: &V, b: &V) -> R<V> {
        if let (V::I(x), V::I(y)) = (a, b) {
            let (x, y) = (*x, *y);
            let m = m64(w);
            let r = match op {
                B::Add => x.wrapping_add(y),
                B::Sub => x.wrapping_sub(y),
                B::Mul => x.wrapping_mul(y),
                B::And => x & y,
                B::Or => x | y,
                B::Xor => x ^ y,
                B::Shl => {
                    if y >= w as u64 {
                        0
                    } else {
                        x << y
                    }
                }
                B::LShr => {
                    if y >= w as u64 {
                        0
                    } else {
                        x >> y
                    }
                }
                B::AShr => (sx(x, w) >> y.min(w as u64 - 1).min(63)) as u64,
                B::UDiv | B::URem | B::SDiv | B::SRem => {
                    if y == 0 {
                        endpath!("UB: division by zero");
                    }
                    match op {
                        B::UDiv => x / y,
                        B::URem => x % y,
                        B::SDiv => sx(x, w).wrapping_div(sx(y, w)) as u64,
                        _ => sx(x, w).wrapping_rem(sx(y, w)) as u64,
                    }
                }
            };
            return Ok(V::I(r & m));
        }
        if let (V::W(x), V::W(y)) = (a, b) {
            let (x, y) = (w128(x), w128(y));
            let r = match op {
                B::Add => x.wrapping_add(y),
                B::Sub => x.wrapping_sub(y),
                B::Mul => x.wrapping_mul(y),
                B::And => x & y,
                B::Or => x | y,
                B::Xor => x ^ y,
                B::Shl => {
                    if y >= w as u128 {
                        0
                    } else {
                        x << y
                    }
                }
                B::LShr => {
                    if y >= w as u128 {
                        0
                    } else {
                        x >> y
                    }
                }
                B::AShr => (sx128(x, w) >> y.min(w as u128 - 1).min(127)) as u128,
                _ => {
                    if y == 0 {
                        endpath!("UB: division by zero");
                    }
                    match op {
                        B::UDiv => x / y,
                        B::URem => x % y,
                        B::SDiv => sx128(x, w).wrapping_div(sx128(y, w)) as u128,
                        _ => sx128(x, w).wrapping_rem(sx128(y, w)) as u128,
                    }
                }
            };
            return Ok(mkw(r & m128(w)));
        }
        let (x, y) = (self.tt(a, w), self.tt(b, w));
        let cx = &mut self.cx;
        let r = match op {
            B::Add => cx.add(x, y),
            B::Sub => cx.sub(x, y),
            B::Mul => cx.mul(x, y),
            B::And => cx.and(x, y),
            B::Or => cx.or(x, y),
            B::Xor => cx.xor2(x, y),
            B::Shl => cx.shift(Op::Shl, x, y),
            B::LShr => cx.shift(Op::LShr, x, y),
            B::AShr => cx.shift(Op::AShr, x, y),
            B::UDiv => cx.divop(Op::UDiv, x, y),
            B::URem => cx.divop(Op::URem, x, y),
            B::SDiv => cx.divop(Op::SDiv, x, y),
            B::SRem => cx.divop(Op::SRem, x, y),
        };
        Ok(self.ft(r))
    }
    fn icmp(&mut self, p: P, w: u32, a: &V, b: &V) -> V {
        if let (V::I(x), V::I(y)) = (a, b) {
            let (x, y) = (*x, *y);
            let (sa, sb) = (sx(x, w), sx(y, w));
            let r = match p {
                P::Eq => x == y,
                P::Ne => x != y,
                P::Ult => x < y,
                P::Ule => x <= y,
                P::Ugt => x > y,
                P::Uge => x >= y,
                P::Slt => sa < sb,
                P::Sle => sa <= sb,
                P::Sgt => sa > sb,
                P::Sge => sa >= sb,
            };
            return V::I(r as u64);
        }
        let (x, y) = (self.tt(a, w), self.tt(b, w));
        let cx = &mut self.cx;
        let r = match p {
            P::Eq => cx.eq(x, y),
            P::Ne => {
                let e = cx.eq(x, y);
                cx.not(e)
            }
            P::Ult => cx.ult(x, y),
            P::Ugt => cx.ult(y, x),
            P::Ule => {
                let e = cx.ult(y, x);
                cx.not(e)
            }
            P::Uge => {
                let e = cx.ult(x, y);
                cx.not(e)
            }
            P::Slt => cx.slt(x, y),
            P::Sgt => cx.slt(y, x),
            P::Sle => {
                let e = cx.slt(y, x);
                cx.not(e)
            }
            P::Sge => {
                let e = cx.slt(x, y);
                cx.not(e)
            }
        };
        self.ft(r)
    }
    fn cast(&mut self, st: &mut State, k: Cast, from: &Ty, to: &Ty, a: &V) -> R<V> {
        // vectors
        match (from, to) {
            (Ty::Vec(n, fe), Ty::Vec(n2, te)) if k != Cast::Bit && n == n2 => {
                let l = if let V::A(l) = a { l.clone() } else { endpath!("UNSUPPORTED vec cast") };
                let mut o = vec![];
                for e in l.iter() {
                    o.push(self.cast(st, k, fe, te, e)?);
                }
                return Ok(V::A(Rc::new(o)));
            }
            (Ty::Vec(_, _), Ty::Vec(n2, te)) => {
                let t = self.tt(a, from.bits());
                let eb = te.bits();
                let o = (0..*n2)
                    .map(|i| {
                        let x = self.cx.extract(t, i * eb, eb);
                        self.ft(x)
                    })
                    .collect();
                return Ok(V::A(Rc::new(o)));
            }
            (Ty::Vec(..), _) => {
                let t = self.tt(a, from.bits());
                return Ok(self.ft(t));
            }
            (_, Ty::Vec(n2, te)) => {
                let t = self.tt(a, from.bits());
                let eb = te.bits();
                let o = (0..*n2)
                    .map(|i| {
                        let x = self.cx.extract(t, i * eb, eb);
                        self.ft(x)
                    })
                    .collect();
                return Ok(V::A(Rc::new(o)));
            }
            _ => {}
        }
        let (fw, tw) = (w_of(from), w_of(to));
        match k {
            Cast::Bit => {
                if fw == tw {
                    Ok(a.clone())
                } else if fw > tw {
                    self.cast(st, Cast::Trunc, &Ty::Int(fw), &Ty::Int(tw), a)
                } else {
                    self.cast(st, Cast::ZExt, &Ty::Int(fw), &Ty::Int(tw), a)
                }
            }
            Cast::Trunc => match a {
                V::I(x) => Ok(V::I(x & m64(tw))),
                V::W(x) => {
                    let v = w128(x) & m128(tw);
                    Ok(if tw <= 64 { V::I(v as u64) } else { mkw(v) })
                }
                _ => {
                    let t = self.tt(a, fw);
                    let r = self.cx.extract(t, 0, tw);
                    Ok(self.ft(r))
                }
            },
            Cast::ZExt => match a {
                V::I(x) if tw <= 64 => Ok(V::I(*x)),
                V::I(x) if tw <= 128 => Ok(V::W([*x, 0])),
                V::W(x) if tw <= 128 => Ok(V::W(*x)),
                _ => {
                    let t = self.tt(a, fw);
                    let r = self.cx.zext(t, tw);
                    Ok(self.ft(r))
                }
            },
            Cast::SExt => match a {
                V::I(x) if tw <= 64 => Ok(V::I(sx(*x, fw) as u64 & m64(tw))),
                V::I(x) if tw <= 128 => Ok(mkw((sx(*x, fw) as i128 as u128) & m128(tw))),
                _ => {
                    let t = self.tt(a, fw);
                    let r = self.cx.sext(t, tw);
                    Ok(self.ft(r))
                }
            },
            _ => {
                let x = self.concv(st, a)?;
                let getf = |x: u64, t: &Ty| if *t == Ty::F32 { f32::from_bits(x as u32) as f64 } else { f64::from_bits(x) };
                let putf = |v: f64, t: &Ty| if *t == Ty::F32 { (v as f32).to_bits() as u64 } else { v.to_bits() };
                Ok(V::I(match k {
                    Cast::FpToUi => (getf(x, from) as u64) & m64(tw),
                    Cast::FpToSi => (getf(x, from) as i64 as u64) & m64(tw),
                    Cast::UiToFp => {
                        if *to == Ty::F32 {
                            (x as f32).to_bits() as u64
                        } else {
                            (x as f64).to_bits()
                        }
                    }
                    Cast::SiToFp => {
                        let s = sx(x, fw);
                        if *to == Ty::F32 {
                            (s as f32).to_bits() as u64
                        } else {
                            (s as f64).to_bits()
                        }
                    }
                    Cast::FpExt | Cast::FpTrunc => putf(getf(x, from), to),
                    _ => unreachable!(),
                }))
            }
        }
    }
    fn select(&mut self, c: &V, a: &V, b: &V, ty: &Ty) -> R<V> {
        match c {
            V::I(x) => Ok(if *x & 1 == 1 { a.clone() } else { b.clone() }),
            V::T(t) => {
                let t = *t;
                self.ite_v(t, a, b, ty)
            }
            _ => Err("UNSUPPORTED select".into()),
        }
    }
    fn ite_v(&mut self, c: T, a: &V, b: &V, ty: &Ty) -> R<V> {
        match ty {
            Ty::Struct(..) | Ty::Arr(..) | Ty::Vec(..) => {
                let (x, y) = match (a, b) {
                    (V::A(x), V::A(y)) => (x.clone(), y.clone()),
                    _ => return Err("UNSUPPORTED ite agg".into()),
                };
                let mut o = vec![];
                for i in 0..x.len() {
                    let (_, t) = ty.field(i as u64);
                    o.push(self.ite_v(c, &x[i], &y[i], &t)?);
                }
                Ok(V::A(Rc::new(o)))
            }
            _ => {
                let w = ty.bits();
                let (x, y) = (self.tt(a, w), self.tt(b, w));
                let r = self.cx.ite(c, x, y);
                Ok(self.ft(r))
            }
        }
    }

    #[inline]
    fn op(&self, fr: &Frame, o: &Opd) -> V {
        match o {
            Opd::R(r) => fr.regs[*r as usize].clone(),
            Opd::K(k) => self.kvals[*k as usize].clone(),
        }
    }

    // ---------- main loop ----------
    pub fn run_entry(&mut self, entry: &str) {
        let fi = match self.md.fidx.get(entry) {
            Some(i) => *i,
            None => {
                self.incomplete.push(format!("entry {} not found", entry));
                return;
            }
        };
        let f = self.func(fi);
        let st = State {
            frames: vec![Frame { regs: vec![V::I(0); f.nregs as usize], f: f.clone(), fi, bb: 0, pc: 0, ret_d: u32::MAX, stack_base: 0 }],
            mem: Mem { globals: vec![], stack: vec![], heap: vec![], free: vec![] },
            pc: vec![],
            model: ModelBox::new(Model::default()),
            known: Rc::new(FxMap::default()),
            steps: 0,
            syms: vec![],
            panic_ok: false,
            errno: 0,
            marks: vec![],
            forks: 0,
            trace: vec![],
        };
        self.called[fi as usize] += 1;
        self.work.push(st);
        while let Some(mut st) = self.work.pop() {
            let r = self.run_state(&mut st);
            self.total_steps += st.steps;
            st.steps = 0;
            self.paths += 1;
            let (key, stack) = (r.clone(), self.stack_of(&st));
            let cat = key.split(':').next().unwrap().to_string();
            *self.ended.entry(cat.clone()).or_insert(0) += 1;
            if std::env::var("SYMEX_PATHS").is_ok() {
                eprintln!("path {} end: {}", self.paths, key);
            }
            if st.model.ghost {
                self.ghosts += 1;
                let bad = match cat.as_str() {
                    "PANIC" => !st.panic_ok,
                    "UB" | "MEMERR" | "ABORT" | "HANG" => true,
                    _ => false,
                };
                let real = if bad { self.realize(&mut st) } else { Ok(false) };
                match real {
                    Ok(true) => {}
                    Ok(false) => {
                        if !bad && !matches!(cat.as_str(), "OK" | "EXIT" | "ASSUME" | "PANIC") && self.incomplete.len() < 20 {
                            self.incomplete.push(format!("{} @ {}", key, stack.iter().take(6).cloned().collect::<Vec<_>>().join(" < ")));
                        }
                        if self.paths >= self.opts.maxpaths || self.t0.elapsed().as_secs_f64() > self.opts.max_secs {
                            self.incomplete.push("time or path limit".into());
                            break;
                        }
                        continue;
                    }
                    Err(e) => {
                        if self.incomplete.len() < 20 {
                            self.incomplete.push(format!("{}: {} @ {}", e, key, stack.iter().take(6).cloned().collect::<Vec<_>>().join(" < ")));
                        }
                        continue;
                    }
                }
            }
            match cat.as_str() {
                "OK" | "EXIT" => self.sample(&st, &cat),
                "ASSUME" => {}
                "PANIC" => {
                    if st.panic_ok {
                        self.panics_allowed += 1;
                    } else {
                        self.record_cex(&st, "panic", &key, stack);
                    }
                }
                "UB" | "MEMERR" | "ABORT" | "HANG" => self.record_cex(&st, &cat.to_lowercase(), &key, stack),
                _ => {
                    if self.incomplete.len() < 20 {
                        self.incomplete.push(format!("{} @ {}", key, stack.iter().take(6).cloned().collect::<Vec<_>>().join(" < ")));
                    }
                }
            }
            if self.cex.len() >= self.opts.max_cex {
                break;
            }
            if self.paths >= self.opts.maxpaths {
                self.incomplete.push("path limit".into());
                break;
            }
            if self.t0.elapsed().as_secs_f64() > self.opts.max_secs {
                self.incomplete.push("time limit".into());
                break;
            }
        }
    }
    pub fn stack_of(&self, st: &State) -> Vec<String> {
        st.frames.iter().rev().map(|f| crate::demangle(&f.f.name)).collect()
    }
    pub fn syms_of(&self, st: &State) -> Vec<(String, Vec<u8>)> {
        let mut c = st.model.cache.borrow_mut();
        st.syms.iter().map(|(n, b)| (n.clone(), b.iter().map(|t| self.cx.eval(*t, &st.model.m, &mut c).lo64() as u8).collect())).collect()
    }
    /// Keep the inputs of completed paths number 1, 2, 4, 8, ... and of the first path of each outcome.
    fn sample(&mut self, st: &State, end: &str) {
        self.ok_paths += 1;
        let marks: Vec<String> = st.marks.iter().filter(|m| m.1.is_none()).map(|m| m.0.clone()).collect();
        let key = marks.join("|");
        let new = self.sample_keys.insert(key);
        if self.samples.len() >= self.opts.samples || !(new || self.ok_paths.is_power_of_two()) {
            return;
        }
        let syms = self.syms_of(st);
        let mut c = st.model.cache.borrow_mut();
        let marks = st
            .marks
            .iter()
            .map(|(n, b)| match b {
                None => format!("R:{}", n),
                Some(v) => format!("E:{}", v.iter().map(|t| format!("{:02x}", self.cx.eval(*t, &st.model.m, &mut c).lo64() as u8)).collect::<String>()),
            })
            .collect();
        self.samples.push(Sample { end: end.into(), syms, marks });
    }
    fn record_cex(&mut self, st: &State, kind: &str, msg: &str, stack: Vec<String>) {
        let key = format!("{}|{}|{}", kind, msg, stack.iter().take(3).cloned().collect::<Vec<_>>().join("<"));
        if !self.cex_keys.insert(key) {
            return;
        }
        let syms = self.syms_of(st);
        self.cex.push(Cex { kind: kind.into(), msg: msg.into(), syms, stack });
    }

    fn run_state(&mut self, st: &mut State) -> String {
        loop {
            if st.steps & 0xfff == 0 {
                if self.t0.elapsed().as_secs_f64() > self.opts.max_secs {
                    return "TIME: time limit".into();
                }
            }
            if st.steps > self.opts.max_steps {
                return "HANG: step limit exceeded (possible non-termination)".into();
            }
            st.steps += 1;
            match self.step(st) {
                Ok(Step::Cont) => {}
                Ok(Step::End(s)) => return s,
                Err(s) => return s,
            }
        }
    }

    fn goto(&mut self, st: &mut State, to: u32) {
        let fr = st.frames.last_mut().unwrap();
        let from = fr.bb;
        let f = fr.f.clone();
        let b = &f.blocks[to as usize];
        if !b.phis.is_empty() {
            if b.phis.len() == 1 {
                let ph = &b.phis[0];
                for (l, o) in &ph.inc {
                    if *l == from {
                        let v = match o {
                            Opd::R(r) => fr.regs[*r as usize].clone(),
                            Opd::K(k) => self.kvals[*k as usize].clone(),
                        };
                        fr.regs[ph.d as usize] = v;
                        break;
                    }
                }
            } else {
                let mut vals = Vec::with_capacity(b.phis.len());
                for ph in &b.phis {
                    for (l, o) in &ph.inc {
                        if *l == from {
                            vals.push(match o {
                                Opd::R(r) => fr.regs[*r as usize].clone(),
                                Opd::K(k) => self.kvals[*k as usize].clone(),
                            });
                            break;
                        }
                    }
                }
                for (ph, v) in b.phis.iter().zip(vals) {
                    fr.regs[ph.d as usize] = v;
                }
            }
        }
        fr.bb = to;
        fr.pc = 0;
    }

    fn is_pure_block(&mut self, fi: u32, f: &Func, b: u32) -> bool {
        if let Some(v) = self.purecache.get(&(fi, b)) {
            return *v;
        }
        let bl = &f.blocks[b as usize];
        let r = bl.npred == 1
            && bl.phis.is_empty()
            && bl.ins.len() <= 24
            && bl.ins.iter().all(|i| match i {
                I::Bin { op, .. } => !matches!(op, B::UDiv | B::SDiv | B::URem | B::SRem),
                I::Icmp { .. } | I::Select { .. } | I::Gep { .. } | I::ExtractValue { .. } | I::InsertValue { .. } | I::Copy { .. } => true,
                I::Cast { k, .. } => matches!(k, Cast::Trunc | Cast::ZExt | Cast::SExt | Cast::Bit),
                I::Call { c: Callee::F(g), .. } => {
                    let n = &self.md.fdefs[*g as usize].0;
                    n.starts_with("llvm.fsh") || n.starts_with("llvm.umin") || n.starts_with("llvm.umax") || n.starts_with("llvm.bswap") || n.starts_with("llvm.bitreverse") || n.starts_with("llvm.experimental.noalias")
                }
                _ => false,
            })
            && matches!(bl.term, Term::Br(_));
        self.purecache.insert((fi, b), r);
        r
    }
    /// Evaluate a branch on a symbolic condition without forking when both arms are pure.
    fn try_ifconv(&mut self, st: &mut State, c: T, tb: u32, eb: u32) -> R<bool> {
        let (fi, f, from) = {
            let fr = st.frames.last().unwrap();
            (fr.fi, fr.f.clone(), fr.bb)
        };
        let target = |b: u32| match &f.blocks[b as usize].term {
            Term::Br(j) => *j,
            _ => u32::MAX,
        };
        let tp = self.is_pure_block(fi, &f, tb);
        let ep = self.is_pure_block(fi, &f, eb);
        let (j, t_from, e_from, run_t, run_e) = if tp && target(tb) == eb {
            (eb, tb, from, true, false)
        } else if ep && target(eb) == tb {
            (tb, from, eb, false, true)
        } else if tp && ep && target(tb) == target(eb) {
            (target(tb), tb, eb, true, true)
        } else {
            return Ok(false);
        };
        let jb = &f.blocks[j as usize];
        if jb.phis.iter().any(|p| p.ty == Ty::Ptr) {
            return Ok(false);
        }
        for (run, b) in [(run_t, tb), (run_e, eb)] {
            if run {
                for i in 0..f.blocks[b as usize].ins.len() {
                    let ins = &f.blocks[b as usize].ins[i];
                    self.exec_ins(st, ins)?;
                }
            }
        }
        let mut vals = vec![];
        for ph in &jb.phis {
            let mut a = None;
            let mut b = None;
            for (l, o) in &ph.inc {
                let fr = st.frames.last().unwrap();
                if *l == t_from && a.is_none() {
                    a = Some(self.op(fr, o));
                }
                if *l == e_from && b.is_none() {
                    b = Some(self.op(fr, o));
                }
            }
            let (a, b) = (a.unwrap(), b.unwrap());
            vals.push(self.ite_v(c, &a, &b, &ph.ty)?);
        }
        let fr = st.frames.last_mut().unwrap();
        for (ph, v) in jb.phis.iter().zip(vals) {
            fr.regs[ph.d as usize] = v;
        }
        fr.bb = j;
        fr.pc = 0;
        self.ifconverted += 1;
        Ok(true)
    }

    /// The same for a switch whose arms are pure and meet in one block.
    fn try_switchconv(&mut self, st: &mut State, order: &[u32], conds: &HashMap<u32, T>) -> R<bool> {
        let (fi, f, from) = {
            let fr = st.frames.last().unwrap();
            (fr.fi, fr.f.clone(), fr.bb)
        };
        let target = |b: u32| match &f.blocks[b as usize].term {
            Term::Br(j) => *j,
            _ => u32::MAX,
        };
        let pure: Vec<bool> = order.iter().map(|b| self.is_pure_block(fi, &f, *b)).collect();
        let j = match order.iter().zip(&pure).find(|x| *x.1) {
            Some((b, _)) => target(*b),
            None => return Ok(false),
        };
        for (b, p) in order.iter().zip(&pure) {
            if !(*p && target(*b) == j) && *b != j {
                return Ok(false);
            }
        }
        let jb = &f.blocks[j as usize];
        if jb.phis.iter().any(|p| p.ty == Ty::Ptr) {
            return Ok(false);
        }
        let mut vals: Vec<Option<V>> = vec![None; jb.phis.len()];
        for b in order {
            if *b != j {
                for i in 0..f.blocks[*b as usize].ins.len() {
                    let ins = &f.blocks[*b as usize].ins[i];
                    self.exec_ins(st, ins)?;
                }
            }
            let src = if *b == j { from } else { *b };
            for (k, ph) in jb.phis.iter().enumerate() {
                let fr = st.frames.last().unwrap();
                let v = match ph.inc.iter().find(|x| x.0 == src) {
                    Some((_, o)) => self.op(fr, o),
                    None => return Ok(false),
                };
                vals[k] = Some(match vals[k].take() {
                    None => v,
                    Some(old) => self.ite_v(conds[b], &v, &old, &ph.ty)?,
                });
            }
        }
        let fr = st.frames.last_mut().unwrap();
        for (ph, v) in jb.phis.iter().zip(vals) {
            fr.regs[ph.d as usize] = v.unwrap();
        }
        fr.bb = j;
        fr.pc = 0;
        self.ifconverted += 1;
        Ok(true)
    }

    fn step(&mut self, st: &mut State) -> R<Step> {
        let fr = st.frames.last().unwrap();
        let f = fr.f.clone();
        let b = &f.blocks[fr.bb as usize];
        if fr.pc < b.ins.len() {
            let ins = &b.ins[fr.pc];
            match ins {
                I::Call { c, args, ret, d } => return self.call(st, c, args, ret, *d),
                _ => {
                    self.exec_ins(st, ins)?;
                    st.frames.last_mut().unwrap().pc += 1;
                    return Ok(Step::Cont);
                }
            }
        }
        match &b.term {
            Term::Br(t) => {
                self.goto(st, *t);
            }
            Term::CondBr(c, t, e) => {
                let v = self.op(st.frames.last().unwrap(), c);
                match v {
                    V::I(x) => {
                        let to = if x & 1 == 1 { *t } else { *e };
                        self.goto(st, to);
                    }
                    V::T(ct) => {
                        let fr = st.frames.last().unwrap();
                        if self.opts.trace {
                            *self.profile.entry((fr.fi, fr.bb)).or_insert(0) += 1;
                        }
                        let kn = st.known.get(&ct).copied();
                        if kn.is_none() && self.opts.ifconv && self.try_ifconv(st, ct, *t, *e)? {
                            return Ok(Step::Cont);
                        }
                        let d = self.decide(st, ct)?;
                        self.goto(st, if d { *t } else { *e });
                    }
                    _ => endpath!("UNSUPPORTED: branch"),
                }
            }
            Term::Switch(c, w, d, cases) => {
                let v = self.op(st.frames.last().unwrap(), c);
                match v {
                    V::I(x) => {
                        let mut to = *d;
                        for (k, l) in cases {
                            if k[0] & m64(*w) == x {
                                to = *l;
                                break;
                            }
                        }
                        self.goto(st, to);
                    }
                    V::T(t) => {
                        // group cases by target
                        let mut order: Vec<u32> = vec![];
                        let mut conds: HashMap<u32, T> = HashMap::new();
                        let mut any = self.cx.ff;
                        for (k, l) in cases {
                            let kt = self.cx.cbv(*w, Bv::from_limbs(*w, k));
                            let e = self.cx.eq(t, kt);
                            any = self.cx.or(any, e);
                            let prev = conds.get(l).copied();
                            match prev {
                                None => {
                                    order.push(*l);
                                    conds.insert(*l, e);
                                }
                                Some(p) => {
                                    let o = self.cx.or(p, e);
                                    conds.insert(*l, o);
                                }
                            }
                        }
                        let nd = self.cx.not(any);
                        let dc = match conds.get(d) {
                            Some(p) => {
                                let p = *p;
                                self.cx.or(p, nd)
                            }
                            None => nd,
                        };
                        if !conds.contains_key(d) {
                            order.push(*d);
                        }
                        conds.insert(*d, dc);
                        if self.opts.switchconv && self.try_switchconv(st, &order, &conds)? {
                            return Ok(Step::Cont);
                        }
                        // take the first feasible, queue the others
                        let mut feas: Vec<(u32, T, Rc<ModelBox>)> = vec![];
                        for l in order {
                            let c = conds[&l];
                            if let Some(m) = self.feasible(st, c)? {
                                feas.push((l, c, m));
                            }
                        }
                        if feas.is_empty() {
                            endpath!("INTERNAL: no feasible switch target");
                        }
                        let n = feas.len();
                        for (l, c, m) in feas.iter().skip(1) {
                            let mut o = st.clone();
                            o.model = m.clone();
                            o.forks += 1;
                            self.add_pc(&mut o, *c);
                            self.goto(&mut o, *l);
                            self.push_work(o);
                        }
                        let (l, c, m) = feas.swap_remove(0);
                        st.model = m;
                        if n > 1 {
                            self.add_pc(st, c);
                            st.forks += 1;
                        }
                        self.goto(st, l);
                    }
                    V::W(x) => {
                        let mut to = *d;
                        for (k, l) in cases {
                            if k[0] == x[0] && k[1] == x[1] {
                                to = *l;
                                break;
                            }
                        }
                        self.goto(st, to);
                    }
                    _ => endpath!("UNSUPPORTED: switch"),
                }
            }
            Term::Ret(o) => {
                let v = o.as_ref().map(|o| self.op(st.frames.last().unwrap(), o));
                let fr = st.frames.pop().unwrap();
                st.mem.stack.truncate(fr.stack_base);
                if st.frames.is_empty() {
                    return Ok(Step::End("OK".into()));
                }
                let cf = st.frames.last_mut().unwrap();
                if let Some(v) = v {
                    if fr.ret_d != u32::MAX {
                        cf.regs[fr.ret_d as usize] = v;
                    }
                }
                cf.pc += 1;
            }
            Term::Unreachable => endpath!("UB: reached unreachable"),
        }
        Ok(Step::Cont)
    }

    fn exec_ins(&mut self, st: &mut State, ins: &I) -> R<()> {
        macro_rules! o {
            ($x:expr) => {
                self.op(st.frames.last().unwrap(), $x)
            };
        }
        let (d, v) = match ins {
            I::Bin { op, w, lanes, a, b, d } => {
                let (x, y) = (o!(a), o!(b));
                if *lanes == 0 {
                    if matches!(op, B::UDiv | B::SDiv | B::URem | B::SRem) {
                        if let V::T(t) = y {
                            let z = self.cx.c64(*w, 0);
                            let e = self.cx.eq(t, z);
                            if self.decide(st, e)? {
                                endpath!("UB: division by zero");
                            }
                        }
                    }
                    (*d, self.bin(*op, *w, &x, &y)?)
                } else {
                    let (x, y) = match (&x, &y) {
                        (V::A(x), V::A(y)) => (x.clone(), y.clone()),
                        _ => endpath!("UNSUPPORTED: vector bin"),
                    };
                    let mut r = Vec::with_capacity(x.len());
                    for i in 0..x.len() {
                        r.push(self.bin(*op, *w, &x[i], &y[i])?);
                    }
                    (*d, V::A(Rc::new(r)))
                }
            }
            I::Icmp { p, w, lanes, a, b, d } => {
                let (x, y) = (o!(a), o!(b));
                if *lanes == 0 {
                    (*d, self.icmp(*p, *w, &x, &y))
                } else {
                    let (x, y) = match (&x, &y) {
                        (V::A(x), V::A(y)) => (x.clone(), y.clone()),
                        _ => endpath!("UNSUPPORTED: vector icmp"),
                    };
                    let r = (0..x.len()).map(|i| self.icmp(*p, *w, &x[i], &y[i])).collect();
                    (*d, V::A(Rc::new(r)))
                }
            }
            I::Cast { k, from, to, a, d } => {
                let x = o!(a);
                (*d, self.cast(st, *k, from, to, &x)?)
            }
            I::Select { c, a, b, ty, vc, d } => {
                let (c, x, y) = (o!(c), o!(a), o!(b));
                if *vc {
                    let (c, x, y) = match (&c, &x, &y) {
                        (V::A(c), V::A(x), V::A(y)) => (c.clone(), x.clone(), y.clone()),
                        _ => endpath!("UNSUPPORTED: vselect"),
                    };
                    let et = ty.field(0).1;
                    let mut r = vec![];
                    for i in 0..c.len() {
                        r.push(self.select(&c[i], &x[i], &y[i], &et)?);
                    }
                    (*d, V::A(Rc::new(r)))
                } else {
                    if *ty == Ty::Ptr {
                        if let V::T(t) = c {
                            // pointer choice: fork to keep pointers concrete
                            let dd = self.decide(st, t)?;
                            st.frames.last_mut().unwrap().regs[*d as usize] = if dd { x } else { y };
                            return Ok(());
                        }
                    }
                    (*d, self.select(&c, &x, &y, ty)?)
                }
            }
            I::Load { ty, p, d } => {
                let p = o!(p);
                (*d, self.load(st, ty, &p)?)
            }
            I::Store { ty, v, p } => {
                let (v, p) = (o!(v), o!(p));
                return self.store(st, ty, &v, &p);
            }
            I::Alloca { ty, n, d } => {
                let k = match n {
                    Some(n) => {
                        let v = o!(n);
                        self.concv(st, &v)?
                    }
                    None => 1,
                };
                let a = st.mem.alloc_stack((ty.size() * k) as usize);
                (*d, V::I(a))
            }
            I::Gep { base, off, idx, d } => {
                let b = o!(base);
                let mut cur = self.padd(&b, *off);
                for (o, w, sz) in idx {
                    let i = o!(o);
                    match (&cur, &i) {
                        (V::I(c), V::I(x)) => {
                            let k = sx(*x, *w) as u64;
                            cur = V::I(c.wrapping_add(k.wrapping_mul(*sz)));
                        }
                        _ => {
                            let it = self.tt(&i, *w);
                            let it = if *w < 64 { self.cx.sext(it, 64) } else { it };
                            let k = self.cx.c64(64, *sz);
                            let m = self.cx.mul(it, k);
                            let ct = self.tt(&cur, 64);
                            let r = self.cx.add(ct, m);
                            cur = self.ft(r);
                        }
                    }
                }
                (*d, cur)
            }
            I::ExtractValue { a, path, d } => {
                let mut v = o!(a);
                for p in path {
                    v = match &v {
                        V::A(l) => l[*p as usize].clone(),
                        _ => endpath!("UNSUPPORTED: extractvalue"),
                    };
                }
                (*d, v)
            }
            I::InsertValue { a, ty: _, v, path, d } => {
                let base = o!(a);
                let val = o!(v);
                fn ins(b: &V, path: &[u32], v: V) -> V {
                    if path.is_empty() {
                        return v;
                    }
                    if let V::A(l) = b {
                        let mut l2 = (**l).clone();
                        l2[path[0] as usize] = ins(&l[path[0] as usize], &path[1..], v);
                        V::A(Rc::new(l2))
                    } else {
                        panic!("insertvalue")
                    }
                }
                (*d, ins(&base, path, val))
            }
            I::ExtractElement { a, i, d } => {
                let (a, i) = (o!(a), o!(i));
                let k = self.concv(st, &i)?;
                match a {
                    V::A(l) => (*d, l[k as usize].clone()),
                    _ => endpath!("UNSUPPORTED: extractelement"),
                }
            }
            I::InsertElement { a, v, i, n: _, d } => {
                let (a, v, i) = (o!(a), o!(v), o!(i));
                let k = self.concv(st, &i)?;
                match a {
                    V::A(l) => {
                        let mut l2 = (*l).clone();
                        l2[k as usize] = v;
                        (*d, V::A(Rc::new(l2)))
                    }
                    _ => endpath!("UNSUPPORTED: insertelement"),
                }
            }
            I::Shuffle { a, b, n, mask, d } => {
                let (a, b) = (o!(a), o!(b));
                match (a, b) {
                    (V::A(x), V::A(y)) => {
                        let r = mask
                            .iter()
                            .map(|m| {
                                if *m < 0 {
                                    V::I(0)
                                } else if (*m as u32) < *n {
                                    x[*m as usize].clone()
                                } else {
                                    y[*m as usize - *n as usize].clone()
                                }
                            })
                            .collect();
                        (*d, V::A(Rc::new(r)))
                    }
                    _ => endpath!("UNSUPPORTED: shuffle"),
                }
            }
            I::Rmw { op, ty, p, v, d } => {
                let (p, v) = (o!(p), o!(v));
                let old = self.load(st, ty, &p)?;
                let w = ty.bits();
                let new = match op {
                    0 => v,
                    1 => self.bin(B::Add, w, &old, &v)?,
                    2 => self.bin(B::Sub, w, &old, &v)?,
                    3 => self.bin(B::And, w, &old, &v)?,
                    4 => self.bin(B::Or, w, &old, &v)?,
                    5 => self.bin(B::Xor, w, &old, &v)?,
                    k => {
                        let c = self.icmp(if *k == 6 { P::Ugt } else { P::Ult }, w, &old, &v);
                        self.select(&c, &old, &v, ty)?
                    }
                };
                self.store(st, ty, &new, &p)?;
                (*d, old)
            }
            I::CmpXchg { ty, p, c, n, d } => {
                let (p, c, n) = (o!(p), o!(c), o!(n));
                let old = self.load(st, ty, &p)?;
                let e = self.icmp(P::Eq, ty.bits(), &old, &c);
                let eq = match e {
                    V::I(x) => x == 1,
                    V::T(t) => self.decide(st, t)?,
                    _ => false,
                };
                if eq {
                    self.store(st, ty, &n, &p)?;
                }
                (*d, V::A(Rc::new(vec![old, V::I(eq as u64)])))
            }
            I::Copy { a, d } => (*d, o!(a)),
            I::FBin { op, dbl, a, b, d } => {
                let (a, b) = (o!(a), o!(b));
                let (x, y) = (self.concv(st, &a)?, self.concv(st, &b)?);
                let r = if *dbl {
                    let (x, y) = (f64::from_bits(x), f64::from_bits(y));
                    match op {
                        b'a' => x + y,
                        b's' => x - y,
                        b'm' => x * y,
                        b'd' => x / y,
                        b'r' => x % y,
                        _ => -x,
                    }
                    .to_bits()
                } else {
                    let (x, y) = (f32::from_bits(x as u32), f32::from_bits(y as u32));
                    match op {
                        b'a' => x + y,
                        b's' => x - y,
                        b'm' => x * y,
                        b'd' => x / y,
                        b'r' => x % y,
                        _ => -x,
                    }
                    .to_bits() as u64
                };
                (*d, V::I(r))
            }
            I::FCmp { pred, dbl, a, b, d } => {
                let (a, b) = (o!(a), o!(b));
                let (x, y) = (self.concv(st, &a)?, self.concv(st, &b)?);
                let (x, y) = if *dbl { (f64::from_bits(x), f64::from_bits(y)) } else { (f32::from_bits(x as u32) as f64, f32::from_bits(y as u32) as f64) };
                let u = x.is_nan() || y.is_nan();
                let r = match pred {
                    1 => x == y,
                    2 => x > y,
                    3 => x >= y,
                    4 => x < y,
                    5 => x <= y,
                    6 => x != y && !u,
                    7 => !u,
                    8 => u,
                    9 => u || x == y,
                    10 => u || x > y,
                    11 => u || x >= y,
                    12 => u || x < y,
                    13 => u || x <= y,
                    _ => u || x != y,
                };
                (*d, V::I(r as u64))
            }
            I::Fence => return Ok(()),
            I::Landing => endpath!("UNSUPPORTED: landingpad reached"),
            I::Call { c, args, ret, d } => {
                // only from if-conversion with pure intrinsics
                if let Callee::F(fi) = c {
                    let av: Vec<V> = args.iter().map(|a| self.op(st.frames.last().unwrap(), &a.1)).collect();
                    let name = self.md.fdefs[*fi as usize].0.clone();
                    let r = self.intrinsic(st, &name, args, &av, ret)?;
                    if let (Some(v), true) = (r, *d != u32::MAX) {
                        st.frames.last_mut().unwrap().regs[*d as usize] = v;
                    }
                    return Ok(());
                }
                endpath!("UNSUPPORTED: call in pure block")
            }
        };
        st.frames.last_mut().unwrap().regs[d as usize] = v;
        Ok(())
    }

    fn call(&mut self, st: &mut State, c: &Callee, args: &[(Ty, Opd)], ret: &Ty, d: u32) -> R<Step> {
        let fi = match c {
            Callee::F(i) => *i,
            Callee::Asm => {
                st.frames.last_mut().unwrap().pc += 1;
                return Ok(Step::Cont);
            }
            Callee::Opd(o) => {
                let v = self.op(st.frames.last().unwrap(), o);
                let a = match v {
                    V::I(a) => a,
                    V::T(t) => self.conc(st, t)?,
                    _ => endpath!("UNSUPPORTED: call target"),
                };
                let id = a >> 32;
                if id >= FBASE && id < SBASE && a & 0xffff_ffff == 0 {
                    (id - FBASE) as u32
                } else {
                    endpath!("MEMERR: indirect call to {:#x}", a)
                }
            }
        };
        let av: Vec<V> = args.iter().map(|a| self.op(st.frames.last().unwrap(), &a.1)).collect();
        match self.hook(fi) {
            Hook::Panic => {
                let loc = self.panic_loc(st, &av);
                let n = crate::demangle(&self.md.fdefs[fi as usize].0);
                return Ok(Step::End(format!("PANIC: {} at {}", n, loc)));
            }
            Hook::Intrinsic => {
                let name = self.md.fdefs[fi as usize].0.clone();
                self.called[fi as usize] += 1;
                let r = self.intrinsic(st, &name, args, &av, ret)?;
                let fr = st.frames.last_mut().unwrap();
                if let (Some(v), true) = (r, d != u32::MAX) {
                    fr.regs[d as usize] = v;
                }
                fr.pc += 1;
                return Ok(Step::Cont);
            }
            _ => {}
        }
        self.called[fi as usize] += 1;
        let f = self.func(fi);
        if st.frames.len() > 400 {
            endpath!("HANG: recursion depth");
        }
        let mut regs = vec![V::I(0); f.nregs as usize];
        for (p, v) in f.params.iter().zip(av) {
            regs[*p as usize] = v;
        }
        let sb = st.mem.stack.len();
        st.frames.push(Frame { f, fi, bb: 0, pc: 0, regs, ret_d: d, stack_base: sb });
        Ok(Step::Cont)
    }
    fn panic_loc(&mut self, st: &mut State, av: &[V]) -> String {
        for a in av.iter().rev() {
            if let V::I(p) = a {
                let id = p >> 32;
                if id >= GBASE && id < FBASE {
                    if let Some(sz) = self.obj_size(st, id) {
                        let off = p & 0xffff_ffff;
                        if off + 24 <= sz {
                            let rd = |s: &State, o: u64, n: u64| -> u64 {
                                let ob = s.mem.get(id).unwrap();
                                (0..n).rev().fold(0u64, |a, i| (a << 8) | ob.data[(o + i) as usize] as u64)
                            };
                            let (fp, fl, line, col) = (rd(st, off, 8), rd(st, off + 8, 8), rd(st, off + 16, 4), rd(st, off + 20, 4));
                            let fid = fp >> 32;
                            if fid >= GBASE && fid < FBASE && fl < 400 {
                                if self.obj_size(st, fid).is_some() {
                                    let ob = st.mem.get(fid).unwrap();
                                    let fo = (fp & 0xffff_ffff) as usize;
                                    if fo + fl as usize <= ob.data.len() {
                                        let s = String::from_utf8_lossy(&ob.data[fo..fo + fl as usize]).to_string();
                                        if s.ends_with(".rs") {
                                            return format!("{}:{}:{}", s, line, col);
                                        }
                                    }
                                }
                            }
                        }
                    }
                }
            }
        }
        "?".into()
    }

    pub fn rstr(&mut self, st: &mut State, p: &V, n: &V) -> R<String> {
        let n = self.concv(st, n)?;
        let b = self.read_sym_bytes(st, p, n)?;
        Ok(b.iter().map(|t| self.cx.cv64(*t).unwrap_or(63) as u8 as char).collect())
    }

    /// Is pc && nc satisfiable? For large conditions: sweeping, then the abstraction, then the full query.
    fn refute(&mut self, st: &mut State, nc: T, slice: &[T]) -> R<Option<Rc<ModelBox>>> {
        // cheap first: what is left after cutting out the long arithmetic may be small
        let arith = crate::sweep::Sweeper::topo(&self.cx, &[nc]).iter().any(|t| matches!(self.cx.op(*t), Op::Mul | Op::URem | Op::UDiv | Op::SRem | Op::SDiv) && self.cx.w(*t) >= 24);
        if arith && self.hcut(nc) != nc {
            let mut parts = vec![nc];
            parts.extend_from_slice(slice);
            let h = self.hcut_all(&parts);
            if crate::sweep::Sweeper::topo(&self.cx, &h).len() < 1500 && self.quick_check(&h) == Res::Unsat {
                return Ok(None);
            }
        }
        let mut sw = std::mem::replace(&mut self.sweeper, crate::sweep::Sweeper::new());
        let mut n2 = sw.reduce(&mut self.cx, &mut self.sv, &st.pc, nc, self.t0, self.opts.max_secs);
        if !self.cx.is_const(n2) && !slice.is_empty() && !slice.contains(&nc) {
            let mut parts = vec![n2];
            for p in slice {
                let x = sw.reduce(&mut self.cx, &mut self.sv, &st.pc, *p, self.t0, self.opts.max_secs);
                parts.push(x);
            }
            let all = parts.iter().fold(self.cx.tt, |a, b| self.cx.and(a, *b));
            n2 = if self.cx.is_const(all) {
                all
            } else {
                let h = self.hcut_all(&parts);
                match self.quick_check(&h) {
                    Res::Unsat => self.cx.ff,
                    _ => n2,
                }
            };
        } else if !self.cx.is_const(n2) && self.hcut(n2) != n2 {
            let h = self.hcut_all(&[n2]);
            if self.quick_check(&h) == Res::Unsat {
                n2 = self.cx.ff;
            }
        }
        self.sweeper = sw;
        if self.cx.cv(n2).map_or(false, |v| v.is_zero()) {
            return Ok(None);
        }
        if let Some(m) = self.random_model(st, nc, 20) {
            return Ok(Some(m));
        }
        let mut q = slice.to_vec();
        q.push(n2);
        match self.sv.check(&self.cx, &q, true) {
            Res::Unsat => Ok(None),
            Res::Sat(v) => {
                if st.model.ghost {
                    let m = self.with_vals(st, v, true);
                    let saved = std::mem::replace(&mut st.model, m);
                    st.pc.push(nc);
                    let r = self.realize(st);
                    st.pc.pop();
                    let m = std::mem::replace(&mut st.model, saved);
                    return Ok(if r? { Some(m) } else { None });
                }
                Ok(Some(self.with_vals(st, v, false)))
            }
            Res::Unknown(e) => Err(format!("INCONCLUSIVE: solver unknown: {}", e)),
        }
    }
    pub fn assert_t(&mut self, st: &mut State, c: T, msg: &str, hard: bool) -> R<()> {
        *self.asserts.entry(msg.to_string()).or_insert(0) += 1;
        self.sv.stats.assert_queries += 1;
        let nc = self.cx.not(c);
        if self.cx.is_const(c) {
            self.asserts_folded += 1;
        }
        let slice = if self.cx.is_const(c) { vec![] } else { self.slice(st, nc) };
        let mut q = slice.clone();
        q.push(nc);
        let r = if self.cx.is_const(c) {
            if self.cx.cv(c).map_or(false, |v| v.is_zero()) {
                if !self.realize(st)? {
                    return Err("EXIT: infeasible path".into());
                }
                Some(st.model.clone())
            } else {
                None
            }
        } else if !st.model.ghost && self.eval_bool(st, nc) {
            Some(st.model.clone())
        } else if hard || st.model.ghost || self.is_hard(&q) {
            self.refute(st, nc, &slice)?
        } else {
            self.feasible(st, nc)?
        };
        if self.opts.xcheck && r.is_none() && !self.cx.is_const(c) && !hard {
            let mut q = self.slice(st, nc);
            q.push(nc);
            match self.sv.xcheck(&self.cx, &q) {
                Res::Unsat => {}
                Res::Sat(_) => return Err("INTERNAL: solvers disagree".into()),
                Res::Unknown(_) => {}
            }
        }
        if let Some(m) = r {
            let saved = st.model.clone();
            st.model = m;
            let ok = !self.eval_bool(st, c);
            if !ok {
                st.model = saved;
                return Err("INTERNAL: violated assertion does not evaluate to false".into());
            }
            let stack = self.stack_of(st);
            self.record_cex(st, "assert", msg, stack);
            st.model = saved;
            // continue on the satisfying side when possible
            match self.feasible(st, c)? {
                Some(m) => {
                    st.model = m;
                    self.add_pc(st, c);
                }
                None => return Err("EXIT: assertion violated on this path".into()),
            }
        }
        Ok(())
    }
}

include!("intrin.rs");
