//! Solver-based sweeping: prove internal equalities bottom-up and merge, so that the two sides of a large
//! equality meet structurally. Every merge is an UNSAT verdict of the SMT solver (possibly over a cut, which
//! over-approximates and is therefore sound); random simulation only nominates candidates.
use crate::bv::Bv;
use crate::solver::*;
use crate::term::*;
use std::time::Instant;

pub struct Sweeper {
    cut: FxMap<T, T>,
    repr: FxMap<T, T>,
    proc_: Option<Proc>,
    flat: FxMap<T, std::rc::Rc<Flat>>,
    flat_tab: FxMap<Flat, T>,
    tables: bool,
}
type Flat = (bool, Bv, Vec<(T, Bv)>);

const NSIM: usize = 24;
/// Depths above this one mean: down to the nearest table look-ups.
const TABLES: u32 = 2000;

struct Rng(u64);
impl Rng {
    fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e3779b97f4a7c15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
        z ^ (z >> 31)
    }
}

impl Sweeper {
    pub fn new() -> Sweeper {
        Sweeper { cut: FxMap::default(), repr: FxMap::default(), proc_: None, flat: FxMap::default(), flat_tab: FxMap::default(), tables: false }
    }

    pub fn topo(cx: &Ctx, roots: &[T]) -> Vec<T> {
        let mut seen: FxSet<T> = FxSet::default();
        let mut out = vec![];
        let mut st: Vec<(T, bool)> = roots.iter().map(|r| (*r, false)).collect();
        while let Some((t, done)) = st.pop() {
            if done {
                out.push(t);
                continue;
            }
            if !seen.insert(t) {
                continue;
            }
            st.push((t, true));
            for a in cx.n(t).args.iter() {
                if !seen.contains(a) {
                    st.push((*a, false));
                }
            }
        }
        out
    }

    /// Rebuild t with nodes deeper than `depth` replaced by fresh variables.
    fn abstracted(&mut self, cx: &mut Ctx, t: T, depth: u32, memo: &mut FxMap<(T, u32), T>) -> T {
        if cx.is_const(t) || cx.op(t) == Op::Var {
            return t;
        }
        if let Some(r) = memo.get(&(t, depth)) {
            return *r;
        }
        let r = if depth == 0 || depth == TABLES || (depth > TABLES && depth != TABLES + 40 && cx.op(t) == Op::Table) {
            match self.cut.get(&t) {
                Some(v) => *v,
                None => {
                    let w = cx.w(t);
                    let v = cx.var("cut", w);
                    self.cut.insert(t, v);
                    v
                }
            }
        } else {
            let op = cx.op(t);
            // structural nodes are free
            let d = if matches!(op, Op::Concat | Op::Extract | Op::SExt) {
                depth
            } else {
                depth - 1
            };
            let args: Vec<T> = cx.n(t).args.to_vec();
            let na: Vec<T> = args.iter().map(|a| self.abstracted(cx, *a, d, memo)).collect();
            if na == args {
                t
            } else {
                cx.rebuild(t, &na)
            }
        };
        memo.insert((t, depth), r);
        r
    }

    fn prove_eq(&mut self, cx: &mut Ctx, sv: &mut Solver, a: T, b: T) -> bool {
        let depths: &[u32] = if self.tables { &[TABLES + 40, 2, 5, 10] } else { &[2, 5, 10] };
        for depth in depths.iter().copied() {
            let mut memo = FxMap::default();
            let x = self.abstracted(cx, a, depth, &mut memo);
            let y = self.abstracted(cx, b, depth, &mut memo);
            let e = cx.eq(x, y);
            if let Some(v) = cx.cv(e) {
                if v.is_one() {
                    return true;
                }
            }
            let ne = cx.not(e);
            if cx.cv(ne).map_or(false, |v| v.is_one()) {
                continue;
            }
            if self.proc_.is_none() {
                self.proc_ = Some(Proc::new("z3", 1500));
            }
            let t0 = Instant::now();
            sv.stats.sweep_queries += 1;
            sv.stats.queries += 1;
            let r = self.proc_.as_mut().unwrap().check(cx, &[ne], false);
            sv.stats.secs += t0.elapsed().as_secs_f64();
            match r {
                Res::Unsat => {
                    sv.stats.unsat += 1;
                    return true;
                }
                Res::Sat(_) => sv.stats.sat += 1,
                Res::Unknown(_) => {
                    sv.stats.unknown += 1;
                }
            }
        }
        false
    }

    fn flatten(&mut self, cx: &mut Ctx, t: T) -> Flat {
        let w = cx.w(t);
        let lin = cx.op(t) == Op::Lin;
        let op = cx.op(t);
        let args = cx.n(t).args.to_vec();
        let mut c = Bv::new(w, 0);
        let mut v: Vec<(T, Bv)> = vec![];
        let mut todo: Vec<(T, Bv)> = vec![];
        if lin {
            c = cx.cv(args[0]).unwrap().clone();
            for p in args[1..].chunks(2) {
                todo.push((p[0], cx.cv(p[1]).unwrap().clone()));
            }
        } else {
            for a in args.iter() {
                todo.push((*a, Bv::new(w, 1)));
            }
        }
        while let Some((a, k)) = todo.pop() {
            let a = *self.repr.get(&a).unwrap_or(&a);
            if let Some(x) = cx.cv(a).cloned() {
                c = if lin { crate::bv::add(w, &c, &crate::bv::mul(w, &x, &k)) } else { crate::bv::xor(w, &c, &x) };
            } else if cx.op(a) == op {
                if !self.flat.contains_key(&a) {
                    let f = self.flatten(cx, a);
                    self.flat.insert(a, std::rc::Rc::new(f));
                }
                let f = self.flat[&a].clone();
                if lin {
                    c = crate::bv::add(w, &c, &crate::bv::mul(w, &f.1, &k));
                    v.extend(f.2.iter().map(|(x, y)| (*x, crate::bv::mul(w, y, &k))));
                } else {
                    c = crate::bv::xor(w, &c, &f.1);
                    v.extend(f.2.iter().cloned());
                }
            } else if cx.op(a) == Op::Concat && cx.n(a).args.iter().any(|p| cx.cv(*p).map_or(false, |x| !x.is_zero())) {
                // the constant parts of a concatenation belong to the constant
                let ps = cx.n(a).args.to_vec();
                let (mut zs, mut cs) = (vec![], vec![]);
                for p in ps {
                    let z = cx.c64(cx.w(p), 0);
                    if cx.is_const(p) {
                        zs.push(z);
                        cs.push(p);
                    } else {
                        zs.push(p);
                        cs.push(z);
                    }
                }
                let ct = cx.concat(&cs);
                let zt = cx.concat(&zs);
                todo.push((ct, k.clone()));
                if cx.op(zt) == Op::Concat {
                    v.push((zt, k));
                } else {
                    todo.push((zt, k));
                }
            } else {
                v.push((a, k));
            }
        }
        v.sort_by_key(|x| x.0);
        let mut o: Vec<(T, Bv)> = Vec::with_capacity(v.len());
        for (t, k) in v {
            match o.last_mut() {
                Some(l) if l.0 == t => {
                    if lin {
                        l.1 = crate::bv::add(w, &l.1, &k);
                    } else {
                        o.pop();
                    }
                }
                _ => o.push((t, k)),
            }
        }
        o.retain(|x| !x.1.is_zero());
        (lin, c, o)
    }

    pub fn reduce(&mut self, cx: &mut Ctx, sv: &mut Solver, _pc: &[T], c: T, t0: Instant, max_secs: f64) -> T {
        let order = Self::topo(cx, &[c]);
        self.tables = order.iter().any(|t| cx.op(*t) == Op::Table);
        let mut rng = Rng(0x5eed);
        let nv = cx.vars.len();
        let mut models = vec![];
        for k in 0..NSIM {
            let mut m = Model::default();
            for v in 0..nv {
                let w = cx.vars[v].1;
                let l: Vec<u64> = (0..crate::bv::limbs(w)).map(|_| if k == 0 { 0 } else if k == 1 { !0 } else { rng.next() }).collect();
                m.set(v as u32, Bv::from_limbs(w, &l));
            }
            models.push(m);
        }
        let mut caches: Vec<FxMap<T, Bv>> = vec![FxMap::default(); NSIM];
        let mut sig_tab: FxMap<u64, Vec<T>> = FxMap::default();
        let mut failed = 0u32;
        for t in order {
            if self.repr.contains_key(&t) {
                continue;
            }
            if t0.elapsed().as_secs_f64() > max_secs * 0.8 {
                break;
            }
            let args: Vec<T> = cx.n(t).args.iter().map(|a| *self.repr.get(a).unwrap_or(a)).collect();
            let r = if args[..] == cx.n(t).args[..] { t } else { cx.rebuild(t, &args) };
            if cx.is_const(r) || cx.op(r) == Op::Var {
                self.repr.insert(t, r);
                continue;
            }
            if let Some(q) = self.repr.get(&r) {
                let q = *q;
                self.repr.insert(t, q);
                continue;
            }
            // sums and exclusive ors nested in different ways: compare them flattened (an algebraic identity)
            if matches!(cx.op(r), Op::Lin | Op::Xor) {
                let key = self.flatten(cx, r);
                if key.2.len() <= 4000 {
                    match self.flat_tab.get(&key) {
                        Some(q) if *q != r => {
                            let q = *q;
                            sv.stats.sweep_merges += 1;
                            self.repr.insert(t, q);
                            self.repr.insert(r, q);
                            continue;
                        }
                        Some(_) => {}
                        None => {
                            self.flat_tab.insert(key, r);
                        }
                    }
                }
            }
            if matches!(cx.op(r), Op::Extract | Op::SExt) || (cx.op(r) == Op::Concat && cx.w(r) > 64) {
                self.repr.insert(t, r);
                self.repr.insert(r, r);
                continue;
            }
            let mut h = 0xcbf29ce484222325u64 ^ cx.w(r) as u64;
            let mut first: Option<Bv> = None;
            let mut varies = false;
            for k in 0..NSIM {
                let v = cx.eval(r, &models[k], &mut caches[k]);
                match &first {
                    None => first = Some(v.clone()),
                    Some(f) => varies |= *f != v,
                }
                for l in v.sl() {
                    h = (h ^ l).wrapping_mul(0x100000001b3).rotate_left(23);
                }
            }
            let two = cx.op(r) == Op::Ite && cx.is_const(cx.n(r).args[1]) && cx.is_const(cx.n(r).args[2]);
            if !varies || cx.w(r) == 1 || two {
                // rare events look constant: not worth nominating
                self.repr.insert(t, r);
                self.repr.insert(r, r);
                continue;
            }
            let mut rep = r;
            if let Some(l) = sig_tab.get(&h).cloned() {
                let mut tries = 0;
                for cand in l {
                    if cand == r {
                        break;
                    }
                    tries += 1;
                    if tries > 3 {
                        break;
                    }
                    if self.prove_eq(cx, sv, cand, r) {
                        rep = cand;
                        sv.stats.sweep_merges += 1;
                        break;
                    } else {
                        if failed < 2 && std::env::var("SYMEX_SWEEP").is_ok() {
                            let (mut a, mut b) = (cand, r);
                            loop {
                                if cx.op(a) != cx.op(b) || cx.w(a) != cx.w(b) {
                                    break;
                                }
                                let (ga, gb): (Vec<(T, Bv)>, Vec<(T, Bv)>) = if matches!(cx.op(a), Op::Lin | Op::Xor) {
                                    (self.flatten(cx, a).2, self.flatten(cx, b).2)
                                } else {
                                    let z = Bv::new(1, 0);
                                    (cx.n(a).args.iter().map(|x| (*x, z.clone())).collect(), cx.n(b).args.iter().map(|x| (*x, z.clone())).collect())
                                };
                                let l: Vec<T> = ga.iter().filter(|x| !gb.contains(x)).map(|x| x.0).collect();
                                let m: Vec<T> = gb.iter().filter(|x| !ga.contains(x)).map(|x| x.0).collect();
                                eprintln!("  {:?} {} args, {} {} differ", cx.op(a), ga.len(), l.len(), m.len());
                                if l.len() == 1 && m.len() == 1 {
                                    a = l[0];
                                    b = m[0];
                                } else {
                                    for x in &l {
                                        eprintln!("   < {}", cx.show(*x, 3));
                                    }
                                    for x in &m {
                                        eprintln!("   > {}", cx.show(*x, 3));
                                    }
                                    break;
                                }
                            }
                            eprintln!("unproven pair ({} bits), first difference:\n  {}\n  {}", cx.w(a), cx.show(a, 3), cx.show(b, 3));
                        }
                        failed += 1;
                    }
                }
            }
            if rep == r {
                sig_tab.entry(h).or_default().push(r);
            }
            self.repr.insert(t, rep);
            self.repr.insert(r, rep);
        }
        if failed > 0 && std::env::var("SYMEX_SLOW").is_ok() {
            eprintln!("sweep: {} unproven candidate pairs, {} merges", failed, sv.stats.sweep_merges);
        }
        *self.repr.get(&c).unwrap_or(&c)
    }
}
