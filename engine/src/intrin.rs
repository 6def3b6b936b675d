// Intrinsics: LLVM builtins, the small libc surface std needs, the harness API and the big-integer model.
// (included into exec.rs)

fn ew(ty: &Ty) -> u32 {
    match ty {
        Ty::Vec(_, e) => e.bits(),
        t => t.bits(),
    }
}

impl Exec {
    fn lift(&mut self, ty: &Ty, av: &[V], f: &mut dyn FnMut(&mut Exec, &[V]) -> R<V>) -> R<V> {
        match ty {
            Ty::Vec(n, _) => {
                let mut o = vec![];
                for i in 0..*n as usize {
                    let a: Vec<V> = av
                        .iter()
                        .map(|v| match v {
                            V::A(l) => l[i].clone(),
                            x => x.clone(),
                        })
                        .collect();
                    o.push(f(self, &a)?);
                }
                Ok(V::A(Rc::new(o)))
            }
            _ => f(self, av),
        }
    }
    fn truth(&mut self, v: &V, w: u32) -> T {
        let t = self.tt(v, w);
        let z = self.cx.c64(w, 0);
        let e = self.cx.eq(t, z);
        self.cx.not(e)
    }
    fn overflow_op(&mut self, op: B, signed: bool, w: u32, a: &V, b: &V) -> R<V> {
        if let (V::I(x), V::I(y)) = (a, b) {
            if w <= 64 {
                let (r, o) = if signed {
                    let (p, q) = (sx(*x, w) as i128, sx(*y, w) as i128);
                    let r = match op {
                        B::Add => p + q,
                        B::Sub => p - q,
                        _ => p * q,
                    };
                    (r as u64 & m64(w), r != sx(r as u64 & m64(w), w) as i128)
                } else {
                    let (p, q) = (*x as u128, *y as u128);
                    let r = match op {
                        B::Add => p + q,
                        B::Sub => p.wrapping_sub(q),
                        _ => p * q,
                    };
                    (r as u64 & m64(w), r > m64(w) as u128)
                };
                return Ok(V::A(Rc::new(vec![V::I(r), V::I(o as u64)])));
            }
        }
        let (x, y) = (self.tt(a, w), self.tt(b, w));
        let cx = &mut self.cx;
        let (r, o) = match (op, signed) {
            (B::Add, false) => {
                let r = cx.add(x, y);
                // no overflow when the ranges say so
                let (hx, hy) = (cx.n(x).hi as u128, cx.n(y).hi as u128);
                let o = if w <= 64 && hx + hy <= m64(w) as u128 { cx.ff } else { cx.ult(r, x) };
                (r, o)
            }
            (B::Sub, false) => {
                let r = cx.sub(x, y);
                let o = cx.ult(x, y);
                (r, o)
            }
            (B::Mul, false) => {
                let r = cx.mul(x, y);
                let (hx, hy) = (cx.n(x).hi as u128, cx.n(y).hi as u128);
                let o = if w <= 64 && hx.checked_mul(hy).map_or(false, |p| p <= m64(w) as u128) {
                    cx.ff
                } else {
                    let (a2, b2) = (cx.zext(x, 2 * w), cx.zext(y, 2 * w));
                    let p = cx.mul(a2, b2);
                    let h = cx.extract(p, w, w);
                    let z = cx.c64(w, 0);
                    let e = cx.eq(h, z);
                    cx.not(e)
                };
                (r, o)
            }
            (_, true) => {
                let nw = if op == B::Mul { 2 * w } else { w + 1 };
                let (a2, b2) = (cx.sext(x, nw), cx.sext(y, nw));
                let p = match op {
                    B::Add => cx.add(a2, b2),
                    B::Sub => cx.sub(a2, b2),
                    _ => cx.mul(a2, b2),
                };
                let r = cx.extract(p, 0, w);
                let s = cx.sext(r, nw);
                let e = cx.eq(s, p);
                (r, cx.not(e))
            }
            _ => unreachable!(),
        };
        Ok(V::A(Rc::new(vec![self.ft(r), self.ft(o)])))
    }
    fn ctz_term(&mut self, t: T, lead: bool) -> T {
        let w = self.cx.w(t);
        let mut r = self.cx.c64(w, w as u64);
        // innermost = lowest priority
        for k in (0..w).rev() {
            let bit = if lead { w - 1 - k } else { k };
            let b = self.cx.extract(t, bit, 1);
            let kt = self.cx.c64(w, k as u64);
            r = self.cx.ite(b, kt, r);
        }
        r
    }
    fn cmp_term(&mut self, a: &[T], b: &[T]) -> T {
        // memcmp result as i32: lexicographic
        let mut r = self.cx.c64(32, 0);
        for i in (0..a.len()).rev() {
            let lt = self.cx.ult(a[i], b[i]);
            let e = self.cx.eq(a[i], b[i]);
            let m1 = self.cx.c64(32, 0xffff_ffff);
            let p1 = self.cx.c64(32, 1);
            let d = self.cx.ite(lt, m1, p1);
            r = self.cx.ite(e, r, d);
        }
        r
    }
    fn alloc_checked(&mut self, st: &mut State, n: u64) -> R<V> {
        if n > 1 << 26 {
            endpath!("HANG: allocation of {} bytes", n);
        }
        Ok(V::I(st.mem.alloc_heap(n as usize)))
    }
    fn free(&mut self, st: &mut State, p: u64) -> R<()> {
        if p == 0 {
            return Ok(());
        }
        let id = p >> 32;
        if id < HBASE || p & 0xffff_ffff != 0 {
            endpath!("MEMERR: bad free {:#x}", p);
        }
        let i = (id - HBASE) as usize;
        match st.mem.heap.get_mut(i) {
            Some(o) if o.is_some() => {
                *o = None;
                st.mem.free.push(i as u32);
                Ok(())
            }
            _ => endpath!("MEMERR: double free {:#x}", p),
        }
    }

    // ---------- big integers: handles are term ids of signed, exact-width bit-vectors ----------
    fn big_of(&mut self, st: &mut State, v: &V) -> R<T> {
        match v {
            V::I(h) => {
                if *h < 0x1000 || (*h - 0x1000) as usize >= self.cx.nodes.len() {
                    endpath!("INTERNAL: bad bigint handle {:#x}", h);
                }
                Ok((*h - 0x1000) as T)
            }
            V::T(t) => {
                let t = *t;
                let n = self.cx.n(t);
                if n.op == Op::Ite {
                    let (c, a, b) = (n.args[0], n.args[1], n.args[2]);
                    let (va, vb) = (self.ft(a), self.ft(b));
                    let (x, y) = (self.big_of(st, &va)?, self.big_of(st, &vb)?);
                    let w = self.cx.w(x).max(self.cx.w(y));
                    let (x, y) = (self.cx.sext(x, w), self.cx.sext(y, w));
                    return Ok(self.cx.ite(c, x, y));
                }
                let h = self.conc(st, t)?;
                self.big_of(st, &V::I(h))
            }
            _ => Err("INTERNAL: bigint handle".into()),
        }
    }
    /// drop redundant sign bits
    fn big_norm(&mut self, t: T) -> T {
        let w = self.cx.w(t);
        if w <= 1 {
            return t;
        }
        if let Some(v) = self.cx.cv(t) {
            let neg = v.bit(w - 1);
            let mut k = w;
            while k > 1 && v.bit(k - 2) == neg {
                k -= 1;
            }
            return self.cx.extract(t, 0, k);
        }
        let n = self.cx.n(t);
        match n.op {
            Op::SExt => {
                let i = n.args[0];
                self.big_norm(i)
            }
            Op::Concat => {
                let h = n.args[0];
                let hw = self.cx.w(h);
                if self.cx.cv(h).map_or(false, |v| v.is_zero()) {
                    // non-negative: also use the range of the rest
                    let r = self.cx.extract(t, 0, w - hw);
                    let rw = w - hw;
                    let mut keep = rw;
                    if rw <= 64 {
                        keep = (64 - self.cx.n(r).hi.leading_zeros()).max(1).min(rw);
                    }
                    let e = self.cx.extract(t, 0, keep);
                    return self.cx.zext(e, keep + 1);
                }
                if let Some(v) = self.cx.cv(h) {
                    let keep = v.bits() + w - hw;
                    if keep + 1 < w {
                        return self.cx.extract(t, 0, keep + 1);
                    }
                }
                t
            }
            _ => {
                if w <= 64 {
                    let hi = n.hi;
                    if hi <= m64(w) >> 1 {
                        let keep = (64 - hi.leading_zeros()).max(1);
                        if keep + 1 < w {
                            let e = self.cx.extract(t, 0, keep);
                            return self.cx.zext(e, keep + 1);
                        }
                    }
                }
                t
            }
        }
    }
    fn big_nonneg(&self, t: T) -> bool {
        let n = self.cx.n(t);
        let w = n.w;
        match n.op {
            Op::Const => !n.val.as_ref().unwrap().bit(w - 1),
            Op::Concat => self.cx.cv(n.args[0]).map_or(false, |v| !v.bit(self.cx.w(n.args[0]) - 1)),
            _ => w <= 64 && n.hi <= m64(w) >> 1,
        }
    }
    /// the bits of a value known to be non-negative, without the leading ones known to be zero
    fn big_mag(&mut self, t: T) -> T {
        let t = self.big_norm(t);
        let w = self.cx.w(t);
        if w > 1 && self.big_nonneg(t) {
            self.cx.extract(t, 0, w - 1)
        } else {
            t
        }
    }
    fn big_ret(&mut self, t: T) -> V {
        let t = self.big_norm(t);
        V::I(t as u64 + 0x1000)
    }
    fn vi(&mut self, st: &mut State, name: &str, av: &[V]) -> R<Option<V>> {
        let r = match name {
            "vi_from_bytes" => {
                let n = self.concv(st, &av[1])?;
                let be = self.concv(st, &av[2])?;
                let mut b = self.read_sym_bytes(st, &av[0], n)?;
                if be == 0 {
                    b.reverse();
                }
                let z = self.cx.c64(1, 0);
                let mut parts = vec![z];
                parts.extend(b);
                let t = self.cx.concat(&parts);
                self.big_ret(t)
            }
            "vi_from_u64" => {
                let t = self.tt(&av[0], 64);
                let t = self.cx.zext(t, 65);
                self.big_ret(t)
            }
            "vi_from_i64" => {
                let t = self.tt(&av[0], 64);
                self.big_ret(t)
            }
            "vi_add" | "vi_sub" => {
                let (a, b) = (self.big_of(st, &av[0])?, self.big_of(st, &av[1])?);
                let w = self.cx.w(a).max(self.cx.w(b)) + 1;
                // disjoint-bit additions of shifted bytes stay concatenations
                let (x, y) = (self.cx.sext(a, w), self.cx.sext(b, w));
                let r = if name == "vi_add" {
                    if self.big_nonneg(a) && self.big_nonneg(b) && self.disjoint(x, y) {
                        self.cx.or(x, y)
                    } else if self.big_nonneg(a) && self.big_nonneg(b) {
                        let r = self.cx.add(x, y);
                        let e = self.cx.extract(r, 0, w - 1);
                        self.cx.zext(e, w)
                    } else {
                        self.cx.add(x, y)
                    }
                } else {
                    self.cx.sub(x, y)
                };
                self.big_ret(r)
            }
            "vi_mul" => {
                let (a, b) = (self.big_of(st, &av[0])?, self.big_of(st, &av[1])?);
                if self.big_nonneg(a) && self.big_nonneg(b) {
                    // on the magnitudes, so that equal products become equal terms
                    let (a, b) = (self.big_mag(a), self.big_mag(b));
                    let w = self.cx.w(a) + self.cx.w(b);
                    let (x, y) = (self.cx.zext(a, w), self.cx.zext(b, w));
                    let r = self.cx.mul(x, y);
                    let r = self.cx.zext(r, w + 1);
                    self.big_ret(r)
                } else {
                    let w = self.cx.w(a) + self.cx.w(b);
                    let (x, y) = (self.cx.sext(a, w), self.cx.sext(b, w));
                    let r = self.cx.mul(x, y);
                    self.big_ret(r)
                }
            }
            "vi_div" | "vi_rem" => {
                let (a, b) = (self.big_of(st, &av[0])?, self.big_of(st, &av[1])?);
                let wb = self.cx.w(b);
                let z = self.cx.c64(wb, 0);
                let e = self.cx.eq(b, z);
                if self.decide(st, e)? {
                    if st.panic_ok {
                        endpath!("PANIC: bigint division by zero");
                    }
                    endpath!("PANIC: bigint division by zero at ibig");
                }
                let nn = self.big_nonneg(a) && self.big_nonneg(b);
                let (x, y, w) = if nn {
                    let (a, b) = (self.big_mag(a), self.big_mag(b));
                    let w = self.cx.w(a).max(self.cx.w(b));
                    (self.cx.zext(a, w), self.cx.zext(b, w), w + 1)
                } else {
                    let w = self.cx.w(a).max(wb) + 1;
                    (self.cx.sext(a, w), self.cx.sext(b, w), w)
                };
                let r = match (name, nn) {
                    ("vi_div", true) => self.cx.divop(Op::UDiv, x, y),
                    ("vi_div", false) => self.cx.divop(Op::SDiv, x, y),
                    ("vi_rem", true) => self.cx.divop(Op::URem, x, y),
                    _ => self.cx.divop(Op::SRem, x, y),
                };
                if name == "vi_rem" {
                    // |r| < |b| so it fits the divisor's width; if nonneg also nonneg
                    if nn {
                        let keep = wb - 1;
                        if keep == 0 {
                            let z = self.cx.c64(1, 0);
                            self.big_ret(z)
                        } else {
                            let mut k = keep;
                            if let Some(bv) = self.cx.cv(b) {
                                // r <= b-1
                                let one = Bv::new(wb, 1);
                                let bm = bv::sub(wb, bv, &one);
                                k = bm.bits().max(1).min(keep);
                            }
                            let e = if self.cx.w(r) > k { self.cx.extract(r, 0, k) } else { r };
                            let kw = self.cx.w(e);
                            let e = self.cx.zext(e, kw + 1);
                            self.big_ret(e)
                        }
                    } else {
                        let e = self.cx.extract(r, 0, wb.min(w));
                        self.big_ret(e)
                    }
                } else if nn {
                    let e = self.cx.zext(r, w);
                    self.big_ret(e)
                } else {
                    self.big_ret(r)
                }
            }
            "vi_and" | "vi_or" | "vi_xor" => {
                let (a, b) = (self.big_of(st, &av[0])?, self.big_of(st, &av[1])?);
                let w = self.cx.w(a).max(self.cx.w(b));
                let (x, y) = (self.cx.sext(a, w), self.cx.sext(b, w));
                let r = match name {
                    "vi_and" => self.cx.and(x, y),
                    "vi_or" => self.cx.or(x, y),
                    _ => self.cx.xor2(x, y),
                };
                self.big_ret(r)
            }
            "vi_neg" => {
                let a = self.big_of(st, &av[0])?;
                let w = self.cx.w(a) + 1;
                let x = self.cx.sext(a, w);
                let r = self.cx.neg(x);
                self.big_ret(r)
            }
            "vi_shl" => {
                let a = self.big_of(st, &av[0])?;
                let n = self.concv(st, &av[1])?;
                if n > 1 << 16 {
                    endpath!("UNSUPPORTED: bigint shift by {}", n);
                }
                let r = if n == 0 {
                    a
                } else {
                    let z = self.cx.c64(n as u32, 0);
                    self.cx.concat(&[a, z])
                };
                self.big_ret(r)
            }
            "vi_shr" => {
                let a = self.big_of(st, &av[0])?;
                let n = self.concv(st, &av[1])?;
                let w = self.cx.w(a);
                let r = if n >= w as u64 { self.cx.extract(a, w - 1, 1) } else { self.cx.extract(a, n as u32, w - n as u32) };
                // shrinking can lose the sign only if everything was shifted out
                self.big_ret(r)
            }
            "vi_cmp" => {
                let (a, b) = (self.big_of(st, &av[0])?, self.big_of(st, &av[1])?);
                let w = self.cx.w(a).max(self.cx.w(b));
                let (x, y) = (self.cx.sext(a, w), self.cx.sext(b, w));
                let lt = self.cx.slt(x, y);
                let e = self.cx.eq(x, y);
                let m1 = self.cx.c64(32, 0xffff_ffff);
                let z = self.cx.c64(32, 0);
                let p1 = self.cx.c64(32, 1);
                let r = self.cx.ite(e, z, p1);
                let r = self.cx.ite(lt, m1, r);
                self.ft(r)
            }
            "vi_eq" => {
                let (a, b) = (self.big_of(st, &av[0])?, self.big_of(st, &av[1])?);
                let w = self.cx.w(a).max(self.cx.w(b));
                let (x, y) = (self.cx.sext(a, w), self.cx.sext(b, w));
                let e = self.cx.eq(x, y);
                let r = self.cx.zext(e, 32);
                self.ft(r)
            }
            "vi_is_neg" => {
                let a = self.big_of(st, &av[0])?;
                if self.big_nonneg(a) {
                    V::I(0)
                } else {
                    let w = self.cx.w(a);
                    let s = self.cx.extract(a, w - 1, 1);
                    let r = self.cx.zext(s, 32);
                    self.ft(r)
                }
            }
            "vi_bytes_len" => {
                // minimal number of bytes of a non-negative value (0 for zero)
                let a = self.big_of(st, &av[0])?;
                let w = self.cx.w(a);
                let nb = (w + 7) / 8;
                let t = self.cx.sext(a, nb * 8);
                // one state per length: is the top byte zero, then the next, ...
                let mut n = nb;
                while n > 0 {
                    let b = self.cx.extract(t, (n - 1) * 8, 8);
                    let z = self.cx.c64(8, 0);
                    let e = self.cx.eq(b, z);
                    if !self.decide(st, e)? {
                        break;
                    }
                    n -= 1;
                }
                let r = self.cx.c64(64, n as u64);
                self.ft(r)
            }
            "vi_to_bytes" => {
                let a = self.big_of(st, &av[0])?;
                let n = self.concv(st, &av[2])?;
                let be = self.concv(st, &av[3])?;
                if n > 0 {
                    let w = self.cx.w(a);
                    let t = if w < n as u32 * 8 { self.cx.sext(a, n as u32 * 8) } else { a };
                    let mut b: Vec<T> = (0..n as u32).map(|i| self.cx.extract(t, i * 8, 8)).collect();
                    if be != 0 {
                        b.reverse();
                    }
                    self.write_sym_bytes(st, &av[1], &b)?;
                }
                return Ok(None);
            }
            "vi_to_u64" => {
                let a = self.big_of(st, &av[0])?;
                let w = self.cx.w(a);
                let t = if w < 64 { self.cx.sext(a, 64) } else { self.cx.extract(a, 0, 64) };
                self.ft(t)
            }
            _ => endpath!("UNSUPPORTED: {}", name),
        };
        Ok(Some(r))
    }
    fn zero_mask_parts(&self, t: T, out: &mut Vec<(u32, bool)>) {
        // (width, known-zero) from least significant
        let n = self.cx.n(t);
        match n.op {
            Op::Concat => {
                for a in n.args.iter().rev() {
                    self.zero_mask_parts(*a, out);
                }
            }
            Op::Const => {
                let v = n.val.as_ref().unwrap();
                for i in 0..n.w {
                    out.push((1, !v.bit(i)));
                }
            }
            _ => out.push((n.w, false)),
        }
    }
    fn disjoint(&self, a: T, b: T) -> bool {
        let (mut x, mut y) = (vec![], vec![]);
        self.zero_mask_parts(a, &mut x);
        self.zero_mask_parts(b, &mut y);
        let ex = |l: &Vec<(u32, bool)>| -> Vec<bool> { l.iter().flat_map(|(w, z)| std::iter::repeat(*z).take(*w as usize)).collect() };
        let (x, y) = (ex(&x), ex(&y));
        x.iter().zip(y.iter()).all(|(p, q)| *p || *q)
    }

    // ---------- dispatch ----------
    fn intrinsic(&mut self, st: &mut State, name: &str, args: &[(Ty, Opd)], av: &[V], ret: &Ty) -> R<Option<V>> {
        if let Some(n) = name.strip_prefix("llvm.") {
            return self.llvm(st, n, args, av, ret);
        }
        if name.starts_with("vi_") {
            return self.vi(st, name, av);
        }
        if name.starts_with("vh_") {
            return self.vh(st, name, av);
        }
        for u in self.opts.uf_fns.clone() {
            let (pat, spec) = match u.split_once('=') {
                Some(x) => x,
                None => continue,
            };
            if name.contains(pat) {
                let mut ins = vec![];
                let mut outs = vec![];
                for (i, s) in spec.split(',').enumerate() {
                    let n: u64 = s[1..].parse().unwrap_or(0);
                    match &s[..1] {
                        "i" => {
                            let b = self.read_sym_bytes(st, &av[i], n)?;
                            ins.extend(b);
                        }
                        "o" => outs.push((av[i].clone(), n)),
                        "v" => {
                            let t = self.tt(&av[i], args[i].0.bits());
                            ins.push(t);
                        }
                        _ => {}
                    }
                }
                let t = self.cx.concat(&ins);
                for (k, (p, n)) in outs.iter().enumerate() {
                    let r = self.cx.uf(&format!("{}_{}", pat, k), *n as u32 * 8, &[t]);
                    let b: Vec<T> = (0..*n as u32).map(|i| self.cx.extract(r, i * 8, 8)).collect();
                    self.write_sym_bytes(st, p, &b)?;
                }
                if ret.bits() > 0 {
                    let r = self.cx.uf(&format!("{}_ret", pat), ret.bits(), &[t]);
                    return Ok(Some(self.ft(r)));
                }
                return Ok(None);
            }
        }
        let z = Ok(Some(V::I(0)));
        match name {
            "malloc" => {
                let n = self.concv(st, &av[0])?;
                Ok(Some(self.alloc_checked(st, n)?))
            }
            "calloc" => {
                let n = self.concv(st, &av[0])?;
                let m = self.concv(st, &av[1])?;
                Ok(Some(self.alloc_checked(st, n.saturating_mul(m))?))
            }
            "aligned_alloc" => {
                let n = self.concv(st, &av[1])?;
                Ok(Some(self.alloc_checked(st, n)?))
            }
            "posix_memalign" => {
                let n = self.concv(st, &av[2])?;
                let p = self.alloc_checked(st, n)?;
                self.store(st, &Ty::Ptr, &p, &av[0])?;
                z
            }
            "realloc" => {
                let n = self.concv(st, &av[1])?;
                let p = self.concv(st, &av[0])?;
                let q = self.alloc_checked(st, n)?;
                if p != 0 {
                    let osz = match self.obj_size(st, p >> 32) {
                        Some(s) => s,
                        None => endpath!("MEMERR: realloc of invalid pointer"),
                    };
                    self.memcpy(st, &q, &V::I(p), osz.min(n))?;
                    self.free(st, p)?;
                }
                Ok(Some(q))
            }
            "free" => {
                let p = self.concv(st, &av[0])?;
                self.free(st, p)?;
                Ok(None)
            }
            "memcpy" | "memmove" => {
                let n = self.concv(st, &av[2])?;
                self.memcpy(st, &av[0], &av[1], n)?;
                Ok(Some(av[0].clone()))
            }
            "memset" => {
                let n = self.concv(st, &av[2])?;
                self.memset(st, &av[0], &av[1], args[1].0.bits(), n)?;
                Ok(Some(av[0].clone()))
            }
            "memcmp" | "bcmp" => {
                let n = self.concv(st, &av[2])?;
                let a = self.read_sym_bytes(st, &av[0], n)?;
                let b = self.read_sym_bytes(st, &av[1], n)?;
                let r = if name == "bcmp" {
                    if a.is_empty() {
                        self.cx.c64(32, 0)
                    } else {
                        let (x, y) = (self.cx.concat(&a), self.cx.concat(&b));
                        let e = self.cx.eq(x, y);
                        let ne = self.cx.not(e);
                        self.cx.zext(ne, 32)
                    }
                } else {
                    self.cmp_term(&a, &b)
                };
                Ok(Some(self.ft(r)))
            }
            "strlen" => {
                let mut n = 0u64;
                loop {
                    let q = self.padd(&av[0], n as i64);
                    let b = self.load(st, &Ty::Int(8), &q)?;
                    let b = self.concv(st, &b)?;
                    if b == 0 {
                        return Ok(Some(V::I(n)));
                    }
                    n += 1;
                }
            }
            "memchr" | "memrchr" => {
                let n = self.concv(st, &av[2])?;
                let c = self.tt(&av[1], args[1].0.bits());
                let c = self.cx.extract(c, 0, 8);
                let b = self.read_sym_bytes(st, &av[0], n)?;
                let it: Vec<usize> = if name == "memchr" { (0..b.len()).collect() } else { (0..b.len()).rev().collect() };
                for i in it {
                    let e = self.cx.eq(b[i], c);
                    if self.decide(st, e)? {
                        return Ok(Some(self.padd(&av[0], i as i64)));
                    }
                }
                z
            }
            "__errno_location" => {
                if st.errno == 0 {
                    st.errno = st.mem.alloc_heap(8);
                }
                Ok(Some(V::I(st.errno)))
            }
            "write" => {
                if let V::I(n) = av[2] {
                    if std::env::var("SYMEX_STDOUT").is_ok() {
                        let b = self.read_sym_bytes(st, &av[1], n)?;
                        let s: String = b.iter().map(|t| self.cx.cv64(*t).unwrap_or(63) as u8 as char).collect();
                        eprint!("{}", s);
                    }
                }
                Ok(Some(av[2].clone()))
            }
            "writev" => endpath!("UNSUPPORTED: writev"),
            "getenv" | "pthread_self" => z,
            "abort" => endpath!("ABORT: abort()"),
            "exit" | "_exit" => endpath!("EXIT: exit()"),
            "getrandom" => {
                let n = self.concv(st, &av[1])?;
                for i in 0..n {
                    let q = self.padd(&av[0], i as i64);
                    self.store(st, &Ty::Int(8), &V::I(0x5a ^ (i & 0xff)), &q)?;
                }
                Ok(Some(V::I(n)))
            }
            "sysconf" => Ok(Some(V::I(4096))),
            "gettid" | "getpid" => Ok(Some(V::I(42))),
            "clock_gettime" => {
                self.store(st, &Ty::Int(64), &V::I(1_700_000_000), &av[1])?;
                let q = self.padd(&av[1], 8);
                self.store(st, &Ty::Int(64), &V::I(0), &q)?;
                z
            }
            "sched_yield" | "__cxa_thread_atexit_impl" | "signal" | "sigaction" | "poll" | "sigaltstack" | "munmap" | "mprotect" => z,
            "rust_eh_personality" => z,
            n if n.starts_with("pthread_") => z,
            _ => endpath!("UNSUPPORTED: external function {}", crate::demangle(name)),
        }
    }
    fn memset(&mut self, st: &mut State, p: &V, c: &V, w: u32, n: u64) -> R<()> {
        if n == 0 {
            return Ok(());
        }
        match c {
            V::I(x) => {
                let (id, off) = self.resolve(st, p, n)?;
                let off = match off {
                    Ok(o) => o,
                    Err(t) => self.conc(st, t)?,
                };
                let b = vec![*x as u8; n as usize];
                Self::obj_mut(st, id)?.set_conc(off as usize, &b);
                Ok(())
            }
            _ => {
                let t = self.tt(c, w);
                let t = self.cx.extract(t, 0, 8);
                let b = vec![t; n as usize];
                self.write_sym_bytes(st, p, &b)
            }
        }
    }

    fn vh(&mut self, st: &mut State, name: &str, av: &[V]) -> R<Option<V>> {
        match name {
            "vh_sym" => {
                let n = self.concv(st, &av[1])?;
                let nm = self.rstr(st, &av[2], &av[3])?;
                let k = st.syms.iter().filter(|s| s.0 == nm).count();
                let full = if k == 0 { nm.clone() } else { format!("{}#{}", nm, k) };
                let mut b = vec![];
                for i in 0..n as usize {
                    let key = (full.clone(), i);
                    let t = match self.symid.get(&key) {
                        Some(t) => *t,
                        None => {
                            let t = self.cx.var(&format!("{}[{}]", full, i), 8);
                            self.symid.insert(key, t);
                            t
                        }
                    };
                    b.push(t);
                }
                self.write_sym_bytes(st, &av[0], &b)?;
                st.syms.push((nm, b));
                Ok(None)
            }
            "vh_assume" => {
                let c = self.truth(&av[0], 32);
                match self.feasible(st, c)? {
                    None => endpath!("ASSUME: infeasible assumption"),
                    Some(m) => {
                        st.model = m;
                        self.add_pc(st, c);
                        if !self.cx.is_const(c) {
                            Rc::make_mut(&mut st.known).insert(c, 1);
                        }
                    }
                }
                Ok(None)
            }
            "vh_assert" => {
                let c = self.truth(&av[0], 32);
                let m = self.rstr(st, &av[1], &av[2])?;
                self.assert_t(st, c, &m, false)?;
                Ok(None)
            }
            "vh_eq" => {
                let n = self.concv(st, &av[2])?;
                let m = self.rstr(st, &av[3], &av[4])?;
                let a = self.read_sym_bytes(st, &av[0], n)?;
                let b = self.read_sym_bytes(st, &av[1], n)?;
                let mut c = self.cx.tt;
                for i in 0..a.len() {
                    let e = self.cx.eq(a[i], b[i]);
                    c = self.cx.and(c, e);
                }
                self.assert_t(st, c, &m, true)?;
                Ok(None)
            }
            "vh_reach" => {
                let m = self.rstr(st, &av[0], &av[1])?;
                *self.reached.entry(m.clone()).or_insert(0) += 1;
                st.marks.push((m, None));
                Ok(None)
            }
            "vh_param" => {
                let i = self.concv(st, &av[0])?;
                Ok(Some(V::I(self.opts.params.get(i as usize).copied().unwrap_or(0))))
            }
            "vh_conc" => {
                let v = self.concv(st, &av[0])?;
                Ok(Some(V::I(v)))
            }
            "vh_is_sym" => Ok(Some(V::I(1))),
            "vh_panic_mode" => {
                let v = self.concv(st, &av[0])?;
                st.panic_ok = v != 0;
                Ok(None)
            }
            "vh_abort_path" => Err("EXIT: path ended by harness".into()),
            "vh_emit" => {
                let n = self.concv(st, &av[1])?;
                let b = self.read_sym_bytes(st, &av[0], n)?;
                st.marks.push((String::new(), Some(std::rc::Rc::new(b))));
                Ok(None)
            }
            "vh_uf" => {
                let nm = self.rstr(st, &av[0], &av[1])?;
                let n = self.concv(st, &av[3])?;
                let m = self.concv(st, &av[5])?;
                let b = self.read_sym_bytes(st, &av[2], n)?;
                let t = self.cx.concat(&b);
                let r = self.cx.uf(&nm, m as u32 * 8, &[t]);
                let o: Vec<T> = (0..m as u32).map(|i| self.cx.extract(r, i * 8, 8)).collect();
                self.write_sym_bytes(st, &av[4], &o)?;
                Ok(None)
            }
            "vh_ite" => {
                // branch-free choice in harness code: c ? a : b
                let c = self.truth(&av[0], 32);
                let (a, b) = (self.tt(&av[1], 64), self.tt(&av[2], 64));
                let r = self.cx.ite(c, a, b);
                Ok(Some(self.ft(r)))
            }
            "vh_dump" => {
                let t = self.tt(&av[0], 64);
                eprintln!("DUMP {}", self.cx.show(t, 6));
                Ok(None)
            }
            _ => endpath!("UNSUPPORTED: {}", name),
        }
    }

    fn llvm(&mut self, st: &mut State, n: &str, args: &[(Ty, Opd)], av: &[V], ret: &Ty) -> R<Option<V>> {
        let base = n.split('.').next().unwrap();
        let w = ew(ret);
        let rt = ret.clone();
        match base {
            "lifetime" | "assume" | "donothing" | "dbg" | "prefetch" => return Ok(None),
            "invariant" => return Ok(Some(V::I(0))),
            "experimental" => return Ok(None), // noalias.scope.decl
            "expect" => return Ok(Some(av[0].clone())),
            "is" => return Ok(Some(V::I(0))),
            "objectsize" => return Ok(Some(V::I(!0))),
            "trap" | "debugtrap" | "ubsantrap" => endpath!("ABORT: trap"),
            "memcpy" | "memmove" => {
                let k = self.concv(st, &av[2])?;
                self.memcpy(st, &av[0], &av[1], k)?;
                return Ok(None);
            }
            "memset" => {
                let k = self.concv(st, &av[2])?;
                self.memset(st, &av[0], &av[1], 8, k)?;
                return Ok(None);
            }
            "threadlocal" | "launder" | "strip" => return Ok(Some(av[0].clone())),
            "ptrmask" => return Ok(Some(self.bin(B::And, 64, &av[0], &av[1])?)),
            "umin" | "umax" | "smin" | "smax" => {
                let p = match base {
                    "umin" => P::Ult,
                    "umax" => P::Ugt,
                    "smin" => P::Slt,
                    _ => P::Sgt,
                };
                let r = self.lift(&rt, av, &mut |e, a| {
                    if let (V::I(_), V::I(_)) = (&a[0], &a[1]) {
                        if let V::I(c) = e.icmp(p, w, &a[0], &a[1]) {
                            return Ok(if c == 1 { a[0].clone() } else { a[1].clone() });
                        }
                    }
                    let (x, y) = (e.tt(&a[0], w), e.tt(&a[1], w));
                    let c = match p {
                        P::Ult => e.cx.ult(x, y),
                        P::Ugt => e.cx.ult(y, x),
                        P::Slt => e.cx.slt(x, y),
                        _ => e.cx.slt(y, x),
                    };
                    let r = e.cx.ite(c, x, y);
                    Ok(e.ft(r))
                })?;
                return Ok(Some(r));
            }
            "ucmp" | "scmp" => {
                let aw = ew(&args[0].0);
                let (x, y) = (self.tt(&av[0], aw), self.tt(&av[1], aw));
                let lt = if base == "ucmp" { self.cx.ult(x, y) } else { self.cx.slt(x, y) };
                let e = self.cx.eq(x, y);
                let m1 = self.cx.ones(w);
                let z = self.cx.c64(w, 0);
                let p1 = self.cx.c64(w, 1);
                let r = self.cx.ite(e, z, p1);
                let r = self.cx.ite(lt, m1, r);
                return Ok(Some(self.ft(r)));
            }
            "abs" => {
                let r = self.lift(&rt, &av[..1], &mut |e, a| {
                    let x = e.tt(&a[0], w);
                    let z = e.cx.c64(w, 0);
                    let ng = e.cx.slt(x, z);
                    let nx = e.cx.neg(x);
                    let r = e.cx.ite(ng, nx, x);
                    Ok(e.ft(r))
                })?;
                return Ok(Some(r));
            }
            "uadd" | "usub" | "umul" | "sadd" | "ssub" | "smul" => {
                let signed = base.starts_with('s');
                let op = match &base[1..] {
                    "add" => B::Add,
                    "sub" => B::Sub,
                    _ => B::Mul,
                };
                if n.contains("with.overflow") {
                    let aw = ew(&args[0].0);
                    if matches!(args[0].0, Ty::Vec(..)) {
                        endpath!("UNSUPPORTED: vector overflow op");
                    }
                    return Ok(Some(self.overflow_op(op, signed, aw, &av[0], &av[1])?));
                }
                if n.contains(".sat") {
                    let r = self.lift(&rt, av, &mut |e, a| {
                        let o = e.overflow_op(op, signed, w, &a[0], &a[1])?;
                        let l = if let V::A(l) = o { l } else { unreachable!() };
                        let (v, c) = (e.tt(&l[0], w), e.tt(&l[1], 1));
                        let lim = if !signed {
                            if op == B::Add {
                                e.cx.ones(w)
                            } else {
                                e.cx.c64(w, 0)
                            }
                        } else {
                            let x = e.tt(&a[0], w);
                            let sgn = e.cx.extract(x, w - 1, 1);
                            let mx = Bv::ones(w);
                            let mx = bv::lshr(w, &mx, 1);
                            let mn = bv::not(w, &mx);
                            let (mx, mn) = (e.cx.cbv(w, mx), e.cx.cbv(w, mn));
                            e.cx.ite(sgn, mn, mx)
                        };
                        let r = e.cx.ite(c, lim, v);
                        Ok(e.ft(r))
                    })?;
                    return Ok(Some(r));
                }
            }
            "fshl" | "fshr" => {
                let left = base == "fshl";
                let r = self.lift(&rt, av, &mut |e, a| {
                    let (hi, lo) = (e.tt(&a[0], w), e.tt(&a[1], w));
                    if let V::I(s) = a[2] {
                        let s = (s % w as u64) as u32;
                        if s == 0 {
                            return Ok(e.ft(if left { hi } else { lo }));
                        }
                        let k = if left { w - s } else { s };
                        // bits [k, k+w) of hi:lo
                        let l = e.cx.extract(lo, k, w - k);
                        let h = e.cx.extract(hi, 0, k);
                        let r = e.cx.concat(&[h, l]);
                        return Ok(e.ft(r));
                    }
                    let s = e.tt(&a[2], w);
                    let wt = e.cx.c64(w, w as u64);
                    let s = e.cx.divop(Op::URem, s, wt);
                    let cat = e.cx.concat(&[hi, lo]);
                    let s2 = e.cx.zext(s, 2 * w);
                    let r = if left {
                        let t = e.cx.shift(Op::Shl, cat, s2);
                        e.cx.extract(t, w, w)
                    } else {
                        let t = e.cx.shift(Op::LShr, cat, s2);
                        e.cx.extract(t, 0, w)
                    };
                    Ok(e.ft(r))
                })?;
                return Ok(Some(r));
            }
            "bswap" => {
                let r = self.lift(&rt, av, &mut |e, a| {
                    let x = e.tt(&a[0], w);
                    let p: Vec<T> = (0..w / 8).map(|i| e.cx.extract(x, i * 8, 8)).collect();
                    let r = e.cx.concat(&p);
                    Ok(e.ft(r))
                })?;
                return Ok(Some(r));
            }
            "bitreverse" => {
                let r = self.lift(&rt, av, &mut |e, a| {
                    let x = e.tt(&a[0], w);
                    let p: Vec<T> = (0..w).map(|i| e.cx.extract(x, i, 1)).collect();
                    let r = e.cx.concat(&p);
                    Ok(e.ft(r))
                })?;
                return Ok(Some(r));
            }
            "ctpop" | "ctlz" | "cttz" => {
                let r = self.lift(&rt, &av[..1], &mut |e, a| {
                    if let (V::I(x), true) = (&a[0], w <= 64) {
                        let x = *x;
                        return Ok(V::I(match base {
                            "ctpop" => x.count_ones() as u64,
                            "ctlz" => (x.leading_zeros() as u64).wrapping_sub(64 - w as u64),
                            _ => (x.trailing_zeros() as u64).min(w as u64),
                        }));
                    }
                    let x = e.tt(&a[0], w);
                    let r = match base {
                        "ctpop" => {
                            let mut s = e.cx.c64(w, 0);
                            for i in 0..w {
                                let b = e.cx.extract(x, i, 1);
                                let b = e.cx.zext(b, w);
                                s = e.cx.add(s, b);
                            }
                            s
                        }
                        "ctlz" => e.ctz_term(x, true),
                        _ => e.ctz_term(x, false),
                    };
                    Ok(e.ft(r))
                })?;
                return Ok(Some(r));
            }
            "vector" => {
                // vector.reduce.OP
                let op = n.split('.').nth(2).unwrap_or("");
                let l = match &av[0] {
                    V::A(l) => l.clone(),
                    _ => endpath!("UNSUPPORTED: reduce"),
                };
                let mut acc = l[0].clone();
                for x in l.iter().skip(1) {
                    acc = match op {
                        "add" => self.bin(B::Add, w, &acc, x)?,
                        "or" => self.bin(B::Or, w, &acc, x)?,
                        "and" => self.bin(B::And, w, &acc, x)?,
                        "xor" => self.bin(B::Xor, w, &acc, x)?,
                        "mul" => self.bin(B::Mul, w, &acc, x)?,
                        "umax" | "umin" | "smax" | "smin" => {
                            let p = match op {
                                "umax" => P::Ugt,
                                "umin" => P::Ult,
                                "smax" => P::Sgt,
                                _ => P::Slt,
                            };
                            let c = self.icmp(p, w, &acc, x);
                            self.select(&c, &acc, x, &rt)?
                        }
                        _ => endpath!("UNSUPPORTED: llvm.{}", n),
                    };
                }
                return Ok(Some(acc));
            }
            "ceil" | "floor" | "trunc" | "sqrt" | "fabs" | "round" | "rint" => {
                let x = self.concv(st, &av[0])?;
                let f = |v: f64| match base {
                    "ceil" => v.ceil(),
                    "floor" => v.floor(),
                    "trunc" => v.trunc(),
                    "sqrt" => v.sqrt(),
                    "fabs" => v.abs(),
                    "round" => v.round(),
                    _ => v.round_ties_even(),
                };
                return Ok(Some(V::I(if rt == Ty::F32 { (f(f32::from_bits(x as u32) as f64) as f32).to_bits() as u64 } else { f(f64::from_bits(x)).to_bits() })));
            }
            "fptoui" | "fptosi" => {
                let x = self.concv(st, &av[0])?;
                let v = if args[0].0 == Ty::F32 { f32::from_bits(x as u32) as f64 } else { f64::from_bits(x) };
                let r = if base == "fptoui" {
                    if w >= 64 {
                        v as u64
                    } else {
                        (v as u64).min(m64(w))
                    }
                } else if w >= 64 {
                    v as i64 as u64
                } else {
                    let mx = (m64(w) >> 1) as i64;
                    ((v as i64).max(-mx - 1).min(mx)) as u64 & m64(w)
                };
                return Ok(Some(V::I(r)));
            }
            "x86" => {
                if n.starts_with("x86.sse2.pause") {
                    return Ok(None);
                }
                if n.starts_with("x86.addcarry") || n.starts_with("x86.subborrow") {
                    let (c, a, b) = (self.tt(&av[0], 8), self.tt(&av[1], 64), self.tt(&av[2], 64));
                    let z = self.cx.c64(8, 0);
                    let e = self.cx.eq(c, z);
                    let cb = self.cx.not(e);
                    let (a, b, cb) = (self.cx.zext(a, 66), self.cx.zext(b, 66), self.cx.zext(cb, 66));
                    let s = if n.contains("add") {
                        let s = self.cx.add(a, b);
                        self.cx.add(s, cb)
                    } else {
                        let s = self.cx.sub(a, b);
                        self.cx.sub(s, cb)
                    };
                    let co = self.cx.extract(s, 64, 1);
                    let co = self.cx.zext(co, 8);
                    let r = self.cx.extract(s, 0, 64);
                    return Ok(Some(V::A(Rc::new(vec![self.ft(co), self.ft(r)]))));
                }
            }
            _ => {}
        }
        endpath!("UNSUPPORTED: llvm.{}", n)
    }
}
