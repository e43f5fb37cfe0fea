//! Integer-polynomial normal forms of terms.
//! A term is written as an integer polynomial over atoms; wrap-around, remainder and
//! shift appear as atoms over canonical polynomials, so that sums and products may be
//! reassociated, reordered and reduced at different places without changing the form.
use crate::term::*;
use std::rc::Rc;

pub type Poly = Rc<Vec<(u64, i128)>>; // sorted by monomial; key: (a+1)<<32 | (b+1), 0 = constant

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum AtomK { Leaf(T), Mod(u128, Poly), Div(u128, Poly), Opaque(T), OpN(Op, u16, u32, Vec<Poly>), Prod(u32, u32), Ind(Poly, i128), Tab(T, u64) }

#[derive(Clone, Debug)]
pub enum Uni { Mod(u128), Small(u128, Rc<Vec<u128>>), Tab(u64) }

pub struct Nf {
    pub atoms: Vec<(AtomK, i128, i128)>, // kind, range
    map: FMap<AtomK, u32>,
    cache: FMap<T, Poly>,
    uni: FMap<T, Option<(T, Uni)>>,
    ucache: std::collections::HashMap<Vec<u64>, Option<Uni>>,
    pub limit: usize,
}
static mut N: *mut Nf = std::ptr::null_mut();
pub fn nf() -> &'static mut Nf {
    unsafe {
        if N.is_null() { N = Box::into_raw(Box::new(Nf { atoms: vec![], map: Default::default(), cache: Default::default(), uni: Default::default(), ucache: Default::default(), limit: 3_000_000 })); }
        &mut *N
    }
}
type Acc = FMap<u64, i128>;
fn addto(a: &mut Acc, k: u64, c: i128) { let e = a.entry(k).or_insert(0); *e = e.wrapping_add(c); }
fn fin(a: Acc, m: Option<u128>) -> Poly {
    let mut v: Vec<(u64, i128)> = a.into_iter().map(|(k, c)| (k, match m { Some(m) => c.rem_euclid(m as i128), None => c })).filter(|x| x.1 != 0).collect();
    v.sort_unstable();
    Rc::new(v)
}

impl Nf {
    fn atom(&mut self, k: AtomK, lo: i128, hi: i128) -> u32 {
        if let Some(&a) = self.map.get(&k) { return a; }
        let a = self.atoms.len() as u32;
        self.atoms.push((k.clone(), lo, hi));
        self.map.insert(k, a);
        a
    }
    fn single(&mut self, k: AtomK, lo: i128, hi: i128) -> Poly { let a = self.atom(k, lo, hi); Rc::new(vec![(((a + 1) as u64) << 32, 1)]) }
    /// atom whose value an indicator depends on
    fn ind_base(&self, a: usize) -> Option<(usize, i128)> {
        if let AtomK::Ind(p, v) = &self.atoms[a].0 { if p.len() == 1 && p[0].1 == 1 && p[0].0 & 0xffff_ffff == 0 { return Some(((p[0].0 >> 32) as usize - 1, *v)); } }
        None
    }
    pub fn range(&self, p: &Poly) -> Option<(i128, i128)> {
        let (mut lo, mut hi) = (0i128, 0i128);
        // indicators are evaluated together with the atom they depend on
        let mut groups: FMap<usize, Vec<(i128, i128)>> = Default::default();
        for &(k, c) in p.iter() { if k != 0 && k & 0xffff_ffff == 0 { if let Some((b, v)) = self.ind_base((k >> 32) as usize - 1) { groups.entry(b).or_default().push((v, c)); } } }
        for &(k, c) in p.iter() {
            let (ml, mh) = if k == 0 { (1, 1) } else {
                let a = (k >> 32) as usize - 1;
                let (l, h) = (self.atoms[a].1, self.atoms[a].2);
                if k & 0xffff_ffff == 0 {
                    if !groups.is_empty() && (groups.contains_key(&a) || self.ind_base(a).is_some()) {
                        if self.ind_base(a).is_none() { groups.entry(a).or_default().push((i128::MIN, c)); }
                        continue;
                    }
                    (l, h)
                } else {
                    let b = (k & 0xffff_ffff) as usize - 1;
                    let (l2, h2) = (self.atoms[b].1, self.atoms[b].2);
                    let c = [l.checked_mul(l2)?, l.checked_mul(h2)?, h.checked_mul(l2)?, h.checked_mul(h2)?];
                    (*c.iter().min().unwrap(), *c.iter().max().unwrap())
                }
            };
            let (x, y) = (ml.checked_mul(c)?, mh.checked_mul(c)?);
            lo = lo.checked_add(x.min(y))?;
            hi = hi.checked_add(x.max(y))?;
        }
        for (a, g) in groups {
            let (l, h) = (self.atoms[a].1, self.atoms[a].2);
            let (mut x, mut y) = (i128::MAX, i128::MIN);
            let lin: i128 = g.iter().filter(|e| e.0 == i128::MIN).map(|e| e.1).sum();
            let mut pts = vec![];
            if h - l <= 8 { pts.extend(l..=h); } else { pts.extend([l, h]); for e in &g { if e.0 != i128::MIN { pts.push(e.0); } } let mut k = l; while k <= h && k < l + 10 { pts.push(k); k += 1; } let mut k = h; while k >= l && k > h - 10 { pts.push(k); k -= 1; } }
            for v in pts { if v < l || v > h { continue; } let s = lin.checked_mul(v)?.checked_add(g.iter().filter(|e| e.0 == v).map(|e| e.1).sum())?; x = x.min(s); y = y.max(s); }
            lo = lo.checked_add(x)?;
            hi = hi.checked_add(y)?;
        }
        Some((lo, hi))
    }
    fn mulp(&mut self, p: &Poly, q: &Poly) -> Option<Poly> {
        if p.len() * q.len() > self.limit { return None; }
        let mut acc = Acc::default();
        for &(k1, c1) in p.iter() { for &(k2, c2) in q.iter() {
            let c = c1.checked_mul(c2)?;
            let k = self.mulk(k1, k2)?;
            addto(&mut acc, k, c);
        } }
        Some(fin(acc, None))
    }
    fn mulk(&mut self, k1: u64, k2: u64) -> Option<u64> {
        if k1 == 0 { return Some(k2); }
        if k2 == 0 { return Some(k1); }
        let mut f = vec![(k1 >> 32) as u32];
        if k1 & 0xffff_ffff != 0 { f.push(k1 as u32); }
        f.push((k2 >> 32) as u32);
        if k2 & 0xffff_ffff != 0 { f.push(k2 as u32); }
        f.sort();
        while f.len() > 2 {
            let b = f.pop().unwrap();
            let a = f.pop().unwrap();
            let (ra, rb) = (self.atoms[a as usize - 1].clone(), self.atoms[b as usize - 1].clone());
            if ra.1 < 0 || rb.1 < 0 { return None; }
            let at = self.atom(AtomK::Prod(a, b), ra.1.checked_mul(rb.1)?, ra.2.checked_mul(rb.2)?);
            f.push(at + 1);
            f.sort();
        }
        Some(((f[0] as u64) << 32) | f[1] as u64)
    }
    /// value of `p` reduced into [0,m)
    pub fn modp(&mut self, m: u128, p: &Poly) -> Poly {
        // drop inner reductions that are compatible with m, reduce coefficients
        let mut acc = Acc::default();
        let mut work: Vec<(Poly, i128)> = vec![(p.clone(), 1)];
        while let Some((q, f)) = work.pop() {
            for &(k, c) in q.iter() {
                let c = (c.rem_euclid(m as i128)).wrapping_mul(f).rem_euclid(m as i128);
                if c == 0 { continue; }
                if k != 0 && k & 0xffff_ffff == 0 {
                    let a = (k >> 32) as usize - 1;
                    if let AtomK::Mod(m2, inner) = &self.atoms[a].0 { if m2 % m == 0 { work.push((inner.clone(), c)); continue; } if (c as u128 * m2) % m == 0 { work.push((inner.clone(), c)); continue; } }
                }
                if k != 0 && k & 0xffff_ffff != 0 {
                    let (a, b) = ((k >> 32) as usize - 1, (k & 0xffff_ffff) as usize - 1);
                    let (ia, ib) = (self.unmod(a, m), self.unmod(b, m));
                    if ia.is_some() || ib.is_some() {
                        let pa = ia.unwrap_or_else(|| Rc::new(vec![(((a + 1) as u64) << 32, 1)]));
                        let pb = ib.unwrap_or_else(|| Rc::new(vec![(((b + 1) as u64) << 32, 1)]));
                        if let Some(pp) = self.mulp(&pa, &pb) { work.push((pp, c)); continue; }
                    }
                }
                addto(&mut acc, k, c);
            }
        }
        let r = fin(acc, Some(m));
        if let Some((lo, hi)) = self.range(&r) { if lo >= 0 && (hi as u128) < m { return r; } }
        if let Some(q) = self.smallp(&r, &|v| v.rem_euclid(m as i128)) { return q; }
        self.single(AtomK::Mod(m, r), 0, m as i128 - 1)
    }
    /// g(p) when p depends on one atom with at most four values
    fn smallp(&mut self, p: &Poly, g: &dyn Fn(i128) -> i128) -> Option<Poly> {
        if p.len() > 2 { return None; }
        let (k, c) = *p.last()?;
        if k == 0 || k & 0xffff_ffff != 0 { return None; }
        let d = if p.len() == 2 { if p[0].0 != 0 { return None; } p[0].1 } else { 0 };
        let a = (k >> 32) as usize - 1;
        let (lo, hi) = (self.atoms[a].1, self.atoms[a].2);
        if hi - lo > 3 || hi <= lo { return None; }
        let tab: Vec<i128> = (lo..=hi).map(|v| g(c * v + d)).collect();
        let x: Poly = Rc::new(vec![(k, 1)]);
        Some(self.small(&x, lo, &tab))
    }
    fn unmod(&self, a: usize, m: u128) -> Option<Poly> { if let AtomK::Mod(m2, inner) = &self.atoms[a].0 { if m2 % m == 0 { return Some(inner.clone()); } } None }
    /// floor(p / m)
    fn divp(&mut self, m: u128, p: &Poly) -> Poly {
        let mut q = Acc::default();
        let mut r = Acc::default();
        for &(k, c) in p.iter() { let (d, e) = (c.div_euclid(m as i128), c.rem_euclid(m as i128)); if d != 0 { addto(&mut q, k, d); } if e != 0 { addto(&mut r, k, e); } }
        let r = fin(r, None);
        match self.range(&r) {
            Some((lo, hi)) => {
                let (dl, dh) = (lo.div_euclid(m as i128), hi.div_euclid(m as i128));
                if dl == dh { addto(&mut q, 0, dl); return fin(q, None); }
                if let Some(x) = self.smallp(&r, &|v| v.div_euclid(m as i128)) { let q = fin(q, None); return self.addp(&q, &x); }
                let a = self.atom(AtomK::Div(m, r), dl, dh);
                addto(&mut q, ((a + 1) as u64) << 32, 1);
                fin(q, None)
            }
            None => { let a = self.atom(AtomK::Div(m, p.clone()), 0, i64::MAX as i128); Rc::new(vec![(((a + 1) as u64) << 32, 1)]) }
        }
    }
    /// unsigned integer value of t
    pub fn int(&mut self, t: T) -> Poly {
        if let Some(p) = self.cache.get(&t) { return p.clone(); }
        let p = self.int0(t);
        self.cache.insert(t, p.clone());
        p
    }
    fn leafp(&mut self, t: T) -> Poly {
        let (lo, hi) = (tm().lo(t), tm().hi(t));
        if hi > i128::MAX as u128 / 4 { return self.single(AtomK::Leaf(t), 0, i128::MAX / 4); }
        self.single(AtomK::Leaf(t), lo as i128, hi as i128)
    }
    fn opaque(&mut self, t: T) -> Poly {
        // structural atom over normal forms of the children
        let n = tm().n(t);
        let (ch, k) = tm().children(t);
        let ps: Vec<Poly> = (0..k).map(|i| self.int(ch[i])).collect();
        let mut ps = ps;
        if matches!(n.op, Op::And | Op::Or | Op::Xor | Op::Eq | Op::SMin | Op::SMax) { ps.sort(); }
        let (lo, hi) = (tm().lo(t), tm().hi(t));
        self.single(AtomK::OpN(n.op, n.w, if n.op == Op::Extract { n.b } else { if k > 0 { tm().w(ch[0]) as u32 } else { 0 } }, ps), lo as i128, hi.min(i128::MAX as u128 / 4) as i128)
    }
    fn int0(&mut self, t: T) -> Poly {
        let n = tm().n(t);
        let w = n.w;
        if w > 100 { return self.leaf_or_opaque(t); }
        match n.op {
            Op::Const => { let c = tm().consts[n.a as usize]; if c == 0 { Rc::new(vec![]) } else { Rc::new(vec![(0, c as i128)]) } }
            Op::Var | Op::App => self.leafp(t),
            Op::ZExt => self.int(n.a),
            Op::Add | Op::Sub | Op::Mul | Op::Shl => {
                if n.op == Op::Shl && tm().cval(n.b).is_none() { return self.opaque(t); }
                match self.congr(t, w) {
                    Some(p) => {
                        // p is congruent to t modulo 2^w; centre large coefficients
                        if let Some((lo, hi)) = self.range(&p) {
                            let m = 1i128 << w;
                            if lo >= 0 && hi < m { return p; }
                        }
                        let red = self.modp(1u128 << w, &p);
                        red
                    }
                    None => self.opaque(t),
                }
            }
            Op::Extract => {
                let p = self.int(n.a);
                let q = if n.b == 0 { p } else { self.divp(1u128 << n.b, &p) };
                self.modp(1u128 << w, &q)
            }
            Op::And => {
                if let Some(m) = tm().cval(n.b) {
                    if (m & (m + 1)) == 0 { let p = self.int(n.a); return self.modp(m + 1, &p); }
                    let tz = m.trailing_zeros();
                    let m2 = m >> tz;
                    if m2 & (m2 + 1) == 0 { let p = self.int(n.a); let q = self.divp(1u128 << tz, &p); let r = self.modp(m2 + 1, &q); return self.scale(&r, 1i128 << tz); }
                }
                self.opaque_uni(t)
            }
            Op::URem => { if let Some(m) = tm().cval(n.b) { if m != 0 { let p = self.int(n.a); return self.modp(m, &p); } } self.opaque(t) }
            Op::UDiv => { if let Some(m) = tm().cval(n.b) { if m != 0 { let p = self.int(n.a); return self.divp(m, &p); } } self.opaque(t) }
            Op::LShr => { if let Some(k) = tm().cval(n.b) { let p = self.int(n.a); return self.divp(1u128 << k, &p); } self.opaque(t) }
            Op::Concat => { let (p, q) = (self.int(n.a), self.int(n.b)); let s = self.scale(&p, 1i128 << tm().w(n.b)); self.addp(&s, &q) }
            Op::Or => {
                // disjoint bits
                for (x, y) in [(n.a, n.b), (n.b, n.a)] {
                    let tz = self.tz(y);
                    if tz > 0 && tz < 100 && tm().hi(x) < (1u128 << tz) { let (p, q) = (self.int(x), self.int(y)); return self.addp(&p, &q); }
                }
                self.opaque_uni(t)
            }
            Op::Xor => {
                if tm().cval(n.b) == Some(ones(w)) { let p = self.int(n.a); let s = self.scale(&p, -1); let c: Poly = Rc::new(vec![(0, ones(w) as i128)]); return self.addp(&c, &s); }
                self.opaque_uni(t)
            }
            Op::SExt if w <= 64 => {
                let w0 = tm().w(n.a);
                let p = self.int(n.a);
                let d = self.divp(1u128 << (w0 - 1), &p);
                let s = self.scale(&d, (1i128 << w) - (1i128 << w0));
                self.addp(&p, &s)
            }
            Op::SExt | Op::AShr | Op::SRem | Op::SDiv | Op::Ite | Op::Eq | Op::Ult | Op::Slt | Op::SMin | Op::SMax => self.opaque_uni(t),
        }
    }
    fn leaf_or_opaque(&mut self, t: T) -> Poly { match tm().n(t).op { Op::Var | Op::App | Op::Const => self.leafp(t), _ => self.opaque(t) } }
    fn tz(&self, t: T) -> u32 {
        let n = tm().n(t);
        match n.op { Op::Shl => tm().cval(n.b).unwrap_or(0) as u32 + self.tz(n.a), Op::Const => tm().consts[n.a as usize].trailing_zeros(), Op::ZExt => self.tz(n.a), Op::And => self.tz(n.a).max(self.tz(n.b)), Op::Or | Op::Add | Op::Xor => self.tz(n.a).min(self.tz(n.b)), Op::Concat => if tm().cval(n.b) == Some(0) { tm().w(n.b) as u32 } else { 0 }, _ => 0 }
    }
    /// univariate function of one subterm with a recognisable table?
    fn opaque_uni(&mut self, t: T) -> Poly {
        match self.recognise(t) {
            Some((x, Uni::Mod(m))) => { let p = self.int(x); self.modp(m, &p) }
            Some((x, Uni::Small(m, tab))) => {
                let p = self.int(x);
                let (p, lo) = if m == 0 { (p, tm().lo(x) as i128) } else { (self.modp(m, &p), 0) };
                let f: Vec<i128> = tab.iter().map(|v| *v as i128).collect();
                self.small(&p, lo, &f)
            }
            Some((x, Uni::Tab(h))) => self.single(AtomK::Tab(x, h), tm().lo(t) as i128, tm().hi(t) as i128),
            None => self.opaque(t),
        }
    }
    /// f(x) for x in lo..lo+|tab| in the basis 1, x, [x=lo+2], [x=lo+3], ...
    fn small(&mut self, x: &Poly, lo: i128, f: &[i128]) -> Poly {
        if f.len() == 1 { return if f[0] == 0 { Rc::new(vec![]) } else { Rc::new(vec![(0, f[0])]) }; }
        let slope = f[1] - f[0];
        let mut p = self.scale(x, slope);
        let c = f[0] - slope * lo;
        if c != 0 { let k: Poly = Rc::new(vec![(0, c)]); p = self.addp(&p, &k); }
        for i in 2..f.len() {
            let e = f[i] - f[0] - slope * i as i128;
            if e != 0 { let ind = self.single(AtomK::Ind(x.clone(), lo + i as i128), 0, 1); let ind = self.scale(&ind, e); p = self.addp(&p, &ind); }
        }
        p
    }
    fn recognise(&mut self, t: T) -> Option<(T, Uni)> {
        if let Some(r) = self.uni.get(&t) { return r.clone(); }
        let mut r = None;
        for x in single_cuts(t, 120, 4).into_iter().rev() {
            let key = crate::smt::alpha_key_upto(t, x);
            let u = match self.ucache.get(&key) { Some(u) => u.clone(), None => { let u = classify(t, x); self.ucache.insert(key, u.clone()); u } };
            if let Some(u) = u { r = Some((x, u)); break; }
        }
        self.uni.insert(t, r.clone());
        r
    }
    pub fn scale(&self, p: &Poly, c: i128) -> Poly { Rc::new(p.iter().map(|&(k, x)| (k, x.wrapping_mul(c))).filter(|x| x.1 != 0).collect()) }
    pub fn addp(&self, p: &Poly, q: &Poly) -> Poly { let mut a = Acc::default(); for &(k, c) in p.iter().chain(q.iter()) { addto(&mut a, k, c); } fin(a, None) }
    /// a polynomial congruent to t modulo 2^w (flattening sums without intermediate forms)
    fn congr(&mut self, t: T, w: u16) -> Option<Poly> {
        let mut acc = Acc::default();
        let mut st: Vec<(T, i128)> = vec![(t, 1)];
        // exact integer value is kept when the term cannot wrap
        let exact = |t: T| -> bool {
            let n = tm().n(t);
            match n.op {
                Op::Add => tm().hi(n.a).checked_add(tm().hi(n.b)).map_or(false, |s| s <= ones(n.w)),
                Op::Sub => tm().lo(n.a) >= tm().hi(n.b),
                Op::Mul => tm().hi(n.a).checked_mul(tm().hi(n.b)).map_or(false, |s| s <= ones(n.w)),
                Op::Shl => match tm().cval(n.b) { Some(k) => tm().hi(n.a) <= ones(n.w) >> k, None => false },
                _ => true,
            }
        };
        let m: i128 = 1i128 << w.min(120);
        while let Some((x, c)) = st.pop() {
            if acc.len() > self.limit { return None; }
            let n = tm().n(x);
            let free = n.w >= w; // congruence modulo 2^w may be pushed through wrapping operations
            let go = free || exact(x);
            match n.op {
                Op::Add if go => { st.push((n.a, c)); st.push((n.b, c)); }
                Op::Sub if go => { st.push((n.a, c)); st.push((n.b, c.wrapping_neg())); }
                Op::Shl if go && tm().cval(n.b).is_some() => { let k = tm().cval(n.b).unwrap(); st.push((n.a, (c << k.min(100)) % m)); }
                Op::Mul if go => {
                    if let Some(k) = tm().cval(n.b) { let k = if free { sext(n.w, k) } else { k as i128 }; st.push((n.a, c.wrapping_mul(k) % m)); continue; }
                    let ww = if free { w } else { n.w };
                    let (p, q) = (self.congr_small(n.a, ww, free)?, self.congr_small(n.b, ww, free)?);
                    let (p, q) = if free && w <= 100 { (balanced(&p, w), balanced(&q, w)) } else { (p, q) };
                    let r = self.mulp(&p, &q)?;
                    for &(k, d) in r.iter() { addto(&mut acc, k, d.wrapping_mul(c) % m); }
                }
                Op::ZExt => st.push((n.a, c)),
                Op::Extract if n.b == 0 && free => st.push((n.a, c)),
                Op::SExt if tm().w(n.a) >= w => st.push((n.a, c)),
                Op::And if free && tm().cval(n.b).map_or(false, |k| k & (k + 1) == 0 && k >= ones(w)) => st.push((n.a, c)),
                Op::Xor if free && tm().cval(n.b) == Some(ones(n.w)) => { st.push((n.a, c.wrapping_neg())); addto(&mut acc, 0, c.wrapping_neg()); }
                Op::Const => { let k = if free { sext(n.w, tm().consts[n.a as usize]) } else { tm().consts[n.a as usize] as i128 }; addto(&mut acc, 0, c.wrapping_mul(k) % m) }
                Op::Add | Op::Sub | Op::Mul | Op::Shl if x == t => { return None; }
                _ => {
                    let p = self.int(x);
                    for &(k, d) in p.iter() { addto(&mut acc, k, d.wrapping_mul(c) % m); }
                }
            }
        }
        // balanced representatives, preferring the exact (non-wrapping) reading
        if exact(t) {
            let p = fin(acc.clone(), None);
            if let Some((lo, hi)) = self.range(&p) { if lo >= 0 && hi < m { return Some(p); } }
        }
        Some(fin(acc, Some(1u128 << w)))
    }
    fn congr_small(&mut self, t: T, w: u16, free: bool) -> Option<Poly> {
        if !free { return Some(self.int(t)); }
        let n = tm().n(t);
        match n.op { Op::Add | Op::Sub | Op::Mul | Op::Shl | Op::ZExt | Op::Extract | Op::Xor | Op::And => self.congr(t, w), _ => Some(self.int(t)) }
    }
    pub fn eq(&mut self, a: T, b: T) -> bool {
        let (p, q) = (self.int(a), self.int(b));
        p == q
    }
}

/// coefficients reduced modulo 2^w into [-2^(w-1), 2^(w-1))
fn balanced(p: &Poly, w: u16) -> Poly {
    let m = 1i128 << w;
    if p.iter().all(|x| -(m / 2) <= x.1 && x.1 < m / 2) { return p.clone(); }
    Rc::new(p.iter().map(|&(k, c)| { let r = c.rem_euclid(m); (k, if r >= m / 2 { r - m } else { r }) }).filter(|x| x.1 != 0).collect())
}

/// subterms x (domain at most 2^17) such that t is a function of x alone
pub fn single_cuts(t: T, maxexp: usize, want: usize) -> Vec<T> {
    let mut fr: std::collections::BTreeSet<T> = Default::default();
    fr.insert(t);
    let mut out = vec![];
    for _ in 0..maxexp {
        // expand the largest id
        let x = match fr.iter().next_back() { Some(&x) => x, None => break };
        let (ch, k) = tm().children(x);
        if k == 0 { break; }
        fr.remove(&x);
        for c in &ch[..k] { if tm().cval(*c).is_none() { fr.insert(*c); } }
        if fr.len() == 1 { let y = *fr.iter().next().unwrap(); if tm().hi(y) - tm().lo(y) < 1 << 17 { out.push(y); if out.len() >= want { break; } } }
        if fr.len() > 12 { break; }
    }
    out
}

/// values of t as x runs over its range
pub fn table(t: T, x: T) -> Option<Vec<u128>> {
    let cone = cone_upto(t, x);
    let n = (tm().hi(x) - tm().lo(x) + 1) as usize;
    if n * cone.len() > 40_000_000 { return None; }
    let mut idx: FMap<T, usize> = Default::default();
    for (i, &t) in cone.iter().enumerate() { idx.insert(t, i); }
    let mut v = vec![0u128; cone.len()];
    let mut out = Vec::with_capacity(n);
    let lo = tm().lo(x);
    let xi = *idx.get(&x)?;
    let ins: Vec<(Node, u16, usize, usize, usize, u16, T)> = cone.iter().map(|&t| { let n = tm().n(t); let (ch, k) = tm().children(t); let k = if t == x { 0 } else { k }; (n, if k > 0 { tm().w(ch[0]) } else { 0 }, if k > 0 { idx[&ch[0]] } else { 0 }, if k > 1 { idx[&ch[1]] } else { 0 }, if k > 2 { idx[&ch[2]] } else { 0 }, if n.op == Op::Concat && k > 1 { tm().w(ch[1]) } else { 0 }, t) }).collect();
    let ti = idx[&t];
    for k in 0..n {
        v[xi] = lo + k as u128;
        for i in 0..ins.len() {
            let (nd, w0, a, b, c, lw, t) = &ins[i];
            if *t == x { continue; }
            match nd.op { Op::Const => v[i] = tm().consts[nd.a as usize], Op::Var | Op::App => return None, Op::Concat => v[i] = (v[*a] << lw) | v[*b], _ => v[i] = Terms::eval1(nd, *w0, v[*a], v[*b], v[*c]) }
        }
        out.push(v[ti]);
    }
    Some(out)
}
pub fn cone_upto(t: T, x: T) -> Vec<T> {
    let mut seen: FSet<T> = Default::default();
    let mut out = vec![];
    let mut st = vec![(t, 0usize)];
    seen.insert(t);
    while let Some((y, k)) = st.pop() {
        let (ch, n) = tm().children(y);
        let n = if y == x { 0 } else { n };
        if k < n { st.push((y, k + 1)); if seen.insert(ch[k]) { st.push((ch[k], 0)); } } else { out.push(y); }
    }
    out
}
/// shape of t as a function of x
fn classify(t: T, x: T) -> Option<Uni> {
    let lo = tm().lo(x);
    let hi = tm().hi(x);
    let dom = hi - lo + 1;
    let tb = table(t, x)?;
    if dom <= 4 { return Some(Uni::Small(0, Rc::new(tb))); }
    let m = *tb.iter().max()? + 1;
    if m >= 2 && hi >= m && tb.iter().enumerate().all(|(i, v)| (lo + i as u128) % m == *v) { return Some(Uni::Mod(m)); }
    for m in 2..=4u128 {
        if dom < 2 * m { continue; }
        let mut per = vec![0u128; m as usize];
        for i in 0..m as usize { per[((lo + i as u128) % m) as usize] = tb[i]; }
        if tb.iter().enumerate().all(|(i, v)| per[((lo + i as u128) % m) as usize] == *v) { return Some(Uni::Small(m, Rc::new(per))); }
    }
    None
}
