//! Hash-consed bit-vector terms with value ranges.
use std::collections::HashMap;

pub type T = u32;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
#[repr(u8)]
pub enum Op { Const, Var, Add, Sub, Mul, And, Or, Xor, Shl, LShr, AShr, UDiv, URem, SDiv, SRem, ZExt, SExt, Extract, Concat, Eq, Ult, Slt, Ite, App, SMin, SMax }

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub struct Node { pub op: Op, pub w: u16, pub a: u32, pub b: u32, pub c: u32 }

#[derive(Clone, Debug)]
pub struct VarInfo { pub name: String, pub w: u16, pub lo: u128, pub hi: u128, pub secret: bool, pub tag: u32 }

/// argument of an uninterpreted application
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Arg { Seq(u32), Int(T) }

pub fn mask(w: u16, v: u128) -> u128 { if w >= 128 { v } else { v & ((1u128 << w) - 1) } }
pub fn ones(w: u16) -> u128 { mask(w, !0) }
pub fn sext64(w: u16, v: u128) -> i64 { sext(w, v) as i64 }
pub fn sext(w: u16, v: u128) -> i128 { if w >= 128 { return v as i128; } let s = 128 - w as u32; ((v << s) as i128) >> s }

#[derive(Default)]
struct FxH(u64);
impl std::hash::Hasher for FxH {
    fn finish(&self) -> u64 { self.0 }
    fn write(&mut self, b: &[u8]) { for c in b { self.write_u64(*c as u64); } }
    fn write_u8(&mut self, v: u8) { self.write_u64(v as u64) }
    fn write_u16(&mut self, v: u16) { self.write_u64(v as u64) }
    fn write_u32(&mut self, v: u32) { self.write_u64(v as u64) }
    fn write_usize(&mut self, v: usize) { self.write_u64(v as u64) }
    fn write_isize(&mut self, v: isize) { self.write_u64(v as u64) }
    fn write_u128(&mut self, v: u128) { self.write_u64(v as u64); self.write_u64((v >> 64) as u64) }
    fn write_i128(&mut self, v: i128) { self.write_u128(v as u128) }
    fn write_u64(&mut self, v: u64) { self.0 = (self.0.rotate_left(23) ^ v).wrapping_mul(0x9E37_79B9_7F4A_7C15); self.0 ^= self.0 >> 29; }
}
type B = std::hash::BuildHasherDefault<FxHPub>;
#[derive(Default)]
pub struct FxHPub(FxH);
impl std::hash::Hasher for FxHPub {
    fn finish(&self) -> u64 { self.0 .0 }
    fn write(&mut self, b: &[u8]) { self.0.write(b) }
    fn write_u8(&mut self, v: u8) { self.0.write_u8(v) }
    fn write_u16(&mut self, v: u16) { self.0.write_u16(v) }
    fn write_u32(&mut self, v: u32) { self.0.write_u32(v) }
    fn write_usize(&mut self, v: usize) { self.0.write_usize(v) }
    fn write_isize(&mut self, v: isize) { self.0.write_isize(v) }
    fn write_u64(&mut self, v: u64) { self.0.write_u64(v) }
    fn write_u128(&mut self, v: u128) { self.0.write_u128(v) }
    fn write_i128(&mut self, v: i128) { self.0.write_i128(v) }
}
pub type FMap<K, V> = HashMap<K, V, B>;
pub type FSet<K> = std::collections::HashSet<K, B>;

pub struct Terms {
    pub nodes: Vec<Node>,
    pub ulo: Vec<u128>,
    pub uhi: Vec<u128>,
    pub srng: FMap<T, (i128, i128)>,
    map: FMap<Node, T>,
    pub consts: Vec<u128>,
    cmap: FMap<(u16, u128), T>,
    pub vars: Vec<VarInfo>,
    pub seqs: Vec<std::rc::Rc<Vec<T>>>,
    seqmap: HashMap<std::rc::Rc<Vec<T>>, u32, B>,
    pub argl: Vec<std::rc::Rc<Vec<Arg>>>,
    argmap: HashMap<std::rc::Rc<Vec<Arg>>, u32, B>,
    pub fnames: Vec<String>,
    fmap: HashMap<String, u32>,
    pub taint: Vec<u8>, // bit0: depends on secret var, bit1: depends on a step variable, bit2: depends on stale
}

static mut TM: *mut Terms = std::ptr::null_mut();
pub fn tm() -> &'static mut Terms {
    unsafe {
        if TM.is_null() { TM = Box::into_raw(Box::new(Terms::new())); }
        &mut *TM
    }
}

impl Terms {
    fn new() -> Terms {
        Terms { nodes: vec![], ulo: vec![], uhi: vec![], srng: Default::default(), map: Default::default(), consts: vec![], cmap: Default::default(), vars: vec![], seqs: vec![], seqmap: Default::default(), argl: vec![], argmap: Default::default(), fnames: vec![], fmap: Default::default(), taint: vec![] }
    }
    pub fn n(&self, t: T) -> Node { self.nodes[t as usize] }
    pub fn w(&self, t: T) -> u16 { self.nodes[t as usize].w }
    pub fn lo(&self, t: T) -> u128 { self.ulo[t as usize] }
    pub fn hi(&self, t: T) -> u128 { self.uhi[t as usize] }
    pub fn cval(&self, t: T) -> Option<u128> { let n = self.n(t); if n.op == Op::Const { Some(self.consts[n.a as usize]) } else { None } }
    pub fn srange(&self, t: T) -> (i128, i128) {
        let w = self.w(t);
        let (lo, hi) = (self.lo(t), self.hi(t));
        let half = 1u128 << (w - 1);
        if hi < half { return (lo as i128, hi as i128); }
        if lo >= half { return (sext(w, lo), sext(w, hi)); }
        if let Some(r) = self.srng.get(&t) { return *r; }
        (sext(w, half), (half - 1) as i128)
    }
    pub fn cst(&mut self, w: u16, v: u128) -> T {
        let v = mask(w, v);
        if let Some(&t) = self.cmap.get(&(w, v)) { return t; }
        let id = self.nodes.len() as T;
        self.nodes.push(Node { op: Op::Const, w, a: self.consts.len() as u32, b: 0, c: 0 });
        self.consts.push(v);
        self.ulo.push(v);
        self.uhi.push(v);
        self.taint.push(0);
        self.cmap.insert((w, v), id);
        id
    }
    pub fn var(&mut self, name: &str, w: u16, lo: u128, hi: u128, secret: bool, tag: u32) -> T {
        let id = self.nodes.len() as T;
        self.nodes.push(Node { op: Op::Var, w, a: self.vars.len() as u32, b: 0, c: 0 });
        self.vars.push(VarInfo { name: name.to_string(), w, lo, hi, secret, tag });
        self.ulo.push(lo);
        self.uhi.push(hi);
        self.taint.push((secret as u8) | ((tag as u8) << 1));
        id
    }
    pub fn fid(&mut self, s: &str) -> u32 {
        if let Some(&f) = self.fmap.get(s) { return f; }
        let f = self.fnames.len() as u32;
        self.fnames.push(s.to_string());
        self.fmap.insert(s.to_string(), f);
        f
    }
    pub fn seq(&mut self, v: Vec<T>) -> u32 {
        let r = std::rc::Rc::new(v);
        if let Some(&i) = self.seqmap.get(&r) { return i; }
        let i = self.seqs.len() as u32;
        self.seqs.push(r.clone());
        self.seqmap.insert(r, i);
        i
    }
    pub fn args(&mut self, v: Vec<Arg>) -> u32 {
        let r = std::rc::Rc::new(v);
        if let Some(&i) = self.argmap.get(&r) { return i; }
        let i = self.argl.len() as u32;
        self.argl.push(r.clone());
        self.argmap.insert(r, i);
        i
    }
    pub fn app(&mut self, f: u32, args: u32, idx: u32, w: u16, lo: u128, hi: u128) -> T {
        let n = Node { op: Op::App, w, a: f, b: args, c: idx };
        if let Some(&t) = self.map.get(&n) { return t; }
        let mut taint = 0;
        let al = self.argl[args as usize].clone();
        for a in al.iter() {
            match a {
                Arg::Int(t) => taint |= self.taint[*t as usize],
                Arg::Seq(s) => { for t in self.seqs[*s as usize].clone().iter() { taint |= self.taint[*t as usize]; } }
            }
        }
        let id = self.push(n, lo, hi);
        self.taint[id as usize] = taint;
        id
    }
    fn push(&mut self, n: Node, lo: u128, hi: u128) -> T {
        let id = self.nodes.len() as T;
        self.nodes.push(n);
        self.ulo.push(lo);
        self.uhi.push(hi);
        self.taint.push(0);
        self.map.insert(n, id);
        id
    }
    fn mk(&mut self, op: Op, w: u16, a: u32, b: u32, c: u32, nargs: u8, lo: u128, hi: u128, s: Option<(i128, i128)>) -> T {
        let n = Node { op, w, a, b, c };
        if let Some(&t) = self.map.get(&n) { return t; }
        let mut taint = self.taint[a as usize];
        if nargs > 1 { taint |= self.taint[b as usize]; }
        if nargs > 2 { taint |= self.taint[c as usize]; }
        let mut lo = lo;
        let mut hi = hi;
        // intersect with signed info when it determines the unsigned range
        if let Some((sl, sh)) = s {
            if sl >= 0 { lo = lo.max(sl as u128); hi = hi.min(sh as u128); }
        }
        let id = self.push(n, lo, hi);
        self.taint[id as usize] = taint;
        if let Some((sl, sh)) = s { if sl < 0 && w > 1 { let half = 1i128 << (w.min(126) - 1); if w >= 127 || sl > -half || sh < half - 1 { self.srng.insert(id, (sl, sh)); } } }
        id
    }

    pub fn add(&mut self, a: T, b: T) -> T {
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b));
        let (ca, cb) = (self.cval(a), self.cval(b));
        if let (Some(x), Some(y)) = (ca, cb) { return self.cst(w, x.wrapping_add(y)); }
        if ca.is_some() { return self.add(b, a); }
        if cb == Some(0) { return a; }
        if let Some(y) = cb {
            let na = self.n(a);
            if na.op == Op::Add { if let Some(x) = self.cval(na.b) { let c = self.cst(w, x.wrapping_add(y)); return self.add(na.a, c); } }
        }
        let m = ones(w);
        let (lo, hi);
        let (la, ha, lb, hb) = (self.lo(a), self.hi(a), self.lo(b), self.hi(b));
        match ha.checked_add(hb) {
            Some(s) if s <= m => { lo = la + lb; hi = s; }
            _ => match la.checked_add(lb) {
                // whole range wraps exactly once
                Some(s) if w < 127 && s > m && ha + hb <= 2 * m + 1 => { lo = s - m - 1; hi = ha + hb - m - 1; }
                _ => { lo = 0; hi = m; }
            },
        }
        let s = if w <= 64 {
            let (sa, sb) = (self.srange(a), self.srange(b));
            let r = (sa.0 + sb.0, sa.1 + sb.1);
            let half = 1i128 << (w - 1);
            if r.0 >= -half && r.1 < half { Some(r) } else { None }
        } else { None };
        let (a, b) = if cb.is_none() && b < a { (b, a) } else { (a, b) };
        self.mk(Op::Add, w, a, b, 0, 2, lo, hi, s)
    }
    pub fn sub(&mut self, a: T, b: T) -> T {
        let w = self.w(a);
        if a == b { return self.cst(w, 0); }
        if let Some(y) = self.cval(b) { let c = self.cst(w, y.wrapping_neg()); return self.add_signed(a, c); }
        let (lo, hi) = if self.lo(a) >= self.hi(b) { (self.lo(a) - self.hi(b), self.hi(a) - self.lo(b)) } else { (0, ones(w)) };
        let s = if w <= 64 {
            let (sa, sb) = (self.srange(a), self.srange(b));
            let r = (sa.0 - sb.1, sa.1 - sb.0);
            let half = 1i128 << (w - 1);
            if r.0 >= -half && r.1 < half { Some(r) } else { None }
        } else { None };
        self.mk(Op::Sub, w, a, b, 0, 2, lo, hi, s)
    }
    fn add_signed(&mut self, a: T, c: T) -> T { self.add(a, c) }
    pub fn neg(&mut self, a: T) -> T { let z = self.cst(self.w(a), 0); self.sub(z, a) }
    pub fn mul(&mut self, a: T, b: T) -> T {
        let w = self.w(a);
        let (ca, cb) = (self.cval(a), self.cval(b));
        if let (Some(x), Some(y)) = (ca, cb) { return self.cst(w, x.wrapping_mul(y)); }
        if ca.is_some() { return self.mul(b, a); }
        if cb == Some(0) { return b; }
        if cb == Some(1) { return a; }
        let m = ones(w);
        let (lo, hi) = match self.hi(a).checked_mul(self.hi(b)) { Some(s) if s <= m => (self.lo(a) * self.lo(b), s), _ => (0, m) };
        let s = if w <= 64 {
            let (sa, sb) = (self.srange(a), self.srange(b));
            let ps = [sa.0.checked_mul(sb.0), sa.0.checked_mul(sb.1), sa.1.checked_mul(sb.0), sa.1.checked_mul(sb.1)];
            if ps.iter().all(|p| p.is_some()) {
                let r = (ps.iter().map(|p| p.unwrap()).min().unwrap(), ps.iter().map(|p| p.unwrap()).max().unwrap());
                let half = 1i128 << (w - 1);
                if r.0 >= -half && r.1 < half { Some(r) } else { None }
            } else { None }
        } else { None };
        let (a, b) = if cb.is_none() && b < a { (b, a) } else { (a, b) };
        self.mk(Op::Mul, w, a, b, 0, 2, lo, hi, s)
    }
    pub fn and(&mut self, a: T, b: T) -> T {
        let w = self.w(a);
        if a == b { return a; }
        let (ca, cb) = (self.cval(a), self.cval(b));
        if let (Some(x), Some(y)) = (ca, cb) { return self.cst(w, x & y); }
        if ca.is_some() { return self.and(b, a); }
        if let Some(y) = cb {
            if y == 0 { return b; }
            if y == ones(w) { return a; }
            if (y & (y + 1)) == 0 && self.hi(a) <= y { return a; }
            let na = self.n(a);
            if na.op == Op::And { if let Some(x) = self.cval(na.b) { let c = self.cst(w, x & y); return self.and(na.a, c); } }
            if na.op == Op::ZExt { let iw = self.w(na.a); let m = ones(iw); if y & m != y { let c = self.cst(w, y & m); return self.and(a, c); } }
        }
        let hi = self.hi(a).min(self.hi(b));
        // x & mask with mask in {0,-1} etc: no lower bound
        let (a, b) = if cb.is_none() && b < a { (b, a) } else { (a, b) };
        self.mk(Op::And, w, a, b, 0, 2, 0, hi, None)
    }
    fn upbits(v: u128) -> u128 { if v == 0 { 0 } else { let l = 128 - v.leading_zeros(); if l >= 128 { !0 } else { (1u128 << l) - 1 } } }
    pub fn or(&mut self, a: T, b: T) -> T {
        let w = self.w(a);
        if a == b { return a; }
        let (ca, cb) = (self.cval(a), self.cval(b));
        if let (Some(x), Some(y)) = (ca, cb) { return self.cst(w, x | y); }
        if ca.is_some() { return self.or(b, a); }
        if cb == Some(0) { return a; }
        if cb == Some(ones(w)) { return b; }
        let hi = Self::upbits(self.hi(a) | self.hi(b));
        let lo = self.lo(a).max(self.lo(b));
        let (a, b) = if cb.is_none() && b < a { (b, a) } else { (a, b) };
        self.mk(Op::Or, w, a, b, 0, 2, lo, hi.min(ones(w)), None)
    }
    pub fn xor(&mut self, a: T, b: T) -> T {
        let w = self.w(a);
        if a == b { return self.cst(w, 0); }
        let (ca, cb) = (self.cval(a), self.cval(b));
        if let (Some(x), Some(y)) = (ca, cb) { return self.cst(w, x ^ y); }
        if ca.is_some() { return self.xor(b, a); }
        if cb == Some(0) { return a; }
        if let Some(y) = cb {
            let na = self.n(a);
            if na.op == Op::Xor { if let Some(x) = self.cval(na.b) { let c = self.cst(w, x ^ y); return self.xor(na.a, c); } }
        }
        let (lo, hi) = if cb == Some(ones(w)) { (ones(w) - self.hi(a), ones(w) - self.lo(a)) } else { (0, Self::upbits(self.hi(a) | self.hi(b)).min(ones(w))) };
        // (x ^ y) ^ x = y
        for (p, q) in [(a, b), (b, a)] { let n = self.n(p); if n.op == Op::Xor { if n.a == q { return n.b; } if n.b == q { return n.a; } } }
        let (a, b) = if cb.is_none() && b < a { (b, a) } else { (a, b) };
        self.mk(Op::Xor, w, a, b, 0, 2, lo, hi, None)
    }
    pub fn not(&mut self, a: T) -> T { let w = self.w(a); let o = self.cst(w, ones(w)); self.xor(a, o) }
    pub fn shl(&mut self, a: T, b: T) -> T {
        let w = self.w(a);
        if let Some(k) = self.cval(b) {
            if k == 0 { return a; }
            if k >= w as u128 { return self.cst(w, 0); }
            if let Some(x) = self.cval(a) { return self.cst(w, x << k); }
            let m = ones(w);
            let (lo, hi) = if self.hi(a) <= (m >> k) { (self.lo(a) << k, self.hi(a) << k) } else { (0, m & !((1u128 << k) - 1)) };
            let s = { let (sl, sh) = self.srange(a); let half = if w < 127 { 1i128 << (w - 1) } else { 0 }; if w <= 64 && (sl << k) >= -half && (sh << k) < half { Some((sl << k, sh << k)) } else if w <= 64 { Some((-half, half - (1i128 << k))) } else { None } };
            return self.mk(Op::Shl, w, a, b, 0, 2, lo, hi, s);
        }
        self.mk(Op::Shl, w, a, b, 0, 2, 0, ones(w), None)
    }
    pub fn lshr(&mut self, a: T, b: T) -> T {
        let w = self.w(a);
        if let Some(k) = self.cval(b) {
            if k == 0 { return a; }
            if k >= w as u128 { return self.cst(w, 0); }
            if let Some(x) = self.cval(a) { return self.cst(w, x >> k); }
            if self.hi(a) >> k == 0 { return self.cst(w, 0); }
            let na = self.n(a);
            if na.op == Op::LShr { if let Some(j) = self.cval(na.b) { let c = self.cst(w, (j + k).min(w as u128)); return self.lshr(na.a, c); } }
            return self.mk(Op::LShr, w, a, b, 0, 2, self.lo(a) >> k, self.hi(a) >> k, None);
        }
        self.mk(Op::LShr, w, a, b, 0, 2, 0, self.hi(a), None)
    }
    pub fn ashr(&mut self, a: T, b: T) -> T {
        let w = self.w(a);
        let (sl, sh) = self.srange(a);
        if sl >= 0 { return self.lshr(a, b); }
        if let Some(k) = self.cval(b) {
            if k == 0 { return a; }
            let k = k.min(w as u128 - 1);
            if let Some(x) = self.cval(a) { return self.cst(w, (sext(w, x) >> k) as u128); }
            let (lo, hi) = if sh < 0 { (mask(w, (sl >> k) as u128), mask(w, (sh >> k) as u128)) } else { (0, ones(w)) };
            let bb = self.cst(w, k);
            return self.mk(Op::AShr, w, a, bb, 0, 2, lo, hi, Some((sl >> k, sh >> k)));
        }
        self.mk(Op::AShr, w, a, b, 0, 2, 0, ones(w), None)
    }
    pub fn udiv(&mut self, a: T, b: T) -> T {
        let w = self.w(a);
        if let Some(y) = self.cval(b) {
            if y == 1 { return a; }
            if y != 0 {
                if let Some(x) = self.cval(a) { return self.cst(w, x / y); }
                if self.hi(a) < y { return self.cst(w, 0); }
                if y.is_power_of_two() { let k = self.cst(w, y.trailing_zeros() as u128); return self.lshr(a, k); }
                return self.mk(Op::UDiv, w, a, b, 0, 2, self.lo(a) / y, self.hi(a) / y, None);
            }
        }
        self.mk(Op::UDiv, w, a, b, 0, 2, 0, ones(w), None)
    }
    pub fn urem(&mut self, a: T, b: T) -> T {
        let w = self.w(a);
        if let Some(y) = self.cval(b) {
            if y != 0 {
                if let Some(x) = self.cval(a) { return self.cst(w, x % y); }
                if self.hi(a) < y { return a; }
                if y.is_power_of_two() { let k = self.cst(w, y - 1); return self.and(a, k); }
                return self.mk(Op::URem, w, a, b, 0, 2, 0, y - 1, None);
            }
        }
        self.mk(Op::URem, w, a, b, 0, 2, 0, ones(w), None)
    }
    pub fn sdiv(&mut self, a: T, b: T) -> T {
        if self.srange(a).0 >= 0 && self.srange(b).0 >= 0 { return self.udiv(a, b); }
        let w = self.w(a);
        if let (Some(x), Some(y)) = (self.cval(a), self.cval(b)) { if y != 0 { return self.cst(w, sext(w, x).wrapping_div(sext(w, y)) as u128); } }
        self.mk(Op::SDiv, w, a, b, 0, 2, 0, ones(w), None)
    }
    pub fn srem(&mut self, a: T, b: T) -> T {
        if self.srange(a).0 >= 0 && self.srange(b).0 >= 0 { return self.urem(a, b); }
        let w = self.w(a);
        if let (Some(x), Some(y)) = (self.cval(a), self.cval(b)) { if y != 0 { return self.cst(w, sext(w, x).wrapping_rem(sext(w, y)) as u128); } }
        let s = match self.cval(b) { Some(y) if sext(w, y) > 0 => { let m = sext(w, y) - 1; Some((-m, m)) } _ => None };
        self.mk(Op::SRem, w, a, b, 0, 2, 0, ones(w), s)
    }
    pub fn zext(&mut self, a: T, w: u16) -> T {
        let aw = self.w(a);
        if aw == w { return a; }
        if let Some(x) = self.cval(a) { return self.cst(w, x); }
        let na = self.n(a);
        if na.op == Op::ZExt { return self.zext(na.a, w); }
        if na.op == Op::Extract && na.b == 0 && self.w(na.a) == w && self.hi(na.a) <= ones(aw) { return na.a; }
        self.mk(Op::ZExt, w, a, 0, 0, 1, self.lo(a), self.hi(a), None)
    }
    pub fn sext_t(&mut self, a: T, w: u16) -> T {
        let aw = self.w(a);
        if aw == w { return a; }
        if let Some(x) = self.cval(a) { return self.cst(w, sext(aw, x) as u128); }
        let (sl, sh) = self.srange(a);
        if sl >= 0 { return self.zext(a, w); }
        let (lo, hi) = if sh < 0 { (mask(w, sl as u128), mask(w, sh as u128)) } else { (0, ones(w)) };
        self.mk(Op::SExt, w, a, 0, 0, 1, lo, hi, Some((sl, sh)))
    }
    pub fn extract(&mut self, a: T, lo: u16, w: u16) -> T {
        let aw = self.w(a);
        debug_assert!(lo + w <= aw);
        if lo == 0 && w == aw { return a; }
        if let Some(x) = self.cval(a) { return self.cst(w, x >> lo); }
        if lo < 128 && self.hi(a) >> lo == 0 { return self.cst(w, 0); }
        let na = self.n(a);
        match na.op {
            Op::Extract => return self.extract(na.a, lo + na.b as u16, w),
            Op::ZExt => {
                let iw = self.w(na.a);
                if lo + w <= iw { return self.extract(na.a, lo, w); }
                if lo < iw { let x = self.extract(na.a, lo, iw - lo); return self.zext(x, w); }
                return self.cst(w, 0);
            }
            Op::SExt => { let iw = self.w(na.a); if lo + w <= iw { return self.extract(na.a, lo, w); } if lo == 0 && w > iw { return self.sext_t(na.a, w); } }
            Op::Concat => {
                let lw = self.w(na.b);
                if lo + w <= lw { return self.extract(na.b, lo, w); }
                if lo >= lw { return self.extract(na.a, lo - lw, w); }
            }
            Op::LShr => { if let Some(k) = self.cval(na.b) { if lo as u128 + k + w as u128 <= aw as u128 { return self.extract(na.a, lo + k as u16, w); } } }
            Op::Ite if self.cval(na.b).is_some() || self.cval(na.c).is_some() => { let (x, y) = (self.extract(na.b, lo, w), self.extract(na.c, lo, w)); return self.ite(na.a, x, y); }
            _ => {}
        }
        let m = ones(w);
        let (rl, rh) = if (self.lo(a) >> lo) >> (w.min(127)) == (self.hi(a) >> lo) >> (w.min(127)) && w < 128 { ((self.lo(a) >> lo) & m, (self.hi(a) >> lo) & m) } else { (0, m) };
        let s = if lo == 0 { let (sl, sh) = self.srange(a); if w <= 64 && sl >= -(1i128 << (w - 1)) && sh < (1i128 << (w - 1)) { Some((sl, sh)) } else { None } } else { None };
        self.mk(Op::Extract, w, a, lo as u32, 0, 1, rl, rh, s)
    }
    pub fn concat(&mut self, hi: T, lo: T) -> T {
        let (hw, lw) = (self.w(hi), self.w(lo));
        let w = hw + lw;
        if let (Some(x), Some(y)) = (self.cval(hi), self.cval(lo)) { return self.cst(w, (x << lw) | y); }
        if self.cval(hi) == Some(0) { return self.zext(lo, w); }
        let (nh, nl) = (self.n(hi), self.n(lo));
        if nh.op == Op::Extract && nl.op == Op::Extract && nh.a == nl.a && nh.b == nl.b + lw as u32 { return self.extract(nh.a, nl.b as u16, w); }
        // whole term below: hi = extract(x, lw..), lo = x itself (narrow)?  not produced
        if nl.op == Op::Concat {
            let h2 = self.n(nl.a);
            if nh.op == Op::Extract && h2.op == Op::Extract && nh.a == h2.a && nh.b == h2.b + self.w(nl.a) as u32 {
                let m = self.extract(nh.a, h2.b as u16, hw + self.w(nl.a));
                return self.concat(m, nl.b);
            }
        }
        let l = (self.lo(hi) << lw) | self.lo(lo);
        let h = (self.hi(hi) << lw) | self.hi(lo);
        self.mk(Op::Concat, w, hi, lo, 0, 2, l, h, None)
    }
    pub fn eq(&mut self, a: T, b: T) -> T {
        if a == b { return self.cst(1, 1); }
        let w = self.w(a);
        if self.cval(a).is_some() && self.cval(b).is_none() { return self.eq(b, a); }
        if self.hi(a) < self.lo(b) || self.hi(b) < self.lo(a) { return self.cst(1, 0); }
        if let Some(y) = self.cval(b) {
            if w == 1 { return if y == 1 { a } else { self.not(a) }; }
            if let Some(x) = self.cval(a) { return self.cst(1, (x == y) as u128); }
            let na = self.n(a);
            match na.op {
                Op::ZExt => { let c = self.cst(self.w(na.a), y); return self.eq(na.a, c); }
                Op::Ite => {
                    if let (Some(p), Some(q)) = (self.cval(na.b), self.cval(na.c)) {
                        return match (p == y, q == y) { (true, true) => self.cst(1, 1), (true, false) => na.a, (false, true) => self.not(na.a), _ => self.cst(1, 0) };
                    }
                }
                _ => {}
            }
        }
        let (a, b) = if self.cval(b).is_none() && b < a { (b, a) } else { (a, b) };
        self.mk(Op::Eq, 1, a, b, 0, 2, 0, 1, None)
    }
    pub fn ne(&mut self, a: T, b: T) -> T { let e = self.eq(a, b); self.not(e) }
    pub fn ult(&mut self, a: T, b: T) -> T {
        if a == b { return self.cst(1, 0); }
        if self.hi(a) < self.lo(b) { return self.cst(1, 1); }
        if self.lo(a) >= self.hi(b) { return self.cst(1, 0); }
        // overflow check pattern: (x + y) <u x  with no possible overflow
        let na = self.n(a);
        if na.op == Op::Add && (na.a == b || na.b == b) {
            let o = if na.a == b { na.b } else { na.a };
            if let Some(s) = self.hi(b).checked_add(self.hi(o)) { if s <= ones(self.w(a)) { return self.cst(1, 0); } }
        }
        self.mk(Op::Ult, 1, a, b, 0, 2, 0, 1, None)
    }
    pub fn slt(&mut self, a: T, b: T) -> T {
        if a == b { return self.cst(1, 0); }
        let (sa, sb) = (self.srange(a), self.srange(b));
        if sa.1 < sb.0 { return self.cst(1, 1); }
        if sa.0 >= sb.1 { return self.cst(1, 0); }
        if sa.0 >= 0 && sb.0 >= 0 { return self.ult(a, b); }
        self.mk(Op::Slt, 1, a, b, 0, 2, 0, 1, None)
    }
    pub fn ite(&mut self, c: T, a: T, b: T) -> T {
        if a == b { return a; }
        if let Some(v) = self.cval(c) { return if v == 1 { a } else { b }; }
        let nc = self.n(c);
        if nc.op == Op::Xor && self.cval(nc.b) == Some(1) { return self.ite(nc.a, b, a); }
        let w = self.w(a);
        if w == 1 {
            match (self.cval(a), self.cval(b)) {
                (Some(1), Some(0)) => return c,
                (Some(0), Some(1)) => return self.not(c),
                (Some(1), None) => return self.or(c, b),
                (Some(0), None) => { let n = self.not(c); return self.and(n, b); }
                (None, Some(0)) => return self.and(c, a),
                (None, Some(1)) => { let n = self.not(c); return self.or(n, a); }
                _ => {}
            }
        }
        let (na, nb) = (self.n(a), self.n(b));
        if na.op == Op::Ite && na.a == c { return self.ite(c, na.b, b); }
        if nb.op == Op::Ite && nb.a == c { return self.ite(c, a, nb.c); }
        let (sa, sb) = (self.srange(a), self.srange(b));
        let s = (sa.0.min(sb.0), sa.1.max(sb.1));
        self.mk(Op::Ite, w, c, a, b, 3, self.lo(a).min(self.lo(b)), self.hi(a).max(self.hi(b)), if w <= 64 { Some(s) } else { None })
    }
    pub fn smin(&mut self, a: T, b: T) -> T { self.mmx(Op::SMin, a, b) }
    pub fn smax(&mut self, a: T, b: T) -> T { self.mmx(Op::SMax, a, b) }
    fn mmx(&mut self, op: Op, a: T, b: T) -> T {
        if a == b { return a; }
        let (a, b) = if b < a { (b, a) } else { (a, b) };
        let w = self.w(a);
        self.mk(op, w, a, b, 0, 2, self.lo(a).min(self.lo(b)), self.hi(a).max(self.hi(b)), None)
    }

    pub fn children(&self, t: T) -> ([T; 3], usize) {
        let n = self.n(t);
        match n.op {
            Op::Const | Op::Var | Op::App => ([0; 3], 0),
            Op::ZExt | Op::SExt | Op::Extract => ([n.a, 0, 0], 1),
            Op::Ite => ([n.a, n.b, n.c], 3),
            _ => ([n.a, n.b, 0], 2),
        }
    }
    /// topologically ordered cone of the roots (children first); App is a leaf
    pub fn cone(&self, roots: &[T]) -> Vec<T> {
        let mut seen: FSet<T> = Default::default();
        let mut out = vec![];
        let mut st: Vec<(T, usize)> = vec![];
        for &r in roots {
            if !seen.insert(r) { continue; }
            st.push((r, 0));
            while let Some((t, k)) = st.pop() {
                let (ch, n) = self.children(t);
                if k < n { st.push((t, k + 1)); if seen.insert(ch[k]) { st.push((ch[k], 0)); } } else { out.push(t); }
            }
        }
        out
    }
    pub fn eval1(n: &Node, w0: u16, a: u128, b: u128, c: u128) -> u128 {
        // w0: width of first operand
        let w = n.w;
        match n.op {
            Op::Add => mask(w, a.wrapping_add(b)),
            Op::Sub => mask(w, a.wrapping_sub(b)),
            Op::Mul => mask(w, a.wrapping_mul(b)),
            Op::And => a & b,
            Op::Or => a | b,
            Op::Xor => a ^ b,
            Op::Shl => if b >= w as u128 { 0 } else { mask(w, a << b) },
            Op::LShr => if b >= w as u128 { 0 } else { a >> b },
            Op::AShr => mask(w, (sext(w, a) >> b.min(w as u128 - 1)) as u128),
            Op::UDiv => if b == 0 { ones(w) } else { a / b },
            Op::URem => if b == 0 { a } else { a % b },
            Op::SDiv => if b == 0 { 0 } else { mask(w, sext(w, a).wrapping_div(sext(w, b)) as u128) },
            Op::SRem => if b == 0 { a } else { mask(w, sext(w, a).wrapping_rem(sext(w, b)) as u128) },
            Op::ZExt => a,
            Op::SExt => mask(w, sext(w0, a) as u128),
            Op::Extract => mask(w, a >> n.b),
            Op::Concat => unreachable!(),
            Op::Eq => (a == b) as u128,
            Op::Ult => (a < b) as u128,
            Op::Slt => (sext(w0, a) < sext(w0, b)) as u128,
            Op::Ite => if a == 1 { b } else { c },
            Op::SMin => if sext(w, a) <= sext(w, b) { a } else { b },
            Op::SMax => if sext(w, a) >= sext(w, b) { a } else { b },
            Op::Const | Op::Var | Op::App => unreachable!(),
        }
    }
    /// evaluate over a precomputed cone; leaves (Var/App) supplied by `leaf`
    pub fn eval_cone(&self, cone: &[T], val: &mut FMap<T, u128>, leaf: &mut dyn FnMut(T) -> u128) {
        for &t in cone {
            if val.contains_key(&t) { continue; }
            let n = self.n(t);
            let v = match n.op {
                Op::Const => self.consts[n.a as usize],
                Op::Var | Op::App => leaf(t),
                Op::Concat => (val[&n.a] << self.w(n.b)) | val[&n.b],
                Op::ZExt | Op::SExt | Op::Extract => Self::eval1(&n, self.w(n.a), val[&n.a], 0, 0),
                Op::Ite => Self::eval1(&n, 1, val[&n.a], val[&n.b], val[&n.c]),
                _ => Self::eval1(&n, self.w(n.a), val[&n.a], val[&n.b], 0),
            };
            val.insert(t, v);
        }
    }
    pub fn rebuild(&mut self, n: &Node, ch: &[T; 3]) -> T {
        match n.op {
            Op::Const | Op::Var | Op::App => unreachable!(),
            Op::Add => self.add(ch[0], ch[1]),
            Op::Sub => self.sub(ch[0], ch[1]),
            Op::Mul => self.mul(ch[0], ch[1]),
            Op::And => self.and(ch[0], ch[1]),
            Op::Or => self.or(ch[0], ch[1]),
            Op::Xor => self.xor(ch[0], ch[1]),
            Op::Shl => self.shl(ch[0], ch[1]),
            Op::LShr => self.lshr(ch[0], ch[1]),
            Op::AShr => self.ashr(ch[0], ch[1]),
            Op::UDiv => self.udiv(ch[0], ch[1]),
            Op::URem => self.urem(ch[0], ch[1]),
            Op::SDiv => self.sdiv(ch[0], ch[1]),
            Op::SRem => self.srem(ch[0], ch[1]),
            Op::ZExt => self.zext(ch[0], n.w),
            Op::SExt => self.sext_t(ch[0], n.w),
            Op::Extract => self.extract(ch[0], n.b as u16, n.w),
            Op::Concat => self.concat(ch[0], ch[1]),
            Op::Eq => self.eq(ch[0], ch[1]),
            Op::Ult => self.ult(ch[0], ch[1]),
            Op::Slt => self.slt(ch[0], ch[1]),
            Op::Ite => self.ite(ch[0], ch[1], ch[2]),
            Op::SMin => self.smin(ch[0], ch[1]),
            Op::SMax => self.smax(ch[0], ch[1]),
        }
    }
    pub fn show(&self, t: T, depth: usize) -> String {
        let n = self.n(t);
        match n.op {
            Op::Const => format!("{}", self.consts[n.a as usize]),
            Op::Var => self.vars[n.a as usize].name.clone(),
            Op::App => format!("{}#{}[{}]", self.fnames[n.a as usize], n.b, n.c),
            _ => {
                if depth == 0 { return format!("t{}", t); }
                let (ch, k) = self.children(t);
                let s: Vec<String> = (0..k).map(|i| self.show(ch[i], depth - 1)).collect();
                match n.op { Op::Extract => format!("{}[{}+:{}]", s[0], n.b, n.w), Op::ZExt | Op::SExt => format!("{:?}{}({})", n.op, n.w, s[0]), _ => format!("{:?}({})", n.op, s.join(",")) }
            }
        }
    }
}
