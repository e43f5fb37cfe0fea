//! Deciding step for local obligations: enumeration, random refutation, z3.
use crate::exec::ObStatus;
use crate::term::*;
use std::collections::HashMap;
use std::io::{BufRead, BufReader, Write};
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};
use std::rc::Rc;

pub struct Rng(pub u64);
impl Rng {
    pub fn next(&mut self) -> u64 { self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15); let mut z = self.0; z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9); z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB); z ^ (z >> 31) }
    pub fn below(&mut self, n: u128) -> u128 { if n == 0 { return 0; } (((self.next() as u128) << 64) | self.next() as u128) % n }
}

#[derive(Default, Clone, Debug)]
pub struct Stats { pub smt_queries: u64, pub smt_unsat: u64, pub smt_sat: u64, pub smt_unknown: u64, pub smt_ms: u64, pub enums: u64, pub cached: u64, pub nf: u64, pub syntactic: u64 }

pub struct Smt { z3: Option<(Child, ChildStdin, BufReader<ChildStdout>)>, cache: HashMap<Vec<u64>, Cached>, pub stats: Stats, pub seed: u64 }
#[derive(Clone)]
enum Cached { Unsat(&'static str), Sat(Vec<u128>), Unknown }

static mut S: *mut Smt = std::ptr::null_mut();
pub fn smt() -> &'static mut Smt {
    unsafe {
        if S.is_null() { S = Box::into_raw(Box::new(Smt { z3: None, cache: HashMap::new(), stats: Stats::default(), seed: 1 })); }
        &mut *S
    }
}

/// concrete evaluation of terms; applications are evaluated through their specification
pub struct Evalr<'a> { pub val: FMap<T, u128>, pub leaf: &'a mut dyn FnMut(T) -> u128, pub apps: HashMap<(u32, u32), Rc<Vec<i64>>> }
pub static mut APP_EVAL: Option<fn(&str, &[AVal]) -> Option<Vec<i64>>> = None;
#[derive(Clone, Debug)]
pub enum AVal { Seq(Rc<Vec<i64>>), Int(i64) }

impl<'a> Evalr<'a> {
    pub fn new(leaf: &'a mut dyn FnMut(T) -> u128) -> Evalr<'a> { Evalr { val: Default::default(), leaf, apps: HashMap::new() } }
    pub fn eval(&mut self, roots: &[T]) -> Option<Vec<u128>> {
        let cone = tm().cone(roots);
        for &t in &cone {
            if self.val.contains_key(&t) { continue; }
            let n = tm().n(t);
            let v = match n.op {
                Op::Const => tm().consts[n.a as usize],
                Op::Var => (self.leaf)(t),
                Op::App => mask(n.w, self.app(n.a, n.b)?.get(n.c as usize).copied()? as i128 as u128),
                Op::Concat => (self.val[&n.a] << tm().w(n.b)) | self.val[&n.b],
                Op::ZExt | Op::SExt | Op::Extract => Terms::eval1(&n, tm().w(n.a), self.val[&n.a], 0, 0),
                Op::Ite => Terms::eval1(&n, 1, self.val[&n.a], self.val[&n.b], self.val[&n.c]),
                _ => Terms::eval1(&n, tm().w(n.a), self.val[&n.a], self.val[&n.b], 0),
            };
            self.val.insert(t, v);
        }
        Some(roots.iter().map(|r| self.val[r]).collect())
    }
    fn app(&mut self, f: u32, args: u32) -> Option<Rc<Vec<i64>>> {
        if let Some(r) = self.apps.get(&(f, args)) { return Some(r.clone()); }
        let al = tm().argl[args as usize].clone();
        let mut av = vec![];
        for a in al.iter() {
            match a {
                Arg::Int(t) => av.push(AVal::Int(self.eval(&[*t])?[0] as i64)),
                Arg::Seq(s) => { let ts = tm().seqs[*s as usize].clone(); let v = self.eval(&ts)?; av.push(AVal::Seq(Rc::new(v.iter().map(|x| *x as i64).collect()))); }
            }
        }
        let fname = tm().fnames[f as usize].clone();
        let r = Rc::new(unsafe { APP_EVAL }.and_then(|e| e(&fname, &av))?);
        self.apps.insert((f, args), r.clone());
        Some(r)
    }
}

/// random value of a leaf inside its range, biased to corners
pub fn rand_leaf(r: &mut Rng, t: T) -> u128 {
    let (lo, hi) = (tm().lo(t), tm().hi(t));
    if hi - lo <= 2 { return lo + r.below(hi - lo + 1); }
    match r.next() % 8 { 0 => lo, 1 => hi, 2 => lo + 1, 3 => hi - 1, _ => { if hi == !0 && lo == 0 { ((r.next() as u128) << 64) | r.next() as u128 } else { lo + r.below(hi - lo + 1) } } }
}

fn leaves(cone: &[T]) -> Vec<T> { cone.iter().copied().filter(|&t| matches!(tm().n(t).op, Op::Var | Op::App)).collect() }

/// canonical key of t as a function of its subterm x
pub fn alpha_key_upto(t: T, x: T) -> Vec<u64> {
    let cone = crate::nf::cone_upto(t, x);
    let mut num: FMap<T, u64> = Default::default();
    let mut key = Vec::with_capacity(cone.len() * 3);
    for (i, &y) in cone.iter().enumerate() {
        num.insert(y, i as u64);
        let n = tm().n(y);
        if y == x { key.push(u64::MAX); key.push(n.w as u64); key.push(tm().lo(x) as u64); key.push(tm().hi(x) as u64); continue; }
        key.push((n.op as u64) << 32 | n.w as u64);
        match n.op {
            Op::Const => { let c = tm().consts[n.a as usize]; key.push(c as u64); key.push((c >> 64) as u64); }
            Op::Var | Op::App => key.push(u64::MAX - 1),
            Op::ZExt | Op::SExt => key.push(num[&n.a]),
            Op::Extract => { key.push(num[&n.a]); key.push(n.b as u64); }
            Op::Ite => { key.push(num[&n.a]); key.push(num[&n.b]); key.push(num[&n.c]); }
            _ => { key.push(num[&n.a]); key.push(num[&n.b]); }
        }
    }
    key
}

/// canonical key of a conjunction: structure with leaves numbered in order of appearance
fn alpha_key(cone: &[T], roots: &[T]) -> Vec<u64> {
    let mut num: FMap<T, u64> = Default::default();
    let mut key = Vec::with_capacity(cone.len() * 3);
    for (i, &t) in cone.iter().enumerate() {
        num.insert(t, i as u64);
        let n = tm().n(t);
        key.push((n.op as u64) << 32 | n.w as u64);
        match n.op {
            Op::Const => { let c = tm().consts[n.a as usize]; key.push(c as u64); if n.w > 64 { key.push((c >> 64) as u64); } }
            Op::Var | Op::App => { key.push(tm().lo(t) as u64); key.push(tm().hi(t) as u64); if n.w > 64 { key.push((tm().hi(t) >> 64) as u64); } if let Some(s) = tm().srng.get(&t) { key.push(s.0 as u64); key.push(s.1 as u64); } }
            Op::ZExt | Op::SExt => key.push(num[&n.a]),
            Op::Extract => { key.push(num[&n.a]); key.push(n.b as u64); }
            Op::Ite => { key.push(num[&n.a]); key.push(num[&n.b]); key.push(num[&n.c]); }
            _ => { key.push(num[&n.a]); key.push(num[&n.b]); }
        }
    }
    key.push(u64::MAX);
    for r in roots { key.push(num[r]); }
    key
}

/// Is the conjunction unsatisfiable?  (leaves range over their declared domains)
pub fn unsat(pc: &[T]) -> ObStatus {
    let pc: Vec<T> = pc.iter().copied().filter(|&t| tm().cval(t) != Some(1)).collect();
    if pc.iter().any(|&t| tm().cval(t) == Some(0)) { smt().stats.syntactic += 1; return ObStatus::Proved("syntactic"); }
    for &t in &pc { let n = tm().not(t); if pc.contains(&n) { smt().stats.syntactic += 1; return ObStatus::Proved("syntactic"); } }
    if pc.is_empty() { return ObStatus::Refuted(Rc::new(HashMap::new())); }
    // relevant slice: conjuncts sharing leaves with the last one
    let pc = slice(&pc);
    let cone = tm().cone(&pc);
    let key = alpha_key(&cone, &pc);
    let lv = leaves(&cone);
    let s = smt();
    let c = match s.cache.get(&key) { Some(c) => { s.stats.cached += 1; c.clone() } None => { let c = solve(&pc, &cone, &lv); s.cache.insert(key, c.clone()); c } };
    match c {
        Cached::Unsat(b) => ObStatus::Proved(b),
        Cached::Sat(v) => ObStatus::Refuted(Rc::new(lv.iter().copied().zip(v).collect())),
        Cached::Unknown => ObStatus::Unknown("solver gave no answer".into()),
    }
}

fn slice(pc: &[T]) -> Vec<T> {
    if pc.len() <= 1 { return pc.to_vec(); }
    let sets: Vec<FSet<T>> = pc.iter().map(|&t| leaves(&tm().cone(&[t])).into_iter().collect()).collect();
    let mut keep = vec![false; pc.len()];
    let last = pc.len() - 1;
    keep[last] = true;
    let mut cur: FSet<T> = sets[last].clone();
    let mut ch = true;
    while ch { ch = false; for i in 0..pc.len() { if !keep[i] && sets[i].iter().any(|x| cur.contains(x)) { keep[i] = true; cur.extend(sets[i].iter()); ch = true; } } }
    pc.iter().zip(&keep).filter(|x| *x.1).map(|x| *x.0).collect()
}

fn solve(pc: &[T], cone: &[T], lv: &[T]) -> Cached {
    // enumeration of small domains
    let mut dom: u128 = 1;
    for &l in lv { dom = dom.saturating_mul(tm().hi(l) - tm().lo(l) + 1); if dom > 1 << 24 { break; } }
    if dom <= 1 << 24 && dom * cone.len() as u128 <= 60_000_000 {
        smt().stats.enums += 1;
        return match enumerate(pc, cone, lv) { None => Cached::Unsat("enumeration"), Some(v) => Cached::Sat(v) };
    }
    if separable(pc) { smt().stats.enums += 1; return Cached::Unsat("table"); }
    // random refutation
    let mut r = Rng(0xABCDEF ^ smt().seed);
    if cone.len() < 100_000 {
        for _ in 0..24 {
            let mut val: FMap<T, u128> = Default::default();
            tm().eval_cone(cone, &mut val, &mut |t| rand_leaf(&mut r, t));
            if pc.iter().all(|p| val[p] == 1) && lv.iter().all(|l| in_srange(*l, val[l])) { return Cached::Sat(lv.iter().map(|l| val[l]).collect()); }
        }
    }
    // few variables away from their bound
    if lv.len() > 24 && cone.len() * (lv.len() + 200) < 4_000_000 {
        for k in 0..lv.len() + 200 {
            let mut pick: FMap<T, u128> = Default::default();
            if k < lv.len() { pick.insert(lv[k], rand_leaf(&mut r, lv[k])); }
            else { let at = r.below(lv.len() as u128) as usize; for _ in 0..2 + r.next() % 3 { let x = lv[(at + r.below(6) as usize) % lv.len()]; pick.insert(x, rand_leaf(&mut r, x)); } }
            let mut val: FMap<T, u128> = Default::default();
            tm().eval_cone(cone, &mut val, &mut |t| pick.get(&t).copied().unwrap_or(if k % 2 == 0 { tm().lo(t) } else { tm().hi(t) }));
            if pc.iter().all(|p| val[p] == 1) && lv.iter().all(|l| in_srange(*l, val[l])) { return Cached::Sat(lv.iter().map(|l| val[l]).collect()); }
        }
    }
    if std::env::var("IRV_Q").is_ok() { eprintln!("z3 query: {}", pc.iter().map(|p| tm().show(*p, 14)).collect::<Vec<_>>().join(" && ")); }
    let t0 = std::time::Instant::now();
    let r = z3(pc, cone, lv);
    if t0.elapsed().as_millis() > 1000 && std::env::var("IRV_Q").is_ok() { eprintln!("  took {} ms", t0.elapsed().as_millis()); }
    r
}
fn in_srange(l: T, v: u128) -> bool { match tm().srng.get(&l) { Some(s) => { let x = sext(tm().w(l), v); x >= s.0 && x <= s.1 } None => true } }

fn enumerate(pc: &[T], cone: &[T], lv: &[T]) -> Option<Vec<u128>> {
    // compile cone to indices
    let mut idx: FMap<T, usize> = Default::default();
    for (i, &t) in cone.iter().enumerate() { idx.insert(t, i); }
    struct I { n: Node, w0: u16, a: usize, b: usize, c: usize, lw: u16 }
    let ins: Vec<I> = cone.iter().map(|&t| { let n = tm().n(t); let (ch, k) = tm().children(t); I { n, w0: if k > 0 { tm().w(ch[0]) } else { 0 }, a: if k > 0 { idx[&ch[0]] } else { 0 }, b: if k > 1 { idx[&ch[1]] } else { 0 }, c: if k > 2 { idx[&ch[2]] } else { 0 }, lw: if n.op == Op::Concat { tm().w(ch[1]) } else { 0 } } }).collect();
    let mut v = vec![0u128; cone.len()];
    for (i, x) in ins.iter().enumerate() { if x.n.op == Op::Const { v[i] = tm().consts[x.n.a as usize]; } }
    let li: Vec<usize> = lv.iter().map(|l| idx[l]).collect();
    let mut cur: Vec<u128> = lv.iter().map(|&l| tm().lo(l)).collect();
    let pi: Vec<usize> = pc.iter().map(|p| idx[p]).collect();
    loop {
        if lv.iter().zip(&cur).all(|(l, c)| in_srange(*l, *c)) {
            for (k, &i) in li.iter().enumerate() { v[i] = cur[k]; }
            for i in 0..ins.len() {
                let x = &ins[i];
                match x.n.op { Op::Const | Op::Var | Op::App => {} Op::Concat => v[i] = (v[x.a] << x.lw) | v[x.b], _ => v[i] = Terms::eval1(&x.n, x.w0, v[x.a], v[x.b], v[x.c]) }
            }
            if pi.iter().all(|&p| v[p] == 1) { return Some(cur); }
        }
        let mut k = 0;
        loop {
            if k == lv.len() { return None; }
            if cur[k] < tm().hi(lv[k]) { cur[k] += 1; break; }
            cur[k] = tm().lo(lv[k]);
            k += 1;
        }
    }
}

// ---- sums of functions of one leaf each ----

/// value = c + sum of table[leaf], modulo 2^width of the term
struct Sep { c: i128, t: std::collections::BTreeMap<T, Vec<i128>> }
impl Sep {
    fn combine(mut self, o: Sep, f: i128) -> Option<Sep> {
        self.c = self.c.checked_add(o.c.checked_mul(f)?)?;
        for (l, t) in o.t {
            let e = self.t.entry(l).or_insert_with(|| vec![0; t.len()]);
            for (x, y) in e.iter_mut().zip(t) { *x = x.checked_add(y.checked_mul(f)?)?; }
        }
        Some(self)
    }
    /// the same with the sum itself in [0, 2^w)
    fn exact(mut self, w: u16) -> Option<Sep> {
        if w > 64 { return None; }
        let (mut lo, mut hi) = (self.c, self.c);
        for t in self.t.values() { lo += t.iter().min()?; hi += t.iter().max()?; }
        let m = 1i128 << w;
        if lo.div_euclid(m) != hi.div_euclid(m) { return None; }
        self.c -= lo.div_euclid(m) * m;
        Some(self)
    }
}
fn sep(t: T, budget: &mut usize) -> Option<Sep> {
    if *budget == 0 { return None; }
    *budget -= 1;
    let (n, w) = (tm().n(t), tm().w(t));
    if w > 64 { return None; }
    if let Some(c) = tm().cval(t) { return Some(Sep { c: sext(w, c), t: Default::default() }); }
    let lv = leaves(&tm().cone(&[t]));
    if lv.len() == 1 {
        let l = lv[0];
        if tm().hi(l) - tm().lo(l) >= 1 << 17 || tm().srng.contains_key(&l) { return None; }
        let tb = crate::nf::table(t, l)?;
        // whichever reading spans the smaller range
        let (u, s): (Vec<i128>, Vec<i128>) = tb.into_iter().map(|v| (v as i128, sext(w, v))).unzip();
        let span = |t: &[i128]| t.iter().max().unwrap() - t.iter().min().unwrap();
        return Some(Sep { c: 0, t: [(l, if span(&s) < span(&u) { s } else { u })].into_iter().collect() });
    }
    let zero = Sep { c: 0, t: Default::default() };
    match n.op {
        Op::Add => sep(n.a, budget)?.combine(sep(n.b, budget)?, 1),
        Op::Sub => sep(n.a, budget)?.combine(sep(n.b, budget)?, -1),
        Op::Mul => { let (x, k) = if let Some(k) = tm().cval(n.b) { (n.a, k) } else { (n.b, tm().cval(n.a)?) }; zero.combine(sep(x, budget)?, sext(w, k)) }
        Op::Shl => { let k = tm().cval(n.b)?; if k >= w as u128 { return None; } zero.combine(sep(n.a, budget)?, 1 << k) }
        Op::ZExt => { let wa = tm().w(n.a); sep(n.a, budget)?.exact(wa) }
        Op::Extract if n.b == 0 => sep(n.a, budget),
        _ => None,
    }
}
fn strip(mut t: T) -> T {
    loop {
        let n = tm().n(t);
        match n.op { Op::ZExt => t = n.a, Op::Extract if n.b == 0 && tm().hi(n.a) <= ones(n.w) => t = n.a, _ => return t }
    }
}
/// "a differs from b" where both are sums (or remainders of sums) of functions of one leaf each
fn separable(pc: &[T]) -> bool {
    if pc.len() != 1 { return false; }
    let n = tm().n(pc[0]);
    if n.op != Op::Xor { return false; }
    let e = if tm().cval(n.b) == Some(1) { n.a } else if tm().cval(n.a) == Some(1) { n.b } else { return false };
    let n = tm().n(e);
    if n.op != Op::Eq { return false; }
    let (a, b) = (strip(n.a), strip(n.b));
    if leaves(&tm().cone(&[a, b])).len() > 8 { return false; }
    let (na, nb) = (tm().n(a), tm().n(b));
    let go = |x: T| -> Option<Sep> { sep(x, &mut 200)?.exact(tm().w(x)) };
    let (m, x, y) = if na.op == Op::URem && nb.op == Op::URem && tm().cval(na.b).is_some() && tm().cval(na.b) == tm().cval(nb.b) { (tm().cval(na.b).unwrap() as i128, go(na.a), go(nb.a)) } else { (0, go(a), go(b)) };
    let (Some(x), Some(y)) = (x, y) else { return false };
    let Some(d) = x.combine(y, -1) else { return false };
    let red = |v: i128| if m > 0 { v.rem_euclid(m) } else { v };
    let mut c = d.c;
    for t in d.t.values() {
        let k = red(t[0]);
        if t.iter().any(|&v| red(v) != k) { return false; }
        c += k;
    }
    red(c) == 0
}

fn bv(w: u16, v: u128) -> String { format!("(_ bv{} {})", v, w) }

pub fn to_smt(pc: &[T], cone: &[T]) -> String {
    let mut s = String::new();
    let nm = |t: T| -> String { match tm().n(t).op { Op::Const => bv(tm().w(t), tm().consts[tm().n(t).a as usize]), _ => format!("t{}", t) } };
    for &t in cone {
        let n = tm().n(t);
        if n.op == Op::Const { continue; }
        if matches!(n.op, Op::Var | Op::App) {
            s.push_str(&format!("(declare-const t{} (_ BitVec {}))\n", t, n.w));
            let (lo, hi) = (tm().lo(t), tm().hi(t));
            if lo > 0 { s.push_str(&format!("(assert (bvuge t{} {}))\n", t, bv(n.w, lo))); }
            if hi < ones(n.w) { s.push_str(&format!("(assert (bvule t{} {}))\n", t, bv(n.w, hi))); }
            if let Some((sl, sh)) = tm().srng.get(&t) { s.push_str(&format!("(assert (bvsge t{} {}))\n(assert (bvsle t{} {}))\n", t, bv(n.w, mask(n.w, *sl as u128)), t, bv(n.w, mask(n.w, *sh as u128)))); }
            continue;
        }
        let (a, b, c) = { let (ch, k) = tm().children(t); (if k > 0 { nm(ch[0]) } else { String::new() }, if k > 1 { nm(ch[1]) } else { String::new() }, if k > 2 { nm(ch[2]) } else { String::new() }) };
        let w0 = { let (ch, k) = tm().children(t); if k > 0 { tm().w(ch[0]) } else { 0 } };
        let b2 = |x: String| format!("(ite {} #b1 #b0)", x);
        let e = match n.op {
            Op::Add => format!("(bvadd {} {})", a, b), Op::Sub => format!("(bvsub {} {})", a, b), Op::Mul => format!("(bvmul {} {})", a, b),
            Op::And => format!("(bvand {} {})", a, b), Op::Or => format!("(bvor {} {})", a, b), Op::Xor => format!("(bvxor {} {})", a, b),
            Op::Shl => format!("(bvshl {} {})", a, b), Op::LShr => format!("(bvlshr {} {})", a, b), Op::AShr => format!("(bvashr {} {})", a, b),
            Op::UDiv => format!("(bvudiv {} {})", a, b), Op::URem => format!("(bvurem {} {})", a, b), Op::SDiv => format!("(bvsdiv {} {})", a, b), Op::SRem => format!("(bvsrem {} {})", a, b),
            Op::ZExt => format!("((_ zero_extend {}) {})", n.w - w0, a), Op::SExt => format!("((_ sign_extend {}) {})", n.w - w0, a),
            Op::Extract => format!("((_ extract {} {}) {})", n.b as u16 + n.w - 1, n.b, a),
            Op::Concat => format!("(concat {} {})", a, b),
            Op::Eq => b2(format!("(= {} {})", a, b)), Op::Ult => b2(format!("(bvult {} {})", a, b)), Op::Slt => b2(format!("(bvslt {} {})", a, b)),
            Op::Ite => format!("(ite (= {} #b1) {} {})", a, b, c),
            Op::SMin => format!("(ite (bvsle {} {}) {} {})", a, b, a, b), Op::SMax => format!("(ite (bvsge {} {}) {} {})", a, b, a, b),
            Op::Const | Op::Var | Op::App => unreachable!(),
        };
        s.push_str(&format!("(define-fun t{} () (_ BitVec {}) {})\n", t, n.w, e));
    }
    for p in pc { s.push_str(&format!("(assert (= {} #b1))\n", nm(*p))); }
    s
}

fn z3(pc: &[T], cone: &[T], lv: &[T]) -> Cached {
    let t0 = std::time::Instant::now();
    // give up sooner once the solver has failed repeatedly
    let ms = match smt().stats.smt_unknown { 0..=2 => 20000, 3..=9 => 4000, _ => 1000 };
    if smt().stats.smt_unknown > 20 && cone.len() > 200 { smt().stats.smt_unknown += 1; return Cached::Unknown; }
    let q = format!("(reset)\n(set-option :print-success false)\n(set-option :timeout {})\n(set-logic QF_BV)\n{}(check-sat)\n(echo \"done\")\n", ms, to_smt(pc, cone));
    let st = smt();
    st.stats.smt_queries += 1;
    if st.z3.is_none() {
        let bin = if std::path::Path::new("/usr/local/bin/z3-new").exists() { "/usr/local/bin/z3-new" } else { "z3" };
        if let Ok(mut c) = Command::new(bin).args(["-in", "-smt2"]).stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::null()).spawn() {
            let i = c.stdin.take().unwrap();
            let o = BufReader::new(c.stdout.take().unwrap());
            st.z3 = Some((c, i, o));
        } else { return Cached::Unknown; }
    }
    if std::env::var("IRV_DUMP").is_ok() { let _ = std::fs::write(format!("/tmp/q{}.smt2", st.stats.smt_queries), &q); }
    let ans = ask(&q);
    let r = match ans.iter().find(|l| l.as_str() == "sat" || l.as_str() == "unsat" || l.as_str() == "unknown").map(|s| s.as_str()) {
        Some("unsat") if !ans.iter().any(|l| l.contains("error")) => { st.stats.smt_unsat += 1; Cached::Unsat("z3") }
        Some("sat") => {
            st.stats.smt_sat += 1;
            let names: Vec<String> = lv.iter().map(|l| format!("t{}", l)).collect();
            let mut vals = vec![];
            for ch in names.chunks(64) {
                let out = ask(&format!("(get-value ({}))\n(echo \"done\")\n", ch.join(" "))).join(" ");
                for n in ch { vals.push(find_val(&out, n).unwrap_or(0)); }
            }
            Cached::Sat(vals)
        }
        _ => { st.stats.smt_unknown += 1; Cached::Unknown }
    };
    st.stats.smt_ms += t0.elapsed().as_millis() as u64;
    r
}
fn find_val(s: &str, n: &str) -> Option<u128> {
    let p = s.find(&format!("({} ", n))? + n.len() + 2;
    let e = s[p..].find(')')? + p;
    let v = s[p..e].trim();
    if let Some(x) = v.strip_prefix("#x") { u128::from_str_radix(x, 16).ok() } else if let Some(x) = v.strip_prefix("#b") { u128::from_str_radix(x, 2).ok() } else { None }
}
fn ask(q: &str) -> Vec<String> {
    let st = smt();
    let mut out = vec![];
    if let Some((_, i, o)) = &mut st.z3 {
        if i.write_all(q.as_bytes()).is_err() { st.z3 = None; return out; }
        let _ = i.flush();
        loop {
            let mut l = String::new();
            match o.read_line(&mut l) { Ok(0) | Err(_) => { st.z3 = None; break; } _ => {} }
            let l = l.trim().to_string();
            if l == "done" { break; }
            out.push(l);
        }
    }
    out
}

/// Is the boolean term constant over the declared domains (cheap attempt)?
pub fn quick_const(c: T) -> Option<bool> {
    let cone = tm().cone(&[c]);
    if cone.len() > 400 { return None; }
    // two random evaluations usually settle that it is not constant
    let mut r = Rng(7);
    let (mut s0, mut s1) = (false, false);
    for _ in 0..16 {
        let mut val: FMap<T, u128> = Default::default();
        tm().eval_cone(&cone, &mut val, &mut |t| rand_leaf(&mut r, t));
        if val[&c] == 1 { s1 = true } else { s0 = true }
        if s0 && s1 { return None; }
    }
    let q = if s1 { tm().not(c) } else { c };
    match unsat(&[q]) { ObStatus::Proved(_) => Some(s1), _ => None }
}
