//! Equality proofs between code terms and specification terms.
use crate::exec::ObStatus;
use crate::nf::*;
use crate::smt::*;
use crate::term::*;
use std::collections::HashMap;
use std::rc::Rc;

pub type Model = Rc<HashMap<T, u128>>;

/// evaluate both sequences on random inputs; a difference refutes
pub fn refute(pairs: &[(T, T)], trials: usize, seed: u64) -> Option<(usize, Model)> {
    let roots: Vec<T> = pairs.iter().flat_map(|p| [p.0, p.1]).collect();
    for k in 0..trials {
        let mut r = Rng(seed.wrapping_mul(0x1000_0001).wrapping_add(k as u64 * 77 + 5));
        // shapes: plain random, all leaves at a corner, sparse
        let shape = k % 4;
        let mut model: HashMap<T, u128> = HashMap::new();
        let vals = {
            let mut leaf = |t: T| -> u128 {
                let (lo, hi) = (tm().lo(t), tm().hi(t));
                let sr = tm().srng.get(&t).copied();
                let v = match shape {
                    1 => if r.next() % 16 == 0 { rand_leaf(&mut r, t) } else { lo },
                    2 => if r.next() % 16 == 0 { rand_leaf(&mut r, t) } else { hi },
                    3 => if hi - lo > 255 { lo + (r.next() as u128) % 256 } else { rand_leaf(&mut r, t) },
                    _ => if hi == !0 && lo == 0 { ((r.next() as u128) << 64) | r.next() as u128 } else { lo + r.below(hi - lo + 1) },
                };
                let v = match sr { Some((sl, sh)) => { let x = sext(tm().w(t), v); if x < sl || x > sh { mask(tm().w(t), (sl + (r.below((sh - sl + 1) as u128)) as i128) as u128) } else { v } } None => v };
                model.insert(t, v);
                v
            };
            let mut e = Evalr::new(&mut leaf);
            e.eval(&roots)
        };
        let vals = vals?;
        for i in 0..pairs.len() { if vals[2 * i] != vals[2 * i + 1] { return Some((i, Rc::new(model))); } }
    }
    None
}

/// inputs that differ from a constant one in a single variable
pub fn refute_single(a: T, b: T, seed: u64) -> Option<Model> {
    let cone = tm().cone(&[a, b]);
    let vars: Vec<T> = cone.iter().copied().filter(|&x| tm().n(x).op == Op::Var).collect();
    if cone.len() * vars.len() > 40_000_000 || cone.iter().any(|&x| tm().n(x).op == Op::App) { return None; }
    let mut r = Rng(seed ^ 0x51);
    for base in 0..2 {
        let at = |t: T| if base == 0 { tm().lo(t) } else { tm().lo(t) + (t as u128 * 0x9e37_79b9 >> 20 & 1).min(tm().hi(t) - tm().lo(t)) };
        for &x in &vars {
            for k in 0..2 {
                let v = if k == 0 { rand_leaf(&mut r, x) } else { tm().lo(x) + r.below(4.min(tm().hi(x) - tm().lo(x)) + 1) };
                let mut val: FMap<T, u128> = Default::default();
                tm().eval_cone(&cone, &mut val, &mut |t| if t == x { v } else { at(t) });
                if val[&a] != val[&b] { return Some(Rc::new(vars.iter().map(|&t| (t, if t == x { v } else { at(t) })).collect())); }
            }
        }
    }
    None
}

/// does the given assignment of variables really distinguish a and b (applications evaluated)?
pub fn confirm(a: T, b: T, m: &HashMap<T, u128>) -> Option<Model> {
    let mut model: HashMap<T, u128> = HashMap::new();
    let v = {
        let mut leaf = |t: T| -> u128 { let v = m.get(&t).copied().unwrap_or(tm().lo(t)); model.insert(t, v); v };
        let mut e = Evalr::new(&mut leaf);
        e.eval(&[a, b])
    }?;
    if v[0] != v[1] { Some(Rc::new(model)) } else { None }
}

fn has_app(t: T, u: T) -> bool { tm().cone(&[t, u]).iter().any(|&x| tm().n(x).op == Op::App) }

pub fn smt_eq(a: T, b: T, lim: usize) -> ObStatus {
    let n = tm().cone(&[a, b]).len();
    if n > lim { return ObStatus::Unknown(format!("{} nodes", n)); }
    let e = tm().ne(a, b);
    match unsat(&[e]) {
        ObStatus::Refuted(m) => {
            if !has_app(a, b) { return ObStatus::Refuted(m); }
            match confirm(a, b, &m) { Some(m) => ObStatus::Refuted(m), None => ObStatus::Unknown("candidate counterexample not confirmed".into()) }
        }
        s => s,
    }
}

// ---- congruence: applications of one function to provably equal arguments ----

#[derive(Default)]
struct Cong { alias: HashMap<(u32, u32), u32>, differ: std::collections::HashSet<(u32, u32)>, depth: usize }
static mut CG: *mut Cong = std::ptr::null_mut();
fn cong() -> &'static mut Cong { unsafe { if CG.is_null() { CG = Box::into_raw(Box::default()); } &mut *CG } }

fn apps(t: T) -> std::collections::BTreeSet<(u32, u32)> { tm().cone(&[t]).iter().filter_map(|&x| { let n = tm().n(x); if n.op == Op::App { Some((n.b, n.a)) } else { None } }).collect() }

/// replace applications by their representatives
fn norm_apps(t: T) -> T {
    if cong().alias.is_empty() { return t; }
    let mut map: FMap<T, T> = Default::default();
    for x in tm().cone(&[t]) {
        let n = tm().n(x);
        if n.op != Op::App { continue; }
        let mut a = n.b;
        while let Some(&b) = cong().alias.get(&(n.a, a)) { a = b; }
        if a != n.b { let (lo, hi) = (tm().lo(x), tm().hi(x)); let y = tm().app(n.a, a, n.c, n.w, lo, hi); if let Some(s) = tm().srng.get(&x).copied() { tm().srng.insert(y, s); } map.insert(x, y); }
    }
    if map.is_empty() { t } else { subst(t, &map) }
}

fn same_args(f: u32, x: u32, y: u32) -> bool {
    let (ax, ay) = (tm().argl[x as usize].clone(), tm().argl[y as usize].clone());
    if same_list(&ax, &ay) { return true; }
    if tm().fnames[f as usize] == "conv" && ay.len() == 3 { // lemma conv_comm
        return same_list(&ax, &vec![ay[0].clone(), ay[2].clone(), ay[1].clone()]);
    }
    false
}
fn same_list(ax: &[Arg], ay: &[Arg]) -> bool {
    if ax.len() != ay.len() { return false; }
    let mut pairs = vec![];
    for (p, q) in ax.iter().zip(ay.iter()) {
        match (p, q) {
            (Arg::Int(a), Arg::Int(b)) => pairs.push((*a, *b)),
            (Arg::Seq(a), Arg::Seq(b)) => { let (a, b) = (tm().seqs[*a as usize].clone(), tm().seqs[*b as usize].clone()); if a.len() != b.len() { return false; } pairs.extend(a.iter().copied().zip(b.iter().copied())); }
            _ => return false,
        }
    }
    pairs.retain(|p| p.0 != p.1);
    if refute(&pairs, 2, 11).is_some() { return false; }
    pairs.iter().all(|&(a, b)| matches!(prove_eq(a, b), ObStatus::Proved(_)))
}

/// identify applications occurring on one side only with applications on the other side
fn congruence(a: T, b: T) -> bool {
    let (sa, sb) = (apps(a), apps(b));
    if sa.is_empty() || sb.is_empty() { return false; }
    let (oa, ob): (Vec<_>, Vec<_>) = (sa.difference(&sb).copied().collect(), sb.difference(&sa).copied().collect());
    if oa.len() * ob.len() > 4096 || cong().depth > 40 { return false; }
    let mut any = false;
    cong().depth += 1;
    for &(x, f) in &oa {
        for &(y, g) in &ob {
            if f != g { continue; }
            let k = (x.min(y), x.max(y));
            if cong().differ.contains(&k) { continue; }
            if cong().alias.contains_key(&(f, k.1)) { continue; }
            if same_args(f, x, y) { cong().alias.insert((f, k.1), k.0); any = true; break; } else { cong().differ.insert(k); }
        }
    }
    cong().depth -= 1;
    any
}

pub fn prove_eq(a: T, b: T) -> ObStatus {
    let (a, b) = (norm_apps(a), norm_apps(b));
    if a == b { smt().stats.syntactic += 1; return ObStatus::Proved("syntactic"); }
    if nf().eq(a, b) { smt().stats.nf += 1; return ObStatus::Proved("normal form"); }
    if congruence(a, b) { return match prove_eq(a, b) { ObStatus::Proved("syntactic") => ObStatus::Proved("congruence"), s => s }; }
    let s1 = smt_eq(a, b, 3000);
    if !matches!(s1, ObStatus::Unknown(_)) { return s1; }
    if let Some(r) = or_form(a, b) { return r; }
    match abstract_eq(a, b) { ObStatus::Proved(_) => return ObStatus::Proved("normal form + z3"), _ => {} }
    s1
}

/// replace subterms by others
pub fn subst(t: T, map: &FMap<T, T>) -> T {
    let mut memo: FMap<T, T> = Default::default();
    let mut st = vec![(t, false)];
    while let Some((x, done)) = st.pop() {
        if memo.contains_key(&x) { continue; }
        if let Some(&y) = map.get(&x) { memo.insert(x, y); continue; }
        let (ch, k) = tm().children(x);
        if k == 0 { memo.insert(x, x); continue; }
        if !done { st.push((x, true)); for c in &ch[..k] { if !memo.contains_key(c) { st.push((*c, false)); } } continue; }
        let mut nc = ch;
        for i in 0..k { nc[i] = memo[&ch[i]]; }
        let y = if nc == ch { x } else { let n = tm().n(x); tm().rebuild(&n, &nc) };
        memo.insert(x, y);
    }
    memo[&t]
}

fn gcd(a: i128, b: i128) -> i128 { let (mut a, mut b) = (a.abs(), b.abs()); while b != 0 { let t = a % b; a = b; b = t; } a }
/// constant, content, primitive part
fn primitive(p: &Poly) -> (i128, i128, Poly) {
    let mut d = 0;
    let mut g = 0;
    for &(k, c) in p.iter() { if k == 0 { d = c } else { g = gcd(g, c) } }
    if g == 0 { return (d, 0, Rc::new(vec![])); }
    if let Some(&(_, c)) = p.iter().find(|x| x.0 != 0) { if c < 0 { g = -g; } }
    (d, g, Rc::new(p.iter().filter(|x| x.0 != 0).map(|&(k, c)| (k, c / g)).collect()))
}

/// maximal subterms worth replacing by a variable
fn candidates(root: T) -> Vec<T> {
    let cone = tm().cone(&[root]);
    let mut inner: FSet<T> = Default::default(); // additive nodes below an additive node
    for &t in &cone {
        let n = tm().n(t);
        if matches!(n.op, Op::Add | Op::Sub) { for c in [n.a, n.b] { if matches!(tm().n(c).op, Op::Add | Op::Sub) { inner.insert(c); } } }
        if n.op == Op::Or { for c in [n.a, n.b] { if tm().n(c).op == Op::Or { inner.insert(c); } } }
    }
    cone.into_iter().filter(|t| { let n = tm().n(*t); !inner.contains(t) && matches!(n.op, Op::Add | Op::Sub | Op::Mul | Op::URem | Op::UDiv | Op::And | Op::Extract | Op::LShr | Op::Shl | Op::Ite | Op::Xor) && n.w <= 64 && n.w > 1 }).collect()
}

fn abstract_eq(a: T, b: T) -> ObStatus {
    let (ca, cb) = (candidates(a), candidates(b));
    if ca.len() + cb.len() > 20_000 { return ObStatus::Unknown("too large".into()); }
    let mut prim: FMap<T, (i128, i128, Poly)> = Default::default();
    let mut sets: [std::collections::HashSet<Poly>; 2] = Default::default();
    for (s, l) in [&ca, &cb].iter().enumerate() {
        for &t in l.iter() {
            let p = nf().int(t);
            let pr = primitive(&p);
            if pr.1 == 0 { continue; }
            sets[s].insert(pr.2.clone());
            prim.insert(t, pr);
        }
    }
    // range of each primitive part: from the normal form and from every term it occurs in
    let mut rng: HashMap<Poly, (i128, i128)> = HashMap::new();
    for (t, (d, g, q)) in prim.iter() {
        let r = rng.entry(q.clone()).or_insert_with(|| nf().range(q).unwrap_or((i128::MIN / 4, i128::MAX / 4)));
        if tm().hi(*t) > i64::MAX as u128 { continue; }
        let (x, y) = (tm().lo(*t) as i128 - d, tm().hi(*t) as i128 - d);
        let (x, y) = if *g > 0 { (-((-x).div_euclid(*g)), y.div_euclid(*g)) } else { (-(y.div_euclid(-*g)), (-x).div_euclid(-*g)) };
        r.0 = r.0.max(x);
        r.1 = r.1.min(y);
    }
    let mut vars: HashMap<Poly, T> = HashMap::new();
    let mut map: FMap<T, T> = Default::default();
    for &t in ca.iter().chain(cb.iter()) {
        if let Some((d, g, q)) = prim.get(&t) {
            if !(sets[0].contains(q) && sets[1].contains(q)) { continue; }
            let (lo, hi) = rng[q];
            if lo > hi { continue; }
            if lo < -(1 << 60) || hi > (1 << 60) || g.abs() > 1 << 30 || (g.abs() * (hi - lo)) > 1 << 62 { continue; }
            let v = *vars.entry(q.clone()).or_insert_with(|| {
                let v = tm().var("abs", 64, if lo >= 0 { lo as u128 } else { 0 }, if lo >= 0 { hi as u128 } else { ones(64) }, false, 0);
                if lo < 0 { tm().srng.insert(v, (lo, hi)); }
                v
            });
            let gc = tm().cst(64, *g as u128);
            let dc = tm().cst(64, *d as u128);
            let m = tm().mul(v, gc);
            let s = tm().add(m, dc);
            let w = tm().w(t);
            let r = tm().extract(s, 0, w);
            map.insert(t, r);
        }
    }
    if map.is_empty() { return ObStatus::Unknown("nothing to abstract".into()); }
    let (a2, b2) = (subst(a, &map), subst(b, &map));
    if std::env::var("IRV_DEBUG").is_ok() { eprintln!("abs {} vs {} vars={} sets {} {} cone {}", tm().show(a2, 8), tm().show(b2, 8), vars.len(), sets[0].len(), sets[1].len(), tm().cone(&[a2, b2]).len()); for (q, v) in vars.iter().take(4) { eprintln!("  {} len {} {:?} rng {:?}", tm().show(*v, 1), q.len(), &q[..q.len().min(4)], rng[q]); } }
    if a2 == b2 { return ObStatus::Proved("syntactic"); }
    if tm().cone(&[a2, b2]).len() > 3000 { return ObStatus::Unknown("too large".into()); }
    let e = tm().ne(a2, b2);
    unsat(&[e])
}

// ---- existential (OR) forms: "some element satisfies a predicate" ----

/// t as a set of (leaf, accepted values) plus residual conditions; None if not of that form
fn or_leaves(t: T, out: &mut Vec<T>) {
    let mut st = vec![t];
    let mut seen: FSet<T> = Default::default();
    while let Some(x) = st.pop() {
        if !seen.insert(x) { continue; }
        let n = tm().n(x);
        if n.op == Op::Or { st.push(n.a); st.push(n.b); continue; }
        if n.op == Op::ZExt { st.push(n.a); continue; }
        out.push(x);
    }
}
#[derive(PartialEq, Eq, Debug)]
struct OrForm { tabs: std::collections::BTreeMap<T, Vec<bool>>, rest: std::collections::BTreeSet<Poly> }
fn nonzero_form(ts: &[T]) -> Option<OrForm> {
    let mut f = OrForm { tabs: Default::default(), rest: Default::default() };
    for &t in ts {
        let cone = tm().cone(&[t]);
        let lv: Vec<T> = cone.iter().copied().filter(|&x| matches!(tm().n(x).op, Op::Var | Op::App)).collect();
        if lv.len() == 1 && tm().hi(lv[0]) - tm().lo(lv[0]) < 1 << 17 {
            let tb = table(t, lv[0])?;
            let e = f.tabs.entry(lv[0]).or_insert_with(|| vec![false; tb.len()]);
            for (i, v) in tb.iter().enumerate() { if *v != 0 { e[i] = true; } }
        } else if tm().cval(t).is_some() { if tm().cval(t) != Some(0) { return None; } }
        else { f.rest.insert(nf().int(t)); }
    }
    f.tabs.retain(|_, v| v.iter().any(|b| *b));
    Some(f)
}
/// t is 1 exactly when (polarity) some of the returned terms is nonzero
fn as_exists(t: T) -> Option<(Vec<T>, bool)> {
    // walk single cuts from the top until an Or node
    let mut fr: std::collections::BTreeSet<T> = Default::default();
    fr.insert(t);
    for _ in 0..40 {
        let x = *fr.iter().next_back()?;
        if fr.len() == 1 && tm().n(x).op == Op::Or {
            let w = tm().w(x);
            let v = tm().var("or", w, tm().lo(x), tm().hi(x), false, 0);
            let mut m: FMap<T, T> = Default::default();
            m.insert(x, v);
            let t2 = subst(t, &m);
            let z = tm().cst(w, 0);
            let nz = tm().ne(v, z);
            let tw = tm().w(t);
            for pol in [true, false] {
                let c = if pol { nz } else { tm().not(nz) };
                let c = tm().zext(c, tw);
                let e = tm().ne(t2, c);
                if let ObStatus::Proved(_) = unsat(&[e]) { let mut l = vec![]; or_leaves(x, &mut l); return Some((l, pol)); }
            }
            return None;
        }
        let (ch, k) = tm().children(x);
        if k == 0 { return None; }
        fr.remove(&x);
        for c in &ch[..k] { if tm().cval(*c).is_none() { fr.insert(*c); } }
        if fr.len() > 6 { return None; }
    }
    None
}
fn or_form(a: T, b: T) -> Option<ObStatus> {
    let (la, pa) = as_exists(a)?;
    let (lb, pb) = as_exists(b)?;
    if pa != pb { return None; }
    let (fa, fb) = (nonzero_form(&la)?, nonzero_form(&lb)?);
    if fa == fb { Some(ObStatus::Proved("table")) } else { None }
}
