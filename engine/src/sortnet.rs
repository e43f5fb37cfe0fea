//! Sorting functions: compare-exchange recognition and verification of merge passes.
//!
//! Every 32-bit value stored while the function runs is a term over at most two wires
//! (entries of the array, or results of earlier compare-exchanges).  Terms are recognised
//! as the minimum or the maximum of the two wires by the solver, so the final array is a
//! comparator network over the entry values.  The network is split into passes by the
//! power of two dividing the distance of the compared positions; a pass with distance
//! 2^k*odd must turn an array whose residue classes modulo 2^(k+1) are sorted into one
//! whose classes modulo 2^k are sorted.  By the 0-1 principle this is decided by all
//! pairs (s,t) of numbers of ones in the two classes that are merged.
use crate::contracts::*;
use crate::exec::*;
use crate::term::*;
use std::collections::{BTreeMap, HashMap};

#[derive(Clone, Copy, PartialEq)]
enum Kind { Min, Max, A, B, Other }

static mut CACHE: Option<HashMap<Vec<u64>, Kind>> = None;
static mut SEEN: Option<FMap<T, T>> = None;
pub static mut NCANON: u64 = 0;
pub static mut NQUERY: u64 = 0;

fn is_wire(t: T) -> bool { let n = tm().n(t); tm().w(t) == 32 && matches!(n.op, Op::Var | Op::SMin | Op::SMax | Op::App) || (n.op == Op::Extract && tm().n(n.a).op == Op::App) }

/// terms below t down to wires; None when there are more than two wires
fn frontier(t: T) -> Option<(Vec<T>, Vec<T>)> {
    let mut wires: Vec<T> = vec![];
    let mut seen: FSet<T> = Default::default();
    let mut st = vec![t];
    let mut inner = vec![];
    while let Some(x) = st.pop() {
        if !seen.insert(x) { continue; }
        if x != t && is_wire(x) || tm().n(x).op == Op::Var { if !wires.contains(&x) { wires.push(x); } if wires.len() > 2 { return None; } continue; }
        inner.push(x);
        if inner.len() > 200 { return None; }
        let (c, n) = tm().children(x);
        for k in (0..n).rev() { st.push(c[k]); }
    }
    inner.sort();
    Some((inner, wires))
}

/// replace a recognised minimum or maximum by its node
pub fn canon(t: T) -> T {
    if tm().w(t) != 32 || is_wire(t) { return t; }
    unsafe { if SEEN.is_none() { SEEN = Some(Default::default()); CACHE = Some(HashMap::new()); } }
    let seen = unsafe { SEEN.as_mut().unwrap() };
    if let Some(&r) = seen.get(&t) { return r; }
    let r = canon1(t);
    seen.insert(t, r);
    r
}
fn canon1(t: T) -> T {
    let (inner, wires) = match frontier(t) { Some(x) => x, None => return t };
    if wires.len() != 2 || wires.iter().any(|w| tm().w(*w) != 32) { return t; }
    let (a, b) = (wires[0], wires[1]);
    let mut ix: FMap<T, u64> = Default::default();
    ix.insert(a, 0);
    ix.insert(b, 1);
    let mut key = vec![];
    for x in &inner {
        let k = ix.len() as u64;
        let n = tm().n(*x);
        key.push(((n.op as u64) << 16) | n.w as u64);
        if let Some(c) = tm().cval(*x) { key.push(c as u64); } else {
            let (c, m) = tm().children(*x);
            for q in 0..m { key.push(ix[&c[q]]); }
            if n.op == Op::Extract { key.push(n.b as u64); }
        }
        ix.insert(*x, k);
    }
    let cache = unsafe { CACHE.as_mut().unwrap() };
    let kind = match cache.get(&key) { Some(k) => *k, None => { let k = classify(t, a, b, &inner); cache.insert(key, k); k } };
    if kind != Kind::Other { unsafe { NCANON += 1; } }
    match kind { Kind::Min => tm().smin(a, b), Kind::Max => tm().smax(a, b), Kind::A => a, Kind::B => b, Kind::Other => t }
}
fn classify(t: T, a: T, b: T, inner: &[T]) -> Kind {
    let x = tm().var("wire.a", 32, 0, ones(32), false, 0);
    let y = tm().var("wire.b", 32, 0, ones(32), false, 0);
    let mut map: FMap<T, T> = Default::default();
    map.insert(a, x);
    map.insert(b, y);
    for i in inner {
        let n = tm().n(*i);
        if n.op == Op::Const { map.insert(*i, *i); continue; }
        let (c, m) = tm().children(*i);
        let mut ch = [0; 3];
        for k in 0..m { ch[k] = map[&c[k]]; }
        let r = tm().rebuild(&n, &ch);
        map.insert(*i, r);
    }
    let s = map[&t];
    let lt = tm().slt(x, y);
    let (mn, mx) = (tm().ite(lt, x, y), tm().ite(lt, y, x));
    for (k, v) in [(Kind::Min, mn), (Kind::Max, mx), (Kind::A, x), (Kind::B, y)] {
        if s == v { return k; }
        // quick disproof on samples
        let mut bad = false;
        for (p, q) in [(1u128, 2u128), (2, 1), (0x7fff_ffff, 0x8000_0000), (0x8000_0000, 0x7fff_ffff), (5, 5), (0xffff_fff0, 3), (0x8000_0001, 0xffff_ffff)] {
            let mut leaf = |l: T| if l == x { p } else { q };
            let mut e = crate::smt::Evalr::new(&mut leaf);
            if let Some(r) = e.eval(&[s, v]) { if r[0] != r[1] { bad = true; break; } }
        }
        if bad { continue; }
        unsafe { NQUERY += 1; }
        let ne = tm().ne(s, v);
        if let ObStatus::Proved(_) = crate::smt::unsat(&[ne]) { return k; }
    }
    Kind::Other
}

struct Net { n: usize, ops: Vec<(usize, usize)> }

/// read the comparator network off the final terms
fn network(ent: &[T], fin: &[T]) -> Result<Net, String> {
    let mut nodes: Vec<T> = tm().cone(fin).into_iter().filter(|t| matches!(tm().n(*t).op, Op::SMin | Op::SMax)).collect();
    nodes.sort();
    let mut pos: FMap<T, usize> = Default::default();
    for (i, t) in ent.iter().enumerate() { pos.insert(*t, i); }
    let mut ops = vec![];
    let mut done: FSet<(T, T)> = Default::default();
    for t in nodes {
        let n = tm().n(t);
        let (a, b) = (n.a.min(n.b), n.a.max(n.b));
        if !done.insert((a, b)) { continue; }
        let (i, j) = match (pos.get(&a), pos.get(&b)) { (Some(i), Some(j)) => (*i, *j), _ => return Err("value compared after it was consumed".into()) };
        pos.remove(&a);
        pos.remove(&b);
        let (lo, hi) = (i.min(j), i.max(j));
        let (mn, mx) = (tm().smin(a, b), tm().smax(a, b));
        pos.insert(mn, lo);
        pos.insert(mx, hi);
        ops.push((lo, hi));
    }
    for (i, t) in fin.iter().enumerate() { if pos.get(t) != Some(&i) { return Err(format!("element {} is not the result of a compare-exchange network: {}", i, tm().show(*t, 4))); } }
    Ok(Net { n: ent.len(), ops })
}

/// run 64 0-1 inputs at once
fn run64(ops: &[(usize, usize)], v: &mut [u64]) { for &(i, j) in ops { let (a, b) = (v[i], v[j]); v[i] = a & b; v[j] = a | b; } }

fn sorted_fail(v: &[u64], ix: &[usize]) -> u64 { let mut bad = 0; for w in ix.windows(2) { bad |= v[w[0]] & !v[w[1]]; } bad }

/// Ok(number of cases) or a 0-1 input that is not sorted
fn passes(net: &Net) -> Result<Vec<(usize, u64)>, Result<Vec<u8>, String>> {
    let n = net.n;
    let mut out = vec![];
    let mut k = 0;
    let mut stride = 1usize;
    while stride < n { stride *= 2; } // classes modulo stride are single elements
    while stride > 1 {
        let p = stride / 2;
        let st = k;
        while k < net.ops.len() && (net.ops[k].1 - net.ops[k].0) % p == 0 && ((net.ops[k].1 - net.ops[k].0) / p) % 2 == 1 { k += 1; }
        let ops = &net.ops[st..k];
        let mut cases = 0u64;
        for r in 0..p.min(n) {
            let ix: Vec<usize> = (r..n).step_by(p).collect();
            let mine: Vec<(usize, usize)> = ops.iter().filter(|o| o.0 % p == r).map(|o| (o.0 / p, o.1 / p)).collect();
            let ev = (ix.len() + 1) / 2;
            let od = ix.len() / 2;
            let all: Vec<(usize, usize)> = (0..=ev).flat_map(|s| (0..=od).map(move |t| (s, t))).collect();
            let local: Vec<usize> = (0..ix.len()).collect();
            for ch in all.chunks(64) {
                let mut v = vec![0u64; ix.len()];
                for (b, (s, t)) in ch.iter().enumerate() { for i in 0..ev { if i >= ev - s { v[2 * i] |= 1 << b; } } for i in 0..od { if i >= od - t { v[2 * i + 1] |= 1 << b; } } }
                run64(&mine, &mut v);
                let bad = sorted_fail(&v, &local);
                if bad != 0 {
                    let (s, t) = ch[bad.trailing_zeros() as usize];
                    let mut inp = vec![0u8; n];
                    for i in 0..ev { if i >= ev - s { inp[ix[2 * i]] = 1; } }
                    for i in 0..od { if i >= od - t { inp[ix[2 * i + 1]] = 1; } }
                    // confirm on the whole network
                    let mut w: Vec<u64> = inp.iter().map(|x| *x as u64).collect();
                    run64(&net.ops, &mut w);
                    if w.windows(2).any(|x| x[0] > x[1]) { return Err(Ok(inp)); }
                    return Err(Err(format!("pass with distance {} does not merge class {} (s={}, t={})", p, r, s, t)));
                }
                cases += ch.len() as u64;
            }
        }
        out.push((p, cases));
        stride = p;
    }
    if k != net.ops.len() {
        // comparators after the last pass act on a sorted array: they change nothing
    }
    Ok(out)
}

pub fn verify(ex: &mut Ex, c: &Contract, sym: &str) -> Result<Verdict, String> {
    let mut v = Verdict::default();
    ex.reset();
    unsafe { SEEN = None; CACHE = None; NCANON = 0; NQUERY = 0; }
    let s = setup(ex, c, sym, 0)?;
    ex.sortmode = true;
    let own = ex.hooks.remove(sym);
    let r = ex.run(sym, &s.args);
    if let Some(h) = own { ex.hooks.insert(sym.to_string(), h); }
    ex.sortmode = false;
    let side = side_obs(ex, c, &s);
    let ret = match r.map_err(err) { Ok(Some(x)) => x, Ok(None) => return Err("every path panics".into()), Err(e) => { v.obs.extend(side); v.error = Some(e); return Ok(v); } };
    let _ = ret;
    let (_, ptr, ent) = s.places[0].clone();
    let fin: Vec<T> = ex.read_seq(&ptr, ent.len(), 32).map_err(err)?.into_iter().map(canon).collect();
    let mut ob = Ob { name: c.ensures[0].text.clone(), cat: Cat::Fun, n: 0, ok: 0, backends: BTreeMap::new(), fail: None };
    let ncanon = unsafe { NCANON };
    let mk = |inp: &[u128]| -> Input { Input { vals: vec![(c.params[0].name.clone(), 32, inp.to_vec())] } };
    match network(&ent, &fin) {
        Ok(net) => {
            ob.n += ncanon;
            ob.ok += ncanon;
            ob.backends.insert("solver (compare-exchange shapes)", ncanon);
            match passes(&net) {
                Ok(ps) => { for (_, k) in &ps { ob.n += k; ob.ok += k; *ob.backends.entry("0-1 merge cases").or_insert(0) += k; } v.note = Some(format!("{} compare-exchanges in {} passes", net.ops.len(), ps.len())); }
                Err(Ok(inp)) => { ob.n += 1; ob.fail = Some(Fail { refuted: true, why: "array is not sorted".into(), input: Some(mk(&inp.iter().map(|x| *x as u128).collect::<Vec<_>>())), input2: None }); }
                Err(Err(e)) => {
                    ob.n += 1;
                    let bad = random01(&net);
                    ob.fail = Some(match bad { Some(i) => Fail { refuted: true, why: "array is not sorted".into(), input: Some(mk(&i.iter().map(|x| *x as u128).collect::<Vec<_>>())), input2: None }, None => Fail { refuted: false, why: e, input: None, input2: None } });
                }
            }
        }
        Err(e) => {
            ob.n = 1;
            ob.fail = Some(match refute_values(&ent, &fin) { Some(i) => Fail { refuted: true, why: "array is not the sorted input".into(), input: Some(mk(&i)), input2: None }, None => Fail { refuted: false, why: e, input: None, input2: None } });
        }
    }
    v.obs.push(ob);
    v.obs.extend(side);
    Ok(v)
}

fn random01(net: &Net) -> Option<Vec<u8>> {
    let mut r = crate::smt::Rng(cx().seed ^ 0x51);
    for round in 0..400 {
        let v: Vec<u64> = (0..net.n).map(|_| match round % 3 { 0 => r.next(), 1 => r.next() & r.next() & r.next(), _ => r.next() | r.next() | r.next() }).collect();
        let mut w = v.clone();
        run64(&net.ops, &mut w);
        let ix: Vec<usize> = (0..net.n).collect();
        let bad = sorted_fail(&w, &ix);
        if bad != 0 { let b = bad.trailing_zeros(); return Some(v.iter().map(|x| ((x >> b) & 1) as u8).collect()); }
    }
    None
}

fn refute_values(ent: &[T], fin: &[T]) -> Option<Vec<u128>> {
    let mut r = crate::smt::Rng(cx().seed ^ 0x52);
    let n = ent.len();
    for round in 0..24u64 {
        let vals: Vec<u128> = (0..n).map(|i| (match round % 6 { 0 => r.next() & 0xffff_ffff, 1 => r.next() % 2, 2 => i as u64, 3 => (n - i) as u64, 4 => [0x8000_0000u64, 0x7fff_ffff, 0, 0xffff_ffff, 1, 0x8000_0001][(r.next() % 6) as usize], _ => r.next() % 8 }) as u128).collect();
        let m: HashMap<T, u128> = ent.iter().cloned().zip(vals.iter().cloned()).collect();
        let mut leaf = |t: T| m.get(&t).copied().unwrap_or(0);
        let mut e = crate::smt::Evalr::new(&mut leaf);
        let out = e.eval(fin)?;
        let mut want: Vec<i32> = vals.iter().map(|x| *x as u32 as i32).collect();
        want.sort();
        if out.iter().zip(&want).any(|(a, b)| *a as u32 as i32 != *b) { return Some(vals); }
    }
    None
}
