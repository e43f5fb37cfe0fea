//! Requests of arbitrary length: the block loop is cut at its head and verified by induction.
//!
//! Two concrete runs with different counters and lengths tell which registers and memory cells
//! move by a constant per iteration, which hold the 16-byte counter, and which are scratch; this
//! is only a guess of the loop invariant.  The proof is symbolic, for a request of 16k + R bytes:
//! (1) on first arrival the counter cells hold v; (2) from the state after k iterations with an
//! arbitrary counter w and R >= 49 bytes left, one iteration writes the next 16 bytes of the
//! specification, comes back to the head with counter w + 1, and changes nothing else that is
//! read later (where the counter is computed from the block index instead: (1) holds for v = w - k
//! by definition, and (2) ends in the state after k + 1 iterations for the same v); (3) from that state with R = 33..48 the rest of the function meets the contract
//! of a request of R bytes with counter w.  Only a window of the buffer is kept, starting at
//! offset 16k; an access before it is an error.  Lengths up to 49 are proved one by one, the
//! theorems rngOut_step, rngKey_step and rngV_step put the pieces together.
use crate::contracts::*;
use crate::divstep::veq;
use crate::exec::*;
use crate::ir::*;
use crate::prove::prove_eq;
use crate::spec::*;
use crate::term::*;
use std::rc::Rc;

#[derive(Clone)]
struct Snap { st: State, regs: Vec<V> }
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
enum Loc { Reg(usize), Mem(usize, usize) }
#[derive(Clone, Debug)]
enum Val { I(T), P(u32, T) }
#[derive(Default)]
struct Rl {
    symbolic: bool,
    want: usize,
    snaps: Vec<Snap>,
    num: Vec<(Loc, i64)>,
    ctr: Vec<(usize, usize, bool)>,
    undef_mem: FSet<(usize, usize)>,
    undef_reg: FSet<usize>,
    k: T,
    w: Vec<T>,
    v: Vec<T>,
    xo: u32,
    xent: Vec<Cell>,
    err: Option<String>,
}
static mut RL: *mut Rl = std::ptr::null_mut();
fn rl() -> &'static mut Rl { unsafe { if RL.is_null() { RL = Box::into_raw(Box::default()); } &mut *RL } }

fn val(v: &V) -> Option<Val> {
    match v { V::C(64, c) => Some(Val::I(tm().cst(64, *c))), V::T(t) if tm().w(*t) == 64 => Some(Val::I(*t)), V::P(o, c) if *o != 0 => Some(Val::P(*o, tm().cst(64, *c as u64 as u128))), V::SP(o, t) => Some(Val::P(*o, *t)), _ => None }
}
fn unval(v: &Val) -> V {
    match v { Val::I(t) => Ex::v(*t), Val::P(o, t) => match tm().cval(*t) { Some(c) => V::P(*o, c as u64 as i64), None => V::SP(*o, *t) } }
}
fn get(ex: &Ex, s: &Snap, l: Loc) -> Option<Val> {
    match l {
        Loc::Reg(i) => val(&s.regs[i]),
        Loc::Mem(o, off) => {
            let c = &s.st.stack.get(o)?.cells;
            if off + 8 > c.len() { return None; }
            let c = &c[off..off + 8];
            if c[0] >> 56 == 3 { val(&ex.cells_to_ptr(c).ok()?) } else { val(&ex.cells_to_v(c, 64).ok()?) }
        }
    }
}
fn moved(v: &Val, d: T) -> Val {
    match v { Val::I(t) => Val::I(lin(tm().add(*t, d))), Val::P(o, t) => Val::P(*o, lin(tm().add(*t, d))) }
}
fn same(a: &Val, b: &Val) -> bool {
    let (x, y) = match (a, b) { (Val::I(x), Val::I(y)) => (*x, *y), (Val::P(o, x), Val::P(p, y)) if o == p => (*x, *y), _ => return false };
    let (x, y) = (lin(x), lin(y));
    x == y || matches!(prove_eq(x, y), ObStatus::Proved(_))
}

fn on_cut(ex: &mut Ex, _fb: &FuncBody, regs: &mut Vec<V>, _prev: u32) -> Res<bool> {
    let r = rl();
    if !ex.st.pc.is_empty() { r.err = Some("the loop is reached on a condition".into()); return Ok(false); }
    if r.symbolic && r.snaps.is_empty() {
        if let Err(e) = generalize(ex, regs) { r.err = Some(e); return Ok(false); }
    }
    r.snaps.push(Snap { st: ex.st.clone(), regs: regs.clone() });
    Ok(r.snaps.len() < r.want)
}
/// from the first arrival to the state after k iterations
fn generalize(ex: &mut Ex, regs: &mut Vec<V>) -> Result<(), String> {
    let r = rl();
    if ex.obj(r.xo).map_err(err)?.cells != r.xent { return Err("the buffer is written before the loop".into()); }
    for &(o, off, rev) in &r.ctr {
        for i in 0..16 {
            let x = ex.cell_term(ex.st.stack[o].cells[off + i]).map_err(err)?;
            if x != r.v[if rev { 15 - i } else { i }] { return Err("counter on loop entry".into()); }
        }
    }
    let cur = Snap { st: ex.st.clone(), regs: regs.clone() };
    for &(l, g) in &r.num {
        let d = tm().cst(64, g as u64 as u128);
        let d = tm().mul(r.k, d);
        let v = unval(&moved(&get(ex, &cur, l).ok_or("loop variable")?, d));
        match l {
            Loc::Reg(i) => regs[i] = v,
            Loc::Mem(o, off) => { let ty = if matches!(v, V::P(..) | V::SP(..)) { Ty::Ptr } else { Ty::Int(64) }; ex.store(&ty, &v, &V::P(o as u32, off as i64)).map_err(err)?; }
        }
    }
    for &(o, off, rev) in &r.ctr { for i in 0..16 { ex.write_cells(&V::P(o as u32, (off + i) as i64), &[tbyte(r.w[if rev { 15 - i } else { i }], 0)]).map_err(err)?; } }
    for &(o, i) in &r.undef_mem { ex.write_cells(&V::P(o as u32, i as i64), &[UNDEF]).map_err(err)?; }
    for &i in &r.undef_reg { regs[i] = V::U; }
    let c16 = tm().cst(64, 16);
    ex.win = Some((r.xo, tm().mul(r.k, c16)));
    Ok(())
}

fn sized(c: &Contract, n: i128) -> Contract {
    let mut c = c.clone();
    for p in c.params.iter_mut() { if let PK::Slice(l) = &mut p.kind { *l = vec![X::Num(n)]; } }
    c
}
fn index(c: &Contract, name: &str) -> Result<(usize, usize), String> {
    let mut a = 0;
    for (i, p) in c.params.iter().enumerate() { if p.name == name { return Ok((i, a)); } a += if matches!(p.kind, PK::Slice(_)) { 2 } else { 1 }; }
    Err(format!("contract: {}", name))
}
fn place(s: &Setup, pi: usize) -> Result<(u32, Vec<T>), String> { match s.places.iter().find(|x| x.0 == pi) { Some((_, V::P(o, 0), v)) => Ok((*o, v.clone())), _ => Err("contract: place".into()) } }

/// run with a concrete counter and length up to the given number of arrivals
fn concrete(ex: &mut Ex, c: &Contract, sym: &str, head: Option<&(String, u32)>, v: u128, len: i128, want: usize) -> Result<Vec<Snap>, String> {
    ex.reset();
    let c = sized(c, len);
    let s = setup(ex, &c, sym, 0)?;
    let vp = place(&s, index(&c, "v")?.0)?.0;
    let b: Vec<Cell> = v.to_be_bytes().iter().map(|x| cbyte(*x)).collect();
    ex.write_cells(&V::P(vp, 0), &b).map_err(err)?;
    *rl() = Rl { want, ..Default::default() };
    match head { Some(h) => { ex.cut = Some(h.clone()); ex.cut_cb = Some(on_cut); } None => ex.trace_heads = Some(Default::default()) }
    let r = ex.run(sym, &s.args);
    if let Some(e) = rl().err.take() { return Err(e); }
    match r { Ok(_) | Err(E::Abort) => {} Err(e) => return Err(err(e)) }
    Ok(std::mem::take(&mut rl().snaps))
}

const NS: usize = 8;
const V0: [u128; 2] = [0xfffffffffffffffffffffffffffffffd, 0x0123456789abcdef_00fffffffffffffb];

/// loop variables, counter cells and scratch at a loop head
fn guess(ex: &Ex, runs: &[Vec<Snap>; 2], xo: usize) -> Option<(Vec<(Loc, i64)>, Vec<(usize, usize, bool)>, FSet<(usize, usize)>, FSet<usize>)> {
    let all = || runs.iter().flat_map(|r| r.iter().enumerate());
    let n = runs[0][0].st.stack.len();
    if all().any(|(_, s)| s.st.stack.len() != n || s.st.heap.len() != runs[0][0].st.heap.len()) { return None; }
    let linear = |l: Loc| -> Option<i64> {
        let mut g = None;
        for r in runs.iter() {
            let v: Vec<Val> = r.iter().map(|s| get(ex, s, l)).collect::<Option<_>>()?;
            for j in 1..NS {
                let (o, a, b) = match (&v[j - 1], &v[j]) { (Val::I(a), Val::I(b)) => (0, *a, *b), (Val::P(o, a), Val::P(p, b)) if o == p => (*o, *a, *b), _ => return None };
                let _ = o;
                let d = (tm().cval(b)? as u64).wrapping_sub(tm().cval(a)? as u64) as i64;
                if *g.get_or_insert(d) != d { return None; }
            }
        }
        g.filter(|d| *d != 0 && d.abs() < 1 << 20)
    };
    let (mut num, mut ctr, mut um, mut ur) = (vec![], vec![], FSet::default(), FSet::default());
    let mut taken: FSet<(usize, usize)> = Default::default();
    for o in 0..n {
        if o == xo { continue; }
        let len = runs[0][0].st.stack[o].cells.len();
        if all().any(|(_, s)| s.st.stack[o].cells.len() != len) { return None; }
        for off in 0..(len + 1).saturating_sub(16) {
            for rev in [false, true] {
                if (0..2).all(|q| runs[q].iter().enumerate().all(|(j, s)| { let b = V0[q].wrapping_add(j as u128).to_be_bytes(); (0..16).all(|i| s.st.stack[o].cells[off + i] == cbyte(b[if rev { 15 - i } else { i }])) })) {
                    ctr.push((o, off, rev));
                    for i in 0..16 { taken.insert((o, off + i)); }
                }
            }
        }
        for off in (0..len.saturating_sub(7)).step_by(8) {
            if (0..8).any(|i| taken.contains(&(o, off + i))) { continue; }
            if let Some(g) = linear(Loc::Mem(o, off)) { num.push((Loc::Mem(o, off), g)); for i in 0..8 { taken.insert((o, off + i)); } }
        }
        for i in 0..len {
            if taken.contains(&(o, i)) { continue; }
            if runs.iter().any(|r| r.iter().any(|s| s.st.stack[o].cells[i] != r[0].st.stack[o].cells[i])) { um.insert((o, i)); }
        }
    }
    for i in 0..runs[0][0].regs.len() {
        if let Some(g) = linear(Loc::Reg(i)) { num.push((Loc::Reg(i), g)); }
        else if runs.iter().any(|r| r.iter().any(|s| !veq(&s.regs[i], &r[0].regs[i]) && !(matches!(s.regs[i], V::U) && matches!(r[0].regs[i], V::U)))) { ur.insert(i); }
    }
    if num.is_empty() { return None; }
    Some((num, ctr, um, ur))
}

/// obligations that extend the contract from requests of up to 49 bytes to all lengths up to 2^60
pub fn induct(ex: &mut Ex, c: &Contract, sym: &str) -> Result<Vec<Ob>, String> {
    let own = ex.hooks.remove(sym);
    let r = induct1(ex, c, sym);
    if let Some(h) = own { ex.hooks.insert(sym.to_string(), h); }
    ex.reset();
    r
}
fn induct1(ex: &mut Ex, c: &Contract, sym: &str) -> Result<Vec<Ob>, String> {
    let (xi, xa) = index(c, "x")?;
    let (vi, _) = index(c, "v")?;
    concrete(ex, c, sym, None, V0[0], 160, 0)?;
    let mut heads: Vec<((String, u32), (u64, usize))> = ex.trace_heads.take().unwrap_or_default().into_iter().filter(|h| h.1 .0 == 10 || h.1 .0 == 11).collect();
    heads.sort_by_key(|h| (h.1 .1, h.0.clone()));
    let xo = { ex.reset(); let s = setup(ex, &sized(c, 49), sym, 0)?; place(&s, xi)?.0 };
    let mut last = "no loop over the blocks found".to_string();
    let mut failed = None;
    for (h, _) in heads {
        let fb = ex.prog.body(&h.0)?;
        if matches!(fb.blocks[h.1 as usize].insts.first(), Some(Inst::Phi(..))) { last = "loop head with merged registers".into(); continue; }
        let a = concrete(ex, c, sym, Some(&h), V0[0], 160, NS)?;
        let b = concrete(ex, c, sym, Some(&h), V0[1], 224, NS)?;
        if a.len() < NS || b.len() < NS { continue; }
        let g = match guess(ex, &[a, b], xo as usize) { Some(g) => g, None => { last = "no counter at the loop head".into(); continue; } };
        match prove(ex, c, sym, &h, g, xi, xa, vi, xo) { Ok(o) if o.iter().all(|o| o.ok == o.n) => return Ok(o), Ok(o) => { failed.get_or_insert(o); } Err(e) => last = e }
    }
    failed.ok_or(last)
}

fn prove(ex: &mut Ex, c: &Contract, sym: &str, h: &(String, u32), g: (Vec<(Loc, i64)>, Vec<(usize, usize, bool)>, FSet<(usize, usize)>, FSet<usize>), xi: usize, xa: usize, vi: usize, xo: u32) -> Result<Vec<Ob>, String> {
    let (mut num, ctr, mut um, mut ur) = g;
    let k = tm().var(&format!("{}.k", c.name), 64, 0, 1 << 56, false, 8);
    let rr = tm().var(&format!("{}.r", c.name), 64, 49, 1 << 60, false, 8);
    let w: Vec<T> = (0..16).map(|i| tm().var(&format!("{}.w[{}]", c.name, i), 8, 0, 255, true, 8)).collect();
    let wsv = SV::S(Rc::new(SeqV::Mat(w.iter().map(|t| tm().zext(*t, 64)).collect(), "w".into())));
    let c16 = tm().cst(64, 16);
    let k16 = tm().mul(k, c16);
    // no cell holds the counter of block k: it is computed from k and the counter on entry, which is w - k
    let vk: Vec<Cell> = {
        let mut x = w[0];
        for t in &w[1..] { x = tm().concat(x, *t); }
        let kk = tm().zext(k, 128);
        let x = tm().sub(x, kk);
        (0..16).map(|i| tbyte(tm().extract(x, 8 * (15 - i), 8), 0)).collect()
    };
    let mut obs = vec![];
    let weak = |mut ob: Ob, at: &str| -> Ob { ob.name = format!("{}: {}", at, ob.name); if let Some(f) = &mut ob.fail { if f.refuted { f.refuted = false; f.input = None; f.why = format!("{} for some loop state", f.why); } } ob };
    let mut go = |ex: &mut Ex, len: i128, r: T, want: usize, num: &Vec<(Loc, i64)>, um: &FSet<(usize, usize)>, ur: &FSet<usize>| -> Result<(Setup, Contract, Res<Option<V>>), String> {
        ex.reset();
        let c = sized(c, len);
        let mut s = setup(ex, &c, sym, 0)?;
        s.args[xa + 1] = Ex::v(lin(tm().add(k16, r)));
        let (vo, vent) = place(&s, vi)?;
        if ctr.is_empty() { ex.write_cells(&V::P(vo, 0), &vk).map_err(err)?; }
        ex.lin = true;
        let xent = ex.obj(xo).map_err(err)?.cells.clone();
        *rl() = Rl { symbolic: true, want, num: num.clone(), ctr: ctr.clone(), undef_mem: um.clone(), undef_reg: ur.clone(), k, w: w.clone(), v: vent, xo, xent, ..Default::default() };
        ex.cut = Some(h.clone());
        ex.cut_cb = Some(on_cut);
        let res = ex.run(sym, &s.args);
        ex.win = None;
        ex.lin = false;
        if let Some(e) = rl().err.take() { return Err(e); }
        if rl().snaps.is_empty() { return Err("loop not reached".into()); }
        Ok((s, c, res))
    };
    // one iteration
    let mut round = 0;
    let (s, cw, sn) = loop {
        let (s, cw, r) = go(ex, 49, rr, 2, &num, &um, &ur)?;
        match r { Err(E::Abort) => {} Err(e) => return Err(format!("loop body: {}", err(e))), Ok(_) => return Err("loop may exit early".into()) }
        let sn = std::mem::take(&mut rl().snaps);
        if sn.len() != 2 { return Err("loop body".into()); }
        let (x, y) = (&sn[0], &sn[1]);
        if x.st.stack.len() != y.st.stack.len() || x.st.heap.len() != y.st.heap.len() { return Err("allocation in loop".into()); }
        for i in 0..x.st.heap.len() { if x.st.heap[i].cells != y.st.heap[i].cells { return Err("heap changed in loop".into()); } }
        let mut changed = false;
        // variables that do not move as guessed are scratch
        let mut role: FSet<(usize, usize)> = Default::default();
        let mut rreg: FSet<usize> = Default::default();
        num.retain(|&(l, d)| {
            let dd = tm().cst(64, d as u64 as u128);
            let ok = match (get(ex, x, l), get(ex, y, l)) { (Some(a), Some(b)) => same(&moved(&a, dd), &b), _ => false };
            match l { Loc::Reg(i) => { if ok { rreg.insert(i); } else { ur.insert(i); } } Loc::Mem(o, off) => for i in off..off + 8 { if ok { role.insert((o, i)); } else { um.insert((o, i)); } } }
            changed |= !ok;
            ok
        });
        for &(o, off, _) in &ctr { for i in 0..16 { role.insert((o, off + i)); } }
        for o in 0..x.st.stack.len() {
            if o == xo as usize || Rc::ptr_eq(&x.st.stack[o], &y.st.stack[o]) { continue; }
            let (p, q) = (&x.st.stack[o].cells, &y.st.stack[o].cells);
            if p.len() != q.len() { return Err("object size".into()); }
            for i in 0..p.len() { if p[i] != q[i] && p[i] != UNDEF && !role.contains(&(o, i)) && !matches!((ex.cell_term(p[i]), ex.cell_term(q[i])), (Ok(a), Ok(b)) if a == b) && um.insert((o, i)) { changed = true; } }
        }
        for i in 0..x.regs.len() { if !rreg.contains(&i) && !matches!(x.regs[i], V::U) && !veq(&x.regs[i], &y.regs[i]) && ur.insert(i) { changed = true; } }
        if !changed { break (s, cw, sn); }
        round += 1;
        if round > 10 { return Err("loop frame not stable".into()); }
    };
    if std::env::var("IRV_DEBUG").is_ok() { eprintln!("rng loop {:?}: {:?} counter {:?} scratch {} cells", h, num, ctr, um.len()); }
    let seq = |f: &str, a: Vec<SV>, n: i64| -> Result<Vec<T>, String> { let q = match sp().call(&Rc::from(f), a)? { SV::S(q) => q, _ => return Err("spec".into()) }; (0..n).map(|i| match sp().at(&q, i)? { SV::I(t) => Ok(tm().extract(t, 0, 8)), _ => Err("spec".into()) }).collect() };
    let side = side_obs(ex, &cw, &s);
    ex.st = sn[1].st.clone();
    let key = s.vals[index(c, "key")?.0].clone();
    let want = seq("rngOut", vec![key, wsv.clone()], 16)?;
    let got = ex.read_seq(&V::P(xo, 0), 49, 8).map_err(err)?;
    let ent = place(&s, xi)?.1;
    obs.push(weak(check_seq("16 bytes follow rngOut", Cat::Fun, &got[..16], &want, &cw, &s, ex), "block"));
    obs.push(weak(check_seq("later bytes untouched", Cat::Fun, &got[16..], &ent[16..], &cw, &s, ex), "block"));
    let want = seq("ctrAdd", vec![SV::I(int(1)), wsv.clone()], 16)?;
    for &(o, off, rev) in &ctr {
        let got = ex.read_seq(&V::P(o as u32, off as i64), 16, 8).map_err(err)?;
        let want: Vec<T> = (0..16).map(|i| want[if rev { 15 - i } else { i }]).collect();
        obs.push(weak(check_seq("counter advances by one", Cat::Fun, &got, &want, &cw, &s, ex), "block"));
    }
    obs.push(Ob { name: "block: loop variables move by a constant".into(), cat: Cat::Fun, n: num.len() as u64, ok: num.len() as u64, backends: [("normal form", num.len() as u64)].into_iter().collect(), fail: None });
    obs.extend(side.into_iter().filter(|o| o.cat == Cat::Panic).map(|o| weak(o, "block")));
    // the rest
    for r in 33..49 {
        let (mut s, cw, res) = go(ex, r, tm().cst(64, r as u128), usize::MAX, &num, &um, &ur)?;
        let at = format!("last {} bytes", r);
        let side = side_obs(ex, &cw, &s);
        let ret = match res { Ok(Some(v)) => v, Ok(None) => return Err("every path panics".into()), Err(e) => return Err(format!("{}: {}", at, err(e))) };
        let mut j = 0;
        for p in &cw.params { if p.name == "v" { s.vals[j] = wsv.clone(); } j += if matches!(p.kind, PK::Slice(_)) { 2 } else { 1 }; }
        obs.extend(check_post(ex, &cw, &s, &ret, sym)?.into_iter().map(|o| weak(o, &at)));
        obs.extend(side.into_iter().filter(|o| o.cat == Cat::Panic).map(|o| weak(o, &at)));
    }
    Ok(obs)
}
