//! Inversion loops: the main loop is cut at its head and verified by induction.
//!
//! Two short concrete runs tell which memory cells play the roles d, f, g, v, w of the
//! division step specification and which cells count iterations; this is only a guess of
//! the loop invariant.  The proof is symbolic: (1) on first arrival the cells hold the
//! initial state, (2) from an arbitrary state, with an arbitrary counter value below the
//! number of steps, one iteration comes back to the head having performed one `ds` step and
//! changed nothing else that is read later, (3) with the final counter value the loop exits
//! and the result is `dsOut`.
use crate::contracts::*;
use crate::exec::*;
use crate::ir::*;
use crate::spec::*;
use crate::term::*;
use std::collections::BTreeMap;
use std::rc::Rc;

#[derive(Clone)]
struct Snap { st: State, regs: Vec<V>, prev: u32 }
static mut SNAPS: Vec<Snap> = vec![];
static mut WANT: usize = 1;
fn on_cut(ex: &mut Ex, _fb: &FuncBody, regs: &mut Vec<V>, prev: u32) -> Res<bool> {
    unsafe {
        SNAPS.push(Snap { st: ex.st.clone(), regs: regs.clone(), prev });
        Ok(SNAPS.len() < WANT)
    }
}
fn run_cut(ex: &mut Ex, f: &mut dyn FnMut(&mut Ex) -> Res<Option<V>>, want: usize) -> (Res<Option<V>>, Vec<Snap>) {
    unsafe { SNAPS.clear(); WANT = want; }
    let r = f(ex);
    (r, unsafe { std::mem::take(&mut SNAPS) })
}

#[derive(Clone, Debug)]
struct Place { obj: usize, off: usize, w: usize }
struct Roles { arr: [Vec<Place>; 4], d: Vec<Place>, ctr: Vec<(Place, i128, i128)> }

fn rd(st: &State, p: &Place) -> Option<u128> {
    let c = &st.stack.get(p.obj)?.cells;
    if p.off + p.w > c.len() { return None; }
    let mut v = 0u128;
    for i in 0..p.w { let x = c[p.off + i]; if x >> 56 != 1 { return None; } v |= ((x & 0xff) as u128) << (8 * i); }
    Some(v)
}
fn arr_eq(st: &State, obj: usize, off: usize, v: &[i64]) -> bool {
    let c = match st.stack.get(obj) { Some(o) => &o.cells, None => return false };
    if off + 2 * v.len() > c.len() { return false; }
    for (i, x) in v.iter().enumerate() { if c[off + 2 * i] != cbyte(*x as u8) || c[off + 2 * i + 1] != cbyte((*x >> 8) as u8) { return false; } }
    true
}

const NSNAP: usize = 14;

fn concrete_snaps(ex: &mut Ex, c: &Contract, sym: &str, head: u32, a: &[i64]) -> Result<Vec<Snap>, String> {
    ex.reset();
    let s = setup(ex, c, sym, 0)?;
    let ai = c.params.iter().position(|p| p.name == "a").ok_or("contract: a")?;
    let ptr = s.places.iter().find(|x| x.0 == ai).ok_or("contract: a")?.1.clone();
    let v: Vec<T> = a.iter().map(|x| tm().cst(16, *x as u128)).collect();
    ex.write_seq(&ptr, &v).map_err(err)?;
    ex.cut = Some((sym.to_string(), head));
    ex.cut_cb = Some(on_cut);
    let save = ex.fuel;
    ex.fuel = 12_000_000;
    let io = ex.inline_only;
    ex.inline_only = true;
    let (r, snaps) = run_cut(ex, &mut |e| e.run(sym, &s.args), NSNAP);
    ex.fuel = save;
    ex.inline_only = io;
    match r { Err(E::Abort) | Err(E::Fuel) | Ok(_) => Ok(snaps), Err(e) => Err(err(e)) }
}

fn guess(snaps: &[Vec<Snap>; 2], ins: &[Vec<i64>; 2], n: usize, p: i64, steps: i128) -> Option<Roles> {
    let m = NSNAP;
    let mut refs: Vec<Vec<crate::concrete::Ds>> = vec![];
    for a in ins {
        let mut v = vec![];
        let mut d = crate::concrete::Ds::init(n, p, a);
        for _ in 0..m { v.push(crate::concrete::Ds { delta: d.delta, f: d.f.clone(), g: d.g.clone(), v: d.v.clone(), w: d.w.clone() }); d.step(n, p); }
        refs.push(v);
    }
    let nobj = snaps[0][0].st.stack.len();
    let mut roles = Roles { arr: [vec![], vec![], vec![], vec![]], d: vec![], ctr: vec![] };
    for o in 0..nobj {
        let len = snaps[0][0].st.stack[o].cells.len();
        if len >= 2 * n {
            for off in (0..=len - 2 * n).step_by(2) {
                if off > 64 && len < 4 * n { break; }
                for r in 0..4 {
                    let ok = (0..2).all(|k| (0..m).rev().all(|j| { let d = &refs[k][j]; arr_eq(&snaps[k][j].st, o, off, [&d.f, &d.g, &d.v, &d.w][r]) }));
                    if ok { roles.arr[r].push(Place { obj: o, off, w: 2 }); }
                }
            }
            continue;
        }
        // scalars
        for w in [8usize, 4, 2] {
            if len < w { continue; }
            for off in (0..=len - w).step_by(w) {
                let pl = Place { obj: o, off, w };
                let vals: Vec<Vec<Option<u128>>> = (0..2).map(|k| (0..m).map(|j| rd(&snaps[k][j].st, &pl)).collect()).collect();
                if vals.iter().flatten().any(|x| x.is_none()) { continue; }
                let sv = |k: usize, j: usize| sext(8 * w as u16, vals[k][j].unwrap());
                if (0..2).all(|k| (0..m).all(|j| sv(k, j) == refs[k][j].delta as i128)) && len == w { roles.d.push(pl.clone()); continue; }
                let st = sv(0, 1) - sv(0, 0);
                if st != 0 && (0..2).all(|k| (0..m).all(|j| sv(k, j) == sv(0, 0) + st * j as i128)) {
                    if sv(0, 0) + st * steps < 0 { continue; }
                    if !roles.ctr.iter().any(|(q, _, _)| q.obj == o && q.off <= off && off < q.off + q.w) { roles.ctr.push((pl, sv(0, 0), st)); }
                }
            }
        }
    }
    if roles.arr.iter().any(|r| r.is_empty()) || roles.d.is_empty() || roles.ctr.is_empty() { return None; }
    Some(roles)
}

pub fn veq(a: &V, b: &V) -> bool {
    match (a, b) {
        (V::U, V::U) => true,
        (V::C(w, x), V::C(w2, y)) => w == w2 && x == y,
        (V::T(x), V::T(y)) => x == y,
        (V::P(o, x), V::P(o2, y)) => o == o2 && x == y,
        (V::SP(o, x), V::SP(o2, y)) => o == o2 && x == y,
        (V::F(x), V::F(y)) => x == y,
        (V::A(x), V::A(y)) => x.len() == y.len() && x.iter().zip(y.iter()).all(|(p, q)| veq(p, q)),
        _ => false,
    }
}

pub fn verify(ex: &mut Ex, c: &Contract, sym: &str, p: i64) -> Result<Verdict, String> {
    let own = ex.hooks.remove(sym);
    let r = verify1(ex, c, sym, p);
    if let Some(h) = own { ex.hooks.insert(sym.to_string(), h); }
    r
}

fn verify1(ex: &mut Ex, c: &Contract, sym: &str, p: i64) -> Result<Verdict, String> {
    let mut v = Verdict::default();
    let nx = match &c.params[0].kind { PK::Arr(l) => l.clone(), _ => return Err("contract: array".into()) };
    let n = sp().conc(&nx, &None)? as usize;
    let steps = (2 * (n - 1) - 1) as i128;
    let mut rg = crate::smt::Rng(0x1234_5678);
    let ins: [Vec<i64>; 2] = [0, 1].map(|_| (0..n).map(|_| rg.below(p as u128) as i64).collect());
    // candidate loop heads
    let fb = ex.prog.body(sym)?;
    let heads: Vec<u32> = (0..fb.blocks.len() as u32).filter(|b| fb.loop_heads[*b as usize]).collect();
    let mut found = None;
    let mut seen = vec![];
    for h in heads {
        let s0 = concrete_snaps(ex, c, sym, h, &ins[0])?;
        seen.push(s0.len());
        if s0.len() < NSNAP { continue; }
        let s1 = concrete_snaps(ex, c, sym, h, &ins[1])?;
        if s1.len() < NSNAP { continue; }
        if let Some(r) = guess(&[s0, s1], &ins, n, p, steps) { found = Some((h, r)); break; }
    }
    let (head, roles) = match found { Some(x) => x, None => return Err(format!("no loop with the division step state at its head (arrivals {:?})", seen)) };
    // (1) up to the first arrival
    ex.reset();
    let s = setup(ex, c, sym, 0)?;
    ex.cut = Some((sym.to_string(), head));
    ex.cut_cb = Some(on_cut);
    let (r, sn) = run_cut(ex, &mut |e| e.run(sym, &s.args), 1);
    match r { Err(E::Abort) => {} Err(e) => return Err(err(e)), Ok(_) => return Err("loop not reached".into()) }
    let s0 = sn.into_iter().next().ok_or("loop not reached")?;
    let an = c.params.iter().position(|q| q.name == "a").ok_or("contract: a")?;
    let num = |x: i64| SV::I(int(x));
    let call = |f: &str, a: Vec<SV>| sp().call(&Rc::from(f), a);
    let asv = s.vals[an].clone();
    let init: [SV; 4] = [call("cst", vec![num(1)])?, call("dsG0", vec![num(n as i64), num(p), asv])?, call("cst", vec![num(0)])?, sp().eval(&sp().parse_expr("dsW0", &[])?, &None)?];
    let seq16 = |x: &SV| -> Result<Vec<T>, String> { let q = match x { SV::S(q) => q.clone(), _ => return Err("spec".into()) }; (0..n as i64).map(|i| match sp().at(&q, i)? { SV::I(t) => Ok(tm().extract(t, 0, 16)), _ => Err("spec".into()) }).collect() };
    let names = ["f", "g", "v", "w"];
    let read = |ex: &Ex, pl: &Place, k: usize| ex.read_seq(&V::P(pl.obj as u32, pl.off as i64), k, 8 * pl.w as u16).map_err(err);
    let ex_init = |ex: &mut Ex, st: &State| { ex.st = st.clone(); };
    ex_init(ex, &s0.st);
    for r in 0..4 { let want = seq16(&init[r])?; for pl in &roles.arr[r] { let got = read(ex, pl, n)?; v.obs.push(check_seq(&format!("loop entry: {} is initial", names[r]), Cat::Fun, &got, &want, c, &s, ex)); } }
    for pl in &roles.d { let got = read(ex, pl, 1)?; let one = tm().cst(8 * pl.w as u16, 1); v.obs.push(check_seq("loop entry: d = 1", Cat::Fun, &got, &[one], c, &s, ex)); }
    for (pl, c0, _) in &roles.ctr { let got = read(ex, pl, 1)?; let k = tm().cst(8 * pl.w as u16, *c0 as u128); v.obs.push(check_seq("loop entry: counter", Cat::Fun, &got, &[k], c, &s, ex)); }
    let pan1 = std::mem::take(&mut ex.panics);
    let (nc1, ck1) = (ex.npanic_const, ex.npanic_checks);
    // (2) one iteration from an arbitrary state
    let vars: Vec<Vec<T>> = (0..4).map(|r| (0..n).map(|i| tm().var(&format!("{}.{}[{}]", c.name, names[r], i), 16, 0, p as u128 - 1, true, 7)).collect()).collect();
    let dmax = steps + 1;
    let dv: Vec<T> = roles.d.iter().map(|pl| { let w = 8 * pl.w as u16; let t = tm().var(&format!("{}.d", c.name), w, 0, ones(w), true, 7); tm().srng.insert(t, (-dmax, dmax)); t }).collect();
    let cvar = tm().var(&format!("{}.k", c.name), 64, 0, (steps - 1) as u128, false, 7);
    let ctr_term = |pl: &Place, c0: i128, st: i128, k: T| -> T {
        let sc = tm().cst(64, st as u64 as u128);
        let m = tm().mul(k, sc);
        let b = tm().cst(64, c0 as u64 as u128);
        let t = if st < 0 { let ms = tm().cst(64, (-st) as u128); let m2 = tm().mul(k, ms); tm().sub(b, m2) } else { tm().add(b, m) };
        tm().extract(t, 0, 8 * pl.w as u16)
    };
    let mut base = s0.clone();
    let put = |st: &mut State, pl: &Place, t: &[T]| { let o = Rc::make_mut(&mut st.stack[pl.obj]); let mut at = pl.off; for x in t { for cell in Ex::term_cells(*x) { o.cells[at] = cell; at += 1; } } };
    for r in 0..4 { for pl in &roles.arr[r] { put(&mut base.st, pl, &vars[r]); } }
    for (i, pl) in roles.d.iter().enumerate() { put(&mut base.st, pl, &[dv[i]]); }
    let role_cells: FSet<(usize, usize)> = { let mut f: FSet<(usize, usize)> = Default::default(); for r in 0..4 { for pl in &roles.arr[r] { for k in 0..2 * n { f.insert((pl.obj, pl.off + k)); } } } for pl in roles.d.iter().chain(roles.ctr.iter().map(|x| &x.0)) { for k in 0..pl.w { f.insert((pl.obj, pl.off + k)); } } f };
    let mut fin = None;
    let mut lastprev = s0.prev;
    for round in 0..12 {
        let mut st = base.st.clone();
        for (pl, c0, stp) in &roles.ctr { put(&mut st, pl, &[ctr_term(pl, *c0, *stp, cvar)]); }
        ex.st = st.clone();
        ex.panics.clear();
        ex.npanic_const = nc1;
        ex.npanic_checks = ck1;
        let mut regs = base.regs.clone();
        let prev = lastprev;
        let (r, sn) = run_cut(ex, &mut |e| e.resume(sym, &mut regs, head, prev), 1);
        match r { Err(E::Abort) => {} Err(e) => return Err(format!("loop body: {}", err(e))), Ok(_) => return Err("loop may exit early".into()) }
        let s1 = sn.into_iter().next().ok_or("loop body")?;
        if !s1.st.pc.is_empty() { return Err("loop body splits".into()); }
        // whatever else changed is not known at the head
        let mut changed = false;
        if s1.st.stack.len() != base.st.stack.len() || s1.st.heap.len() != base.st.heap.len() { return Err("allocation in loop".into()); }
        for o in 0..s1.st.stack.len() {
            if Rc::ptr_eq(&s1.st.stack[o], &st.stack[o]) { continue; }
            let (x, y) = (&s1.st.stack[o].cells, &st.stack[o].cells);
            for i in 0..x.len() { if x[i] != y[i] && !role_cells.contains(&(o, i)) && base.st.stack[o].cells[i] != UNDEF { Rc::make_mut(&mut base.st.stack[o]).cells[i] = UNDEF; changed = true; } }
        }
        for i in 0..s1.regs.len() { if !veq(&s1.regs[i], &base.regs[i]) && !matches!(base.regs[i], V::U) { base.regs[i] = V::U; changed = true; } }
        if lastprev != s1.prev { lastprev = s1.prev; changed = true; }
        if !changed { fin = Some(s1); break; }
        if round == 11 { return Err("loop frame not stable".into()); }
    }
    let s1 = fin.ok_or("loop frame")?;
    // entry through the other edge must not matter for values merged at the head
    if matches!(fb.blocks[head as usize].insts.first(), Some(Inst::Phi(..))) { return Err("loop head with merged registers".into()); }
    let dsv = SV::I(tm().sext_t(dv[0], 64));
    let sq: Vec<SV> = vars.iter().map(|x| SV::S(Rc::new(SeqV::Mat(x.iter().map(|t| tm().zext(*t, 64)).collect(), "state".into())))).collect();
    let (f, g, vv, w) = (sq[0].clone(), sq[1].clone(), sq[2].clone(), sq[3].clone());
    let next: [SV; 4] = [
        call("dsF", vec![dsv.clone(), f.clone(), g.clone()])?,
        call("dsG", vec![num(n as i64), num(p), dsv.clone(), f.clone(), g.clone()])?,
        call("dsV", vec![dsv.clone(), g.clone(), vv.clone(), w.clone()])?,
        call("dsW", vec![num(p), dsv.clone(), f.clone(), g.clone(), vv.clone(), w.clone()])?,
    ];
    ex.st = s1.st.clone();
    let step_vars = |mut ob: Ob| -> Ob { if let Some(fl) = &mut ob.fail { if fl.refuted { fl.refuted = false; fl.input = None; fl.why = format!("{} for some loop state", fl.why); } } ob };
    for r in 0..4 { let want = seq16(&next[r])?; for pl in &roles.arr[r] { let got = read(ex, pl, n)?; v.obs.push(step_vars(check_seq(&format!("loop step: {} follows the division step", names[r]), Cat::Fun, &got, &want, c, &s, ex))); } }
    if let SV::I(d2) = call("dsD", vec![dsv.clone(), g.clone()])? { for pl in &roles.d { let got = read(ex, pl, 1)?; let want = tm().extract(d2, 0, 8 * pl.w as u16); v.obs.push(step_vars(check_seq("loop step: d follows the division step", Cat::Fun, &got, &[want], c, &s, ex))); } }
    let one = tm().cst(64, 1);
    let cnext = tm().add(cvar, one);
    for (pl, c0, stp) in &roles.ctr { let got = read(ex, pl, 1)?; let want = ctr_term(pl, *c0, *stp, cnext); v.obs.push(step_vars(check_seq("loop step: counter advances", Cat::Fun, &got, &[want], c, &s, ex))); }
    let pan2 = std::mem::take(&mut ex.panics);
    // (3) exit
    let mut st = base.st.clone();
    let kend = tm().cst(64, steps as u128);
    for (pl, c0, stp) in &roles.ctr { put(&mut st, pl, &[ctr_term(pl, *c0, *stp, kend)]); }
    ex.st = st;
    let mut regs = base.regs.clone();
    let (r, sn) = run_cut(ex, &mut |e| e.resume(sym, &mut regs, head, lastprev), 1);
    if !sn.is_empty() { return Err("loop does not stop after the expected number of steps".into()); }
    match r { Ok(Some(_)) => {} Ok(None) => return Err("every path panics".into()), Err(e) => return Err(format!("after the loop: {}", err(e))) }
    let out = seq16(&call("dsOut", vec![num(n as i64), num(p), f, vv])?)?;
    for (pi, ptr, ent) in &s.places {
        let q = &c.params[*pi];
        let got = ex.read_seq(ptr, ent.len(), q.w).map_err(err)?;
        if q.name == c.ensures[0].target { v.obs.push(step_vars(check_seq(&c.ensures[0].text, Cat::Fun, &got, &out, c, &s, ex))); } else { v.obs.push(check_seq(&format!("frame {}", q.name), Cat::Fun, &got, ent, c, &s, ex)); }
    }
    let mut all = pan1;
    all.extend(pan2);
    all.append(&mut ex.panics);
    ex.panics = all;
    v.obs.extend(side_obs(ex, c, &s).into_iter().map(|o| if o.cat == Cat::Panic { step_vars(o) } else { o }));
    v.note = Some(format!("loop invariant on f,g,v,w,d; {} steps", steps));
    let _: Option<BTreeMap<(), ()>> = None;
    Ok(v)
}
