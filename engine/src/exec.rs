//! Symbolic execution of LLVM IR functions.
use crate::ir::*;
use crate::term::*;
use std::collections::HashMap;
use std::rc::Rc;

#[derive(Clone, Debug)]
pub enum V {
    C(u16, u128),
    T(T),
    P(u32, i64),
    SP(u32, T),
    F(Rc<str>),
    U,
    A(Rc<Vec<V>>),
}

#[derive(Clone, Debug)]
pub enum E { Unsup(String), Fuel, Abort }
pub type Res<X> = Result<X, E>;
/// min, rem_euclid and the like of core on integers: not code of the crate, and a single select after
/// optimisation.  The list is also in vlib.py (INT_HELPER).
fn int_helper(path: &str) -> bool {
    let Some(rest) = path.strip_prefix('<') else { return false };
    let n = rest.find(|c: char| !c.is_ascii_alphanumeric()).unwrap_or(rest.len());
    if !["i8", "i16", "i32", "i64", "i128", "isize", "u8", "u16", "u32", "u64", "u128", "usize"].contains(&&rest[..n]) { return false; }
    let r = &rest[n..];
    if [" as core::cmp::Ord>::", " as core::cmp::PartialOrd>::"].iter().any(|p| r.starts_with(p)) { return true; }
    let Some(m) = r.strip_prefix(">::") else { return false };
    ["abs", "unsigned_abs", "wrapping_abs", "abs_diff", "signum", "rem_euclid", "div_euclid", "wrapping_rem_euclid", "wrapping_div_euclid"].contains(&m)
}

pub fn unsup<X>(s: impl Into<String>) -> Res<X> { Err(E::Unsup(s.into())) }

// memory cell: 0 undef | 1<<56 const byte | 2<<56 term<<8 idx | 3<<56 ptr<<8 idx
pub type Cell = u64;
pub const UNDEF: Cell = 0;
pub fn cbyte(b: u8) -> Cell { (1 << 56) | b as u64 }
pub fn tbyte(t: T, i: u8) -> Cell { (2 << 56) | ((t as u64) << 8) | i as u64 }
fn pbyte(p: u32, i: u8) -> Cell { (3 << 56) | ((p as u64) << 8) | i as u64 }

#[derive(Clone, Debug)]
pub struct Obj { pub cells: Vec<Cell>, pub name: Rc<str> }

#[derive(Clone, Default)]
pub struct State {
    pub stack: Vec<Rc<Obj>>,
    pub heap: Vec<Rc<Obj>>,
    pub pc: Vec<T>,
    pub rng: Vec<RngCall>,
}

#[derive(Clone, Debug)]
pub struct RngCall { pub len: usize, pub ok: bool, pub pc: Vec<T> }

pub const HEAP: u32 = 0x2000_0000;
pub const GLOB: u32 = 0x4000_0000;

#[derive(Clone, Debug)]
pub enum Outcome { Ret(V), Stop(u32), Div }

#[derive(Clone, Debug)]
pub struct PanicOb { pub what: String, pub func: String, pub status: ObStatus, pub pc: Vec<T> }
#[derive(Clone, Debug, PartialEq)]
pub enum ObStatus { Proved(&'static str), Refuted(Rc<HashMap<T, u128>>), Unknown(String) }

#[derive(Clone, Debug)]
pub struct CtEvent { pub func: String, pub kind: &'static str, pub cond: T, pub secret: bool }

pub enum Hook {
    AesNew,
    AesEnc,
    ShaNew,
    ShaUpd,
    ShaFin,
    Rng,
    Contract(usize),
    Skip,
}

pub struct Ex {
    pub prog: Program,
    pub st: State,
    pub hooks: HashMap<String, Rc<Hook>>,
    pub ghooks: HashMap<String, usize>,
    gids: HashMap<String, u32>,
    pub gobjs: Vec<Rc<Obj>>,
    gnames: Vec<String>,
    ptrs: Vec<(u8, u32, i64, Rc<str>)>,
    ptrmap: FMap<(u32, i64), u32>,
    fptrmap: HashMap<Rc<str>, u32>,
    pub fuel: u64,
    pub steps: u64,
    pub panics: Vec<PanicOb>,
    pub npanic_checks: u64,
    pub npanic_const: u64,
    pub ct: Vec<CtEvent>,
    pub ct_seen: FSet<(u32, T)>,
    pub callstack: Vec<Rc<str>>,
    pub shas: Vec<Rc<Vec<T>>>,
    pub rng_fail: Option<usize>,
    pub rng_err: Option<(V, V)>,
    pub rng_vars: HashMap<(usize, usize), T>,
    pub contract_cb: Option<fn(&mut Ex, usize, &[V]) -> Res<Option<V>>>,
    pub used: HashMap<String, u64>,
    pub trace_heads: Option<HashMap<(String, u32), (u64, usize)>>,
    pub cut: Option<(String, u32)>,
    pub cut_cb: Option<fn(&mut Ex, &FuncBody, &mut Vec<V>, u32) -> Res<bool>>,
    pub cut_skip: bool,
    pub depth: usize,
    pub maxforks: usize,
    pub forks: usize,
    pub sortmode: bool,
    pub inline_only: bool,
    pub executed: HashMap<String, u64>,
    pub facts: Vec<T>,
    pub symsize: HashMap<u32, T>,
    /// object of which only a window is kept: cell i stands for offset base + i
    pub win: Option<(u32, T)>,
    /// keep 64-bit sums in a canonical linear form
    pub lin: bool,
    sptrmap: HashMap<(u32, T), u32>,
}

pub fn base_addr(obj: u32) -> u64 { if obj == 0 { 0 } else { ((obj as u64) + 1) << 28 } }

impl Ex {
    pub fn new(prog: Program) -> Ex {
        let mut e = Ex { prog, st: State::default(), hooks: HashMap::new(), ghooks: HashMap::new(), gids: HashMap::new(), gobjs: vec![], gnames: vec![], ptrs: vec![], ptrmap: Default::default(), fptrmap: HashMap::new(), fuel: 3_000_000_000, steps: 0, panics: vec![], npanic_checks: 0, npanic_const: 0, ct: vec![], ct_seen: Default::default(), callstack: vec![], shas: vec![], rng_fail: None, rng_err: None, rng_vars: HashMap::new(), contract_cb: None, used: HashMap::new(), trace_heads: None, cut: None, cut_cb: None, cut_skip: false, depth: 0, maxforks: 20000, forks: 0, sortmode: false, inline_only: false, executed: HashMap::new(), facts: vec![], symsize: HashMap::new(), win: None, lin: false, sptrmap: HashMap::new() };
        e.reset();
        e
    }
    pub fn reset(&mut self) {
        self.st = State::default();
        self.st.stack.push(Rc::new(Obj { cells: vec![], name: "null".into() }));
        self.panics.clear();
        self.ct.clear();
        self.ct_seen.clear();
        self.callstack.clear();
        self.depth = 0;
        self.forks = 0;
        self.steps = 0;
        self.npanic_checks = 0;
        self.npanic_const = 0;
        self.trace_heads = None;
        self.cut = None;
        self.cut_cb = None;
        self.cut_skip = false;
        self.sortmode = false;
        self.facts.clear();
        self.symsize.clear();
        self.win = None;
        self.lin = false;
        self.rng_err = None;
    }
    pub fn t(&self, v: &V) -> Res<T> {
        match v { V::C(w, x) => Ok(tm().cst(*w, *x)), V::T(t) => Ok(*t), V::P(o, off) => Ok(tm().cst(64, (base_addr(*o) as i64 + off) as u64 as u128)), V::SP(o, t) => { let b = tm().cst(64, base_addr(*o) as u128); Ok(tm().add(b, *t)) } V::U => unsup("use of undef"), V::F(_) => unsup("fn ptr as int"), V::A(_) => unsup("aggregate as int") }
    }
    pub fn v(t: T) -> V { match tm().cval(t) { Some(c) => V::C(tm().w(t), c), None => V::T(t) } }

    // ---------- memory ----------
    pub fn alloc(&mut self, size: u64, name: &str) -> u32 {
        let id = self.st.stack.len() as u32;
        self.st.stack.push(Rc::new(Obj { cells: vec![UNDEF; size as usize], name: name.into() }));
        id
    }
    pub fn alloc_heap(&mut self, size: u64) -> u32 {
        let id = HEAP + self.st.heap.len() as u32;
        self.st.heap.push(Rc::new(Obj { cells: vec![UNDEF; size as usize], name: "heap".into() }));
        id
    }
    pub fn obj(&self, id: u32) -> Res<&Rc<Obj>> {
        if id >= GLOB { self.gobjs.get((id - GLOB) as usize).ok_or(E::Unsup("bad global".into())) } else if id >= HEAP { self.st.heap.get((id - HEAP) as usize).ok_or(E::Unsup("bad heap".into())) } else { self.st.stack.get(id as usize).ok_or(E::Unsup("dangling pointer".into())) }
    }
    pub fn obj_mut(&mut self, id: u32) -> Res<&mut Obj> {
        if id >= GLOB { return unsup("write to global"); }
        let r = if id >= HEAP { self.st.heap.get_mut((id - HEAP) as usize) } else { self.st.stack.get_mut(id as usize) };
        match r { Some(r) => Ok(Rc::make_mut(r)), None => unsup("dangling pointer write") }
    }
    fn pid(&mut self, o: u32, off: i64) -> u32 {
        if let Some(&p) = self.ptrmap.get(&(o, off)) { return p; }
        let p = self.ptrs.len() as u32;
        self.ptrs.push((0, o, off, "".into()));
        self.ptrmap.insert((o, off), p);
        p
    }
    fn fpid(&mut self, f: &Rc<str>) -> u32 {
        if let Some(&p) = self.fptrmap.get(f) { return p; }
        let p = self.ptrs.len() as u32;
        self.ptrs.push((1, 0, 0, f.clone()));
        self.fptrmap.insert(f.clone(), p);
        p
    }
    fn spid(&mut self, o: u32, off: T) -> u32 {
        if let Some(&p) = self.sptrmap.get(&(o, off)) { return p; }
        let p = self.ptrs.len() as u32;
        self.ptrs.push((2, o, off as i64, "".into()));
        self.sptrmap.insert((o, off), p);
        p
    }
    /// position of an access inside the window
    fn at(&self, p: &V) -> Res<V> {
        if let Some((wo, base)) = self.win {
            let off = match p { V::P(o, off) if *o == wo => tm().cst(64, *off as u64 as u128), V::SP(o, t) if *o == wo => *t, _ => return Ok(p.clone()) };
            let d = tm().sub(off, base);
            return match tm().cval(lin(d)) { Some(c) => Ok(V::P(wo, c as u64 as i64)), None => unsup("access outside the window") };
        }
        Ok(p.clone())
    }
    pub fn cells(&self, p: &V, n: usize) -> Res<Vec<Cell>> {
        if n == 0 { return Ok(vec![]); }
        match &self.at(p)? {
            V::P(o, off) => {
                let ob = self.obj(*o)?;
                if n == 0 { return Ok(vec![]); }
                if *off < 0 || *off as usize + n > ob.cells.len() { return unsup(format!("out of bounds access {}+{}..{} of {}", ob.name, off, *off as usize + n, ob.cells.len())); }
                Ok(ob.cells[*off as usize..*off as usize + n].to_vec())
            }
            V::C(64, _) => { if n == 0 { Ok(vec![]) } else { unsup("load from int address") } }
            _ => unsup("bad pointer"),
        }
    }
    pub fn write_cells(&mut self, p: &V, c: &[Cell]) -> Res<()> {
        if c.is_empty() { return Ok(()); }
        match &self.at(p)? {
            V::P(o, off) => {
                let off = *off;
                let ob = self.obj_mut(*o)?;
                if off < 0 || off as usize + c.len() > ob.cells.len() { return unsup(format!("out of bounds write {}+{}..{} of {}", ob.name, off, off as usize + c.len(), ob.cells.len())); }
                ob.cells[off as usize..off as usize + c.len()].copy_from_slice(c);
                Ok(())
            }
            _ => unsup("bad pointer write"),
        }
    }
    pub fn cells_to_v(&self, c: &[Cell], w: u16) -> Res<V> {
        let n = c.len();
        let tag = c[0] >> 56;
        if tag == 1 && c.iter().all(|x| x >> 56 == 1) {
            let mut v = 0u128;
            for (i, x) in c.iter().enumerate() { v |= ((*x & 0xff) as u128) << (8 * i); }
            return Ok(V::C(w, mask(w, v)));
        }
        if c.iter().any(|x| x >> 56 == 0) { return Ok(V::U); }
        if tag == 2 {
            let t = ((c[0] >> 8) & 0xffff_ffff) as T;
            if c[0] & 0xff == 0 && tm().w(t) as usize == 8 * n && c.iter().enumerate().all(|(i, x)| *x == tbyte(t, i as u8)) {
                let r = if (w as usize) < 8 * n { tm().extract(t, 0, w) } else { t };
                return Ok(Self::v(r));
            }
        }
        if c.iter().any(|x| x >> 56 == 3) {
            // raw bytes of a pointer
            if c.iter().all(|x| x >> 56 == 3) && n == 8 { return self.cells_to_ptr(c).and_then(|p| self.t(&p)).map(Self::v); }
            return unsup("partial pointer load");
        }
        let mut acc: Option<T> = None;
        for x in c.iter() {
            let b = self.cell_term(*x)?;
            acc = Some(match acc { None => b, Some(a) => tm().concat(b, a) });
        }
        let r = acc.unwrap();
        let r = if (w as usize) < 8 * n { tm().extract(r, 0, w) } else { r };
        Ok(Self::v(r))
    }
    pub fn cell_term(&self, x: Cell) -> Res<T> {
        match x >> 56 {
            1 => Ok(tm().cst(8, (x & 0xff) as u128)),
            2 => { let t = ((x >> 8) & 0xffff_ffff) as T; let w = tm().w(t); if w < 8 { Ok(tm().zext(t, 8)) } else { Ok(tm().extract(t, 8 * (x & 0xff) as u16, 8)) } }
            0 => unsup("read of undefined byte"),
            _ => unsup("read of pointer byte"),
        }
    }
    pub fn cells_to_ptr(&self, c: &[Cell]) -> Res<V> {
        let tag = c[0] >> 56;
        if tag == 3 {
            let p = ((c[0] >> 8) & 0xffff_ffff) as u32;
            if c.iter().enumerate().all(|(i, x)| *x == pbyte(p, i as u8)) {
                let (k, o, off, f) = &self.ptrs[p as usize];
                return Ok(match *k { 1 => V::F(f.clone()), 2 => V::SP(*o, *off as T), _ => V::P(*o, *off) });
            }
            return unsup("torn pointer");
        }
        if c.iter().any(|x| x >> 56 == 0) { return Ok(V::U); }
        match self.cells_to_v(c, 64)? { V::C(_, v) => Ok(Self::int_to_ptr(v as u64)), V::T(t) => { self.term_to_ptr(t) } _ => unsup("ptr load") }
    }
    pub fn int_to_ptr(v: u64) -> V { let o = v >> 28; if o < 2 { V::P(0, v as i64) } else { V::P((o - 1) as u32, (v & 0xfff_ffff) as i64) } }
    fn term_to_ptr(&self, t: T) -> Res<V> {
        // base constant + offset term, where the range identifies the object
        let (lo, hi) = (tm().lo(t), tm().hi(t));
        if lo >> 28 == hi >> 28 && lo >> 28 >= 2 { let o = ((lo >> 28) - 1) as u32; let b = tm().cst(64, (base_addr(o)) as u128); let off = tm().sub(t, b); return Ok(V::SP(o, off)); }
        unsup("symbolic address")
    }
    pub fn load(&mut self, ty: &Ty, p: &V) -> Res<V> {
        match ty {
            Ty::Int(w) => {
                let n = ((*w as usize) + 7) / 8;
                let q;
                let p = if self.win.is_some() { q = self.at(p)?; &q } else { p };
                match p {
                    V::P(o, off) => {
                        let ob = self.obj(*o)?;
                        if *off < 0 || *off as usize + n > ob.cells.len() { return unsup(format!("out of bounds load {}+{}", ob.name, off)); }
                        let c = &ob.cells[*off as usize..*off as usize + n];
                        // fast constant path
                        let mut v = 0u128;
                        let mut all = true;
                        for (i, x) in c.iter().enumerate() { if x >> 56 != 1 { all = false; break; } v |= ((*x & 0xff) as u128) << (8 * i); }
                        if all { return Ok(V::C(*w, mask(*w, v))); }
                        let c: Vec<Cell> = c.to_vec();
                        let r = self.cells_to_v(&c, *w)?;
                        Ok(r)
                    }
                    V::SP(o, off) => self.sym_load(*o, *off, n, *w),
                    _ => unsup(format!("load int via {:?}", p)),
                }
            }
            Ty::Ptr => { let c = self.cells(p, 8)?; self.cells_to_ptr(&c) }
            Ty::Arr(..) | Ty::Struct(..) | Ty::Named(_) => {
                let (fields, offs) = self.agg_layout(ty)?;
                let mut v = vec![];
                for (f, o) in fields.iter().zip(offs) { let q = self.ptr_add(p, o as i64)?; v.push(self.load(f, &q)?); }
                Ok(V::A(Rc::new(v)))
            }
            _ => unsup(format!("load {:?}", ty)),
        }
    }
    fn agg_layout(&self, ty: &Ty) -> Res<(Vec<Ty>, Vec<u64>)> {
        match ty {
            Ty::Named(n) => { let t = self.prog.m.types.get(n).cloned().ok_or(E::Unsup("type".into()))?; self.agg_layout(&t) }
            Ty::Arr(n, e) => { let s = size_align(&self.prog.m, e).0; Ok((vec![(**e).clone(); *n as usize], (0..*n).map(|i| i * s).collect())) }
            Ty::Struct(fs, _) => Ok((fs.clone(), (0..fs.len()).map(|i| field_offset(&self.prog.m, ty, i as u64).0).collect())),
            _ => unsup("agg"),
        }
    }
    pub fn ptr_add(&self, p: &V, d: i64) -> Res<V> {
        match p { V::P(o, off) => Ok(V::P(*o, off.wrapping_add(d))), V::SP(o, t) => { let c = tm().cst(64, d as u64 as u128); Ok(V::SP(*o, tm().add(*t, c))) } V::C(64, v) => Ok(V::P(0, (*v as i64).wrapping_add(d))), _ => unsup("ptr add") }.map(|v| self.lin_v(v))
    }
    fn lin_v(&self, v: V) -> V {
        if !self.lin { return v; }
        match v {
            V::SP(o, t) => { let t = lin(t); match tm().cval(t) { Some(c) => V::P(o, c as u64 as i64), None => V::SP(o, t) } }
            V::T(t) if tm().w(t) == 64 || tm().w(t) == 128 => Self::v(lin(t)),
            v => v,
        }
    }
    fn sym_offsets(&mut self, o: u32, off: T, n: usize) -> Res<Vec<i64>> {
        let len = self.obj(o)?.cells.len();
        let (lo, hi) = (tm().lo(off), tm().hi(off));
        let hi = hi.min((len - n) as u128);
        if hi < lo || hi - lo > 200_000 { return unsup("symbolic offset range"); }
        // stride from term structure
        let mut stride = 1;
        let nd = tm().n(off);
        if nd.op == Op::Mul { if let Some(c) = tm().cval(nd.b) { stride = c as i64; } }
        if nd.op == Op::Shl { if let Some(c) = tm().cval(nd.b) { stride = 1 << c; } }
        let start = if stride > 1 { ((lo as i64) + stride - 1) / stride * stride } else { lo as i64 };
        let mut v = vec![];
        let mut k = start;
        while k <= hi as i64 { v.push(k); k += stride; }
        if v.len() > 5000 { return unsup("symbolic offset range"); }
        Ok(v)
    }
    fn sym_load(&mut self, o: u32, off: T, n: usize, w: u16) -> Res<V> {
        self.ct_event("memory address", off);
        let offs = self.sym_offsets(o, off, n)?;
        let mut acc: Option<T> = None;
        for k in offs.into_iter().rev() {
            let c = self.cells(&V::P(o, k), n)?;
            let v = match self.cells_to_v(&c, w)? { V::U => continue, v => self.t(&v)? };
            acc = Some(match acc { None => v, Some(a) => { let kk = tm().cst(64, k as u128); let e = tm().eq(off, kk); tm().ite(e, v, a) } });
        }
        acc.map(Self::v).ok_or(E::Unsup("symbolic load".into()))
    }
    fn sym_store(&mut self, o: u32, off: T, n: usize, v: T) -> Res<()> {
        self.ct_event("memory address", off);
        let offs = self.sym_offsets(o, off, n)?;
        for k in offs {
            let c = self.cells(&V::P(o, k), n)?;
            let kk = tm().cst(64, k as u128);
            let e = tm().eq(off, kk);
            let old = match self.cells_to_v(&c, tm().w(v))? { V::U => v, x => self.t(&x)? };
            let nv = tm().ite(e, v, old);
            let cs = Self::term_cells(nv);
            self.write_cells(&V::P(o, k), &cs)?;
        }
        Ok(())
    }
    pub fn term_cells(t: T) -> Vec<Cell> {
        let w = tm().w(t);
        if let Some(c) = tm().cval(t) { return (0..(w as usize + 7) / 8).map(|i| cbyte((c >> (8 * i)) as u8)).collect(); }
        let t = if w % 8 != 0 { tm().zext(t, (w + 7) / 8 * 8) } else { t };
        (0..tm().w(t) as usize / 8).map(|i| tbyte(t, i as u8)).collect()
    }
    pub fn store(&mut self, ty: &Ty, v: &V, p: &V) -> Res<()> {
        match ty {
            Ty::Int(w) => {
                let n = ((*w as usize) + 7) / 8;
                let q;
                let p = if self.win.is_some() && !matches!(p, V::P(..)) { q = self.at(p)?; if !matches!(q, V::P(..)) { &q } else { let t = match v { V::U => vec![UNDEF; n], _ => Self::term_cells(self.t(v)?) }; let keep = self.win.take(); let r = self.write_cells(&q, &t); self.win = keep; return r; } } else { p };
                if let V::SP(o, off) = p { let t = self.t(v)?; return self.sym_store(*o, *off, n, t); }
                match v {
                    V::C(_, x) => {
                        if let V::P(o, off) = &self.at(p)? {
                            let off = *off;
                            let ob = self.obj_mut(*o)?;
                            if off < 0 || off as usize + n > ob.cells.len() { return unsup(format!("out of bounds store {}+{}", ob.name, off)); }
                            for i in 0..n { ob.cells[off as usize + i] = cbyte((x >> (8 * i)) as u8); }
                            return Ok(());
                        }
                        unsup("store ptr")
                    }
                    V::T(t) => { let mut t = *t; if self.sortmode { t = crate::sortnet::canon(t); } let c = Self::term_cells(t); self.write_cells(p, &c) }
                    V::U => { let c = vec![UNDEF; n]; self.write_cells(p, &c) }
                    V::P(..) | V::SP(..) => { let t = self.t(v)?; let c = Self::term_cells(t); self.write_cells(p, &c) }
                    _ => unsup("store int"),
                }
            }
            Ty::Ptr => {
                let c: Vec<Cell> = match v {
                    V::P(0, x) => (0..8).map(|i| cbyte((*x as u64 >> (8 * i)) as u8)).collect(),
                    V::P(o, off) => { let id = self.pid(*o, *off); (0..8).map(|i| pbyte(id, i)).collect() }
                    V::F(f) => { let id = self.fpid(&f.clone()); (0..8).map(|i| pbyte(id, i)).collect() }
                    V::C(_, x) => (0..8).map(|i| cbyte((*x >> (8 * i)) as u8)).collect(),
                    V::SP(o, t) if self.lin => { let id = self.spid(*o, *t); (0..8).map(|i| pbyte(id, i)).collect() }
                    V::SP(..) => { let t = self.t(v)?; Self::term_cells(t) }
                    V::U => vec![UNDEF; 8],
                    _ => return unsup("store ptr val"),
                };
                self.write_cells(p, &c)
            }
            Ty::Arr(..) | Ty::Struct(..) | Ty::Named(_) => {
                let (fields, offs) = self.agg_layout(ty)?;
                for (i, (f, o)) in fields.iter().zip(offs).enumerate() {
                    let q = self.ptr_add(p, o as i64)?;
                    let e = match v { V::A(a) => a[i].clone(), V::U => V::U, _ => return unsup("store agg") };
                    self.store(f, &e, &q)?;
                }
                Ok(())
            }
            _ => unsup(format!("store {:?}", ty)),
        }
    }
    /// read an array of `n` elements of `w` bits as terms
    pub fn read_seq(&self, p: &V, n: usize, w: u16) -> Res<Vec<T>> {
        let b = w as usize / 8;
        let c = self.cells(p, n * b)?;
        let mut out = Vec::with_capacity(n);
        for i in 0..n { match self.cells_to_v(&c[i * b..(i + 1) * b], w)? { V::U => return unsup("undefined element"), v => out.push(self.t(&v)?) } }
        Ok(out)
    }
    pub fn write_seq(&mut self, p: &V, s: &[T]) -> Res<()> {
        let mut c = vec![];
        for &t in s { c.extend(Self::term_cells(t)); }
        self.write_cells(p, &c)
    }

    // ---------- globals & constants ----------
    fn global(&mut self, name: &str) -> Res<V> {
        if self.prog.funcs.contains_key(name) || self.prog.decl_paths.contains_key(name) { return Ok(V::F(name.into())); }
        if let Some(&g) = self.gids.get(name) { return Ok(V::P(g, 0)); }
        let (ty, init) = self.prog.globals.get(name).cloned().ok_or_else(|| E::Unsup(format!("global {}", name)))?;
        if init.is_none() { return unsup(&format!("external global {}", name)); }
        let id = GLOB + self.gobjs.len() as u32;
        let size = size_align(&self.prog.m, &ty).0 as usize;
        self.gids.insert(name.to_string(), id);
        self.gobjs.push(Rc::new(Obj { cells: vec![UNDEF; size], name: name.into() }));
        self.gnames.push(name.to_string());
        let mut cells = vec![UNDEF; size];
        if let Some(c) = init { if let Err(e) = self.emit_const(&ty, &c, &mut cells, 0) { self.gids.remove(name); return Err(e); } }
        self.gobjs[(id - GLOB) as usize] = Rc::new(Obj { cells, name: name.into() });
        Ok(V::P(id, 0))
    }
    fn emit_const(&mut self, ty: &Ty, c: &Const, out: &mut Vec<Cell>, at: usize) -> Res<()> {
        let size = size_align(&self.prog.m, ty).0 as usize;
        match c {
            Const::Zero(_) => { for i in 0..size { out[at + i] = cbyte(0); } }
            Const::Undef(_) => {}
            Const::Int(_, v) => { for i in 0..size { out[at + i] = cbyte((v >> (8 * i)) as u8); } }
            Const::Str(s) => { for (i, b) in s.iter().enumerate() { out[at + i] = cbyte(*b); } }
            Const::Agg(t, vs) => {
                let t = if matches!(ty, Ty::Named(_)) { ty } else { t };
                let (fs, offs) = self.agg_layout(t)?;
                for ((f, o), v) in fs.iter().zip(offs).zip(vs) { self.emit_const(f, v, out, at + o as usize)?; }
            }
            _ => {
                let v = self.cv(c)?;
                let tmp = self.alloc(8, "tmp");
                self.store(&Ty::Ptr, &v, &V::P(tmp, 0))?;
                let cs = self.cells(&V::P(tmp, 0), 8)?;
                self.st.stack.pop();
                for i in 0..8 { out[at + i] = cs[i]; }
            }
        }
        Ok(())
    }
    pub fn cv(&mut self, c: &Const) -> Res<V> {
        Ok(match c {
            Const::Int(w, v) => V::C(*w, *v),
            Const::Null => V::P(0, 0),
            Const::Undef(_) => V::U,
            Const::Zero(t) => self.zero(t)?,
            Const::Global(n) => return self.global(n),
            Const::Gep(t, b, idx) => {
                let base = self.cv(b)?;
                let mut off = 0i64;
                let mut ty = t.clone();
                for (k, i) in idx.iter().enumerate() {
                    let v = match i { Const::Int(w, v) => sext64(*w, *v), _ => return unsup("const gep") };
                    if k == 0 { off += v * size_align(&self.prog.m, &ty).0 as i64; } else { let (o, t2) = field_offset(&self.prog.m, &ty, v as u64); off += o as i64; ty = t2; }
                }
                self.ptr_add(&base, off)?
            }
            Const::IntToPtr(c) => match self.cv(c)? { V::C(_, v) => Self::int_to_ptr(v as u64), _ => return unsup("inttoptr const") },
            Const::PtrToInt(c, w) => { let p = self.cv(c)?; let t = self.t(&p)?; let _ = w; Self::v(t) }
            Const::Agg(_, v) => { let mut r = vec![]; for x in v { r.push(self.cv(x)?); } V::A(Rc::new(r)) }
            Const::Str(s) => V::A(Rc::new(s.iter().map(|b| V::C(8, *b as u128)).collect())),
            Const::Unsupported(s) => return unsup(s.clone()),
        })
    }
    fn zero(&self, t: &Ty) -> Res<V> {
        Ok(match t {
            Ty::Int(w) => V::C(*w, 0),
            Ty::Ptr => V::P(0, 0),
            Ty::Arr(..) | Ty::Struct(..) | Ty::Named(_) => { let (fs, _) = self.agg_layout(t)?; let mut v = vec![]; for f in &fs { v.push(self.zero(f)?); } V::A(Rc::new(v)) }
            _ => return unsup("zeroinit"),
        })
    }
    fn o(&mut self, regs: &[V], o: &Opd) -> Res<V> {
        match o { Opd::Reg(r) => Ok(regs[*r as usize].clone()), Opd::C(Const::Int(w, v)) => Ok(V::C(*w, *v)), Opd::C(c) => self.cv(c) }
    }

    // ---------- obligations ----------
    pub fn ct_event(&mut self, kind: &'static str, c: T) {
        let f: String = self.callstack.last().map(|s| s.to_string()).unwrap_or_default();
        let fid = tm().fid(&f);
        if !self.ct_seen.insert((fid, c)) { return; }
        let secret = tm().taint[c as usize] & 1 != 0;
        if secret && self.ct.len() < 2000 { self.ct.push(CtEvent { func: f, kind, cond: c, secret }); }
    }
    fn panic_ob(&mut self, what: String, extra: Option<T>) {
        let mut pc = self.st.pc.clone();
        pc.extend(self.facts.iter());
        if let Some(e) = extra { pc.push(e); }
        let status = crate::smt::unsat(&pc);
        let func = self.callstack.last().map(|s| s.to_string()).unwrap_or_default();
        if self.panics.len() < 100_000 { self.panics.push(PanicOb { what, func, status, pc }); }
    }
    fn describe_panic(&mut self, b: &Block, regs: &[V]) -> String {
        for i in b.insts.iter().rev() {
            if let Inst::Call(_, _, Callee::Direct(n), args) = i {
                let mut path = self.prog.decl_paths.get(n).cloned().unwrap_or_default();
                if path.is_empty() { path = self.prog.funcs.get(n).map(|f| f.path.clone()).unwrap_or(n.clone()); }
                let mut loc = String::new();
                if let Some((_, a)) = args.last() { if let Ok(p) = self.o(regs, a) { if let Some(s) = self.location(&p) { loc = format!(" at {}", s); } } }
                return format!("{}{}", path, loc);
            }
        }
        "unreachable code".to_string()
    }
    fn location(&mut self, p: &V) -> Option<String> {
        let c = self.cells(p, 24).ok()?;
        let f = self.cells_to_ptr(&c[0..8]).ok()?;
        let g = |i: usize, n: usize| -> Option<u64> { let mut v = 0u64; for k in 0..n { if c[i + k] >> 56 != 1 { return None; } v |= (c[i + k] & 0xff) << (8 * k); } Some(v) };
        let len = g(8, 8)?;
        if len > 400 { return None; }
        let line = g(16, 4)?;
        let s = self.cells(&f, len as usize).ok()?;
        Some(format!("{}:{}", String::from_utf8_lossy(&s.iter().map(|x| (x & 0xff) as u8).collect::<Vec<_>>()), line))
    }
    fn is_panic_block(fb: &FuncBody, b: u32) -> bool { matches!(fb.blocks[b as usize].term, Term::Unreachable) }

    // ---------- execution ----------
    pub fn call(&mut self, sym: &str, args: &[V]) -> Res<Option<V>> {
        if let Some(h) = self.hooks.get(sym).cloned() {
            if let Some(r) = self.run_hook(sym, &h, args)? { return Ok(Some(r)); }
        }
        if sym.starts_with("llvm.") { return self.intrinsic(sym, args).map(Some); }
        if self.prog.funcs.contains_key(sym) { return self.run(sym, args); }
        self.external(sym, args).map(Some)
    }
    /// Execute a defined function. None: it diverges on every feasible path.
    pub fn run(&mut self, sym: &str, args: &[V]) -> Res<Option<V>> {
        let fb = match self.prog.body(sym) { Ok(b) => b, Err(e) => return unsup(e) };
        self.depth += 1;
        if self.depth > 400 { return unsup("call depth"); }
        let path: Rc<str> = self.prog.funcs[sym].path.as_str().into();
        if path.starts_with("ntrust_native") || path.starts_with("<ntrust_native") { *self.executed.entry(path.to_string()).or_insert(0) += 1; }
        self.callstack.push(path);
        let base = self.st.stack.len();
        let mut regs = vec![V::U; fb.nregs as usize];
        for (i, a) in args.iter().enumerate() { if i < regs.len() { regs[i] = a.clone(); } }
        let symrc: Rc<str> = sym.into();
        let out = self.exec(&symrc, &fb, &mut regs, 0, u32::MAX, None, false)?;
        self.st.stack.truncate(base);
        self.callstack.pop();
        self.depth -= 1;
        match out { Outcome::Ret(v) => Ok(Some(v)), Outcome::Div => Ok(None), Outcome::Stop(_) => unsup("stop outside region") }
    }
    /// continue a function from a block with the given registers (used for loop cut points)
    pub fn resume(&mut self, sym: &str, regs: &mut Vec<V>, block: u32, prev: u32) -> Res<Option<V>> {
        let fb = match self.prog.body(sym) { Ok(b) => b, Err(e) => return unsup(e) };
        self.depth = 1;
        let path: Rc<str> = self.prog.funcs[sym].path.as_str().into();
        self.callstack = vec![path];
        let symrc: Rc<str> = sym.into();
        self.cut_skip = true;
        let out = self.exec(&symrc, &fb, regs, block, prev, None, false)?;
        match out { Outcome::Ret(v) => Ok(Some(v)), Outcome::Div => Ok(None), Outcome::Stop(_) => unsup("stop outside region") }
    }
    fn do_phis(&mut self, fb: &FuncBody, regs: &mut Vec<V>, b: u32, prev: u32) -> Res<usize> {
        let blk = &fb.blocks[b as usize];
        let mut vals = vec![];
        let mut n = 0;
        for i in &blk.insts { if let Inst::Phi(d, v) = i { n += 1; let o = v.iter().find(|x| x.1 == prev).ok_or(E::Unsup("phi pred".into()))?; let val = self.o(regs, &o.0)?; vals.push((*d, val)); } else { break; } }
        for (d, v) in vals { regs[d as usize] = v; }
        Ok(n)
    }
    fn exec(&mut self, sym: &Rc<str>, fb: &Rc<FuncBody>, regs: &mut Vec<V>, start: u32, prev0: u32, stop: Option<u32>, mut skip_phi: bool) -> Res<Outcome> {
        let mut b = start;
        let mut prev = prev0;
        loop {
            if stop == Some(b) && !(b == start && skip_phi) { return Ok(Outcome::Stop(prev)); }
            if fb.loop_heads[b as usize] {
                if let Some(tr) = &mut self.trace_heads { let d = self.depth; let e = tr.entry((sym.to_string(), b)).or_insert((0, d)); e.0 += 1; }
            }
            if let Some((cs, cb)) = &self.cut {
                if *cb == b && **cs == **sym && self.cut_skip { self.cut_skip = false; } else if *cb == b && **cs == **sym {
                    if let Some(f) = self.cut_cb { if !f(self, fb, regs, prev)? { return Err(E::Abort); } }
                }
            }
            let blk = &fb.blocks[b as usize];
            let mut first = 0;
            if skip_phi { while first < blk.insts.len() && matches!(blk.insts[first], Inst::Phi(..)) { first += 1; } skip_phi = false; }
            else if matches!(blk.insts.first(), Some(Inst::Phi(..))) { first = self.do_phis(fb, regs, b, prev)?; }
            self.steps += blk.insts.len() as u64 + 1;
            if self.steps > self.fuel { return Err(E::Fuel); }
            let mut diverged = false;
            for i in &blk.insts[first..] {
                if !self.inst(fb, blk, regs, i)? { diverged = true; break; }
            }
            if diverged { return Ok(Outcome::Div); }
            match &blk.term {
                Term::Br(x) => { prev = b; b = *x; }
                Term::Ret(o) => { let v = match o { Some(o) => self.o(regs, o)?, None => V::U }; return Ok(Outcome::Ret(v)); }
                Term::Unreachable => { let d = self.describe_panic(blk, regs); self.panic_ob(d, None); return Ok(Outcome::Div); }
                Term::CondBr(c, x, y) => {
                    match self.o(regs, c)? {
                        V::C(_, v) => { prev = b; let (go, no) = if v == 1 { (*x, *y) } else { (*y, *x) }; if Self::is_panic_block(fb, no) { self.npanic_const += 1; } b = go; }
                        V::T(c) => {
                            match self.branch(sym, fb, regs, b, c, *x, *y, stop)? {
                                Br::Goto(t) => { prev = b; b = t; }
                                Br::Join(t) => { b = t; skip_phi = true; if stop == Some(t) { return Ok(Outcome::Stop(b)); } }
                                Br::Done(o) => return Ok(o),
                            }
                        }
                        _ => return unsup(format!("branch on undef in {}", self.callstack.last().map(|s| s.to_string()).unwrap_or_default())),
                    }
                }
                Term::Switch(o, w, cases, d) => {
                    match self.o(regs, o)? {
                        V::C(_, v) => { prev = b; b = cases.iter().find(|c| c.0 == v).map(|c| c.1).unwrap_or(*d); }
                        V::T(t) => {
                            // only two-way symbolic switches (others: successive equality forks)
                            let mut todo = cases.clone();
                            todo.retain(|c| c.0 <= tm().hi(t) && c.0 >= tm().lo(t));
                            if todo.is_empty() { prev = b; b = *d; continue; }
                            match self.switch(sym, fb, regs, b, t, *w, &todo, *d, stop)? {
                                Br::Goto(t) => { prev = b; b = t; }
                                Br::Join(t) => { b = t; skip_phi = true; if stop == Some(t) { return Ok(Outcome::Stop(b)); } }
                                Br::Done(o) => return Ok(o),
                            }
                        }
                        _ => return unsup("switch on undef"),
                    }
                }
                Term::Unsupported(s) => return unsup(s.clone()),
            }
        }
    }
    fn switch(&mut self, sym: &Rc<str>, fb: &Rc<FuncBody>, regs: &mut Vec<V>, b: u32, t: T, w: u16, cases: &[(u128, u32)], d: u32, stop: Option<u32>) -> Res<Br> {
        let mut arms: Vec<(T, u32)> = vec![];
        let mut neg = tm().cst(1, 1);
        for (k, blk) in cases { let kk = tm().cst(w, *k); let e = tm().eq(t, kk); let c = tm().and(neg, e); arms.push((c, *blk)); let ne = tm().not(e); neg = tm().and(neg, ne); }
        arms.push((neg, d));
        self.fork(sym, fb, regs, b, &arms, stop)
    }
    fn branch(&mut self, sym: &Rc<str>, fb: &Rc<FuncBody>, regs: &mut Vec<V>, b: u32, c: T, x: u32, y: u32, stop: Option<u32>) -> Res<Br> {
        let nc = tm().not(c);
        if self.st.pc.contains(&c) { return Ok(Br::Goto(x)); }
        if self.st.pc.contains(&nc) { return Ok(Br::Goto(y)); }
        let (px, py) = (Self::is_panic_block(fb, x), Self::is_panic_block(fb, y));
        if px != py {
            let (pb, pcnd, go) = if px { (x, c, y) } else { (y, nc, x) };
            self.npanic_checks += 1;
            let d = self.describe_panic(&fb.blocks[pb as usize], regs);
            self.panic_ob(d, Some(pcnd));
            return Ok(Br::Goto(go));
        }
        // constant after all?
        let (r1, r0) = (crate::smt::quick_const(c), 0);
        let _ = r0;
        match r1 { Some(true) => return Ok(Br::Goto(x)), Some(false) => return Ok(Br::Goto(y)), None => {} }
        self.fork(sym, fb, regs, b, &[(c, x), (nc, y)], stop)
    }
    fn fork(&mut self, sym: &Rc<str>, fb: &Rc<FuncBody>, regs: &mut Vec<V>, b: u32, arms: &[(T, u32)], stop: Option<u32>) -> Res<Br> {
        self.forks += 1;
        if self.forks > self.maxforks * if self.sortmode { 4 } else { 1 } { return unsup("too many symbolic branches"); }
        if !self.callstack.last().map_or(false, |f| int_helper(f)) { self.ct_event("branch", arms[0].0); }
        let join = fb.ipdom[b as usize];
        let saved = self.st.clone();
        let saved_regs = regs.clone();
        let (cs, d) = (self.callstack.clone(), self.depth);
        let mut results: Vec<(T, Outcome, State, Vec<V>)> = vec![];
        for (c, tgt) in arms {
            self.st = saved.clone();
            self.st.pc.push(*c);
            *regs = saved_regs.clone();
            self.callstack = cs.clone();
            self.depth = d;
            let o = if Some(*tgt) == join { Outcome::Stop(b) } else { self.exec(sym, fb, regs, *tgt, b, join.or(stop), false)? };
            if let (Outcome::Stop(p), Some(j)) = (&o, join) { if !(fb.blocks[j as usize].insts.is_empty()) && *p != j { self.do_phis(fb, regs, j, *p)?; } }
            self.st.pc = saved.pc.clone();
            match o { Outcome::Div => {} o => results.push((*c, o, self.st.clone(), regs.clone())) }
        }
        self.callstack = cs;
        self.depth = d;
        if results.is_empty() { self.st = saved; return Ok(Br::Done(Outcome::Div)); }
        let (_, mut o, mut st, mut rg) = results.pop().unwrap();
        while let Some((c, o2, st2, rg2)) = results.pop() {
            o = match (o2, o) {
                (Outcome::Ret(a), Outcome::Ret(b)) => Outcome::Ret(self.merge_v(c, &a, &b)),
                (Outcome::Stop(a), Outcome::Stop(_)) => Outcome::Stop(a),
                _ => return unsup("mixed merge"),
            };
            st = self.merge_state(c, &st2, &st)?;
            for i in 0..rg.len() { rg[i] = self.merge_v(c, &rg2[i], &rg[i]); }
        }
        self.st = st;
        *regs = rg;
        match o {
            Outcome::Stop(_) => match join { Some(j) => Ok(Br::Join(j)), None => Ok(Br::Done(o)) },
            o => Ok(Br::Done(o)),
        }
    }
    fn merge_v(&self, c: T, a: &V, b: &V) -> V {
        match (a, b) {
            (V::U, x) | (x, V::U) => x.clone(),
            (V::C(w, x), V::C(w2, y)) if w == w2 && x == y => a.clone(),
            (V::P(o, x), V::P(o2, y)) if o == o2 => { if x == y { a.clone() } else { let (x, y) = (tm().cst(64, *x as u64 as u128), tm().cst(64, *y as u64 as u128)); V::SP(*o, tm().ite(c, x, y)) } }
            (V::F(x), V::F(y)) if x == y => a.clone(),
            (V::A(x), V::A(y)) if x.len() == y.len() => { if Rc::ptr_eq(x, y) { return a.clone(); } V::A(Rc::new(x.iter().zip(y.iter()).map(|(p, q)| self.merge_v(c, p, q)).collect())) }
            (V::C(..) | V::T(_), V::C(..) | V::T(_)) => { let (x, y) = (self.t(a).unwrap(), self.t(b).unwrap()); if tm().w(x) != tm().w(y) { return V::U; } Self::v(tm().ite(c, x, y)) }
            _ => V::U,
        }
    }
    fn merge_state(&mut self, c: T, a: &State, b: &State) -> Res<State> {
        if a.stack.len() != b.stack.len() { return unsup("merge: stack"); }
        if a.rng.len() != b.rng.len() { return unsup("RNG requests differ between branches"); }
        let mut r = b.clone();
        for i in 0..a.stack.len() { if !Rc::ptr_eq(&a.stack[i], &b.stack[i]) { r.stack[i] = Rc::new(self.merge_obj(c, &a.stack[i], &b.stack[i])?); } }
        let n = a.heap.len().min(b.heap.len());
        for i in 0..n { if !Rc::ptr_eq(&a.heap[i], &b.heap[i]) { r.heap[i] = Rc::new(self.merge_obj(c, &a.heap[i], &b.heap[i])?); } }
        for i in n..a.heap.len() { r.heap.push(a.heap[i].clone()); }
        Ok(r)
    }
    fn merge_obj(&mut self, c: T, a: &Obj, b: &Obj) -> Res<Obj> {
        let mut r = b.clone();
        if a.cells.len() != b.cells.len() { return unsup("merge: object size"); }
        let n = a.cells.len();
        let mut i = 0;
        let width = |cs: &[Cell], i: usize| -> Option<usize> { // whole-term group starting at i
            let x = cs[i];
            if x >> 56 != 2 || x & 0xff != 0 { return None; }
            let t = ((x >> 8) & 0xffff_ffff) as T;
            let k = tm().w(t) as usize / 8;
            if k == 0 || i + k > cs.len() { return None; }
            for j in 0..k { if cs[i + j] != tbyte(t, j as u8) { return None; } }
            Some(k)
        };
        while i < n {
            if a.cells[i] == b.cells[i] { i += 1; continue; }
            if a.cells[i] == UNDEF { i += 1; continue; }
            if b.cells[i] == UNDEF { r.cells[i] = a.cells[i]; i += 1; continue; }
            let mut k = width(&a.cells, i).or_else(|| width(&b.cells, i)).unwrap_or(1);
            if i + k > n || (i..i + k).any(|j| a.cells[j] == UNDEF || b.cells[j] == UNDEF || a.cells[j] >> 56 == 3 || b.cells[j] >> 56 == 3) { k = 1; }
            if a.cells[i] >> 56 == 3 || b.cells[i] >> 56 == 3 { r.cells[i] = UNDEF; i += 1; continue; }
            let x = self.cells_to_v(&a.cells[i..i + k], 8 * k as u16)?;
            let y = self.cells_to_v(&b.cells[i..i + k], 8 * k as u16)?;
            let (x, y) = (self.t(&x)?, self.t(&y)?);
            let mut m = tm().ite(c, x, y);
            if self.sortmode { m = crate::sortnet::canon(m); }
            let cs = Self::term_cells(m);
            r.cells[i..i + k].copy_from_slice(&cs);
            i += k;
        }
        Ok(r)
    }
    /// returns false when the call diverges
    fn inst(&mut self, _fb: &FuncBody, blk: &Block, regs: &mut Vec<V>, i: &Inst) -> Res<bool> {
        match i {
            Inst::Bin(d, op, w, a, b) => { let (x, y) = (self.o(regs, a)?, self.o(regs, b)?); regs[*d as usize] = self.bin(*op, *w, &x, &y)?; }
            Inst::Icmp(d, p, ty, a, b) => { let (x, y) = (self.o(regs, a)?, self.o(regs, b)?); regs[*d as usize] = self.icmp(*p, ty, &x, &y)?; }
            Inst::Cast(d, k, t1, a, t2) => { let x = self.o(regs, a)?; regs[*d as usize] = self.cast(*k, t1, &x, t2)?; }
            Inst::Select(d, c, a, b) => {
                let (c, x, y) = (self.o(regs, c)?, self.o(regs, a)?, self.o(regs, b)?);
                regs[*d as usize] = match c {
                    V::C(_, v) => if v == 1 { x } else { y },
                    V::T(t) => self.merge_v(t, &x, &y),
                    _ => return unsup("select on undef"),
                };
            }
            Inst::Alloca(d, s) => { let id = self.alloc(*s, &_fb.regnames[*d as usize]); regs[*d as usize] = V::P(id, 0); }
            Inst::Load(d, t, p) => { let p = self.o(regs, p)?; regs[*d as usize] = self.load(t, &p)?; }
            Inst::Store(t, v, p) => { let (v, p) = (self.o(regs, v)?, self.o(regs, p)?); self.store(t, &v, &p)?; }
            Inst::Gep(d, base, idx, coff) => {
                let mut p = self.o(regs, base)?;
                let mut c = *coff as i64;
                for (s, o, w) in idx {
                    match self.o(regs, o)? {
                        V::C(_, v) => c = c.wrapping_add((*s as i64).wrapping_mul(sext64(*w, v))),
                        V::T(t) => {
                            let t = tm().sext_t(t, 64);
                            let sc = tm().cst(64, *s as u128);
                            let t = tm().mul(t, sc);
                            p = match p { V::P(o, off) => { let k = tm().cst(64, off as u64 as u128); V::SP(o, tm().add(t, k)) } V::SP(o, u) => V::SP(o, tm().add(u, t)), _ => return unsup("gep base") };
                        }
                        _ => return unsup("gep index"),
                    }
                }
                regs[*d as usize] = if c == 0 { self.lin_v(p) } else { self.ptr_add(&p, c)? };
            }
            Inst::Extract(d, a, ix) => {
                let mut v = self.o(regs, a)?;
                for k in ix { v = match &v { V::A(x) => x[*k as usize].clone(), V::U => V::U, _ => return unsup("extractvalue") }; }
                regs[*d as usize] = v;
            }
            Inst::Insert(d, ty, a, v, ix) => {
                let (a, v) = (self.o(regs, a)?, self.o(regs, v)?);
                regs[*d as usize] = self.insert(ty, a, v, ix)?;
            }
            Inst::Freeze(d, a) => { let v = self.o(regs, a)?; regs[*d as usize] = v; }
            Inst::Phi(..) => return unsup("phi position"),
            Inst::Nop => {}
            Inst::Unsupported(s) => return unsup(s.clone()),
            Inst::Call(d, _t, callee, args) => {
                let mut av = Vec::with_capacity(args.len());
                for (_, a) in args { av.push(self.o(regs, a)?); }
                let name: String;
                let sym: &str = match callee {
                    Callee::Direct(n) => n,
                    Callee::Indirect(o) => match self.o(regs, o)? { V::F(f) => { name = f.to_string(); &name } x => return unsup(format!("indirect call {:?}", x)) },
                    Callee::Asm => { if d.is_some() { return unsup("inline asm with result"); } return Ok(true); }
                };
                if matches!(blk.term, Term::Unreachable) && !self.prog.funcs.contains_key(sym) && !sym.starts_with("llvm.") && !self.hooks.contains_key(sym) {
                    let what = self.describe_panic(blk, regs);
                    self.panic_ob(what, None);
                    return Ok(false);
                }
                match self.call(sym, &av)? {
                    Some(v) => { if let Some(d) = d { regs[*d as usize] = v; } }
                    None => return Ok(false),
                }
            }
        }
        Ok(true)
    }
    fn insert(&self, ty: &Ty, a: V, v: V, ix: &[u32]) -> Res<V> {
        let mut f: Vec<V> = match &a { V::A(x) => x.to_vec(), V::U => { let (fs, _) = self.agg_layout(ty)?; vec![V::U; fs.len()] } _ => return unsup("insertvalue") };
        let k = ix[0] as usize;
        if ix.len() == 1 { f[k] = v; } else { let (fs, _) = self.agg_layout(ty)?; f[k] = self.insert(&fs[k], f[k].clone(), v, &ix[1..])?; }
        Ok(V::A(Rc::new(f)))
    }
    pub fn bin(&self, op: Bin, w: u16, x: &V, y: &V) -> Res<V> {
        if let (V::C(_, a), V::C(_, b)) = (x, y) {
            let (a, b) = (*a, *b);
            let r = match op {
                Bin::Add => a.wrapping_add(b),
                Bin::Sub => a.wrapping_sub(b),
                Bin::Mul => a.wrapping_mul(b),
                Bin::And => a & b,
                Bin::Or => a | b,
                Bin::Xor => a ^ b,
                Bin::Shl => if b >= w as u128 { 0 } else { a << b },
                Bin::LShr => if b >= w as u128 { 0 } else { a >> b },
                Bin::AShr => (sext(w, a) >> b.min(w as u128 - 1)) as u128,
                Bin::UDiv => if b == 0 { return unsup("div by zero") } else { a / b },
                Bin::URem => if b == 0 { return unsup("div by zero") } else { a % b },
                Bin::SDiv => if b == 0 { return unsup("div by zero") } else { sext(w, a).wrapping_div(sext(w, b)) as u128 },
                Bin::SRem => if b == 0 { return unsup("div by zero") } else { sext(w, a).wrapping_rem(sext(w, b)) as u128 },
            };
            return Ok(V::C(w, mask(w, r)));
        }
        if matches!(x, V::U) || matches!(y, V::U) { return Ok(V::U); }
        let (a, b) = (self.t(x)?, self.t(y)?);
        let m = tm();
        let r = match op {
            Bin::Add => m.add(a, b), Bin::Sub => m.sub(a, b), Bin::Mul => m.mul(a, b), Bin::And => m.and(a, b), Bin::Or => m.or(a, b), Bin::Xor => m.xor(a, b),
            Bin::Shl => m.shl(a, b), Bin::LShr => m.lshr(a, b), Bin::AShr => m.ashr(a, b), Bin::UDiv => m.udiv(a, b), Bin::URem => m.urem(a, b), Bin::SDiv => m.sdiv(a, b), Bin::SRem => m.srem(a, b),
        };
        Ok(self.lin_v(Self::v(r)))
    }
    pub fn icmp(&self, p: Pred, ty: &Ty, x: &V, y: &V) -> Res<V> {
        let w = match ty { Ty::Int(w) => *w, _ => 64 };
        if let (V::C(_, a), V::C(_, b)) = (x, y) {
            let (a, b) = (*a, *b);
            let (sa, sb) = (sext(w, a), sext(w, b));
            let r = match p { Pred::Eq => a == b, Pred::Ne => a != b, Pred::Ult => a < b, Pred::Ule => a <= b, Pred::Ugt => a > b, Pred::Uge => a >= b, Pred::Slt => sa < sb, Pred::Sle => sa <= sb, Pred::Sgt => sa > sb, Pred::Sge => sa >= sb };
            return Ok(V::C(1, r as u128));
        }
        match (x, y) {
            (V::F(a), V::F(b)) => { let e = a == b; return match p { Pred::Eq => Ok(V::C(1, e as u128)), Pred::Ne => Ok(V::C(1, !e as u128)), _ => unsup("fn cmp") }; }
            (V::F(_), V::P(..)) | (V::P(..), V::F(_)) => { return match p { Pred::Eq => Ok(V::C(1, 0)), Pred::Ne => Ok(V::C(1, 1)), _ => unsup("fn cmp") }; }
            (V::U, _) | (_, V::U) => return Ok(V::U),
            _ => {}
        }
        let (a, b) = (self.t(x)?, self.t(y)?);
        let m = tm();
        let r = match p {
            Pred::Eq => m.eq(a, b),
            Pred::Ne => m.ne(a, b),
            Pred::Ult => m.ult(a, b),
            Pred::Uge => { let t = m.ult(a, b); m.not(t) }
            Pred::Ugt => m.ult(b, a),
            Pred::Ule => { let t = m.ult(b, a); m.not(t) }
            Pred::Slt => m.slt(a, b),
            Pred::Sge => { let t = m.slt(a, b); m.not(t) }
            Pred::Sgt => m.slt(b, a),
            Pred::Sle => { let t = m.slt(b, a); m.not(t) }
        };
        Ok(Self::v(r))
    }
    fn cast(&self, k: Cast, t1: &Ty, x: &V, t2: &Ty) -> Res<V> {
        let w2 = match t2 { Ty::Int(w) => *w, Ty::Ptr => 64, _ => return unsup("cast type") };
        match k {
            Cast::IntToPtr => match x { V::C(_, v) => Ok(Self::int_to_ptr(*v as u64)), V::T(t) => self.term_to_ptr(*t), V::P(..) | V::SP(..) => Ok(x.clone()), _ => unsup("inttoptr") },
            Cast::PtrToInt => { match x { V::U => Ok(V::U), _ => Ok(Self::v(self.t(x)?)) } }
            Cast::Bitcast => if t1 == t2 { Ok(x.clone()) } else { unsup("bitcast") },
            _ => match x {
                V::U => Ok(V::U),
                V::C(w, v) => Ok(V::C(w2, match k { Cast::SExt => mask(w2, sext(*w, *v) as u128), _ => mask(w2, *v) })),
                _ => { let t = self.t(x)?; Ok(Self::v(match k { Cast::Trunc => tm().extract(t, 0, w2), Cast::ZExt => tm().zext(t, w2), _ => tm().sext_t(t, w2) })) }
            },
        }
    }
    fn usz(&self, v: &V) -> Res<usize> { match v { V::C(_, x) => Ok(*x as usize), _ => unsup("symbolic length") } }
    fn intrinsic(&mut self, n: &str, a: &[V]) -> Res<V> {
        let m = tm();
        if n.starts_with("llvm.memcpy") || n.starts_with("llvm.memmove") { let k = self.usz(&a[2])?; let c = self.cells(&a[1], k)?; self.write_cells(&a[0], &c)?; return Ok(V::U); }
        if n.starts_with("llvm.memset") {
            let k = self.usz(&a[2])?;
            let c = match &a[1] { V::C(_, v) => cbyte(*v as u8), V::T(t) => tbyte(*t, 0), V::U => UNDEF, _ => return unsup("memset") };
            return self.write_cells(&a[0], &vec![c; k]).map(|_| V::U);
        }
        if n.starts_with("llvm.expect") { return Ok(a[0].clone()); }
        if n.starts_with("llvm.is.constant") { return Ok(V::C(1, 0)); }
        if n.contains(".with.overflow.") {
            let (x, y) = (self.t(&a[0])?, self.t(&a[1])?);
            let w = m.w(x);
            let signed = n.starts_with("llvm.s");
            let op = if n.contains("add.") { Bin::Add } else if n.contains("sub.") { Bin::Sub } else { Bin::Mul };
            let r = self.t(&self.bin(op, w, &a[0], &a[1])?)?;
            let of;
            if !signed {
                of = match op {
                    Bin::Add => m.ult(r, x),
                    Bin::Sub => m.ult(x, y),
                    _ => { if m.hi(x).checked_mul(m.hi(y)).map_or(false, |p| p <= ones(w)) { m.cst(1, 0) } else if w <= 64 { let (x2, y2) = (m.zext(x, 2 * w), m.zext(y, 2 * w)); let p = m.mul(x2, y2); let k = m.cst(2 * w, ones(w)); m.ult(k, p) } else { return unsup("umul overflow") } }
                };
            } else {
                let (sx, sy) = (m.srange(x), m.srange(y));
                let half = if w <= 64 { 1i128 << (w - 1) } else { return unsup("signed overflow width") };
                let rng = match op { Bin::Add => (sx.0 + sy.0, sx.1 + sy.1), Bin::Sub => (sx.0 - sy.1, sx.1 - sy.0), _ => { let c = [sx.0 * sy.0, sx.0 * sy.1, sx.1 * sy.0, sx.1 * sy.1]; (*c.iter().min().unwrap(), *c.iter().max().unwrap()) } };
                if rng.0 >= -half && rng.1 < half { of = m.cst(1, 0); } else {
                    let (x2, y2) = (m.sext_t(x, 2 * w), m.sext_t(y, 2 * w));
                    let p = match op { Bin::Add => m.add(x2, y2), Bin::Sub => m.sub(x2, y2), _ => m.mul(x2, y2) };
                    let r2 = m.sext_t(r, 2 * w);
                    of = m.ne(p, r2);
                }
            }
            return Ok(V::A(Rc::new(vec![Self::v(r), Self::v(of)])));
        }
        if n.starts_with("llvm.bswap") {
            let x = self.t(&a[0])?;
            let nb = m.w(x) / 8;
            let mut acc = m.extract(x, 8 * (nb - 1), 8);
            for i in (0..nb - 1).rev() { let e = m.extract(x, 8 * i, 8); acc = m.concat(e, acc); }
            // acc now has byte nb-1 lowest ... byte 0 highest
            return Ok(Self::v(acc));
        }
        for (k, f) in [("llvm.umin", 0), ("llvm.umax", 1), ("llvm.smin", 2), ("llvm.smax", 3)] {
            if n.starts_with(k) {
                let (x, y) = (self.t(&a[0])?, self.t(&a[1])?);
                let c = if f < 2 { m.ult(x, y) } else { m.slt(x, y) };
                return Ok(Self::v(if f % 2 == 0 { m.ite(c, x, y) } else { m.ite(c, y, x) }));
            }
        }
        if n.starts_with("llvm.abs") { let x = self.t(&a[0])?; let z = m.cst(m.w(x), 0); let c = m.slt(x, z); let ng = m.neg(x); return Ok(Self::v(m.ite(c, ng, x))); }
        if n.starts_with("llvm.fshl") || n.starts_with("llvm.fshr") {
            let (x, y) = (self.t(&a[0])?, self.t(&a[1])?);
            let w = m.w(x) as u128;
            if let V::C(_, s) = &a[2] {
                let s = s % w;
                let s = if n.starts_with("llvm.fshl") { s } else if s == 0 { return Ok(Self::v(y)) } else { w - s };
                if s == 0 { return Ok(Self::v(x)); }
                let (k1, k2) = (m.cst(w as u16, s), m.cst(w as u16, w - s));
                let (p, q) = (m.shl(x, k1), m.lshr(y, k2));
                return Ok(Self::v(m.or(p, q)));
            }
            return unsup("funnel shift by variable");
        }
        if n.starts_with("llvm.ctpop") {
            let x = self.t(&a[0])?;
            let w = m.w(x);
            let mut acc = m.cst(w, 0);
            for i in 0..w { let b = m.extract(x, i, 1); let b = m.zext(b, w); acc = m.add(acc, b); }
            return Ok(Self::v(acc));
        }
        if n.starts_with("llvm.usub.sat") { let (x, y) = (self.t(&a[0])?, self.t(&a[1])?); let c = m.ult(x, y); let z = m.cst(m.w(x), 0); let s = m.sub(x, y); return Ok(Self::v(m.ite(c, z, s))); }
        if n.starts_with("llvm.uadd.sat") { let (x, y) = (self.t(&a[0])?, self.t(&a[1])?); let s = m.add(x, y); let c = m.ult(s, x); let o = m.cst(m.w(x), ones(m.w(x))); return Ok(Self::v(m.ite(c, o, s))); }
        if n.starts_with("llvm.ctlz") || n.starts_with("llvm.cttz") { if let V::C(w, v) = &a[0] { let r = if n.starts_with("llvm.ctlz") { if *v == 0 { *w as u32 } else { v.leading_zeros() - (128 - *w as u32) } } else if *v == 0 { *w as u32 } else { v.trailing_zeros() }; return Ok(V::C(*w, r as u128)); } }
        if n.starts_with("llvm.scmp") || n.starts_with("llvm.ucmp") {
            let (x, y) = (self.t(&a[0])?, self.t(&a[1])?);
            let rw: u16 = n.split('.').nth(2).and_then(|s| s[1..].parse().ok()).unwrap_or(8);
            let (l, g) = if n.starts_with("llvm.s") { (m.slt(x, y), m.slt(y, x)) } else { (m.ult(x, y), m.ult(y, x)) };
            let (mi, z, on) = (m.cst(rw, ones(rw)), m.cst(rw, 0), m.cst(rw, 1));
            let r = m.ite(g, on, z);
            return Ok(Self::v(m.ite(l, mi, r)));
        }
        if n.starts_with("llvm.threadlocal") || n.starts_with("llvm.trap") || n.starts_with("llvm.prefetch") || n.starts_with("llvm.sideeffect") { return Ok(V::U); }
        unsup(format!("intrinsic {}", n))
    }
    fn external(&mut self, sym: &str, a: &[V]) -> Res<V> {
        let path = self.prog.decl_paths.get(sym).cloned().unwrap_or_default();
        if sym == "memcmp" || sym == "bcmp" {
            let k = self.usz(&a[2])?;
            let (x, y) = (self.read_seq(&a[0], k, 8)?, self.read_seq(&a[1], k, 8)?);
            let m = tm();
            let mut acc = m.cst(32, 0);
            for i in (0..k).rev() { let e = m.eq(x[i], y[i]); let l = m.ult(x[i], y[i]); let (mi, on) = (m.cst(32, ones(32)), m.cst(32, 1)); let d = m.ite(l, mi, on); acc = m.ite(e, acc, d); }
            return Ok(Self::v(acc));
        }
        if sym == "memcpy" || sym == "memmove" { let k = self.usz(&a[2])?; let c = self.cells(&a[1], k)?; self.write_cells(&a[0], &c)?; return Ok(a[0].clone()); }
        if sym.contains("___rust_alloc_zeroed") { let k = self.usz(&a[0])?; let id = self.alloc_heap(k as u64); self.write_cells(&V::P(id, 0), &vec![cbyte(0); k])?; return Ok(V::P(id, 0)); }
        if sym.contains("___rust_alloc") { let k = self.usz(&a[0])?; let id = self.alloc_heap(k as u64); return Ok(V::P(id, 0)); }
        if sym.contains("___rust_dealloc") || sym.contains("___rust_no_alloc_shim") { return Ok(V::U); }
        if sym.contains("___rust_realloc") { let k = self.usz(&a[3])?; let o = self.usz(&a[1])?; let c = self.cells(&a[0], o.min(k))?; let id = self.alloc_heap(k as u64); self.write_cells(&V::P(id, 0), &c)?; return Ok(V::P(id, 0)); }
        if sym.contains("box_new_uninit") { let k = self.usz(&a[0])?; let id = self.alloc_heap(k as u64); return Ok(V::P(id, 0)); }
        unsup(format!("external function {} {}", sym, path))
    }
    fn run_hook(&mut self, sym: &str, h: &Rc<Hook>, a: &[V]) -> Res<Option<V>> {
        match &**h {
            Hook::Contract(k) => { if self.inline_only { return Ok(None); } let k = *k; let _ = sym; match self.contract_cb { Some(f) => f(self, k, a), None => Ok(None) } }
            Hook::Skip => Ok(Some(V::U)),
            Hook::AesNew => { let c = self.cells(&a[1], 32)?; self.write_cells(&a[0], &c)?; Ok(Some(V::U)) }
            Hook::AesEnc => {
                let key = self.read_seq(&a[0], 32, 8)?;
                let blk = self.read_seq(&a[1], 16, 8)?;
                let out = uf_bytes("aes256", &[&key, &blk], 16);
                self.write_seq(&a[1], &out)?;
                Ok(Some(V::U))
            }
            Hook::ShaNew => { let id = self.shas.len(); self.shas.push(Rc::new(vec![])); self.store(&Ty::Int(64), &V::C(64, 0x5a5a_0000_0000 + id as u128), &a[0])?; Ok(Some(V::U)) }
            Hook::ShaUpd => {
                let id = self.sha_id(&a[0])?;
                let n = self.usz(&a[2])?;
                let mut l = (*self.shas[id]).clone();
                l.extend(self.read_seq(&a[1], n, 8)?);
                let nid = self.shas.len();
                self.shas.push(Rc::new(l));
                self.store(&Ty::Int(64), &V::C(64, 0x5a5a_0000_0000 + nid as u128), &a[0])?;
                Ok(Some(V::U))
            }
            Hook::ShaFin => {
                let id = self.sha_id(&a[0])?;
                let n = self.usz(&a[2])?;
                if n != 32 { return unsup("sha3 output length"); }
                let l = self.shas[id].clone();
                let out = uf_bytes("sha3", &[&l], 32);
                self.write_seq(&a[1], &out)?;
                Ok(Some(V::U))
            }
            Hook::Rng => {
                let n = self.usz(&a[2])?;
                let k = self.st.rng.len();
                let ok = self.rng_fail != Some(k);
                let pc = self.st.pc.clone();
                self.st.rng.push(RngCall { len: n, ok, pc });
                let mut s = vec![];
                for i in 0..n { let t = *self.rng_vars.entry((k, i)).or_insert_with(|| tm().var(&format!("rng{}[{}]", k, i), 8, 0, 255, true, 0)); s.push(t); }
                self.write_seq(&a[1], &s)?;
                let r = if ok { vec![V::P(0, 0), V::U] } else {
                    let e = self.alloc_heap(8);
                    let vt = self.alloc_heap(32);
                    self.write_cells(&V::P(vt, 0), &vec![cbyte(0); 32])?;
                    self.rng_err = Some((V::P(e, 0), V::P(vt, 0)));
                    vec![V::P(e, 0), V::P(vt, 0)]
                };
                Ok(Some(V::A(Rc::new(r))))
            }
        }
    }
    fn sha_id(&mut self, p: &V) -> Res<usize> { match self.load(&Ty::Int(64), p)? { V::C(_, v) if v >> 32 == 0x5a5a => Ok((v & 0xffff_ffff) as usize), _ => unsup("sha3 state") } }
}

pub enum Br { Goto(u32), Join(u32), Done(Outcome) }

/// bytes of an uninterpreted function over byte sequences
pub fn uf_bytes(name: &str, args: &[&[T]], n: usize) -> Vec<T> {
    let f = tm().fid(name);
    let mut al = vec![];
    if name == "sha3" { al.push(Arg::Int(tm().cst(64, args[0].len() as u128))); }
    for a in args { let v: Vec<T> = a.iter().map(|t| tm().zext(*t, 64)).collect(); al.push(Arg::Seq(tm().seq(v))); }
    let al = tm().args(al);
    (0..n).map(|i| { let t = tm().app(f, al, i as u32, 64, 0, 255); tm().extract(t, 0, 8) }).collect()
}

/// canonical form of a 64- or 128-bit sum of multiples
pub fn lin(t: T) -> T {
    fn go(t: T, f: u128, acc: &mut std::collections::BTreeMap<T, u128>, c: &mut u128, d: usize) {
        let n = tm().n(t);
        let ww = tm().w(t);
        let w = |x: u128| mask(ww, x);
        if let Some(x) = tm().cval(t) { *c = w(c.wrapping_add(x.wrapping_mul(f))); return; }
        if d < 60 {
            match n.op {
                Op::Add => { go(n.a, f, acc, c, d + 1); go(n.b, f, acc, c, d + 1); return; }
                Op::Sub => { go(n.a, f, acc, c, d + 1); go(n.b, w(f.wrapping_neg()), acc, c, d + 1); return; }
                Op::Mul => { if let Some(k) = tm().cval(n.b) { go(n.a, w(f.wrapping_mul(k)), acc, c, d + 1); return; } if let Some(k) = tm().cval(n.a) { go(n.b, w(f.wrapping_mul(k)), acc, c, d + 1); return; } }
                Op::Shl => { if let Some(k) = tm().cval(n.b) { if k < 64 { go(n.a, w(f.wrapping_mul(1 << k)), acc, c, d + 1); return; } } }
                Op::And | Op::URem if ww == 64 => if let Some((keep, low)) = low_bits(t) {
                    if keep { go(n.a, f, acc, c, d + 1); *c = w(c.wrapping_sub(low.wrapping_mul(f))); } else { *c = w(c.wrapping_add(low.wrapping_mul(f))); }
                    return;
                },
                Op::UDiv | Op::LShr if ww == 64 => if let Some((y, m, q)) = quotient(t) {
                    go(y, w(f.wrapping_mul(m)), acc, c, d + 1);
                    *c = w(c.wrapping_add(q.wrapping_mul(f)));
                    return;
                },
                Op::Extract if n.b == 0 && matches!(tm().n(n.a).op, Op::Add | Op::Sub) => {
                    let i = tm().n(n.a);
                    let (x, y) = (tm().extract(i.a, 0, ww), tm().extract(i.b, 0, ww));
                    go(x, f, acc, c, d + 1);
                    go(y, if i.op == Op::Add { f } else { w(f.wrapping_neg()) }, acc, c, d + 1);
                    return;
                }
                // a sum that does not overflow can be extended term by term
                Op::ZExt => {
                    let i = tm().n(n.a);
                    if i.op == Op::Add && tm().hi(i.a).checked_add(tm().hi(i.b)).map_or(false, |h| h <= mask(tm().w(n.a), u128::MAX)) {
                        let (x, y) = (tm().zext(i.a, ww), tm().zext(i.b, ww));
                        go(x, f, acc, c, d + 1);
                        go(y, f, acc, c, d + 1);
                        return;
                    }
                }
                _ => {}
            }
        }
        let e = acc.entry(t).or_insert(0);
        *e = w(e.wrapping_add(f));
    }
    let w = tm().w(t);
    if (w != 64 && w != 128) || !matches!(tm().n(t).op, Op::Add | Op::Sub | Op::Mul | Op::Shl | Op::And | Op::URem | Op::UDiv | Op::LShr | Op::Extract) { return t; }
    let mut acc = Default::default();
    let mut c = 0u128;
    go(t, 1, &mut acc, &mut c, 0);
    let mut r: Option<T> = None;
    for neg in [false, true] {
        for (&x, &k) in acc.iter() {
            if k == 0 || (k >> (w - 1) == 1) != neg { continue; }
            let kk = tm().cst(w, if neg { mask(w, k.wrapping_neg()) } else { k });
            let y = tm().mul(x, kk);
            r = Some(match r { None => if neg { tm().neg(y) } else { y }, Some(a) => if neg { tm().sub(a, y) } else { tm().add(a, y) } });
        }
    }
    let cc = tm().cst(w, c);
    match r { None => cc, Some(a) => tm().add(a, cc) }
}

/// (y * m + c) / 2^s where 2^s divides m and nothing overflows: y, m / 2^s, c / 2^s
fn quotient(t: T) -> Option<(T, u128, u128)> {
    let n = tm().n(t);
    let s = match (n.op, tm().cval(n.b)?) { (Op::LShr, s) if s < 64 => s, (Op::UDiv, d) if d.is_power_of_two() => d.trailing_zeros() as u128, _ => return None };
    let a = lin(n.a);
    let na = tm().n(a);
    let (x, c) = match na.op { Op::Add => match tm().cval(na.b) { Some(c) => (na.a, c), None => return None }, _ => (a, 0) };
    let nx = tm().n(x);
    if nx.op != Op::Mul { return None; }
    let m = tm().cval(nx.b)?;
    if m % (1 << s) != 0 || tm().hi(nx.a).checked_mul(m)?.checked_add(c)? > u64::MAX as u128 { return None; }
    Some((nx.a, m >> s, c >> s))
}

/// x mod 2^m (or x minus that) where all variable parts of x are multiples of 2^m: value of x mod 2^m
fn low_bits(t: T) -> Option<(bool, u128)> {
    let n = tm().n(t);
    let c = tm().cval(n.b)?;
    let (keep, m) = match n.op {
        Op::And if (c + 1).is_power_of_two() => (false, c),
        Op::And if c >> 63 == 1 && (mask(64, c.wrapping_neg())).is_power_of_two() => (true, mask(64, c.wrapping_neg()) - 1),
        Op::URem if c.is_power_of_two() => (false, c - 1),
        _ => return None,
    };
    fn low(t: T, m: u128, d: usize) -> Option<u128> {
        let n = tm().n(t);
        if let Some(x) = tm().cval(t) { return Some(x & m); }
        if d > 40 { return None; }
        match n.op {
            Op::Add => Some(low(n.a, m, d + 1)?.wrapping_add(low(n.b, m, d + 1)?) & m),
            Op::Sub => Some(low(n.a, m, d + 1)?.wrapping_sub(low(n.b, m, d + 1)?) & m),
            Op::Mul => {
                let k = tm().cval(n.b).or(tm().cval(n.a))?;
                if k & m == 0 { return Some(0); }
                let x = if tm().cval(n.b).is_some() { n.a } else { n.b };
                Some(low(x, m, d + 1)?.wrapping_mul(k) & m)
            }
            Op::Shl => { let k = tm().cval(n.b)?; if k < 64 && (1u128 << k) & m == 0 && (1u128 << k) > m { Some(0) } else { None } }
            _ => None,
        }
    }
    Some((keep, low(n.a, m, 0)?))
}
