//! Contracts: parsing, resolution against the IR, use at call sites, verification.
use crate::exec::*;
use crate::ir::*;
use crate::divstep::veq;
use crate::prove::*;
use crate::spec::*;
use crate::term::*;
use std::collections::{BTreeMap, HashMap, HashSet};
use std::rc::Rc;

#[derive(Clone, Debug)]
pub enum PK { Arr(X), Slice(Vec<X>), Scal, Rng(Vec<X>) }
#[derive(Clone, Debug)]
pub struct CParam { pub name: String, pub w: u16, pub signed: bool, pub kind: PK }
#[derive(Clone, Debug)]
pub struct Ens { pub target: String, pub range: Option<(X, X)>, pub when: Option<X>, pub expr: X, pub text: String, pub head: Option<String> }
#[derive(Clone, Debug, PartialEq)]
pub enum Mode { Auto, Divstep(i64), Sort, Lengths }
#[derive(Clone, Debug)]
pub struct Contract {
    pub name: String,
    pub path: String,
    pub params: Vec<CParam>,
    pub ret: Option<(u16, bool)>,
    pub ret_result: bool,
    pub requires: Vec<(String, X, X)>,
    pub ensures: Vec<Ens>,
    pub public: HashSet<String>,
    pub unfold: Vec<String>,
    pub mode: Mode,
    pub api: bool,
    /// checked on its own, never used at call sites
    pub aux: bool,
    pub clobbers: HashSet<String>,
    /// callers need the results only modulo this number
    pub modulo: Option<X>,
    /// callers need the results only for these inputs
    pub needs: Vec<Need>,
}
#[derive(Clone, Debug)]
pub enum Need { In(String, Option<X>, Vec<X>), If(String, X) }

pub struct File { pub contracts: Vec<Contract>, pub consts: BTreeMap<String, i64>, pub tags: Vec<String> }

fn ty(s: &str) -> Result<(u16, bool), String> {
    let s = s.trim();
    let signed = s.starts_with('i');
    if !(signed || s.starts_with('u')) { return Err(format!("contract: type {}", s)); }
    let w: u16 = s[1..].parse().map_err(|_| format!("contract: type {}", s))?;
    Ok((w, signed))
}
fn split_top(s: &str, sep: char) -> Vec<String> {
    let mut d = 0;
    let mut out = vec![String::new()];
    for c in s.chars() {
        match c { '(' | '[' => d += 1, ')' | ']' => d -= 1, _ => {} }
        if c == sep && d == 0 { out.push(String::new()); } else { out.last_mut().unwrap().push(c); }
    }
    out
}

pub fn parse(text: &str, variant: &str) -> Result<File, String> {
    let mut f = File { contracts: vec![], consts: BTreeMap::new(), tags: vec![] };
    // join continuation lines
    let mut lines: Vec<String> = vec![];
    for l in text.lines() {
        let l = match l.find('#') { Some(i) if l[..i].trim().is_empty() => "", _ => l };
        if l.starts_with("  ") && !lines.is_empty() { let k = lines.len() - 1; lines[k].push(' '); lines[k].push_str(l.trim()); } else { lines.push(l.trim().to_string()); }
    }
    let mut skip = false;
    for l in lines {
        let mut l = l.as_str();
        if l.is_empty() { continue; }
        if l.starts_with('@') {
            let (tag, rest) = l.split_once(' ').ok_or("contract: tag")?;
            let ok = f.tags.iter().any(|t| *t == tag[1..]);
            l = rest.trim();
            if l.starts_with("contract ") { skip = !ok; if skip { continue; } } else if !ok { continue; }
        } else if l.starts_with("contract ") { skip = false; }
        if let Some(r) = l.strip_prefix("variant ") {
            let p: Vec<&str> = r.split_whitespace().collect();
            if p[0] != variant { continue; }
            f.tags.push(p[1].to_string());
            f.tags.push(p[0].to_string());
            for kv in &p[2..] { let (k, v) = kv.split_once('=').ok_or("contract: variant")?; let v: i64 = v.parse().map_err(|_| "contract: variant")?; f.consts.insert(k.into(), v); sp().consts.insert(k.into(), v); }
            continue;
        }
        if let Some(r) = l.strip_prefix("let ") {
            let (k, e) = r.split_once('=').ok_or("contract: let")?;
            let x = sp().parse_expr(e, &[])?;
            let v = sp().conc(&x, &None)?;
            f.consts.insert(k.trim().into(), v);
            sp().consts.insert(k.trim().into(), v);
            continue;
        }
        if skip { continue; }
        if let Some(r) = l.strip_prefix("contract ") {
            let (head, rest) = r.split_once(" : ").ok_or_else(|| format!("contract: {}", l))?;
            let op = rest.find('(').ok_or("contract: (")?;
            let cl = rest.rfind(')').ok_or("contract: )")?;
            let path = rest[..op].trim().to_string();
            let mut params = vec![];
            for p in split_top(&rest[op + 1..cl], ',') {
                if p.trim().is_empty() { continue; }
                let (n, t) = p.split_once(" : ").ok_or_else(|| format!("contract: parameter {}", p))?;
                let t = t.trim();
                let name = n.trim().to_string();
                if let Some(r) = t.strip_prefix("rng[") {
                    let mut v = vec![];
                    for e in split_top(&r[..r.len() - 1], ',') { v.push(sp().parse_expr(&e, &[])?); }
                    params.push(CParam { name, w: 64, signed: false, kind: PK::Rng(v) });
                    continue;
                }
                let (slice, t) = match t.strip_prefix("slice ") { Some(r) => (true, r.trim()), None => (false, t) };
                if let Some(i) = t.find('[') {
                    let (w, signed) = ty(&t[..i])?;
                    let inner = &t[i + 1..t.len() - 1];
                    let kind = if slice { let mut v = vec![]; for e in split_top(inner, '|') { match e.split_once("..") { Some((a, b)) => { let (a, b) = (sp().parse_expr(a, &[])?, sp().parse_expr(b, &[])?); for k in sp().conc(&a, &None)?..=sp().conc(&b, &None)? { v.push(sp().parse_expr(&k.to_string(), &[])?); } } None => v.push(sp().parse_expr(&e, &[])?) } } PK::Slice(v) } else { PK::Arr(sp().parse_expr(inner, &[])?) };
                    params.push(CParam { name, w, signed, kind });
                } else { let (w, signed) = ty(t)?; params.push(CParam { name, w, signed, kind: PK::Scal }); }
            }
            let tail = rest[cl + 1..].trim();
            let (mut ret, mut ret_result) = (None, false);
            if let Some(t) = tail.strip_prefix("->") { if t.trim() == "result" { ret_result = true; } else { ret = Some(ty(t)?); } }
            f.contracts.push(Contract { name: head.trim().into(), path, params, ret, ret_result, requires: vec![], ensures: vec![], public: HashSet::new(), unfold: vec![], mode: Mode::Auto, api: false, aux: false, clobbers: HashSet::new(), modulo: None, needs: vec![] });
            continue;
        }
        let c = f.contracts.last_mut().ok_or_else(|| format!("contract: clause outside contract: {}", l))?;
        let scope: Vec<String> = scope_names(c);
        if let Some(r) = l.strip_prefix("requires ") {
            let (n, r) = r.split_once(" in ").ok_or("contract: requires")?;
            let (lo, hi) = r.split_once("..").ok_or("contract: requires")?;
            c.requires.push((n.trim().into(), sp().parse_expr(lo, &[])?, sp().parse_expr(hi, &[])?));
        } else if let Some(r) = l.strip_prefix("ensures ") {
            // `ensures k = e` or `ensures if cond then k = e`
            let (when, r) = match r.strip_prefix("if ") { Some(q) => { let (w, q) = q.split_once(" then ").ok_or("contract: ensures if")?; (Some(sp().parse_expr(w, &scope)?), q) } None => (None, r) };
            let (t, e) = r.split_once('=').ok_or("contract: ensures")?;
            let t = t.trim();
            let (target, range) = match t.find('[') {
                Some(i) => { let (a, b) = t[i + 1..t.len() - 1].split_once("..").ok_or("contract: range")?; (t[..i].to_string(), Some((sp().parse_expr(a, &[])?, sp().parse_expr(b, &[])?))) }
                None => (t.to_string(), None),
            };
            if target != "ret" && !c.params.iter().any(|p| p.name == target) { return Err(format!("contract {}: no parameter {}", c.name, target)); }
            let expr = sp().parse_expr(e, &scope)?;
            let head = match &expr { X::App(h, _) => if let X::Def(n) = &**h { Some(n.to_string()) } else { None }, _ => None };
            c.ensures.push(Ens { target, range, when, expr, text: l.to_string(), head });
        } else if let Some(r) = l.strip_prefix("public ") { for n in r.split(',') { c.public.insert(n.trim().into()); } }
        else if let Some(r) = l.strip_prefix("unfold ") { for n in r.split(',') { c.unfold.push(n.trim().into()); } }
        else if let Some(r) = l.strip_prefix("clobbers ") { for n in r.split(',') { c.clobbers.insert(n.trim().into()); } }
        else if let Some(r) = l.strip_prefix("mode ") { c.mode = match r.trim() { "divstep 2" => Mode::Divstep(2), "divstep 3" => Mode::Divstep(3), "sort" => Mode::Sort, "lengths" => Mode::Lengths, _ => return Err(format!("contract: mode {}", r)) }; }
        else if let Some(r) = l.strip_prefix("modulo ") { c.modulo = Some(sp().parse_expr(r, &[])?); }
        else if let Some(r) = l.strip_prefix("needs ") {
            if let Some((t, w)) = r.split_once(" if ") { c.needs.push(Need::If(t.trim().into(), sp().parse_expr(w, &scope)?)); }
            else {
                let (t, e) = r.split_once(" in ").ok_or("contract: needs")?;
                let vs = e.split('|').map(|x| sp().parse_expr(x, &[])).collect::<Result<Vec<_>, _>>()?;
                let (n, i) = match t.find('[') { Some(i) => (t[..i].to_string(), Some(sp().parse_expr(&t[i + 1..t.trim_end().len() - 1], &[])?)), None => (t.trim().to_string(), None) };
                if !c.params.iter().any(|p| p.name == n) { return Err(format!("contract {}: no parameter {}", c.name, n)); }
                c.needs.push(Need::In(n, i, vs));
            }
        }
        else if l == "api" { c.api = true; }
        else if l == "aux" { c.aux = true; }
        else { return Err(format!("contract: unknown clause {}", l)); }
    }
    Ok(f)
}
fn scope_names(c: &Contract) -> Vec<String> {
    let mut v = vec![];
    for p in &c.params { match &p.kind { PK::Rng(l) => { for i in 0..l.len() { v.push(format!("{}{}", p.name, i)); } } PK::Slice(_) => { v.push(p.name.clone()); v.push(format!("{}_len", p.name)); } _ => v.push(p.name.clone()) } }
    v
}

#[derive(Clone, Debug, PartialEq)]
pub enum Cat { Fun, Panic, Ct, Rng, Indep }
#[derive(Clone, Debug)]
pub struct Ob { pub name: String, pub cat: Cat, pub n: u64, pub ok: u64, pub backends: BTreeMap<&'static str, u64>, pub fail: Option<Fail> }
#[derive(Clone, Debug)]
pub struct Fail { pub refuted: bool, pub why: String, pub input: Option<Input>, pub input2: Option<Input> }
/// concrete values of the parameters
#[derive(Clone, Debug)]
pub struct Input { pub vals: Vec<(String, u16, Vec<u128>)> }
#[derive(Clone, Debug, Default)]
pub struct Verdict { pub obs: Vec<Ob>, pub error: Option<String>, pub steps: u64, pub ms: u64, pub executed: Vec<String>, pub used: Vec<String>, pub insts: u64, pub note: Option<String>, pub bounded: Option<String> }
impl Verdict {
    pub fn ok(&self, cats: &[Cat]) -> bool { self.error.is_none() && self.obs.iter().filter(|o| cats.contains(&o.cat)).all(|o| o.ok == o.n) && self.obs.iter().any(|o| o.cat == Cat::Fun) }
}

pub struct Ctx { pub contracts: Vec<Contract>, pub sym: Vec<Option<String>>, pub resolve_note: Vec<String>, pub usable: Vec<bool>, pub used: HashSet<usize>, pub req_fail: HashMap<usize, String>, pub seed: u64, pub deep: bool, pub cats: Vec<Cat>, pub ct_params: Vec<Option<HashSet<String>>>, pub native: (String, usize), pub hints: Option<Vec<HashMap<String, u128>>> }
static mut CX: *mut Ctx = std::ptr::null_mut();
pub fn cx() -> &'static mut Ctx { unsafe { &mut *CX } }
pub fn set_cx(c: Ctx) { unsafe { CX = Box::into_raw(Box::new(c)); } }

fn strip_generics(p: &str) -> String { match p.find("::<") { Some(i) if !p.starts_with('<') => p[..i].to_string(), _ => p.to_string() } }
fn norm_path(p: &str) -> String { strip_generics(p).replace("ntrust_native::", "").replace("vp_harness::", "") }

pub fn sig_ok(prog: &Program, sym: &str, c: &Contract) -> Result<(), String> {
    let f = &prog.funcs[sym];
    let mut i = 0;
    let ps: Vec<&Param> = f.params.iter().collect();
    for p in &c.params {
        let q = ps.get(i).ok_or("too few parameters")?;
        match &p.kind {
            PK::Scal => { if q.ty != Ty::Int(p.w) { return Err(format!("parameter {}: expected i{}", p.name, p.w)); } i += 1; }
            PK::Arr(l) => {
                if q.ty != Ty::Ptr { return Err(format!("parameter {}: expected pointer", p.name)); }
                let l = sp().conc(l, &None)? as u64 * p.w as u64 / 8;
                if q.deref != Some(l) { return Err(format!("parameter {}: expected {} bytes, found {}", p.name, l, q.deref.unwrap_or(0))); }
                i += 1;
            }
            PK::Slice(_) => { if q.ty != Ty::Ptr { return Err(format!("parameter {}: expected slice", p.name)); } let q = ps.get(i + 1).ok_or("too few parameters")?; if q.ty != Ty::Int(64) { return Err(format!("parameter {}: expected slice", p.name)); } i += 2; }
            PK::Rng(_) => { if q.ty != Ty::Ptr { return Err("rng parameter".into()); } i += 1; }
        }
    }
    if i != ps.len() { return Err("parameter count".into()); }
    match (&c.ret, &f.ret) { (None, Ty::Void) if !c.ret_result => {} (Some((w, _)), Ty::Int(w2)) if w == w2 => {} (None, Ty::Struct(..)) if c.ret_result => {} _ => return Err(format!("return type {:?}", f.ret)) }
    Ok(())
}

/// find the function a contract talks about
pub fn resolve(prog: &Program, c: &Contract, all: &[Contract]) -> (Option<String>, String) {
    let local = |p: &str| p.starts_with("ntrust_native::") || p.starts_with("<ntrust_native") || p.starts_with("vp_harness::") || p.starts_with("vp_");
    let mut exact = vec![];
    let mut last = vec![];
    let seg = c.path.rsplit("::").next().unwrap();
    for (s, f) in &prog.funcs {
        if !local(&f.path) || f.path.contains("::{") { continue; }
        let np = norm_path(&f.path);
        if np == c.path { exact.push(s.clone()); } else if np.rsplit("::").next() == Some(seg) { last.push(s.clone()); }
    }
    exact.sort();
    last.sort();
    if exact.len() == 1 { return match sig_ok(prog, &exact[0], c) { Ok(()) => (Some(exact[0].clone()), String::new()), Err(e) => (None, format!("{}: signature changed: {}", c.path, e)) }; }
    let l: Vec<String> = last.into_iter().filter(|s| sig_ok(prog, s, c).is_ok()).collect();
    if l.len() == 1 { return (Some(l[0].clone()), format!("{} found at {}", c.path, prog.funcs[&l[0]].path)); }
    // renamed: the only other function of the module with this signature
    let module = c.path.rsplit_once("::").map_or("", |x| x.0);
    let mut l: Vec<String> = prog.funcs.iter().filter(|(s, f)| local(&f.path) && !f.path.contains("::{") && !module.is_empty() && { let np = norm_path(&f.path); np.rsplit_once("::").map(|x| x.0) == Some(module) && !all.iter().any(|d| d.path == np) } && sig_ok(prog, s, c).is_ok()).map(|x| x.0.clone()).collect();
    l.sort();
    if l.len() == 1 { return (Some(l[0].clone()), format!("guess: {} is now {}", c.path, prog.funcs[&l[0]].path)); }
    (None, format!("{} not found", c.path))
}

/// 64-bit integer value of an element
fn widen(t: T, signed: bool) -> T { if signed { tm().sext_t(t, 64) } else { tm().zext(t, 64) } }

fn mat(v: &[T], signed: bool, name: &str) -> SV { SV::S(Rc::new(SeqV::Mat(v.iter().map(|t| widen(*t, signed)).collect(), name.to_string()))) }

fn spec_seq(v: &SV, lo: i64, hi: i64, w: u16, signed: bool) -> Result<Vec<T>, String> {
    let s = match v { SV::S(s) => s.clone(), SV::I(t) => return Ok(vec![narrow(*t, w, signed)?]), SV::B(_) => return Err("spec: proposition as value".into()) };
    let mut out = vec![];
    for i in lo..hi { match sp().at(&s, i - lo)? { SV::I(t) => out.push(narrow(t, w, signed)?), _ => return Err("spec: element".into()) } }
    Ok(out)
}
fn narrow(t: T, w: u16, signed: bool) -> Result<T, String> {
    let (lo, hi) = tm().srange(t);
    let (l, h) = if signed { (-(1i128 << (w - 1)), (1i128 << (w - 1)) - 1) } else { (0, ones(w) as i128) };
    if lo < l || hi > h { return Err(format!("spec value range {}..{} does not fit the element type", lo, hi)); }
    Ok(tm().extract(t, 0, w))
}

fn in_range(t: T, w: u16, signed: bool, lo: i64, hi: i64) -> bool {
    let _ = w;
    let (l, h) = if signed { tm().srange(t) } else { (tm().lo(t) as i128, tm().hi(t) as i128) };
    if l >= lo as i128 && h <= hi as i128 { return true; }
    // tighter range from the normal form
    let p = crate::nf::nf().int(t);
    if !signed { if let Some((l, h)) = crate::nf::nf().range(&p) { if l >= lo as i128 && h <= hi as i128 { return true; } } }
    if tm().cone(&[t]).len() > 400 { return false; }
    let x = widen(t, signed);
    let (a, b) = (int(lo), int(hi));
    let (c1, c2) = (tm().slt(x, a), tm().slt(b, x));
    let bad = tm().or(c1, c2);
    matches!(crate::smt::unsat(&[bad]), ObStatus::Proved(_))
}

/// call site: replace the body by the contract
pub fn contract_cb(ex: &mut Ex, k: usize, args: &[V]) -> Res<Option<V>> {
    let ctx = cx();
    let only = |l: &[Cat]| ctx.cats.iter().all(|c| l.contains(c));
    if only(&[Cat::Ct]) {
        if let Some(ps) = &ctx.ct_params[k] {
            if !ps.is_empty() { ct_call(ex, k, ps, args); }
            if !ctx.usable[k] { return havoc(ex, k, args); }
        }
    }
    if !ctx.usable[k] {
        if only(&[Cat::Rng]) { return havoc(ex, k, args); }
        if ctx.contracts[k].mode != Mode::Auto && !only(&[Cat::Ct]) { return unsup(format!("contract of {} not established", ctx.contracts[k].path)); }
        return Ok(None);
    }
    let c = ctx.contracts[k].clone();
    let mut i = 0;
    let mut vals: Vec<SV> = vec![];
    let mut places: HashMap<String, (V, usize)> = HashMap::new();
    for p in &c.params {
        let req: Vec<(i64, i64)> = c.requires.iter().filter(|r| r.0 == p.name).map(|r| (sp().conc(&r.1, &None).unwrap_or(0), sp().conc(&r.2, &None).unwrap_or(-1))).collect();
        let elems: Vec<T>;
        match &p.kind {
            PK::Scal => { let t = match ex.t(&args[i]) { Ok(t) => t, Err(_) => return Ok(None) }; elems = vec![t]; vals.push(SV::I(widen(t, p.signed))); i += 1; }
            PK::Arr(l) => {
                let n = match sp().conc(l, &None) { Ok(n) => n as usize, Err(_) => return Ok(None) };
                let written = c.ensures.iter().any(|e| e.target == p.name);
                elems = match ex.read_seq(&args[i], n, p.w) { Ok(e) => e, Err(_) => { if written && !uses(&c, &p.name) { vec![] } else { return Ok(None); } } };
                vals.push(mat(&elems, p.signed, &p.name));
                places.insert(p.name.clone(), (args[i].clone(), n));
                i += 1;
            }
            PK::Slice(ls) => {
                let n = match &args[i + 1] { V::C(_, n) => *n as i64, _ => return Ok(None) };
                let mut hit = false;
                for l in ls { if sp().conc(l, &None) == Ok(n) { hit = true; } }
                if !hit { ctx.req_fail.insert(k, format!("slice length {} of {}", n, p.name)); return Ok(None); }
                elems = match ex.read_seq(&args[i], n as usize, p.w) { Ok(e) => e, Err(_) => { if !uses(&c, &p.name) { vec![] } else { return Ok(None); } } };
                vals.push(mat(&elems, p.signed, &p.name));
                vals.push(SV::I(int(n)));
                places.insert(p.name.clone(), (args[i].clone(), n as usize));
                i += 2;
            }
            PK::Rng(_) => return Ok(None),
        }
        for (lo, hi) in req {
            for (j, t) in elems.iter().enumerate() { if !in_range(*t, p.w, p.signed, lo, hi) { ctx.req_fail.insert(k, format!("requires {} in {}..{} not established for element {} ({})", p.name, lo, hi, j, tm().show(*t, 3))); return Ok(None); } }
        }
        if c.public.contains(&p.name) && elems.iter().any(|t| tm().taint[*t as usize] & 1 != 0) { ctx.req_fail.insert(k, format!("secret passed as {}", p.name)); return Ok(None); }
    }
    let env = Spec::env(&vals);
    let mut ret = V::U;
    let mut writes = vec![];
    for e in &c.ensures {
        let v = sp().eval(&e.expr, &env).map_err(|s| E::Unsup(s))?;
        if e.target == "ret" { let (w, sg) = c.ret.unwrap(); let t = spec_seq(&v, 0, 1, w, sg).map_err(E::Unsup)?[0]; ret = Ex::v(t); continue; }
        let p = c.params.iter().find(|p| p.name == e.target).unwrap();
        let (ptr, n) = &places[&e.target];
        let (lo, hi) = match &e.range { Some((a, b)) => (sp().conc(a, &None).map_err(E::Unsup)?, sp().conc(b, &None).map_err(E::Unsup)?), None => (0, *n as i64) };
        if hi as usize > *n { return Ok(None); }
        let s = spec_seq(&v, lo, hi, p.w, p.signed).map_err(E::Unsup)?;
        writes.push((ex.ptr_add(ptr, lo * p.w as i64 / 8)?, s));
    }
    for n in &c.clobbers { let (ptr, len) = &places[n]; let p = c.params.iter().find(|p| p.name == *n).unwrap(); ex.write_cells(ptr, &vec![UNDEF; *len * p.w as usize / 8])?; }
    for (p, s) in writes { ex.write_seq(&p, &s)?; }
    ctx.used.insert(k);
    Ok(Some(ret))
}
/// call of a function whose branches or addresses depend on the given parameters
fn ct_call(ex: &mut Ex, k: usize, ps: &HashSet<String>, args: &[V]) {
    let c = cx().contracts[k].clone();
    let mut i = 0;
    for p in &c.params {
        let v = match &p.kind {
            PK::Scal => ex.t(&args[i]).map(|t| vec![t]),
            PK::Arr(l) => ex.read_seq(&args[i], sp().conc(l, &None).unwrap_or(0) as usize, p.w),
            PK::Slice(_) => match &args[i + 1] { V::C(_, n) => ex.read_seq(&args[i], *n as usize, p.w), _ => Ok(vec![]) },
            PK::Rng(_) => Ok(vec![]),
        };
        i += if matches!(p.kind, PK::Slice(_)) { 2 } else { 1 };
        if !ps.contains(&p.name) { continue; }
        if let Ok(v) = v { if let Some(t) = v.iter().find(|t| tm().taint[**t as usize] & 1 != 0) { ex.ct_event("secret passed to a function that branches on it or uses it as an address, in", *t); } }
    }
}
/// parameters that the secret-dependent branches and addresses of the last run depend on
pub fn ct_params_of(ex: &Ex) -> HashSet<String> {
    let conds: Vec<T> = ex.ct.iter().map(|e| e.cond).collect();
    deep_cone(&conds).iter().filter(|t| tm().n(**t).op == Op::Var).map(|t| { let n = tm().vars[tm().n(*t).a as usize].name.clone(); n.split(|c| c == '[' || c == '.').next().unwrap_or("").to_string() }).collect()
}

/// call site of a function whose branches and addresses are known not to depend on secrets, but
/// whose results are not known: everything it may write becomes an arbitrary secret
fn havoc(ex: &mut Ex, k: usize, args: &[V]) -> Res<Option<V>> {
    let c = cx().contracts[k].clone();
    let mut i = 0;
    for p in &c.params {
        let n = match &p.kind {
            PK::Scal => { i += 1; continue; }
            PK::Rng(_) => return Ok(None),
            PK::Arr(l) => match sp().conc(l, &None) { Ok(n) => n as usize, Err(_) => return Ok(None) },
            PK::Slice(_) => match &args[i + 1] { V::C(_, n) => *n as usize, _ => return Ok(None) },
        };
        let old = if c.public.contains(&p.name) { ex.read_seq(&args[i], n, p.w).ok() } else { None };
        if let Some(o) = &old { if o.iter().any(|t| tm().taint[*t as usize] & 1 != 0) { return Ok(None); } }
        if old.is_none() {
            let v: Vec<T> = (0..n).map(|j| tm().var(&format!("{}.{}[{}]", c.name, p.name, j), p.w, 0, ones(p.w), true, 9)).collect();
            if ex.write_seq(&args[i], &v).is_err() { return Ok(None); }
        }
        i += if matches!(p.kind, PK::Slice(_)) { 2 } else { 1 };
    }
    cx().used.insert(k);
    Ok(Some(match c.ret { Some((w, _)) => Ex::v(tm().var(&format!("{}.ret", c.name), w, 0, ones(w), true, 9)), None => V::U }))
}
fn uses(c: &Contract, name: &str) -> bool {
    // does any ensures expression mention the entry value of the parameter?
    let names = scope_names(c);
    let k = names.iter().position(|n| n == name).unwrap();
    c.ensures.iter().any(|e| mentions(&e.expr, names.len() - 1 - k)) || c.requires.iter().any(|r| r.0 == name)
}
fn mentions(x: &X, k: usize) -> bool {
    match x {
        X::Loc(j) => *j == k,
        X::App(f, a) => mentions(f, k) || a.iter().any(|y| mentions(y, k)),
        X::Fun(b) => mentions(b, k + 1),
        X::Let(v, b) => mentions(v, k) || mentions(b, k + 1),
        X::If(a, b, c) => mentions(a, k) || mentions(b, k) || mentions(c, k),
        X::Bin(_, a, b) => mentions(a, k) || mentions(b, k),
        X::Not(a) | X::Neg(a) => mentions(a, k),
        _ => false,
    }
}

pub struct Setup { pub args: Vec<V>, pub vals: Vec<SV>, pub places: Vec<(usize, V, Vec<T>)>, pub rng: Option<Vec<i64>> }

/// fresh symbolic arguments; `lens` picks the slice alternatives
pub fn setup(ex: &mut Ex, c: &Contract, sym: &str, alt: usize) -> Result<Setup, String> {
    let mut s = Setup { args: vec![], vals: vec![], places: vec![], rng: None };
    if ex.prog.funcs[sym].params.iter().skip(1).any(|p| p.sret) { return Err("struct return".into()); }
    for (pi, p) in c.params.iter().enumerate() {
        let (lo, hi) = range_of(c, p)?;
        let secret = !c.public.contains(&p.name);
        let mk = |i: i64| -> T {
            let name = if i < 0 { p.name.clone() } else { format!("{}[{}]", p.name, i) };
            if lo >= 0 { tm().var(&name, p.w, lo as u128, hi as u128, secret, 0) } else {
                let t = tm().var(&name, p.w, 0, ones(p.w), secret, 0);
                if lo > -(1i128 << (p.w - 1)) || hi < (1i128 << (p.w - 1)) - 1 { tm().srng.insert(t, (lo, hi)); }
                t
            }
        };
        match &p.kind {
            PK::Scal => { let t = if lo == hi { tm().cst(p.w, lo as u128) } else { mk(-1) }; s.args.push(Ex::v(t)); s.vals.push(SV::I(widen(t, p.signed))); }
            PK::Arr(_) | PK::Slice(_) => {
                let n = match &p.kind { PK::Arr(l) => sp().conc(l, &None)?, PK::Slice(ls) => sp().conc(&ls[alt.min(ls.len() - 1)], &None)?, _ => 0 };
                let v: Vec<T> = (0..n).map(|i| mk(i)).collect();
                let o = ex.alloc(n as u64 * p.w as u64 / 8, &p.name);
                ex.write_seq(&V::P(o, 0), &v).map_err(|e| format!("{:?}", e))?;
                s.args.push(V::P(o, 0));
                s.vals.push(mat(&v, p.signed, &p.name));
                if let PK::Slice(_) = &p.kind { s.args.push(V::C(64, n as u128)); s.vals.push(SV::I(int(n))); }
                s.places.push((pi, V::P(o, 0), v));
            }
            PK::Rng(ls) => {
                let o = ex.alloc(64, &p.name);
                ex.write_cells(&V::P(o, 0), &vec![cbyte(0); 64]).map_err(|e| format!("{:?}", e))?;
                s.args.push(V::P(o, 0));
                let mut l = vec![];
                ex.rng_vars.clear();
                for (k, x) in ls.iter().enumerate() {
                    let n = sp().conc(x, &None)?;
                    l.push(n);
                    let v: Vec<T> = (0..n).map(|i| { let t = tm().var(&format!("{}{}[{}]", p.name, k, i), 8, 0, 255, true, 0); ex.rng_vars.insert((k, i as usize), t); t }).collect();
                    s.vals.push(mat(&v, false, &p.name));
                }
                s.rng = Some(l);
            }
        }
    }
    Ok(s)
}
fn range_of(c: &Contract, p: &CParam) -> Result<(i128, i128), String> {
    for r in &c.requires { if r.0 == p.name { return Ok((sp().conc(&r.1, &None)? as i128, sp().conc(&r.2, &None)? as i128)); } }
    Ok(if p.signed { (-(1i128 << (p.w - 1)), (1i128 << (p.w - 1)) - 1) } else { (0, ones(p.w) as i128) })
}

/// values of the parameters under a model
pub fn input_of(c: &Contract, s: &Setup, m: &HashMap<T, u128>, ex: &Ex) -> Input {
    let g = |t: &T| -> u128 { tm().cval(*t).unwrap_or_else(|| m.get(t).copied().unwrap_or(tm().lo(*t))) };
    let mut vals: Vec<(String, u16, Vec<u128>)> = vec![];
    let mut ai = 0;
    for (pi, p) in c.params.iter().enumerate() {
        match &p.kind {
            PK::Scal => { let t = match &s.args[ai] { V::C(_, v) => *v, V::T(t) => g(t), _ => 0 }; vals.push((p.name.clone(), p.w, vec![t])); ai += 1; }
            PK::Rng(_) => { ai += 1; for k in 0..s.rng.as_ref().map_or(0, |r| r.len()) { let n = s.rng.as_ref().unwrap()[k]; vals.push((format!("{}{}", p.name, k), 8, (0..n).map(|i| ex.rng_vars.get(&(k, i as usize)).map_or(0, |t| g(t))).collect())); } }
            _ => { if let Some((_, _, v)) = s.places.iter().find(|x| x.0 == pi) { vals.push((p.name.clone(), p.w, v.iter().map(g).collect())); } ai += if matches!(p.kind, PK::Slice(_)) { 2 } else { 1 }; }
        }
    }
    Input { vals }
}

pub fn check_seq(name: &str, cat: Cat, got: &[T], want: &[T], c: &Contract, s: &Setup, ex: &Ex) -> Ob {
    let mut ob = Ob { name: name.into(), cat, n: got.len() as u64, ok: 0, backends: BTreeMap::new(), fail: None };
    let diff: Vec<usize> = (0..got.len()).filter(|&i| got[i] != want[i]).collect();
    let same = got.len() - diff.len();
    if same > 0 { ob.ok += same as u64; *ob.backends.entry("syntactic").or_insert(0) += same as u64; }
    if diff.is_empty() { return ob; }
    let pairs: Vec<(T, T)> = diff.iter().map(|&i| (got[i], want[i])).collect();
    if let Some((k, m)) = refute(&pairs, if cx().deep { 12 } else { 4 }, cx().seed) {
        ob.fail = Some(Fail { refuted: true, why: format!("element {} differs", diff[k]), input: Some(input_of(c, s, &m, ex)), input2: None });
        return ob;
    }
    let mut unknown = 0;
    // elements proved so far may be replaced by what they were proved equal to
    let mut eqs: FMap<T, T> = Default::default();
    for (k, &(a, b)) in pairs.iter().enumerate() {
        let r = match prove_eq(a, b) {
            ObStatus::Unknown(w) if !eqs.is_empty() => {
                let a2 = crate::prove::subst(a, &eqs);
                match if a2 != a { prove_eq(a2, b) } else { ObStatus::Unknown(String::new()) } { ObStatus::Proved(be) => ObStatus::Proved(be), _ => ObStatus::Unknown(w) }
            }
            r => r,
        };
        let r = match r { ObStatus::Unknown(w) => match crate::prove::refute_single(a, b, cx().seed) { Some(m) => ObStatus::Refuted(m), None => ObStatus::Unknown(w) }, r => r };
        match r {
            ObStatus::Proved(be) => { eqs.insert(a, b); ob.ok += 1; *ob.backends.entry(be).or_insert(0) += 1; }
            ObStatus::Refuted(m) => { ob.fail = Some(Fail { refuted: true, why: format!("element {} differs", diff[k]), input: Some(input_of(c, s, &m, ex)), input2: None }); return ob; }
            ObStatus::Unknown(w) => { unknown += 1; if ob.fail.is_none() { ob.fail = Some(Fail { refuted: false, why: format!("element {} undecided ({}): {} vs {}", diff[k], w, tm().show(a, 4), tm().show(b, 4)), input: None, input2: None }); } if unknown >= 3 { return ob; } }
        }
    }
    ob
}

/// terms below the roots, looking into arguments of applications
pub fn deep_cone(roots: &[T]) -> Vec<T> {
    let mut seen: FSet<T> = Default::default();
    let mut seen_args: FSet<u32> = Default::default();
    let mut st: Vec<T> = roots.to_vec();
    let mut out = vec![];
    while let Some(t) = st.pop() {
        if !seen.insert(t) { continue; }
        out.push(t);
        let n = tm().n(t);
        if n.op == Op::App {
            if seen_args.insert(n.b) { for a in tm().argl[n.b as usize].clone().iter() { match a { Arg::Int(x) => st.push(*x), Arg::Seq(s) => st.extend(tm().seqs[*s as usize].iter().copied()) } } }
            continue;
        }
        let (ch, k) = tm().children(t);
        st.extend(&ch[..k]);
    }
    out
}

/// the values must not depend on what the output buffers held on entry
fn indep(name: &str, got: &[T], c: &Contract, s: &Setup, ex: &Ex, proved: bool) -> Ob {
    let mut ob = Ob { name: name.into(), cat: Cat::Indep, n: got.len() as u64, ok: 0, backends: BTreeMap::new(), fail: None };
    if proved { ob.ok = ob.n; ob.backends.insert("postcondition", ob.n); return ob; }
    let mut old: FSet<T> = Default::default();
    for (pi, _, ent) in &s.places { let p = &c.params[*pi]; if c.ensures.iter().any(|e| e.target == p.name) { old.extend(ent.iter().copied()); } }
    let hit = |ts: &[T]| deep_cone(ts).iter().any(|t| old.contains(t));
    if !hit(got) { ob.ok = ob.n; ob.backends.insert("support", ob.n); return ob; }
    for (i, t) in got.iter().enumerate() {
        if !hit(&[*t]) { ob.ok += 1; *ob.backends.entry("support").or_insert(0) += 1; continue; }
        // two runs that differ in old contents only
        for k in 0..6u64 {
            let mut vals = vec![];
            let mut model: HashMap<T, u128> = HashMap::new();
            for run in 0..2u64 {
                let mut r = crate::smt::Rng(cx().seed ^ (k * 1000 + 17));
                let mut r2 = crate::smt::Rng(cx().seed ^ (k * 1000 + run * 7 + 3));
                let mut leaf = |t: T| -> u128 { let x = crate::smt::rand_leaf(&mut r, t); let v = if old.contains(&t) { crate::smt::rand_leaf(&mut r2, t) } else { x }; model.insert(t, v); v };
                let mut e = crate::smt::Evalr::new(&mut leaf);
                vals.push(e.eval(&[*t]).map(|v| v[0]));
            }
            if vals[0].is_some() && vals[1].is_some() && vals[0] != vals[1] { ob.fail = Some(Fail { refuted: true, why: format!("element {} depends on old buffer contents", i), input: Some(input_of(c, s, &model, ex)), input2: None }); return ob; }
        }
        if ob.fail.is_none() { ob.fail = Some(Fail { refuted: false, why: format!("element {} mentions old buffer contents: {}", i, tm().show(*t, 4)), input: None, input2: None }); }
    }
    ob
}

pub fn err(e: E) -> String { match e { E::Unsup(s) => format!("unsupported: {}", s), E::Fuel => "instruction budget exhausted".into(), E::Abort => "aborted".into() } }

/// a refutation counts only if it concerns what callers need (`modulo`, `needs`)
fn needed(mut ob: Ob, e: &Ens, w: u16, got: &[T], want: &[T], c: &Contract, s: &Setup, ex: &Ex) -> Result<Ob, String> {
    if !ob.fail.as_ref().map_or(false, |f| f.refuted) || c.modulo.is_none() && c.needs.is_empty() { return Ok(ob); }
    let (mut g, mut v) = (got.to_vec(), want.to_vec());
    let mut how = vec![];
    let mut map: FMap<T, T> = Default::default();
    for n in &c.needs {
        match n {
            Need::In(name, at, vs) => {
                let pi = c.params.iter().position(|p| p.name == *name).unwrap();
                let ent = match s.places.iter().find(|x| x.0 == pi) { Some(p) => &p.2, None => continue };
                let vs: Vec<u128> = vs.iter().map(|x| sp().conc(x, &None).map(|v| v as u128)).collect::<Result<_, _>>()?;
                let ix = match at { Some(i) => { let i = sp().conc(i, &None)? as usize; i..i + 1 } None => 0..ent.len() };
                for i in ix {
                    let pw = tm().w(ent[i]);
                    let d = tm().var(&format!("{}[{}]?", name, i), 8, 0, vs.len() as u128 - 1, false, 0);
                    let mut t = tm().cst(pw, vs[0]);
                    for (k, x) in vs.iter().enumerate().skip(1) { let (kk, x) = (tm().cst(8, k as u128), tm().cst(pw, *x)); let q = tm().eq(d, kk); t = tm().ite(q, x, t); }
                    map.insert(ent[i], t);
                }
                how.push("for inputs callers do not need");
            }
            Need::If(t, x) if *t == e.target => {
                let cond = sp().b(x, &Spec::env(&s.vals))?;
                let z = tm().cst(w, 0);
                for t in g.iter_mut().chain(v.iter_mut()) { *t = tm().ite(cond, *t, z); }
                how.push("where callers do not use it");
            }
            _ => {}
        }
    }
    if !map.is_empty() { for t in g.iter_mut().chain(v.iter_mut()) { *t = crate::prove::subst(*t, &map); } }
    if let Some(m) = &c.modulo {
        let m = tm().cst(w, sp().conc(m, &None)? as u128 - 1);
        for t in g.iter_mut().chain(v.iter_mut()) { *t = tm().and(*t, m); }
        how.push("in the representative");
    }
    let o = check_seq(&e.text, Cat::Fun, &g, &v, c, s, ex);
    let f = ob.fail.as_mut().unwrap();
    match o.fail {
        Some(mut h) if h.refuted => { if !map.is_empty() { h.input = None; } *f = h; }
        _ => { f.refuted = false; f.why = format!("{}, but only {}{}", f.why, how.join(" or "), if o.ok == o.n { "" } else { " in all cases tried" }); }
    }
    Ok(ob)
}

/// compare final memory and return value with the ensures clauses
pub fn check_post(ex: &mut Ex, c: &Contract, s: &Setup, ret: &V, sym: &str) -> Result<Vec<Ob>, String> {
    let mut obs = vec![];
    let env = Spec::env(&s.vals);
    let mut covered: HashMap<usize, Vec<(i64, i64)>> = HashMap::new();
    for e in &c.ensures {
        let v = sp().eval(&e.expr, &env)?;
        if e.target == "ret" {
            let (w, sg) = c.ret.ok_or("contract: no return value")?;
            let want = spec_seq(&v, 0, 1, w, sg)?;
            let got = vec![ex.t(ret).map_err(err)?];
            let ob = check_seq(&e.text, Cat::Fun, &got, &want, c, s, ex);
            obs.push(needed(ob, e, w, &got, &want, c, s, ex)?);
            continue;
        }
        let pi = c.params.iter().position(|p| p.name == e.target).unwrap();
        let p = &c.params[pi];
        let (_, ptr, ent) = s.places.iter().find(|x| x.0 == pi).ok_or("contract: target")?;
        let (lo, hi) = match &e.range { Some((a, b)) => (sp().conc(a, &None)?, sp().conc(b, &None)?), None => (0, ent.len() as i64) };
        covered.entry(pi).or_default().push((lo, hi));
        let want = spec_seq(&v, lo, hi, p.w, p.signed)?;
        let q = ex.ptr_add(ptr, lo * p.w as i64 / 8).map_err(err)?;
        let mut got = ex.read_seq(&q, (hi - lo) as usize, p.w).map_err(err)?;
        let mut want = want;
        if let Some(w) = &e.when {
            let cond = sp().b(w, &env)?;
            let z = tm().cst(p.w, 0);
            for t in got.iter_mut().chain(want.iter_mut()) { *t = tm().ite(cond, *t, z); }
        }
        let ob = check_seq(&e.text, Cat::Fun, &got, &want, c, s, ex);
        let ob = needed(ob, e, p.w, &got, &want, c, s, ex)?;
        if c.api && s.rng.is_some() || c.name == "kem_dec" {
            let done = ob.ok == ob.n && e.when.is_none();
            obs.push(indep(&format!("{}[{}..{}] does not depend on old buffer contents", e.target, lo, hi), &got, c, s, ex, done));
        }
        obs.push(ob);
    }
    // frame
    let mut k = 0;
    let dead: Vec<bool> = { let mut v = vec![]; for p in &c.params { v.push(ex.prog.funcs[sym].params.get(k).map_or(false, |q| q.dead)); k += if matches!(p.kind, PK::Slice(_)) { 2 } else { 1 }; } v };
    for (pi, ptr, ent) in &s.places {
        let p = &c.params[*pi];
        if dead[*pi] || c.clobbers.contains(&p.name) { continue; }
        let cov = covered.get(pi).cloned().unwrap_or_default();
        let ix: Vec<usize> = (0..ent.len()).filter(|&i| !cov.iter().any(|r| (i as i64) >= r.0 && (i as i64) < r.1)).collect();
        if ix.is_empty() { continue; }
        let got = ex.read_seq(ptr, ent.len(), p.w).map_err(err)?;
        let (g, w): (Vec<T>, Vec<T>) = ix.iter().map(|&i| (got[i], ent[i])).unzip();
        obs.push(check_seq(&format!("frame {}", p.name), Cat::Fun, &g, &w, c, s, ex));
    }
    if c.ret_result {
        let cats = if s.rng.is_some() { vec![Cat::Fun, Cat::Rng] } else { vec![Cat::Fun] };
        let ok = match ret { V::A(a) => matches!(a[0], V::P(0, 0)), _ => false };
        for cat in cats { obs.push(Ob { name: "returns Ok".into(), cat, n: 1, ok: ok as u64, backends: if ok { [("syntactic", 1)].into_iter().collect() } else { BTreeMap::new() }, fail: if ok { None } else { Some(Fail { refuted: true, why: format!("returns {:?}", ret), input: None, input2: None }) } }); }
    }
    if let Some(l) = &s.rng {
        let got: Vec<i64> = ex.st.rng.iter().map(|r| r.len as i64).collect();
        let ok = got == *l && ex.st.rng.iter().all(|r| r.pc.is_empty());
        obs.push(Ob { name: "RNG requests".into(), cat: Cat::Rng, n: 1, ok: ok as u64, backends: if ok { [("syntactic", 1)].into_iter().collect() } else { BTreeMap::new() }, fail: if ok { None } else { Some(Fail { refuted: true, why: format!("requests {:?}, expected {:?}", got, l), input: None, input2: None }) } });
    }
    Ok(obs)
}

pub fn side_obs(ex: &Ex, c: &Contract, s: &Setup) -> Vec<Ob> {
    let mut obs = vec![];
    let mut by: BTreeMap<String, Ob> = BTreeMap::new();
    for p in &ex.panics {
        let e = by.entry(format!("no panic: {} in {}", p.what, p.func)).or_insert_with(|| Ob { name: format!("no panic: {} in {}", p.what, p.func), cat: Cat::Panic, n: 0, ok: 0, backends: BTreeMap::new(), fail: None });
        e.n += 1;
        match &p.status {
            ObStatus::Proved(b) => { e.ok += 1; *e.backends.entry(b).or_insert(0) += 1; }
            ObStatus::Refuted(m) => {
                // applications in the model may be spurious
                let spurious = m.keys().any(|t| tm().n(*t).op == Op::App);
                if spurious { let r = confirm_all(&p.pc, m); if e.fail.is_none() || r.is_some() { e.fail = Some(Fail { refuted: r.is_some(), why: p.what.clone(), input: r.map(|m| input_of(c, s, &m, ex)), input2: None }); } }
                else if e.fail.as_ref().map_or(true, |f| !f.refuted) { e.fail = Some(Fail { refuted: true, why: p.what.clone(), input: Some(input_of(c, s, m, ex)), input2: None }); }
            }
            ObStatus::Unknown(w) => { if e.fail.is_none() { e.fail = Some(Fail { refuted: false, why: format!("{}: {}", p.what, w), input: None, input2: None }); } }
        }
    }
    obs.extend(by.into_values());
    if ex.npanic_const > 0 { obs.push(Ob { name: "no panic: checks decided by value ranges".into(), cat: Cat::Panic, n: ex.npanic_const, ok: ex.npanic_const, backends: [("ranges", ex.npanic_const)].into_iter().collect(), fail: None }); }
    let mut ob = Ob { name: "no secret-dependent branch or address".into(), cat: Cat::Ct, n: ex.ct_seen.len().max(1) as u64, ok: 0, backends: BTreeMap::new(), fail: None };
    ob.ok = ob.n - ex.ct.len().min(ob.n as usize) as u64;
    if ob.ok > 0 { ob.backends.insert("taint", ob.ok); }
    for e in ex.ct.iter().take(20) {
        let why = format!("{} in {} depends on secret: {}", e.kind, e.func, tm().show(e.cond, 3));
        match ct_pair(c, e.cond) {
            Some((m1, m2)) => { ob.fail = Some(Fail { refuted: true, why, input: Some(input_of(c, s, &m1, ex)), input2: Some(input_of(c, s, &m2, ex)) }); break; }
            None => if ob.fail.is_none() { ob.fail = Some(Fail { refuted: false, why, input: None, input2: None }); }
        }
    }
    obs.push(ob);
    obs
}
/// two assignments that agree on public inputs and give the term different values
fn ct_pair(c: &Contract, t: T) -> Option<(HashMap<T, u128>, HashMap<T, u128>)> {
    // decapsulation takes its accepting path on honest inputs only
    if c.name == "kem_dec" && !cx().native.0.is_empty() && cx().hints.is_none() {
        cx().hints = Some(crate::search::dec_hints(&cx().native.0, cx().native.1, cx().seed).unwrap_or_default());
    }
    let empty = vec![];
    let hints = if c.name == "kem_dec" { cx().hints.as_ref().unwrap_or(&empty) } else { &empty };
    let mut first: Option<(u128, HashMap<T, u128>)> = None;
    for h in hints {
        let mut model: HashMap<T, u128> = HashMap::new();
        let v = {
            let mut leaf = |x: T| -> u128 { let v = h.get(&tm().show(x, 1)).copied().unwrap_or(tm().lo(x)); model.insert(x, v); v };
            crate::smt::Evalr::new(&mut leaf).eval(&[t])?[0]
        };
        match &first { None => first = Some((v, model)), Some((w, m)) => if *w != v { return Some((m.clone(), model)); } }
    }
    first = None;
    for k in 0..40u64 {
        let mut model: HashMap<T, u128> = HashMap::new();
        let mut r = crate::smt::Rng(cx().seed ^ (k * 977 + 5));
        let v = {
            let mut leaf = |x: T| -> u128 {
                let v = if tm().taint[x as usize] & 1 != 0 { let (lo, hi) = (tm().lo(x), tm().hi(x)); if k % 3 == 0 { crate::smt::rand_leaf(&mut r, x) } else if k % 3 == 1 { lo + r.below(2.min(hi - lo) + 1) } else { lo + r.below((hi - lo).max(1)) } } else { tm().lo(x) };
                model.insert(x, v);
                v
            };
            let mut e = crate::smt::Evalr::new(&mut leaf);
            e.eval(&[t])?[0]
        };
        match &first { None => first = Some((v, model)), Some((w, m)) => if *w != v { return Some((m.clone(), model)); } }
    }
    None
}
fn confirm_all(pc: &[T], m: &HashMap<T, u128>) -> Option<Model> {
    let mut r = crate::smt::Rng(cx().seed ^ 99);
    for k in 0..16 {
        let mut model: HashMap<T, u128> = HashMap::new();
        let v = {
            let mut leaf = |t: T| -> u128 { let v = if k == 0 { m.get(&t).copied().unwrap_or(tm().lo(t)) } else { crate::smt::rand_leaf(&mut r, t) }; model.insert(t, v); v };
            let mut e = crate::smt::Evalr::new(&mut leaf);
            e.eval(pc)
        }?;
        if v.iter().all(|x| *x == 1) { return Some(Rc::new(model)); }
    }
    None
}

/// contracts reachable from the goals, callees first
pub fn order(ex: &mut Ex, goals: &[usize]) -> Vec<usize> {
    let mut sym2c: HashMap<String, usize> = HashMap::new();
    for (i, s) in cx().sym.iter().enumerate() { if let Some(s) = s { if !cx().contracts[i].aux { sym2c.insert(s.clone(), i); } } }
    let mut out = vec![];
    let mut seen: HashSet<String> = HashSet::new();
    fn go(ex: &mut Ex, s: &str, m: &HashMap<String, usize>, seen: &mut HashSet<String>, out: &mut Vec<usize>) {
        if !seen.insert(s.to_string()) { return; }
        if !ex.prog.funcs.contains_key(s) { return; }
        if let Some(h) = ex.hooks.get(s) { if !matches!(**h, Hook::Contract(_)) { return; } }
        let path = ex.prog.funcs[s].path.clone();
        if !(path.contains("ntrust_native") || path.contains("vp_harness") || path.starts_with("vp_")) { return; }
        let fb = match ex.prog.body(s) { Ok(b) => b, Err(_) => return };
        let mut callees = vec![];
        for b in &fb.blocks { for i in &b.insts { if let Inst::Call(_, _, Callee::Direct(n), _) = i { callees.push(n.clone()); } } }
        for c in callees { go(ex, &c, m, seen, out); }
        if let Some(&k) = m.get(s) { out.push(k); }
    }
    for &g in goals {
        if let Some(s) = cx().sym[g].clone() {
            if cx().contracts[g].aux {
                // the callees, then this contract; the function's main contract is not needed
                if let Some(&k) = sym2c.get(&s) { if !goals.contains(&k) { sym2c.remove(&s); } }
            }
            go(ex, &s, &sym2c, &mut seen, &mut out);
            if cx().contracts[g].aux { out.push(g); }
        }
    }
    out
}

pub fn verify(ex: &mut Ex, k: usize) -> Verdict {
    let t0 = std::time::Instant::now();
    let c = cx().contracts[k].clone();
    let sym = match &cx().sym[k] { Some(s) => s.clone(), None => return Verdict { error: Some(cx().resolve_note[k].clone()), ..Default::default() } };
    cx().used.clear();
    ex.executed.clear();
    // definitions to open: head of each ensures, explicit unfolds, and those of callees whose contract is not usable
    let mut unf: HashSet<String> = c.unfold.iter().cloned().collect();
    for e in &c.ensures { if let Some(h) = &e.head { unf.insert(h.clone()); } }
    for (j, d) in cx().contracts.iter().enumerate() { if j != k && !cx().usable[j] { for e in &d.ensures { if let Some(h) = &e.head { unf.insert(h.clone()); } } for u in &d.unfold { unf.insert(u.clone()); } } }
    // keep heads that belong to usable contracts opaque
    for (j, d) in cx().contracts.iter().enumerate() { if j != k && cx().usable[j] { for e in &d.ensures { if let Some(h) = &e.head { if !c.ensures.iter().any(|x| x.head.as_ref() == Some(h)) && !c.unfold.contains(h) { unf.remove(h); } } } } }
    sp().unfold = unf;
    let r = match &c.mode {
        Mode::Auto => verify_auto(ex, &c, &sym),
        Mode::Divstep(p) => crate::divstep::verify(ex, &c, &sym, *p),
        Mode::Sort => crate::sortnet::verify(ex, &c, &sym),
        Mode::Lengths => verify_auto(ex, &c, &sym).map(|mut v| {
            if v.error.is_none() && v.obs.iter().all(|o| o.ok == o.n) {
                match crate::rngloop::induct(ex, &c, &sym) { Ok(o) => v.obs.extend(o), Err(e) => v.bounded = Some(format!("proved for the listed request lengths only: {}", e)) }
            }
            v
        }),
    };
    let mut v = match r { Ok(v) => v, Err(e) => Verdict { error: Some(e), ..Default::default() } };
    v.ms = t0.elapsed().as_millis() as u64;
    v.steps = ex.steps;
    v.executed = { let mut e: Vec<String> = ex.executed.keys().cloned().collect(); e.sort(); e };
    v.used = cx().used.iter().map(|k| cx().contracts[*k].name.clone()).collect();
    v.used.sort();
    v
}

fn verify_auto(ex: &mut Ex, c: &Contract, sym: &str) -> Result<Verdict, String> {
    let alts = c.params.iter().map(|p| match &p.kind { PK::Slice(l) => l.len(), _ => 1 }).max().unwrap_or(1);
    let mut v = Verdict::default();
    for alt in 0..alts {
        ex.reset();
        let s = setup(ex, c, sym, alt)?;
        let own = ex.hooks.remove(sym);
        let r = ex.run(sym, &s.args);
        if let Some(h) = own { ex.hooks.insert(sym.to_string(), h); }
        let side = side_obs(ex, c, &s);
        match r.map_err(err) {
            Ok(Some(ret)) => { v.obs.extend(check_post(ex, c, &s, &ret, sym)?); }
            Ok(None) => { v.obs.push(Ob { name: "returns".into(), cat: Cat::Fun, n: 1, ok: 0, backends: BTreeMap::new(), fail: Some(Fail { refuted: true, why: "every path panics".into(), input: None, input2: None }) }); }
            Err(e) => { v.obs.extend(side); v.error = Some(e); return Ok(v); }
        }
        v.obs.extend(side);
        if s.rng.is_some() && !c.aux { rng_failures(ex, c, sym, &s, &mut v); }
    }
    Ok(v)
}

/// one run per RNG request, in which that request fails: the failure must come back as the result
fn rng_failures(ex: &mut Ex, c: &Contract, sym: &str, s0: &Setup, v: &mut Verdict) {
    let lens = s0.rng.clone().unwrap();
    for k in 0..lens.len() {
        let name = format!("failure of RNG request {} is returned", k);
        let mut ob = Ob { name, cat: Cat::Rng, n: 1, ok: 0, backends: BTreeMap::new(), fail: None };
        ex.reset();
        let r = (|| -> Result<(bool, String), String> {
            let s = setup(ex, c, sym, 0)?;
            ex.rng_fail = Some(k);
            let own = ex.hooks.remove(sym);
            let r = ex.run(sym, &s.args);
            if let Some(h) = own { ex.hooks.insert(sym.to_string(), h); }
            ex.rng_fail = None;
            let ret = r.map_err(err)?;
            let got: Vec<i64> = ex.st.rng.iter().map(|r| r.len as i64).collect();
            let same = match (&ret, &ex.rng_err) { (Some(V::A(a)), Some((e, t))) => a.len() == 2 && veq(&a[0], e) && veq(&a[1], t), _ => false };
            let definite = match &ret { None => true, Some(V::A(a)) => matches!(a[0], V::P(..)), _ => false };
            if same && got[..] == lens[..k + 1] { return Ok((true, String::new())); }
            if definite { Ok((false, format!("result {:?}, requests {:?}", ret, got))) } else { Err(format!("result {:?}", ret)) }
        })();
        ex.rng_fail = None;
        match r {
            Ok((true, _)) => { ob.ok = 1; ob.backends.insert("syntactic", 1); }
            Ok((false, w)) => ob.fail = Some(Fail { refuted: true, why: w, input: None, input2: None }),
            Err(w) => ob.fail = Some(Fail { refuted: false, why: w, input: None, input2: None }),
        }
        v.obs.push(ob);
    }
}
