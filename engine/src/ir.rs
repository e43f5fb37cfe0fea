//! Parser for the textual LLVM IR that rustc emits.
//! Function bodies are parsed lazily, the first time they are executed.
use std::collections::HashMap;

#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    Void,
    Int(u16),
    Ptr,
    Arr(u64, Box<Ty>),
    Struct(Vec<Ty>, bool),
    Named(String),
    Vec(u64, Box<Ty>),
    Other(String),
}

#[derive(Clone, Debug)]
pub enum Const {
    Int(u16, u128),
    Null,
    Undef(Ty),
    Zero(Ty),
    Global(String),
    Gep(Ty, Box<Const>, Vec<Const>),
    IntToPtr(Box<Const>),
    PtrToInt(Box<Const>, u16),
    Agg(Ty, Vec<Const>),
    Str(Vec<u8>),
    Unsupported(String),
}

#[derive(Clone, Debug)]
pub enum Opd {
    Reg(u32),
    C(Const),
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Bin { Add, Sub, Mul, UDiv, SDiv, URem, SRem, Shl, LShr, AShr, And, Or, Xor }

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Pred { Eq, Ne, Ult, Ule, Ugt, Uge, Slt, Sle, Sgt, Sge }

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Cast { Trunc, ZExt, SExt, PtrToInt, IntToPtr, Bitcast }

#[derive(Clone, Debug)]
pub enum Callee { Direct(String), Indirect(Opd), Asm }

#[derive(Clone, Debug)]
pub enum Inst {
    Bin(u32, Bin, u16, Opd, Opd),
    Icmp(u32, Pred, Ty, Opd, Opd),
    Cast(u32, Cast, Ty, Opd, Ty),
    Select(u32, Opd, Opd, Opd),
    Alloca(u32, u64),
    Load(u32, Ty, Opd),
    Store(Ty, Opd, Opd),
    Gep(u32, Opd, Vec<(u64, Opd, u16)>, u64), // base, (scale, index, width), const offset
    Extract(u32, Opd, Vec<u32>),
    Insert(u32, Ty, Opd, Opd, Vec<u32>),
    Call(Option<u32>, Ty, Callee, Vec<(Ty, Opd)>),
    Freeze(u32, Opd),
    Phi(u32, Vec<(Opd, u32)>),
    Nop,
    Unsupported(String),
}

#[derive(Clone, Debug)]
pub enum Term {
    Br(u32),
    CondBr(Opd, u32, u32),
    Switch(Opd, u16, Vec<(u128, u32)>, u32),
    Ret(Option<Opd>),
    Unreachable,
    Unsupported(String),
}

#[derive(Clone, Debug)]
pub struct Block { pub name: String, pub insts: Vec<Inst>, pub term: Term }

#[derive(Clone, Debug)]
pub struct Param { pub ty: Ty, pub name: String, pub deref: Option<u64>, pub readonly: bool, pub dead: bool, pub sret: bool }

pub struct Func {
    pub sym: String,
    pub path: String,
    pub params: Vec<Param>,
    pub ret: Ty,
    pub body: Vec<String>,
    pub parsed: Option<std::rc::Rc<FuncBody>>,
}

pub struct FuncBody {
    pub nregs: u32,
    pub blocks: Vec<Block>,
    pub ipdom: Vec<Option<u32>>,
    pub regnames: Vec<String>,
    pub loop_heads: Vec<bool>,
}

pub struct Module {
    pub types: HashMap<String, Ty>,
    pub typestr: HashMap<String, String>,
    pub globals: HashMap<String, (Ty, Option<Const>)>,
    pub funcs: HashMap<String, Func>,
    pub order: Vec<String>,
    pub decls: HashMap<String, String>, // external declarations: symbol -> path comment
}

#[derive(Clone, Debug, PartialEq)]
enum Tok { Id(String), Local(String), Global(String), Num(String), Str(Vec<u8>), P(char), Meta(String) }

fn lex(s: &str) -> Vec<Tok> {
    let b = s.as_bytes();
    let mut i = 0;
    let mut out = Vec::new();
    while i < b.len() {
        let c = b[i];
        if c == b' ' || c == b'\t' { i += 1; continue; }
        if c == b';' { break; }
        if c == b'%' || c == b'@' {
            let mut j = i + 1;
            let name;
            if j < b.len() && b[j] == b'"' {
                j += 1;
                let st = j;
                while b[j] != b'"' { j += 1; }
                name = s[st..j].to_string();
                j += 1;
            } else {
                let st = j;
                while j < b.len() && (b[j].is_ascii_alphanumeric() || b"._$-".contains(&b[j])) { j += 1; }
                name = s[st..j].to_string();
            }
            out.push(if c == b'%' { Tok::Local(name) } else { Tok::Global(name) });
            i = j;
            continue;
        }
        if c == b'!' || c == b'#' {
            let st = i;
            i += 1;
            while i < b.len() && (b[i].is_ascii_alphanumeric() || b"._$-".contains(&b[i])) { i += 1; }
            out.push(Tok::Meta(s[st..i].to_string()));
            continue;
        }
        if c == b'"' || (c == b'c' && i + 1 < b.len() && b[i + 1] == b'"') {
            if c == b'c' { i += 1; }
            i += 1;
            let mut v = Vec::new();
            while b[i] != b'"' {
                if b[i] == b'\\' {
                    if b[i + 1] == b'\\' { v.push(b'\\'); i += 2; continue; }
                    let h = u8::from_str_radix(&s[i + 1..i + 3], 16).unwrap_or(0);
                    v.push(h);
                    i += 3;
                } else { v.push(b[i]); i += 1; }
            }
            i += 1;
            out.push(Tok::Str(v));
            continue;
        }
        if c.is_ascii_digit() || (c == b'-' && i + 1 < b.len() && b[i + 1].is_ascii_digit()) {
            let st = i;
            i += 1;
            while i < b.len() && (b[i].is_ascii_alphanumeric() || b[i] == b'.') { i += 1; }
            out.push(Tok::Num(s[st..i].to_string()));
            continue;
        }
        if c.is_ascii_alphabetic() || c == b'_' || c == b'.' {
            let st = i;
            while i < b.len() && (b[i].is_ascii_alphanumeric() || b"._$".contains(&b[i])) { i += 1; }
            out.push(Tok::Id(s[st..i].to_string()));
            continue;
        }
        out.push(Tok::P(c as char));
        i += 1;
    }
    out
}

pub type PResult<T> = Result<T, String>;

struct P<'a> { t: Vec<Tok>, i: usize, m: &'a ModTypes, regs: Option<&'a mut RegMap> }
#[derive(Default)]
struct RegMap { map: HashMap<String, u32>, names: Vec<String> }
impl RegMap {
    fn get(&mut self, n: &str) -> u32 {
        if let Some(&r) = self.map.get(n) { return r; }
        let r = self.names.len() as u32;
        self.names.push(n.to_string());
        self.map.insert(n.to_string(), r);
        r
    }
}
pub struct ModTypes { pub types: HashMap<String, Ty> }

impl<'a> P<'a> {
    fn peek(&self) -> Option<&Tok> { self.t.get(self.i) }
    fn next(&mut self) -> PResult<Tok> { let r = self.t.get(self.i).cloned().ok_or("eol".to_string()); self.i += 1; r }
    fn eat(&mut self, c: char) -> bool { if self.peek() == Some(&Tok::P(c)) { self.i += 1; true } else { false } }
    fn expect(&mut self, c: char) -> PResult<()> { if self.eat(c) { Ok(()) } else { Err(format!("expected {} got {:?}", c, self.peek())) } }
    fn eat_id(&mut self, s: &str) -> bool { if let Some(Tok::Id(x)) = self.peek() { if x == s { self.i += 1; return true; } } false }
    fn ty(&mut self) -> PResult<Ty> {
        match self.next()? {
            Tok::Id(s) => {
                if s == "void" { return Ok(Ty::Void); }
                if s == "ptr" { return Ok(Ty::Ptr); }
                if let Some(n) = s.strip_prefix('i') { if let Ok(w) = n.parse::<u16>() { return Ok(Ty::Int(w)); } }
                Ok(Ty::Other(s))
            }
            Tok::Local(n) => Ok(Ty::Named(n)),
            Tok::P('[') => {
                let n = self.num_u64()?;
                if !self.eat_id("x") { return Err("arr".into()); }
                let t = self.ty()?;
                self.expect(']')?;
                Ok(Ty::Arr(n, Box::new(t)))
            }
            Tok::P('{') => {
                let mut v = vec![];
                if !self.eat('}') {
                    loop { v.push(self.ty()?); if self.eat('}') { break; } self.expect(',')?; }
                }
                Ok(Ty::Struct(v, false))
            }
            Tok::P('<') => {
                if self.eat('{') {
                    let mut v = vec![];
                    if !self.eat('}') {
                        loop { v.push(self.ty()?); if self.eat('}') { break; } self.expect(',')?; }
                    }
                    self.expect('>')?;
                    return Ok(Ty::Struct(v, true));
                }
                let n = self.num_u64()?;
                if !self.eat_id("x") { return Err("vec".into()); }
                let t = self.ty()?;
                self.expect('>')?;
                Ok(Ty::Vec(n, Box::new(t)))
            }
            t => Err(format!("type? {:?}", t)),
        }
    }
    fn num_u64(&mut self) -> PResult<u64> {
        match self.next()? { Tok::Num(s) => s.parse::<i64>().map(|x| x as u64).or_else(|_| s.parse::<u64>()).map_err(|e| e.to_string()), t => Err(format!("num? {:?}", t)) }
    }
    fn constant(&mut self, ty: &Ty) -> PResult<Const> {
        let t = self.next()?;
        match t {
            Tok::Num(s) => {
                let w = match ty { Ty::Int(w) => *w, _ => return Ok(Const::Unsupported(format!("num of {:?}", ty))) };
                let v: u128 = if let Some(x) = s.strip_prefix('-') { (x.parse::<u128>().map_err(|e| e.to_string())?).wrapping_neg() } else { s.parse::<u128>().map_err(|e| e.to_string())? };
                Ok(Const::Int(w, crate::term::mask(w, v)))
            }
            Tok::Id(s) => match s.as_str() {
                "true" => Ok(Const::Int(1, 1)),
                "false" => Ok(Const::Int(1, 0)),
                "null" => Ok(Const::Null),
                "undef" | "poison" => Ok(Const::Undef(ty.clone())),
                "zeroinitializer" => Ok(Const::Zero(ty.clone())),
                "getelementptr" => {
                    while let Some(Tok::Id(x)) = self.peek() { if x == "inbounds" || x == "nuw" || x == "nusw" { self.i += 1; } else { break; } }
                    self.expect('(')?;
                    let t = self.ty()?;
                    self.expect(',')?;
                    let bt = self.ty()?;
                    let base = self.constant(&bt)?;
                    let mut idx = vec![];
                    while self.eat(',') { let it = self.ty()?; idx.push(self.constant(&it)?); }
                    self.expect(')')?;
                    Ok(Const::Gep(t, Box::new(base), idx))
                }
                "inttoptr" => {
                    self.expect('(')?;
                    let t = self.ty()?;
                    let c = self.constant(&t)?;
                    if !self.eat_id("to") { return Err("inttoptr".into()); }
                    self.ty()?;
                    self.expect(')')?;
                    Ok(Const::IntToPtr(Box::new(c)))
                }
                "ptrtoint" => {
                    self.expect('(')?;
                    let t = self.ty()?;
                    let c = self.constant(&t)?;
                    if !self.eat_id("to") { return Err("ptrtoint".into()); }
                    let w = match self.ty()? { Ty::Int(w) => w, _ => 64 };
                    self.expect(')')?;
                    Ok(Const::PtrToInt(Box::new(c), w))
                }
                _ => Err(format!("const? {}", s)),
            },
            Tok::Global(s) => Ok(Const::Global(s)),
            Tok::Str(v) => Ok(Const::Str(v)),
            Tok::P('{') => { let mut v = vec![]; if !self.eat('}') { loop { let t = self.ty()?; v.push(self.constant(&t)?); if self.eat('}') { break; } self.expect(',')?; } } Ok(Const::Agg(ty.clone(), v)) }
            Tok::P('[') => { let mut v = vec![]; if !self.eat(']') { loop { let t = self.ty()?; v.push(self.constant(&t)?); if self.eat(']') { break; } self.expect(',')?; } } Ok(Const::Agg(ty.clone(), v)) }
            Tok::P('<') => {
                let packed = self.eat('{');
                let mut v = vec![];
                loop {
                    if packed && self.eat('}') { self.expect('>')?; break; }
                    if !packed && self.eat('>') { break; }
                    let t = self.ty()?; v.push(self.constant(&t)?);
                    self.eat(',');
                }
                Ok(Const::Agg(ty.clone(), v))
            }
            t => Err(format!("const? {:?}", t)),
        }
    }
    fn opd(&mut self, ty: &Ty) -> PResult<Opd> {
        if let Some(Tok::Local(n)) = self.peek().cloned() {
            self.i += 1;
            let r = self.regs.as_mut().ok_or("reg outside function")?.get(&n);
            return Ok(Opd::Reg(r));
        }
        Ok(Opd::C(self.constant(ty)?))
    }
    fn ty_opd(&mut self) -> PResult<(Ty, Opd)> { let t = self.ty()?; let o = self.opd(&t)?; Ok((t, o)) }
    fn skip_attrs(&mut self) -> (Option<u64>, bool, bool, bool) {
        // parameter/return attributes: identifiers, possibly with (...) or number
        let (mut deref, mut ro, mut dead, mut sret) = (None, false, false, false);
        loop {
            match self.peek() {
                Some(Tok::Id(s)) => {
                    let s = s.clone();
                    let known = ["noundef", "noalias", "nofree", "nonnull", "readonly", "writeonly", "readnone", "align", "dereferenceable", "dereferenceable_or_null", "captures", "dead_on_return", "dead_on_unwind", "writable", "sret", "range", "zeroext", "signext", "inreg", "nocapture", "immarg", "returned", "initializes", "byval", "nofpclass", "noext", "swiftself", "allocptr", "allocalign"];
                    if !known.contains(&s.as_str()) { return (deref, ro, dead, sret); }
                    self.i += 1;
                    if s == "readonly" { ro = true; }
                    if s == "dead_on_return" { dead = true; }
                    if s == "sret" { sret = true; }
                    if s == "align" { if let Some(Tok::Num(_)) = self.peek() { self.i += 1; continue; } }
                    if self.peek() == Some(&Tok::P('(')) {
                        let mut depth = 0;
                        let st = self.i;
                        while let Some(t) = self.peek() {
                            if *t == Tok::P('(') { depth += 1; }
                            if *t == Tok::P(')') { depth -= 1; }
                            self.i += 1;
                            if depth == 0 { break; }
                        }
                        if s == "dereferenceable" { if let Some(Tok::Num(n)) = self.t.get(st + 1) { deref = n.parse().ok(); } }
                    }
                }
                _ => return (deref, ro, dead, sret),
            }
        }
    }
}

pub fn size_align(m: &ModTypes, t: &Ty) -> (u64, u64) {
    match t {
        Ty::Void => (0, 1),
        Ty::Int(w) => { let b = ((*w as u64) + 7) / 8; let p = b.next_power_of_two(); (p, p.min(16)) }
        Ty::Ptr => (8, 8),
        Ty::Arr(n, e) => { let (s, a) = size_align(m, e); (s * n, a) }
        Ty::Vec(n, e) => { let (s, _) = size_align(m, e); (s * n, (s * n).next_power_of_two()) }
        Ty::Struct(fs, packed) => {
            let mut off = 0; let mut al = 1;
            for f in fs { let (s, a) = size_align(m, f); let a = if *packed { 1 } else { a }; off = (off + a - 1) / a * a; off += s; al = al.max(a); }
            ((off + al - 1) / al * al, al)
        }
        Ty::Named(n) => match m.types.get(n) { Some(t) => size_align(m, t), None => (0, 1) },
        Ty::Other(_) => (8, 8),
    }
}

pub fn field_offset(m: &ModTypes, t: &Ty, idx: u64) -> (u64, Ty) {
    match t {
        Ty::Named(n) => field_offset(m, &m.types[n].clone(), idx),
        Ty::Arr(_, e) | Ty::Vec(_, e) => { let (s, _) = size_align(m, e); (s.wrapping_mul(idx), (**e).clone()) }
        Ty::Struct(fs, packed) => {
            let mut off = 0;
            for (k, f) in fs.iter().enumerate() {
                let (s, a) = size_align(m, f);
                let a = if *packed { 1 } else { a };
                off = (off + a - 1) / a * a;
                if k as u64 == idx { return (off, f.clone()); }
                off += s;
            }
            (off, Ty::Void)
        }
        t => (0, t.clone()),
    }
}

pub struct Program { pub m: ModTypes, pub globals: HashMap<String, (Ty, Option<Const>)>, pub funcs: HashMap<String, Func>, pub order: Vec<String>, pub decl_paths: HashMap<String, String> }

impl Program {
    pub fn new() -> Program { Program { m: ModTypes { types: HashMap::new() }, globals: HashMap::new(), funcs: HashMap::new(), order: vec![], decl_paths: HashMap::new() } }

    /// Add the text of one module.  `tag` disambiguates private globals of different modules.
    pub fn add_module(&mut self, text: &str, tag: &str) -> PResult<()> {
        let mut lines = text.lines().peekable();
        let mut comment = String::new();
        // rename private globals/functions per module: alloc_*, anon.*, vtable.* are module private
        while let Some(l) = lines.next() {
            if l.starts_with(';') { if !l.starts_with("; Function Attrs") && !l.starts_with("; Module") { comment = l[1..].trim().to_string(); } continue; }
            if l.starts_with('%') {
                let toks = lex(l);
                if let (Tok::Local(n), Some(Tok::P('=')), Some(Tok::Id(k))) = (&toks[0], toks.get(1), toks.get(2)) {
                    if k == "type" {
                        if toks.get(3) == Some(&Tok::Id("opaque".into())) { continue; }
                        let n = n.clone();
                        let mut p = P { t: toks, i: 3, m: &self.m, regs: None };
                        if let Ok(t) = p.ty() { self.m.types.insert(n, t); }
                    }
                }
                continue;
            }
            if l.starts_with('@') {
                let l2 = retag(l, tag);
                let toks = lex(&l2);
                if let Tok::Global(n) = toks[0].clone() {
                    let mut i = 2;
                    while i < toks.len() { if let Tok::Id(s) = &toks[i] { if s == "constant" || s == "global" { break; } } i += 1; }
                    let ext = toks[..i].iter().any(|t| *t == Tok::Id("external".into()) || *t == Tok::Id("extern_weak".into()));
                    // what a variable holds when a function starts is not its initialiser
                    let var = toks.get(i) == Some(&Tok::Id("global".into()));
                    let mut p = P { t: toks, i: i + 1, m: &self.m, regs: None };
                    if let Ok(t) = p.ty() {
                        let c = if ext { None } else if var { Some(Const::Unsupported("static variable".into())) } else { Some(p.constant(&t).unwrap_or_else(Const::Unsupported)) };
                        self.globals.insert(n, (t, c));
                    }
                }
                continue;
            }
            if l.starts_with("declare ") {
                if let Some(Tok::Global(n)) = lex(l).into_iter().find(|t| matches!(t, Tok::Global(_))) { self.decl_paths.insert(n, comment.clone()); }
                comment.clear();
                continue;
            }
            if l.starts_with("define ") {
                let mut body = vec![];
                for b in lines.by_ref() { if b == "}" { break; } body.push(retag(b, tag)); }
                let toks = lex(l);
                let gi = toks.iter().position(|t| matches!(t, Tok::Global(_))).ok_or("define")?;
                let sym = if let Tok::Global(n) = &toks[gi] { n.clone() } else { unreachable!() };
                // return type: tokens before gi, skip linkage and attributes
                let mut p = P { t: toks, i: 1, m: &self.m, regs: None };
                let linkage = ["internal", "private", "dso_local", "hidden", "linkonce_odr", "available_externally", "weak_odr", "unnamed_addr", "local_unnamed_addr", "fastcc", "coldcc", "cc", "protected", "noinline"];
                let ret;
                loop {
                    p.skip_attrs();
                    match p.peek() { Some(Tok::Id(s)) if linkage.contains(&s.as_str()) => { p.i += 1; } _ => { ret = p.ty()?; break; } }
                }
                p.i = gi + 1;
                p.expect('(')?;
                let mut params = vec![];
                if !p.eat(')') {
                    loop {
                        let ty = p.ty()?;
                        let (deref, readonly, dead, sret) = p.skip_attrs();
                        let name = match p.next()? { Tok::Local(n) => n, t => return Err(format!("param {:?} in {}", t, sym)) };
                        params.push(Param { ty, name, deref, readonly, dead, sret });
                        if p.eat(')') { break; }
                        p.expect(',')?;
                    }
                }
                let f = Func { sym: sym.clone(), path: if comment.is_empty() || comment.starts_with("Function Attrs") { sym.clone() } else { comment.clone() }, params, ret, body, parsed: None };
                comment.clear();
                if !self.funcs.contains_key(&sym) { self.order.push(sym.clone()); self.funcs.insert(sym, f); }
                continue;
            }
        }
        Ok(())
    }

    pub fn body(&mut self, sym: &str) -> PResult<std::rc::Rc<FuncBody>> {
        if let Some(p) = &self.funcs[sym].parsed { return Ok(p.clone()); }
        let b = { let f = &self.funcs[sym]; parse_body(&self.m, f).map_err(|e| format!("{}: {}", f.path, e))? };
        let rc = std::rc::Rc::new(b);
        self.funcs.get_mut(sym).unwrap().parsed = Some(rc.clone());
        Ok(rc)
    }
}

fn retag(l: &str, tag: &str) -> String {
    // private symbols get a module suffix so that two modules can be loaded together
    let mut out = String::with_capacity(l.len() + 16);
    let mut rest = l;
    while let Some(p) = rest.find('@') {
        out.push_str(&rest[..p + 1]);
        rest = &rest[p + 1..];
        let end = rest.find(|c: char| !(c.is_ascii_alphanumeric() || c == '.' || c == '_' || c == '$')).unwrap_or(rest.len());
        let name = &rest[..end];
        out.push_str(name);
        if name.starts_with("alloc_") || name.starts_with("anon.") || name.starts_with("vtable.") || name.starts_with("switch.table") { out.push('.'); out.push_str(tag); }
        rest = &rest[end..];
    }
    out.push_str(rest);
    out
}

fn parse_body(m: &ModTypes, f: &Func) -> PResult<FuncBody> {
    let mut regs = RegMap::default();
    for p in &f.params { regs.get(&p.name); }
    let mut labels: HashMap<String, u32> = HashMap::new();
    let mut blocks: Vec<(String, Vec<String>)> = vec![];
    let mut it = f.body.iter().peekable();
    while let Some(l) = it.next() {
        if l.trim().is_empty() { continue; }
        let tl = l.trim_start();
        if tl.starts_with(';') { continue; }
        if !l.starts_with(' ') && !l.starts_with('\t') {
            let e = l.find(':').ok_or_else(|| format!("label? {}", l))?;
            let name = l[..e].trim_matches('"').to_string();
            labels.insert(name.clone(), blocks.len() as u32);
            blocks.push((name, vec![]));
            continue;
        }
        if blocks.is_empty() { labels.insert("entry".into(), 0); blocks.push(("entry".into(), vec![])); }
        let mut s = l.clone();
        // multi-line constructs: switch [ ... ]
        if tl.starts_with("switch ") && !s.contains(']') {
            for n in it.by_ref() { s.push(' '); s.push_str(n.trim()); if n.trim().starts_with(']') { break; } }
        }
        blocks.last_mut().unwrap().1.push(s);
    }
    let mut out = vec![];
    for (name, ls) in &blocks {
        let mut insts = vec![];
        let mut term = Term::Unsupported("no terminator".into());
        for l in ls {
            let toks = lex(l);
            if toks.is_empty() { continue; }
            match parse_inst(m, toks, &mut regs, &labels) {
                Ok(PI::I(Inst::Nop)) => {}
                Ok(PI::I(i)) => insts.push(i),
                Ok(PI::T(t)) => { term = t; }
                Err(e) => { let msg = format!("{} in `{}`", e, l.trim()); if matches!(l.trim_start().split(' ').next(), Some("br") | Some("ret") | Some("switch") | Some("unreachable") | Some("invoke")) { term = Term::Unsupported(msg) } else { insts.push(Inst::Unsupported(msg)) } }
            }
        }
        out.push(Block { name: name.clone(), insts, term });
    }
    let ipdom = ipdoms(&out);
    let loop_heads = loop_heads(&out);
    Ok(FuncBody { nregs: regs.names.len() as u32, blocks: out, ipdom, regnames: regs.names, loop_heads })
}

pub fn succs(b: &Block) -> Vec<u32> {
    match &b.term { Term::Br(x) => vec![*x], Term::CondBr(_, a, b) => vec![*a, *b], Term::Switch(_, _, v, d) => { let mut r: Vec<u32> = v.iter().map(|x| x.1).collect(); r.push(*d); r.sort(); r.dedup(); r } _ => vec![] }
}

fn ipdoms(blocks: &[Block]) -> Vec<Option<u32>> {
    // postdominators over blocks that can reach a return; unreachable-terminated blocks are ignored
    let n = blocks.len();
    let exit = n;
    let mut preds: Vec<Vec<usize>> = vec![vec![]; n + 1];
    let mut ss: Vec<Vec<usize>> = vec![vec![]; n];
    for (i, b) in blocks.iter().enumerate() {
        let mut s: Vec<usize> = succs(b).iter().map(|x| *x as usize).collect();
        if let Term::Ret(_) = b.term { s.push(exit); }
        for &t in &s { preds[t].push(i); }
        ss[i] = s;
    }
    let mut reach = vec![false; n + 1];
    let mut st = vec![exit];
    reach[exit] = true;
    while let Some(x) = st.pop() { for &p in &preds[x] { if !reach[p] { reach[p] = true; st.push(p); } } }
    let words = (n + 64) / 64;
    let mut pd: Vec<Vec<u64>> = vec![vec![!0u64; words]; n + 1];
    pd[exit] = vec![0; words];
    pd[exit][exit / 64] |= 1 << (exit % 64);
    let mut changed = true;
    while changed {
        changed = false;
        for i in (0..n).rev() {
            if !reach[i] { continue; }
            let mut nw = vec![!0u64; words];
            for &s in &ss[i] { if reach[s] { for w in 0..words { nw[w] &= pd[s][w]; } } }
            nw[i / 64] |= 1 << (i % 64);
            if nw != pd[i] { pd[i] = nw; changed = true; }
        }
    }
    let has = |v: &Vec<u64>, i: usize| v[i / 64] >> (i % 64) & 1 == 1;
    let cnt = |v: &Vec<u64>| v.iter().map(|x| x.count_ones()).sum::<u32>();
    (0..n).map(|i| {
        if !reach[i] { return None; }
        let mut best: Option<usize> = None;
        for j in 0..=n { if j != i && has(&pd[i], j) && (j == exit || reach[j]) { if best.map_or(true, |b| cnt(&pd[j]) > cnt(&pd[b])) { best = Some(j); } } }
        match best { Some(j) if j < n => Some(j as u32), _ => None }
    }).collect()
}

fn loop_heads(blocks: &[Block]) -> Vec<bool> {
    let n = blocks.len();
    let mut color = vec![0u8; n];
    let mut heads = vec![false; n];
    let mut st: Vec<(usize, usize)> = vec![];
    if n == 0 { return heads; }
    st.push((0, 0));
    color[0] = 1;
    while let Some((b, k)) = st.pop() {
        let s = succs(&blocks[b]);
        if k < s.len() {
            st.push((b, k + 1));
            let t = s[k] as usize;
            if color[t] == 0 { color[t] = 1; st.push((t, 0)); } else if color[t] == 1 { heads[t] = true; }
        } else { color[b] = 2; }
    }
    heads
}

enum PI { I(Inst), T(Term) }

fn parse_inst(m: &ModTypes, toks: Vec<Tok>, regs: &mut RegMap, labels: &HashMap<String, u32>) -> PResult<PI> {
    let mut p = P { t: toks, i: 0, m, regs: Some(regs) };
    let mut dst: Option<u32> = None;
    if let (Some(Tok::Local(n)), Some(Tok::P('='))) = (p.t.get(0).cloned(), p.t.get(1).cloned()) {
        dst = Some(p.regs.as_mut().unwrap().get(&n));
        p.i = 2;
    }
    let op = match p.next()? { Tok::Id(s) => s, t => return Err(format!("op {:?}", t)) };
    let lab = |p: &mut P| -> PResult<u32> {
        if !p.eat_id("label") { return Err("label".into()); }
        match p.next()? { Tok::Local(n) => labels.get(&n).copied().ok_or(format!("label {}", n)), t => Err(format!("label {:?}", t)) }
    };
    let d = || dst.ok_or_else(|| "no dst".to_string());
    let bin = match op.as_str() { "add" => Some(Bin::Add), "sub" => Some(Bin::Sub), "mul" => Some(Bin::Mul), "udiv" => Some(Bin::UDiv), "sdiv" => Some(Bin::SDiv), "urem" => Some(Bin::URem), "srem" => Some(Bin::SRem), "shl" => Some(Bin::Shl), "lshr" => Some(Bin::LShr), "ashr" => Some(Bin::AShr), "and" => Some(Bin::And), "or" => Some(Bin::Or), "xor" => Some(Bin::Xor), _ => None };
    if let Some(b) = bin {
        while p.eat_id("nuw") || p.eat_id("nsw") || p.eat_id("exact") || p.eat_id("disjoint") {}
        let t = p.ty()?;
        let w = match t { Ty::Int(w) => w, _ => return Err("bin type".into()) };
        let a = p.opd(&t)?;
        p.expect(',')?;
        let c = p.opd(&t)?;
        return Ok(PI::I(Inst::Bin(d()?, b, w, a, c)));
    }
    match op.as_str() {
        "icmp" => {
            p.eat_id("samesign");
            let pr = match p.next()? { Tok::Id(s) => match s.as_str() { "eq" => Pred::Eq, "ne" => Pred::Ne, "ult" => Pred::Ult, "ule" => Pred::Ule, "ugt" => Pred::Ugt, "uge" => Pred::Uge, "slt" => Pred::Slt, "sle" => Pred::Sle, "sgt" => Pred::Sgt, "sge" => Pred::Sge, _ => return Err("pred".into()) }, _ => return Err("pred".into()) };
            let t = p.ty()?;
            if matches!(t, Ty::Vec(..)) { return Err("vector icmp".into()); }
            let a = p.opd(&t)?;
            p.expect(',')?;
            let b = p.opd(&t)?;
            Ok(PI::I(Inst::Icmp(d()?, pr, t, a, b)))
        }
        "trunc" | "zext" | "sext" | "ptrtoint" | "inttoptr" | "bitcast" => {
            while p.eat_id("nuw") || p.eat_id("nsw") || p.eat_id("nneg") {}
            let c = match op.as_str() { "trunc" => Cast::Trunc, "zext" => Cast::ZExt, "sext" => Cast::SExt, "ptrtoint" => Cast::PtrToInt, "inttoptr" => Cast::IntToPtr, _ => Cast::Bitcast };
            let t = p.ty()?;
            let a = p.opd(&t)?;
            if !p.eat_id("to") { return Err("cast".into()); }
            let t2 = p.ty()?;
            Ok(PI::I(Inst::Cast(d()?, c, t, a, t2)))
        }
        "select" => {
            let (t, c) = p.ty_opd()?;
            if t != Ty::Int(1) { return Err("vector select".into()); }
            p.expect(',')?;
            let (_, a) = p.ty_opd()?;
            p.expect(',')?;
            let (_, b) = p.ty_opd()?;
            Ok(PI::I(Inst::Select(d()?, c, a, b)))
        }
        "alloca" => {
            let t = p.ty()?;
            let (s, _) = size_align(m, &t);
            if p.eat(',') { if let Some(Tok::Id(x)) = p.peek() { if x != "align" { return Err("alloca count".into()); } } else { } }
            Ok(PI::I(Inst::Alloca(d()?, s)))
        }
        "load" => {
            p.eat_id("volatile");
            if p.eat_id("atomic") { return Err("atomic".into()); }
            let t = p.ty()?;
            p.expect(',')?;
            let (_, a) = p.ty_opd()?;
            Ok(PI::I(Inst::Load(d()?, t, a)))
        }
        "store" => {
            p.eat_id("volatile");
            if p.eat_id("atomic") { return Err("atomic".into()); }
            let (t, v) = p.ty_opd()?;
            p.expect(',')?;
            let (_, a) = p.ty_opd()?;
            Ok(PI::I(Inst::Store(t, v, a)))
        }
        "getelementptr" => {
            while p.eat_id("inbounds") || p.eat_id("nuw") || p.eat_id("nusw") {}
            let mut t = p.ty()?;
            p.expect(',')?;
            let (_, base) = p.ty_opd()?;
            let mut idx = vec![];
            let mut coff = 0u64;
            let mut first = true;
            while p.eat(',') {
                if let Some(Tok::Meta(_)) = p.peek() { break; }
                let (it, o) = p.ty_opd()?;
                let w = match it { Ty::Int(w) => w, _ => return Err("gep idx".into()) };
                if first {
                    let (s, _) = size_align(m, &t);
                    if let Opd::C(Const::Int(_, v)) = &o { coff = coff.wrapping_add(s.wrapping_mul(crate::term::sext64(w, *v) as u64)); } else { idx.push((s, o, w)); }
                    first = false;
                } else {
                    match &o {
                        Opd::C(Const::Int(_, v)) => { let (o2, t2) = field_offset(m, &t, crate::term::sext64(w, *v) as u64); coff = coff.wrapping_add(o2); t = t2; }
                        _ => { let (s, t2) = match &t { Ty::Arr(_, e) => (size_align(m, e).0, (**e).clone()), _ => return Err("gep struct dyn".into()) }; idx.push((s, o, w)); t = t2; }
                    }
                }
            }
            Ok(PI::I(Inst::Gep(d()?, base, idx, coff)))
        }
        "extractvalue" => {
            let (_, a) = p.ty_opd()?;
            let mut ix = vec![];
            while p.eat(',') { if let Some(Tok::Meta(_)) = p.peek() { break; } ix.push(p.num_u64()? as u32); }
            Ok(PI::I(Inst::Extract(d()?, a, ix)))
        }
        "insertvalue" => {
            let (t, a) = p.ty_opd()?;
            p.expect(',')?;
            let (_, v) = p.ty_opd()?;
            let mut ix = vec![];
            while p.eat(',') { if let Some(Tok::Meta(_)) = p.peek() { break; } ix.push(p.num_u64()? as u32); }
            Ok(PI::I(Inst::Insert(d()?, t, a, v, ix)))
        }
        "freeze" => { let (_, a) = p.ty_opd()?; Ok(PI::I(Inst::Freeze(d()?, a))) }
        "phi" => {
            let t = p.ty()?;
            let mut v = vec![];
            loop {
                p.expect('[')?;
                let o = p.opd(&t)?;
                p.expect(',')?;
                let l = match p.next()? { Tok::Local(n) => *labels.get(&n).ok_or("phi label")?, _ => return Err("phi".into()) };
                p.expect(']')?;
                v.push((o, l));
                if !p.eat(',') { break; }
                if let Some(Tok::Meta(_)) = p.peek() { break; }
            }
            Ok(PI::I(Inst::Phi(d()?, v)))
        }
        "call" | "tail" | "musttail" | "notail" => {
            if op != "call" { p.eat_id("call"); }
            p.skip_attrs();
            while p.eat_id("fastcc") || p.eat_id("coldcc") || p.eat_id("cc") { p.skip_attrs(); }
            let t = p.ty()?;
            // function type for varargs: "void (...)": not expected
            let callee = match p.next()? {
                Tok::Global(n) => Callee::Direct(n),
                Tok::Local(n) => { let r = p.regs.as_mut().unwrap().get(&n); Callee::Indirect(Opd::Reg(r)) }
                Tok::Id(s) if s == "asm" => { return Ok(PI::I(Inst::Call(dst, t, Callee::Asm, vec![]))); }
                x => return Err(format!("callee {:?}", x)),
            };
            if let Callee::Direct(n) = &callee { if n.starts_with("llvm.lifetime") || n.starts_with("llvm.assume") || n.starts_with("llvm.dbg") || n.starts_with("llvm.experimental.noalias") { return Ok(PI::I(Inst::Nop)); } }
            p.expect('(')?;
            let mut args = vec![];
            if !p.eat(')') {
                loop {
                    let at = p.ty()?;
                    p.skip_attrs();
                    let a = p.opd(&at)?;
                    args.push((at, a));
                    if p.eat(')') { break; }
                    p.expect(',')?;
                }
            }
            Ok(PI::I(Inst::Call(dst, t, callee, args)))
        }
        "fence" => Ok(PI::I(Inst::Nop)),
        "br" => {
            if let Some(Tok::Id(s)) = p.peek() { if s == "label" { return Ok(PI::T(Term::Br(lab(&mut p)?))); } }
            let (_, c) = p.ty_opd()?;
            p.expect(',')?;
            let a = lab(&mut p)?;
            p.expect(',')?;
            let b = lab(&mut p)?;
            Ok(PI::T(Term::CondBr(c, a, b)))
        }
        "switch" => {
            let (t, c) = p.ty_opd()?;
            let w = match t { Ty::Int(w) => w, _ => return Err("switch".into()) };
            p.expect(',')?;
            let dflt = lab(&mut p)?;
            p.expect('[')?;
            let mut v = vec![];
            while !p.eat(']') {
                let t = p.ty()?;
                let k = match p.constant(&t)? { Const::Int(_, v) => v, _ => return Err("switch const".into()) };
                p.expect(',')?;
                v.push((k, lab(&mut p)?));
            }
            Ok(PI::T(Term::Switch(c, w, v, dflt)))
        }
        "ret" => {
            let t = p.ty()?;
            if t == Ty::Void { return Ok(PI::T(Term::Ret(None))); }
            let o = p.opd(&t)?;
            Ok(PI::T(Term::Ret(Some(o))))
        }
        "unreachable" => Ok(PI::T(Term::Unreachable)),
        _ => Err(format!("unsupported {}", op)),
    }
}
