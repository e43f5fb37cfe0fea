//! The specification language: a subset of Lean 4 definitions, evaluated to terms.
//! Integers are 64-bit signed terms whose ranges show that no overflow happens.
use crate::smt::AVal;
use crate::term::*;
use std::cell::RefCell;
use std::collections::HashMap;
use std::rc::Rc;

#[derive(Clone, Debug, PartialEq)]
pub enum X {
    Num(i128),
    Loc(usize),          // de Bruijn
    Def(Rc<str>),
    App(Box<X>, Vec<X>),
    Fun(Box<X>),
    Let(Box<X>, Box<X>),
    If(Box<X>, Box<X>, Box<X>),
    Bin(char, Box<X>, Box<X>), // + - * / % ^ = n(≠) < l(≤) > g(≥) & |
    Not(Box<X>),
    Neg(Box<X>),
}

#[derive(Clone)]
pub struct Def { pub name: Rc<str>, pub params: Vec<String>, pub ptypes: Vec<String>, pub body: Option<X>, pub opaque: Option<Opq>, pub builtin: bool, pub rtype: String }
#[derive(Clone)]
pub struct Opq { pub len: X, pub seqs: Vec<(usize, X)>, pub lo: X, pub hi: X, pub comm: bool }

#[derive(Clone)]
pub enum SV { I(T), B(T), S(Rc<SeqV>) }
pub enum SeqV {
    Mat(Vec<T>, String),
    Clo(X, Env, RefCell<HashMap<i64, SV>>),
    Ap { f: u32, args: u32, len: usize, lo: i64, hi: i64, name: Rc<str> },
    Part(Rc<str>, Vec<SV>), // partially applied definition
}
pub type Env = Option<Rc<EnvN>>;
pub struct EnvN { v: SV, next: Env }
fn push(e: &Env, v: SV) -> Env { Some(Rc::new(EnvN { v, next: e.clone() })) }
fn look(e: &Env, mut k: usize) -> &SV { let mut n = e.as_ref().unwrap(); while k > 0 { n = n.next.as_ref().unwrap(); k -= 1; } &n.v }

pub type R<X> = Result<X, String>;

#[derive(Clone, Debug, PartialEq)]
enum Tk { Id(String), Num(i128), Sym(&'static str), End }

fn lex(s: &str) -> R<Vec<Tk>> {
    let c: Vec<char> = s.chars().collect();
    let mut i = 0;
    let mut out = vec![];
    while i < c.len() {
        let x = c[i];
        if x == '-' && i + 1 < c.len() && c[i + 1] == '-' { while i < c.len() && c[i] != '\n' { i += 1; } continue; }
        if x == '\n' { out.push(Tk::Sym("\n")); i += 1; continue; }
        if x.is_whitespace() { i += 1; continue; }
        if x.is_ascii_digit() { let mut v: i128 = 0; while i < c.len() && c[i].is_ascii_digit() { v = v * 10 + c[i].to_digit(10).unwrap() as i128; i += 1; } out.push(Tk::Num(v)); continue; }
        if x.is_alphabetic() || x == '_' { if x != 'ℕ' && x != 'ℤ' { let st = i; while i < c.len() && (c[i].is_alphanumeric() || c[i] == '_' || c[i] == '\'' || (c[i] == '.' && i + 1 < c.len() && c[i + 1].is_alphabetic())) { i += 1; } out.push(Tk::Id(c[st..i].iter().collect())); continue; } out.push(Tk::Id(x.to_string())); i += 1; continue; }
        if x == ':' && c.get(i + 1) == Some(&'=') { out.push(Tk::Sym(":=")); i += 2; continue; }
        if x == '=' && c.get(i + 1) == Some(&'>') { out.push(Tk::Sym("=>")); i += 2; continue; }
        let t = match x { '(' => "(", ')' => ")", ':' => ":", '+' => "+", '-' => "-", '*' => "*", '/' => "/", '%' => "%", '^' => "^", '=' => "=", '≠' => "≠", '<' => "<", '≤' => "≤", '>' => ">", '≥' => "≥", '∧' => "∧", '∨' => "∨", '¬' => "¬", '→' => "→", '↦' => "=>", ';' => ";", '[' => "[", ']' => "]", ',' => ",", '{' => "{", '}' => "}", _ => return Err(format!("spec: unexpected character {:?}", x)) };
        out.push(Tk::Sym(t));
        i += 1;
    }
    out.push(Tk::End);
    Ok(out)
}

struct Ps<'a> { t: Vec<Tk>, i: usize, scope: Vec<String>, defs: &'a dyn Fn(&str) -> bool }
impl<'a> Ps<'a> {
    fn nl(&mut self) { while self.t[self.i] == Tk::Sym("\n") { self.i += 1; } }
    fn peek(&mut self) -> Tk { self.nl(); self.t[self.i].clone() }
    fn peek_raw(&self) -> Tk { self.t[self.i].clone() }
    fn eat(&mut self, s: &'static str) -> bool { if self.peek() == Tk::Sym(s) { self.i += 1; true } else { false } }
    fn kw(&mut self, s: &str) -> bool { if self.peek() == Tk::Id(s.into()) { self.i += 1; true } else { false } }
    fn expect(&mut self, s: &'static str) -> R<()> { if self.eat(s) { Ok(()) } else { Err(format!("spec: expected {} got {:?}", s, self.peek())) } }
    fn ident(&mut self) -> R<String> { match self.peek() { Tk::Id(s) => { self.i += 1; Ok(s) } t => Err(format!("spec: identifier expected, got {:?}", t)) } }
    fn expr(&mut self) -> R<X> {
        if self.kw("fun") {
            let mut names = vec![];
            loop { if self.eat("=>") { break; } names.push(self.ident()?); }
            for n in &names { self.scope.push(n.clone()); }
            let b = self.expr()?;
            let mut r = b;
            for _ in &names { self.scope.pop(); r = X::Fun(Box::new(r)); }
            return Ok(r);
        }
        if self.kw("let") {
            let n = self.ident()?;
            if self.eat(":") { self.skip_type(":=")?; } else { self.expect(":=")?; }
            let v = self.expr()?;
            // separator: newline or ;
            if self.peek_raw() == Tk::Sym(";") { self.i += 1; }
            self.scope.push(n);
            let b = self.expr()?;
            self.scope.pop();
            return Ok(X::Let(Box::new(v), Box::new(b)));
        }
        if self.kw("if") {
            let c = self.expr()?;
            if !self.kw("then") { return Err("spec: then".into()); }
            let a = self.expr()?;
            if !self.kw("else") { return Err("spec: else".into()); }
            let b = self.expr()?;
            return Ok(X::If(Box::new(c), Box::new(a), Box::new(b)));
        }
        self.or()
    }
    fn skip_type(&mut self, until: &'static str) -> R<()> { loop { match self.peek() { Tk::Sym(s) if s == until => { self.i += 1; return Ok(()); } Tk::End => return Err("spec: type".into()), _ => self.i += 1 } } }
    // binary operators do not continue over a newline unless inside parentheses or the operator starts the next line
    fn op(&mut self, ops: &[&'static str]) -> Option<&'static str> {
        let save = self.i;
        self.nl();
        if let Tk::Sym(s) = self.t[self.i] { if ops.contains(&s) { self.i += 1; return Some(s); } }
        self.i = save;
        None
    }
    fn or(&mut self) -> R<X> { let mut a = self.and()?; while self.op(&["∨"]).is_some() { let b = self.and()?; a = X::Bin('|', Box::new(a), Box::new(b)); } Ok(a) }
    fn and(&mut self) -> R<X> { let mut a = self.not()?; while self.op(&["∧"]).is_some() { let b = self.not()?; a = X::Bin('&', Box::new(a), Box::new(b)); } Ok(a) }
    fn not(&mut self) -> R<X> { if self.eat("¬") { let a = self.not()?; return Ok(X::Not(Box::new(a))); } self.cmp() }
    fn cmp(&mut self) -> R<X> {
        let a = self.sum()?;
        if let Some(o) = self.op(&["=", "≠", "<", "≤", ">", "≥"]) {
            let b = self.sum()?;
            let c = match o { "=" => '=', "≠" => 'n', "<" => '<', "≤" => 'l', ">" => '>', _ => 'g' };
            return Ok(X::Bin(c, Box::new(a), Box::new(b)));
        }
        Ok(a)
    }
    fn sum(&mut self) -> R<X> { let mut a = self.prod()?; while let Some(o) = self.op(&["+", "-"]) { let b = self.prod()?; a = X::Bin(o.chars().next().unwrap(), Box::new(a), Box::new(b)); } Ok(a) }
    fn prod(&mut self) -> R<X> { let mut a = self.pow()?; while let Some(o) = self.op(&["*", "/", "%"]) { let b = self.pow()?; a = X::Bin(o.chars().next().unwrap(), Box::new(a), Box::new(b)); } Ok(a) }
    fn pow(&mut self) -> R<X> {
        if self.eat("-") { let a = self.pow()?; return Ok(X::Neg(Box::new(a))); }
        let a = self.app()?;
        if self.op(&["^"]).is_some() { let b = self.pow()?; return Ok(X::Bin('^', Box::new(a), Box::new(b))); }
        Ok(a)
    }
    fn app(&mut self) -> R<X> {
        let f = self.atom()?.ok_or_else(|| format!("spec: expression expected, got {:?}", self.t[self.i]))?;
        let mut args = vec![];
        loop {
            // arguments stay on the same line
            match self.peek_raw() { Tk::Id(_) | Tk::Num(_) | Tk::Sym("(") => {} _ => break }
            match self.atom()? { Some(a) => args.push(a), None => break }
        }
        Ok(if args.is_empty() { f } else { X::App(Box::new(f), args) })
    }
    fn atom(&mut self) -> R<Option<X>> {
        match self.peek() {
            Tk::Num(v) => { self.i += 1; Ok(Some(X::Num(v))) }
            Tk::Sym("(") => {
                self.i += 1;
                let e = self.expr()?;
                if self.eat(":") { self.skip_type(")")?; } else { self.expect(")")?; }
                Ok(Some(e))
            }
            Tk::Id(s) => {
                if ["then", "else", "fun", "let", "if"].contains(&s.as_str()) { return Ok(None); }
                self.i += 1;
                if let Some(k) = self.scope.iter().rposition(|n| *n == s) { return Ok(Some(X::Loc(self.scope.len() - 1 - k))); }
                if (self.defs)(&s) { return Ok(Some(X::Def(s.as_str().into()))); }
                Err(format!("spec: unknown name {}", s))
            }
            _ => Ok(None),
        }
    }
}

pub struct Spec { pub defs: HashMap<String, Rc<Def>>, pub unfold: std::collections::HashSet<String>, pub consts: HashMap<String, i64>, memo: HashMap<(Rc<str>, u32), SV> }
static mut SP: *mut Spec = std::ptr::null_mut();
pub fn sp() -> &'static mut Spec { unsafe { if SP.is_null() { SP = Box::into_raw(Box::new(Spec { defs: HashMap::new(), unfold: Default::default(), consts: HashMap::new(), memo: HashMap::new() })); } &mut *SP } }

fn mkapp(f: u32, args: u32, k: u32, lo: i64, hi: i64) -> T {
    if lo >= 0 { return tm().app(f, args, k, 64, lo as u128, hi as u128); }
    let t = tm().app(f, args, k, 64, 0, ones(64));
    tm().srng.insert(t, (lo as i128, hi as i128));
    t
}
pub fn int(v: i64) -> T { tm().cst(64, v as u64 as u128) }

impl Spec {
    pub fn load(&mut self, text: &str) -> R<()> {
        // split into top level items
        let mut items: Vec<String> = vec![];
        let mut ann: Vec<String> = vec![];
        let mut cur: Option<String> = None;
        let mut in_doc = false;
        let mut pend: Vec<(Vec<String>, String)> = vec![];
        for l in text.lines() {
            if in_doc { if l.contains("-/") { in_doc = false; } continue; }
            if l.trim_start().starts_with("/-") { if let Some(c) = cur.take() { pend.push((std::mem::take(&mut ann), c)); } if !l.contains("-/") { in_doc = true; } continue; }
            let top = !l.starts_with(' ') && !l.trim().is_empty();
            if top {
                if let Some(c) = cur.take() { pend.push((std::mem::take(&mut ann), c)); }
                if let Some(a) = l.strip_prefix("-- @") { ann.push(a.to_string()); continue; }
                let l2 = l.strip_prefix("noncomputable ").unwrap_or(l);
                if (l2.starts_with("def ") && !["def sumTo", "def anyTo", "def dsIter"].iter().any(|p| l2.starts_with(p))) || l2.starts_with("opaque ") { cur = Some(format!("{}\n", l2)); }
                continue;
            }
            if let Some(c) = &mut cur { c.push_str(l); c.push('\n'); }
        }
        if let Some(c) = cur.take() { pend.push((ann, c)); }
        let _ = &mut items;
        for (ann, text) in pend { self.add_def(&ann, &text)?; }
        Ok(())
    }
    fn add_def(&mut self, ann: &[String], text: &str) -> R<()> {
        let is_opq = text.starts_with("opaque ");
        let hdr_end = if is_opq { text.len() } else { text.find(":=").ok_or_else(|| format!("spec: no := in {}", text))? };
        let builtin = ann.iter().any(|a| a.trim() == "builtin") || is_opq;
        let toks = lex(&text[..hdr_end])?;
        let toks: Vec<Tk> = toks.into_iter().filter(|t| *t != Tk::Sym("\n")).collect();
        let name = match &toks[1] { Tk::Id(s) => s.clone(), _ => return Err("spec: def name".into()) };
        let mut params = vec![];
        let mut ptypes = vec![];
        let mut i = 2;
        while toks[i] == Tk::Sym("(") {
            i += 1;
            let mut ns = vec![];
            while let Tk::Id(s) = &toks[i] { ns.push(s.clone()); i += 1; }
            i += 1;
            let mut ty = String::new();
            let mut d = 0;
            loop { match &toks[i] { Tk::Sym(")") if d == 0 => break, Tk::Sym("(") => d += 1, Tk::Sym(")") => d -= 1, Tk::Id(s) => ty.push_str(s), _ => {} } i += 1; }
            i += 1;
            for n in ns { params.push(n); ptypes.push(ty.clone()); }
        }
        let mut rtype = String::new();
        while i < toks.len() { if let Tk::Id(s) = &toks[i] { rtype.push_str(s); } i += 1; }
        let known = |s: &str| self.defs.contains_key(s) || self.consts.contains_key(s) || ["sumTo", "anyTo"].contains(&s) || s == name;
        let parse = |txt: &str| -> R<X> {
            let t = lex(txt)?;
            let mut p = Ps { t, i: 0, scope: params.clone(), defs: &known };
            let e = p.expr()?;
            p.nl();
            if p.t[p.i] != Tk::End { return Err(format!("spec: trailing {:?} in {}", p.t[p.i], name)); }
            Ok(e)
        };
        let body = if builtin { None } else { Some(parse(&text[hdr_end + 2..])?) };
        let mut opaque = None;
        for a in ann {
            if let Some(r) = a.strip_prefix("opaque ") {
                let mut o = Opq { len: X::Num(0), seqs: vec![], lo: X::Num(0), hi: X::Num(0), comm: false };
                for part in r.split_whitespace() {
                    if let Some(v) = part.strip_prefix("len=") { o.len = parse(v)?; }
                    else if let Some(v) = part.strip_prefix("range=") { let (a, b) = v.split_once("..").ok_or("range")?; o.lo = parse(a)?; o.hi = parse(b)?; }
                    else if let Some(v) = part.strip_prefix("seq=") { for s in v.split(',') { let (n, l) = s.split_once(':').ok_or("seq")?; let k = params.iter().position(|p| p == n).ok_or("seq param")?; o.seqs.push((k, parse(l)?)); } }
                    else if part == "comm" { o.comm = true; }
                    else { return Err(format!("spec: annotation {}", part)); }
                }
                opaque = Some(o);
            }
        }
        self.defs.insert(name.clone(), Rc::new(Def { name: name.as_str().into(), params, ptypes, body, opaque, builtin, rtype }));
        Ok(())
    }
    /// parse an expression with the given local names (outermost first)
    pub fn parse_expr(&self, txt: &str, scope: &[String]) -> R<X> {
        let known = |s: &str| self.defs.contains_key(s) || self.consts.contains_key(s) || ["sumTo", "anyTo"].contains(&s);
        let mut p = Ps { t: lex(txt)?, i: 0, scope: scope.to_vec(), defs: &known };
        let e = p.expr()?;
        p.nl();
        if p.t[p.i] != Tk::End { return Err(format!("spec: trailing {:?} in `{}`", p.t[p.i], txt)); }
        Ok(e)
    }
    pub fn env(vals: &[SV]) -> Env { let mut e = None; for v in vals { e = push(&e, v.clone()); } e }

    pub fn eval(&mut self, x: &X, env: &Env) -> R<SV> {
        match x {
            X::Num(v) => Ok(SV::I(int(*v as i64))),
            X::Loc(k) => Ok(look(env, *k).clone()),
            X::Def(n) => {
                if let Some(c) = self.consts.get(&**n) { return Ok(SV::I(int(*c))); }
                match self.defs.get(&**n) { Some(d) if d.params.is_empty() => { let b = d.body.clone().ok_or("spec: no body")?; self.eval(&b, &None) } _ => Ok(SV::S(Rc::new(SeqV::Part(n.clone(), vec![])))) }
            }
            X::Fun(b) => Ok(SV::S(Rc::new(SeqV::Clo((**b).clone(), env.clone(), RefCell::new(HashMap::new()))))),
            X::Let(v, b) => { let v = self.eval(v, env)?; self.eval(b, &push(env, v)) }
            X::If(c, a, b) => {
                let c = self.b(c, env)?;
                match tm().cval(c) {
                    Some(1) => self.eval(a, env),
                    Some(_) => self.eval(b, env),
                    None => {
                        let (x, y) = (self.eval(a, env)?, self.eval(b, env)?);
                        match (x, y) { (SV::I(x), SV::I(y)) => Ok(SV::I(tm().ite(c, x, y))), (SV::B(x), SV::B(y)) => Ok(SV::B(tm().ite(c, x, y))), _ => Err("spec: symbolic choice between sequences".into()) }
                    }
                }
            }
            X::Not(a) => { let a = self.b(a, env)?; Ok(SV::B(tm().not(a))) }
            X::Neg(a) => { let a = self.i(a, env)?; let z = int(0); Ok(SV::I(self.sub(z, a)?)) }
            X::Bin(o, a, b) => match o {
                '&' => { let a = self.b(a, env)?; if tm().cval(a) == Some(0) { return Ok(SV::B(a)); } let b = self.b(b, env)?; Ok(SV::B(tm().and(a, b))) }
                '|' => { let a = self.b(a, env)?; if tm().cval(a) == Some(1) { return Ok(SV::B(a)); } let b = self.b(b, env)?; Ok(SV::B(tm().or(a, b))) }
                _ => { let (a, b) = (self.i(a, env)?, self.i(b, env)?); self.arith(*o, a, b) }
            },
            X::App(f, args) => {
                if let X::Def(n) = &**f {
                    if &**n == "sumTo" || &**n == "anyTo" {
                        let k = self.conc(&args[0], env)?;
                        let fx = self.eval(&args[1], env)?;
                        let s = match &fx { SV::S(s) => s.clone(), _ => return Err("spec: sumTo".into()) };
                        if &**n == "sumTo" {
                            let mut acc = int(0);
                            for i in 0..k { let v = match self.at(&s, i)? { SV::I(t) => t, _ => return Err("spec: sumTo".into()) }; acc = self.add(acc, v)?; }
                            return Ok(SV::I(acc));
                        }
                        let mut acc = tm().cst(1, 0);
                        for i in 0..k { let v = match self.at(&s, i)? { SV::B(t) => t, SV::I(t) => { let o = int(1); tm().eq(t, o) } _ => return Err("spec: anyTo".into()) }; acc = tm().or(acc, v); }
                        return Ok(SV::B(acc));
                    }
                    let mut av = vec![];
                    for a in args { av.push(self.eval(a, env)?); }
                    return self.call(&n.clone(), av);
                }
                let fv = self.eval(f, env)?;
                let mut cur = fv;
                for a in args {
                    let s = match &cur { SV::S(s) => s.clone(), _ => return Err("spec: application of a number".into()) };
                    cur = self.apply(&s, a, env)?;
                }
                Ok(cur)
            }
        }
    }
    fn apply(&mut self, s: &Rc<SeqV>, a: &X, env: &Env) -> R<SV> {
        match &**s {
            SeqV::Part(n, pre) => { let mut v = pre.clone(); v.push(self.eval(a, env)?); self.call(&n.clone(), v) }
            SeqV::Clo(b, e, _) => {
                let v = self.eval(a, env)?;
                if let SV::I(t) = &v { if let Some(c) = tm().cval(*t) { return self.at(s, c as i64); } }
                let (b, e) = (b.clone(), e.clone());
                self.eval(&b, &push(&e, v))
            }
            _ => { let k = self.conc(a, env)?; self.at(s, k) }
        }
    }
    pub fn at(&mut self, s: &Rc<SeqV>, k: i64) -> R<SV> {
        match &**s {
            SeqV::Mat(v, nm) => { if k < 0 || k as usize >= v.len() { return Err(format!("spec: {}[{}] out of range {}", nm, k, v.len())); } Ok(SV::I(v[k as usize])) }
            SeqV::Ap { f, args, len, lo, hi, name } => { if k < 0 || k as usize >= *len { return Err(format!("spec: {}[{}] out of range {}", name, k, len)); } Ok(SV::I(mkapp(*f, *args, k as u32, *lo, *hi))) }
            SeqV::Clo(b, e, memo) => {
                if k < 0 { return Err("spec: negative index".into()); }
                if let Some(v) = memo.borrow().get(&k) { return Ok(v.clone()); }
                let v = self.eval(b, &push(e, SV::I(int(k))))?;
                memo.borrow_mut().insert(k, v.clone());
                Ok(v)
            }
            SeqV::Part(n, pre) => { let mut v = pre.clone(); v.push(SV::I(int(k))); self.call(&n.clone(), v) }
        }
    }
    pub fn call(&mut self, n: &Rc<str>, args: Vec<SV>) -> R<SV> {
        let d = self.defs.get(&**n).cloned().ok_or_else(|| format!("spec: {}", n))?;
        let np = d.params.len();
        if args.len() < np { return Ok(SV::S(Rc::new(SeqV::Part(n.clone(), args)))); }
        let env = Self::env(&args[..np]);
        let mut res = if d.opaque.is_some() && !self.unfold.contains(&**n) { self.opaque(&d, &args[..np], &env)? } else {
            match &d.body { Some(b) => self.eval(&b.clone(), &env)?, None => self.opaque(&d, &args[..np], &env)? }
        };
        for a in &args[np..] {
            let s = match &res { SV::S(s) => s.clone(), _ => return Err("spec: too many arguments".into()) };
            res = match (&*s, a) {
                (SeqV::Part(n, pre), a) => { let mut v = pre.clone(); v.push(a.clone()); self.call(&n.clone(), v)? }
                (_, SV::I(t)) => { let k = tm().cval(*t).ok_or("spec: symbolic index")?; self.at(&s, k as i64)? }
                _ => return Err("spec: application".into()),
            };
        }
        Ok(res)
    }
    fn opaque(&mut self, d: &Rc<Def>, args: &[SV], env: &Env) -> R<SV> {
        let o = d.opaque.clone().ok_or_else(|| format!("spec: builtin {} without annotation", d.name))?;
        let len = self.conc(&o.len, env)?;
        let (lo, hi) = (self.conc(&o.lo, env)?, self.conc(&o.hi, env)?);
        let mut al = vec![];
        let mut allc = true;
        let mut cv = vec![];
        for (k, a) in args.iter().enumerate() {
            match a {
                SV::I(t) => { al.push(Arg::Int(*t)); match tm().cval(*t) { Some(c) => cv.push(AVal::Int(c as i64)), None => allc = false } }
                SV::S(s) => {
                    let l = o.seqs.iter().find(|x| x.0 == k).ok_or_else(|| format!("spec: length of argument {} of {}", k, d.name))?.1.clone();
                    let l = self.conc(&l, env)?;
                    let mut v = vec![];
                    for i in 0..l { match self.at(s, i)? { SV::I(t) => v.push(t), _ => return Err("spec: element".into()) } }
                    if allc { let c: Vec<Option<u128>> = v.iter().map(|t| tm().cval(*t)).collect(); if c.iter().all(|x| x.is_some()) { cv.push(AVal::Seq(Rc::new(c.iter().map(|x| x.unwrap() as i64).collect()))); } else { allc = false; } }
                    al.push(Arg::Seq(tm().seq(v)));
                }
                SV::B(_) => return Err("spec: boolean argument".into()),
            }
        }
        if allc && !matches!(&*d.name, "aes256" | "sha3") {
            if let Some(r) = concrete(&d.name, &cv) { return Ok(if d.rtype.contains("Seq") { SV::S(Rc::new(SeqV::Mat(r.iter().map(|x| int(*x)).collect(), d.name.to_string()))) } else { SV::I(int(r[0])) }); }
        }
        if o.comm { // commutative in its two sequence arguments (lemma conv_comm)
            let ix: Vec<usize> = (0..al.len()).filter(|&i| matches!(al[i], Arg::Seq(_))).collect();
            if ix.len() == 2 { if let (Arg::Seq(a), Arg::Seq(b)) = (&al[ix[0]], &al[ix[1]]) { if a > b { al.swap(ix[0], ix[1]); } } }
        }
        let mut hi = hi;
        if &*d.name == "conv" && lo == 0 { // lemma conv_le: small factors give small products
            let mut b = len as i128;
            for a in &al { if let Arg::Seq(s) = a { let m = tm().seqs[*s as usize].iter().map(|t| if tm().srange(*t).0 < 0 { i64::MAX as i128 } else { tm().srange(*t).1 }).max().unwrap_or(0); b = b.saturating_mul(m); } }
            if b < hi as i128 { hi = b as i64; }
        }
        let f = tm().fid(&d.name);
        let args = tm().args(al);
        if d.rtype.contains("Seq") { Ok(SV::S(Rc::new(SeqV::Ap { f, args, len: len as usize, lo, hi, name: d.name.clone() }))) } else { Ok(SV::I(mkapp(f, args, 0, lo, hi))) }
    }
    pub fn i(&mut self, x: &X, env: &Env) -> R<T> { match self.eval(x, env)? { SV::I(t) => Ok(t), SV::B(_) => Err("spec: number expected, got proposition".into()), SV::S(_) => Err(format!("spec: number expected, got sequence in {:?}", x)) } }
    pub fn b(&mut self, x: &X, env: &Env) -> R<T> { match self.eval(x, env)? { SV::B(t) => Ok(t), _ => Err("spec: proposition expected".into()) } }
    pub fn conc(&mut self, x: &X, env: &Env) -> R<i64> { let t = self.i(x, env)?; tm().cval(t).map(|c| c as u64 as i64).ok_or_else(|| "spec: concrete number expected".into()) }
    fn rng(&self, t: T) -> (i128, i128) { tm().srange(t) }
    fn fits(r: (i128, i128)) -> R<()> { if r.0 < -(1i128 << 62) || r.1 > (1i128 << 62) { Err("spec: number out of 62-bit range".into()) } else { Ok(()) } }
    fn add(&mut self, a: T, b: T) -> R<T> { let (x, y) = (self.rng(a), self.rng(b)); Self::fits((x.0 + y.0, x.1 + y.1))?; Ok(tm().add(a, b)) }
    fn sub(&mut self, a: T, b: T) -> R<T> { let (x, y) = (self.rng(a), self.rng(b)); Self::fits((x.0 - y.1, x.1 - y.0))?; Ok(tm().sub(a, b)) }
    fn arith(&mut self, o: char, a: T, b: T) -> R<SV> {
        let m = tm();
        Ok(match o {
            '+' => SV::I(self.add(a, b)?),
            '-' => SV::I(self.sub(a, b)?),
            '*' => { let (x, y) = (self.rng(a), self.rng(b)); let c = [x.0 * y.0, x.0 * y.1, x.1 * y.0, x.1 * y.1]; Self::fits((*c.iter().min().unwrap(), *c.iter().max().unwrap()))?; SV::I(m.mul(a, b)) }
            '^' => { let (x, y) = (m.cval(a).ok_or("spec: ^")?, m.cval(b).ok_or("spec: ^")?); let v = (x as u64 as i64 as i128).checked_pow(y as u32).ok_or("spec: ^")?; Self::fits((v, v))?; SV::I(int(v as i64)) }
            '/' | '%' => {
                let y = m.cval(b).ok_or("spec: symbolic divisor")? as u64 as i64;
                if y <= 0 { return Err("spec: divisor must be positive".into()); }
                let r = self.rng(a);
                if let Some(c) = m.cval(a) { let c = c as u64 as i64; return Ok(SV::I(int(if o == '%' { c.rem_euclid(y) } else { c.div_euclid(y) }))); }
                if r.0 >= 0 { return Ok(SV::I(if o == '%' { m.urem(a, b) } else { m.udiv(a, b) })); }
                let k = (-r.0 + y as i128 - 1) / y as i128;
                Self::fits((0, r.1 + k * y as i128))?;
                if o == '%' && (y & (y - 1)) == 0 { let mk = int(y - 1); return Ok(SV::I(m.and(a, mk))); }
                let c = int((k * y as i128) as i64);
                let s = m.add(a, c);
                if o == '%' { SV::I(m.urem(s, b)) } else { let d = m.udiv(s, b); let kk = int(k as i64); SV::I(m.sub(d, kk)) }
            }
            '=' => SV::B(m.eq(a, b)),
            'n' => SV::B(m.ne(a, b)),
            '<' => SV::B(m.slt(a, b)),
            '>' => SV::B(m.slt(b, a)),
            'l' => { let t = m.slt(b, a); SV::B(m.not(t)) }
            'g' => { let t = m.slt(a, b); SV::B(m.not(t)) }
            _ => return Err("spec: operator".into()),
        })
    }
}

/// concrete values of the opaque functions
pub fn concrete(name: &str, a: &[AVal]) -> Option<Vec<i64>> {
    let seq = |i: usize| -> Option<&Vec<i64>> { match a.get(i)? { AVal::Seq(s) => Some(&**s), _ => None } };
    let num = |i: usize| -> Option<i64> { match a.get(i)? { AVal::Int(v) => Some(*v), _ => None } };
    match name {
        "conv" => Some(crate::concrete::conv(num(0)? as usize, seq(1)?, seq(2)?)),
        "r2inv" => Some(crate::concrete::r2inv(num(0)? as usize, seq(1)?)),
        "s3inv" => Some(crate::concrete::s3inv(num(0)? as usize, seq(1)?)),
        "sortAsc" => { let mut v = seq(1)?.clone(); v.sort(); Some(v) }
        "sha3" => { let s = a.iter().rev().find_map(|x| if let AVal::Seq(s) = x { Some(s.clone()) } else { None })?; Some(crate::concrete::sha3_256(&s.iter().map(|x| *x as u8).collect::<Vec<_>>()).iter().map(|x| *x as i64).collect()) }
        "aes256" => { let k: Vec<u8> = seq(0)?.iter().map(|x| *x as u8).collect(); let b: Vec<u8> = seq(1)?.iter().map(|x| *x as u8).collect(); Some(crate::concrete::aes256(&k, &b).iter().map(|x| *x as i64).collect()) }
        "addBE" => { let mut v: u128 = 0; for x in seq(0)? { v = (v << 8) | (*x as u8) as u128; } let v = v.wrapping_add(num(1)? as u128); Some(v.to_be_bytes().iter().map(|x| *x as i64).collect()) }
        _ => {
            // any other definition: evaluate its body on constants
            let d = sp().defs.get(name)?.clone();
            let args: Vec<SV> = a.iter().map(|x| match x { AVal::Int(v) => SV::I(int(*v)), AVal::Seq(s) => SV::S(Rc::new(SeqV::Mat(s.iter().map(|v| int(*v)).collect(), "arg".into()))) }).collect();
            let env = Spec::env(&args);
            let b = d.body.clone()?;
            let r = sp().eval(&b, &env).ok()?;
            match r {
                SV::I(t) => Some(vec![tm().cval(t)? as u64 as i64]),
                SV::S(s) => { let o = d.opaque.clone()?; let len = sp().conc(&o.len, &env).ok()?; let mut v = vec![]; for i in 0..len { match sp().at(&s, i).ok()? { SV::I(t) => v.push(tm().cval(t)? as u64 as i64), _ => return None } } Some(v) }
                _ => None,
            }
        }
    }
}
