//! Search for failing inputs of the public interface: the natively compiled code is run on random
//! and directed inputs and compared with the specification (or with itself).  Only used to find
//! and replay counterexamples; it never discharges an obligation.
use crate::contracts::*;
use crate::smt::{AVal, Rng};
use crate::spec::*;
use crate::term::*;
use std::collections::{BTreeMap, HashMap};
use std::io::{BufRead, BufReader, Write};
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};
use std::rc::Rc;

type Vals = BTreeMap<String, Vec<u8>>;

pub struct Native { _c: Child, i: ChildStdin, o: BufReader<ChildStdout> }
pub struct Answer { pub status: String, pub f: HashMap<String, String>, pub line: String }
impl Native {
    pub fn start(p: &str) -> Result<Native, String> {
        let mut c = Command::new(p).stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::null()).spawn().map_err(|e| format!("{}: {}", p, e))?;
        let i = c.stdin.take().unwrap();
        let o = BufReader::new(c.stdout.take().unwrap());
        Ok(Native { _c: c, i, o })
    }
    pub fn call(&mut self, cmd: &str) -> Result<Answer, String> {
        writeln!(self.i, "{}", cmd).map_err(|e| format!("native: {}", e))?;
        self.i.flush().map_err(|e| format!("native: {}", e))?;
        let mut l = String::new();
        if self.o.read_line(&mut l).map_err(|e| format!("native: {}", e))? == 0 { return Ok(Answer { status: "abort".into(), f: HashMap::new(), line: "process ended".into() }); }
        let l = l.trim().to_string();
        let mut it = l.split(' ');
        let status = it.next().unwrap_or("").to_string();
        let f = it.filter_map(|x| x.split_once('=').map(|(a, b)| (a.to_string(), b.to_string()))).collect();
        Ok(Answer { status, f, line: l })
    }
}
fn hex(b: &[u8]) -> String { b.iter().map(|x| format!("{:02x}", x)).collect() }
fn unhex(s: &str) -> Vec<u8> { (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap_or(0)).collect() }
fn cmdline(name: &str, v: &Vals) -> String { let mut s = name.to_string(); for (k, b) in v { s.push(' '); s.push_str(k); s.push('='); s.push_str(&hex(b)); } s }

/// terms in evaluation order, applications after their arguments
struct CN { n: Node, t: T, wa: u16, wb: u16, ch: [u32; 3] }
enum CArg { Int(u32), Seq(Vec<u32>) }
struct Compiled { nodes: Vec<CN>, apps: HashMap<(u32, u32), (usize, String, Vec<CArg>)>, roots: Vec<u32> }
fn compile(roots: &[T]) -> Compiled {
    let mut pos: FMap<T, u32> = Default::default();
    let mut c = Compiled { nodes: vec![], apps: HashMap::new(), roots: vec![] };
    let mut st: Vec<(T, bool)> = roots.iter().map(|t| (*t, false)).collect();
    while let Some((t, done)) = st.pop() {
        if pos.contains_key(&t) { continue; }
        let n = tm().n(t);
        let (ch, k) = if n.op == Op::App { ([0; 3], 0) } else { tm().children(t) };
        if done {
            let mut cn = CN { n, t, wa: if k > 0 { tm().w(ch[0]) } else { 0 }, wb: if k > 1 { tm().w(ch[1]) } else { 0 }, ch: [0; 3] };
            for i in 0..k { cn.ch[i] = pos[&ch[i]]; }
            if n.op == Op::App && !c.apps.contains_key(&(n.a, n.b)) {
                let args = tm().argl[n.b as usize].iter().map(|a| match a { Arg::Int(x) => CArg::Int(pos[x]), Arg::Seq(s) => CArg::Seq(tm().seqs[*s as usize].iter().map(|x| pos[x]).collect()) }).collect();
                let id = c.apps.len();
                c.apps.insert((n.a, n.b), (id, tm().fnames[n.a as usize].clone(), args));
            }
            if n.op == Op::App { cn.ch[0] = c.apps[&(n.a, n.b)].0 as u32; }
            pos.insert(t, c.nodes.len() as u32);
            c.nodes.push(cn);
            continue;
        }
        st.push((t, true));
        if n.op == Op::App {
            for a in tm().argl[n.b as usize].iter() { match a { Arg::Int(x) => st.push((*x, false)), Arg::Seq(s) => for x in tm().seqs[*s as usize].iter() { if !pos.contains_key(x) { st.push((*x, false)); } } } }
        } else { for x in &ch[..k] { if !pos.contains_key(x) { st.push((*x, false)); } } }
    }
    c.roots = roots.iter().map(|r| pos[r]).collect();
    c
}
impl Compiled {
    fn eval(&self, leaf: &dyn Fn(T) -> u128) -> Option<Vec<u128>> {
        let mut val: Vec<u128> = vec![0; self.nodes.len()];
        let mut apps: Vec<Option<Vec<i64>>> = vec![None; self.apps.len()];
        for (i, c) in self.nodes.iter().enumerate() {
            let n = &c.n;
            let (x, y, z) = (val[c.ch[0] as usize], val[c.ch[1] as usize], val[c.ch[2] as usize]);
            val[i] = match n.op {
                Op::Const => tm().consts[n.a as usize],
                Op::Var => leaf(c.t),
                Op::App => {
                    let id = c.ch[0] as usize;
                    if apps[id].is_none() {
                        let (_, name, args) = &self.apps[&(n.a, n.b)];
                        let av: Vec<AVal> = args.iter().map(|a| match a { CArg::Int(x) => AVal::Int(val[*x as usize] as i64), CArg::Seq(s) => AVal::Seq(Rc::new(s.iter().map(|x| val[*x as usize] as i64).collect())) }).collect();
                        apps[id] = Some(concrete(name, &av)?);
                    }
                    mask(n.w, apps[id].as_ref()?.get(n.c as usize).copied()? as i128 as u128)
                }
                Op::Concat => (x << c.wb) | y,
                Op::ZExt | Op::SExt | Op::Extract => Terms::eval1(n, c.wa, x, 0, 0),
                Op::Ite => Terms::eval1(n, 1, x, y, z),
                _ => Terms::eval1(n, c.wa, x, y, 0),
            };
        }
        Some(self.roots.iter().map(|r| val[*r as usize]).collect())
    }
}

/// a contract of the public interface as a function from input bytes to expected output bytes
pub struct Oracle { c: Contract, comp: Compiled, vars: HashMap<T, (String, usize, u16)>, outs: Vec<(String, usize, usize, u16)>, out_len: HashMap<String, usize>, guard: bool }
impl Oracle {
    pub fn new(c: &Contract, xlen: i64) -> Result<Oracle, String> {
        let keep = ["conv", "r2inv", "s3inv", "sortAsc", "sha3", "aes256"];
        sp().unfold = sp().defs.iter().filter(|(n, d)| d.opaque.is_some() && !keep.contains(&n.as_str())).map(|x| x.0.clone()).collect();
        let mut vars = HashMap::new();
        let mut vals = vec![];
        let mut lens = HashMap::new();
        let mut arr = |name: &str, n: i64, w: u16, signed: bool| -> SV {
            let mut v = vec![];
            for i in 0..n { let t = tm().var(&format!("{}[{}]", name, i), w, 0, ones(w), false, 3); vars.insert(t, (name.to_string(), i as usize, w)); v.push(if signed { tm().sext_t(t, 64) } else { tm().zext(t, 64) }); }
            SV::S(Rc::new(SeqV::Mat(v, name.to_string())))
        };
        for p in &c.params {
            match &p.kind {
                PK::Arr(l) => { let n = sp().conc(l, &None)?; lens.insert(p.name.clone(), n as usize); vals.push(arr(&p.name, n, p.w, p.signed)); }
                PK::Slice(_) => { lens.insert(p.name.clone(), xlen as usize); vals.push(arr(&p.name, xlen, p.w, p.signed)); vals.push(SV::I(int(xlen))); }
                PK::Rng(ls) => for (k, l) in ls.iter().enumerate() { let n = sp().conc(l, &None)?; vals.push(arr(&format!("{}{}", p.name, k), n, 8, false)); },
                PK::Scal => return Err("search: scalar parameter".into()),
            }
        }
        let env = Spec::env(&vals);
        let mut roots = vec![];
        let mut outs = vec![];
        let mut guard = false;
        for e in &c.ensures {
            let p = c.params.iter().find(|p| p.name == e.target).ok_or("search: target")?;
            let (lo, hi) = match &e.range { Some((a, b)) => (sp().conc(a, &None)?, sp().conc(b, &None)?), None => (0, lens[&e.target] as i64) };
            let v = sp().eval(&e.expr, &env)?;
            let s = match v { SV::S(s) => s, _ => return Err("search: sequence expected".into()) };
            if let Some(w) = &e.when { let t = sp().b(w, &env)?; roots.push(t); guard = true; }
            outs.push((e.target.clone(), lo as usize, hi as usize, p.w));
            for i in lo..hi { match sp().at(&s, i - lo)? { SV::I(t) => roots.push(t), _ => return Err("search: element".into()) } }
        }
        Ok(Oracle { c: c.clone(), comp: compile(&roots), vars, outs, out_len: lens, guard })
    }
    pub fn expected(&self, inp: &Vals) -> Option<Vec<(String, usize, Vec<u8>)>> {
        let zero = vec![];
        let r = self.comp.eval(&|t| { let (n, i, w) = &self.vars[&t]; let b = inp.get(n).unwrap_or(&zero); let k = *w as usize / 8; let mut v = 0u128; for j in 0..k { v |= (b.get(i * k + j).copied().unwrap_or(0) as u128) << (8 * j); } v })?;
        let mut at = 0;
        if self.guard { if r[0] == 0 { return Some(vec![]); } at = 1; }
        let mut out = vec![];
        for (n, lo, hi, w) in &self.outs {
            let k = *w as usize / 8;
            let mut b = vec![];
            for _ in *lo..*hi { for j in 0..k { b.push((r[at] >> (8 * j)) as u8); } at += 1; }
            out.push((n.clone(), lo * k, b));
        }
        Some(out)
    }
}

struct P { n: usize, q: i64, logq: usize, w: usize, pt: usize, ob: usize, iid: usize, rm: usize, osk: usize, sk: usize, hps: bool }

fn put_bits(b: &mut [u8], at: usize, k: usize, v: u64) { for i in 0..k { let t = at + i; if t / 8 < b.len() && (v >> i) & 1 == 1 { b[t / 8] |= 1 << (t % 8); } } }
fn pack_q(p: &P, a: &[i64]) -> Vec<u8> { let mut b = vec![0; p.ob]; for i in 0..p.n - 1 { put_bits(&mut b, i * p.logq, p.logq, a[i].rem_euclid(p.q) as u64); } b }
fn pack_3(p: &P, a: &[i64]) -> Vec<u8> { (0..p.pt).map(|k| { let mut v = 0; for j in (0..5).rev() { v = 3 * v + if 5 * k + j < p.n - 1 { a[5 * k + j] } else { 0 }; } v as u8 }).collect() }

/// coefficients (0, 1, -1) that the fixed-weight sampler makes of sort keys
fn fixed_of(p: &P, u: &[u8]) -> Vec<i64> {
    let mut k: Vec<i32> = (0..p.n - 1).map(|i| { let mut v = 0u32; for b in 0..30 { let t = 30 * i + b; v |= ((u[t / 8] >> (t % 8) & 1) as u32) << (b + 2); } (v | if i < p.w / 2 { 1 } else if i < p.w { 2 } else { 0 }) as i32 }).collect();
    k.sort();
    let mut r: Vec<i64> = k.iter().map(|x| match x & 3 { 2 => -1, d => d as i64 }).collect();
    r.push(0);
    r
}

struct Gen { p: P, r: Rng, pool: Vec<(Vec<u8>, Vec<u8>)>, k: u64 }
impl Gen {
    fn b(&mut self, n: u64) -> u64 { self.r.next() % n }
    fn bytes(&mut self, n: usize) -> Vec<u8> { (0..n).map(|_| self.r.next() as u8).collect() }
    fn ramp(&mut self) -> Vec<i64> { let (a, b) = (self.b(self.p.q as u64) as i64, self.b(self.p.q as u64) as i64); (0..self.p.n as i64).map(|i| (a * i + b).rem_euclid(self.p.q)).collect() }
    fn coeffs(&mut self) -> Vec<i64> {
        let q = self.p.q as u64;
        match self.b(5) {
            0 | 1 => self.ramp(),
            2 => (0..self.p.n).map(|_| (self.r.next() % q) as i64).collect(),
            3 => { let c = [0, 1, 2, q / 2 - 1, q / 2, q / 2 + 1, q - 2, q - 1]; (0..self.p.n).map(|_| c[(self.r.next() % 8) as usize] as i64).collect() }
            _ => { let v = self.b(q) as i64; let mut a = vec![0; self.p.n]; for _ in 0..1 + self.b(4) { let i = self.b(self.p.n as u64) as usize; a[i] = v; } a }
        }
    }
    /// bytes of the ternary sampler; digit patterns with random byte values
    /// an index, often one of the first or last
    fn edge(&mut self, n: usize) -> usize { match self.b(4) { 0 => self.b(n as u64) as usize, 1 => n - 1 - self.b(4) as usize, _ => self.b(5) as usize } }
    fn iid_bytes(&mut self) -> Vec<u8> {
        let n = self.p.iid;
        match self.b(6) {
            0..=2 => self.bytes(n),
            3 => {
                // all trits alike but a few
                let t = match self.b(4) { 0 => 1, 1 => 2, _ => 0 };
                let mut v = vec![0u8; n];
                for x in v.iter_mut() { *x = 3 * (self.r.next() % 84) as u8 + t; }
                for _ in 0..1 + self.b(3) { let i = self.edge(n); v[i] = 3 * self.b(84) as u8 + self.b(3) as u8; }
                v
            }
            4 => { let c = [0u8, 1, 2, 85, 127, 128, 170, 253, 254, 255]; (0..n).map(|_| c[(self.r.next() % 10) as usize]).collect() }
            _ => { let s = self.r.next() as u8; (0..n).map(|i| s.wrapping_add(i as u8)).collect() }
        }
    }
    /// 30-bit sort keys
    fn key_bytes(&mut self) -> Vec<u8> {
        let n = self.p.n - 1;
        let len = self.p.rm - self.p.iid;
        let mode = self.b(8);
        if mode < 3 { return self.bytes(len); }
        let c: Vec<u64> = (0..4).map(|_| self.r.next() & 0x3fff_ffff).collect();
        let mut b = vec![0; len];
        for i in 0..n {
            let v = match mode {
                3 => c[0],
                4 => c[(self.r.next() % 4) as usize],
                5 => [0, 0x3fff_ffff, 0x1fff_ffff, 0x2000_0000, 1, 0x2000_0001][(self.r.next() % 6) as usize],
                6 => (i as u64 * 0x1fff_f) & 0x3fff_ffff,
                _ => 0x3fff_ffff - (i as u64 * 0x1f_ffff) % 0x3fff_ffff,
            };
            put_bits(&mut b, 30 * i, 30, v);
        }
        b
    }
    fn rm_bytes(&mut self) -> Vec<u8> { let mut v = self.iid_bytes(); if self.p.hps { v.extend(self.key_bytes()); } else { v.extend(self.iid_bytes()); } v }
    fn tern(&mut self) -> Vec<i64> {
        let mut v: Vec<i64> = match self.b(3) { 0 => (0..self.p.n).map(|_| (self.r.next() % 3) as i64).collect(), 1 => { let mut a = vec![0; self.p.n]; let i = self.b(self.p.n as u64 - 1) as usize; a[i] = 1 + self.b(2) as i64; a } _ => { let k = 2 + self.b(40); (0..self.p.n).map(|_| if self.r.next() % k == 0 { 1 + (self.r.next() % 2) as i64 } else { 0 }).collect() } };
        v[self.p.n - 1] = 0;
        v
    }
    fn key(&mut self, nat: &mut Native) -> Result<(Vec<u8>, Vec<u8>), String> {
        if self.pool.len() < 6 || self.b(40) == 0 {
            let mut v = Vals::new();
            v.insert("rng0".into(), if self.b(4) == 0 { self.rm_bytes() } else { self.bytes(self.p.rm) });
            v.insert("rng1".into(), self.bytes(32));
            let a = nat.call(&cmdline("kem_keypair", &v))?;
            if a.status == "ok" { self.pool.push((unhex(&a.f["pk"]), unhex(&a.f["sk"]))); }
            if self.pool.is_empty() { return Ok((self.bytes(self.p.ob), self.bytes(self.p.sk))); }
        }
        let i = self.b(self.pool.len() as u64) as usize;
        Ok(self.pool[i].clone())
    }
    /// secret key with f = +-x^i and the matching inverses, and 1/h = 1/u: decrypts u r + Lift(m) to (r, m)
    fn easy_sk(&mut self, u: i64) -> Vec<u8> {
        let n = self.p.n;
        let i = self.b(n as u64 - 1) as usize;
        let s = 1 + self.b(2) as i64;
        let mono = |e: usize| -> Vec<i64> { let mut a = vec![0; n]; if e == n - 1 { for x in a.iter_mut().take(n - 1) { *x = 3 - s; } } else { a[e] = s; } a };
        let mut sk = pack_3(&self.p, &mono(i));
        sk.extend(pack_3(&self.p, &mono((n - i) % n)));
        // bytes above 242 decode like small ones
        let alias = self.b(3);
        for x in sk.iter_mut() { if *x < 9 && alias > 0 && (alias == 1 || self.r.next() % 4 == 0) { *x += 243; } }
        let mut inv3 = 1i64;
        while (inv3 * u).rem_euclid(self.p.q) != 1 { inv3 += 2; }
        let mut h = vec![0; n];
        h[0] = inv3;
        sk.extend(pack_q(&self.p, &h));
        sk.extend(self.bytes(32));
        sk
    }
    /// r (ternary, sum zero) and Lift(m); `off` breaks the shape slightly; last value is added to every coefficient
    fn rm_shape(&mut self, off: u64) -> (Vec<i64>, Vec<i64>, i64) {
        let n = self.p.n;
        let mut r = vec![0i64; n];
        let pairs = self.b(n as u64 / 2);
        let mut idx: Vec<usize> = (0..n - 1).collect();
        for i in (1..idx.len()).rev() { let j = self.b(i as u64 + 1) as usize; idx.swap(i, j); }
        for k in 0..pairs as usize { if 2 * k + 1 < idx.len() { r[idx[2 * k]] = 1; r[idx[2 * k + 1]] = -1; } }
        let mut m = vec![0i64; n];
        for i in (1..idx.len()).rev() { let j = self.b(i as u64 + 1) as usize; idx.swap(i, j); }
        let mut t = 0;
        if self.p.hps {
            let (mut ones, mut twos) = (self.p.w / 2, self.p.w / 2);
            if off >= 4 {
                // c = r h + m + t Phi with sum zero needs n t + m(1) = 0 modulo q
                let q = self.p.q;
                let mut cand = vec![];
                for s in -12i64..=12 { let d = (-(n as i64) * s).rem_euclid(q); let d = if d >= q / 2 { d - q } else { d }; if d != 0 && d.abs() < 60 { cand.push((s, d)); } }
                if !cand.is_empty() {
                    let (s, d) = cand[self.b(cand.len() as u64) as usize];
                    t = s;
                    let (o, w) = (ones as i64, twos as i64);
                    let (o, w) = match off { 4 => (o + d, w), 5 => (o, w - d), _ => (o + d / 2, w - (d - d / 2)) };
                    ones = o as usize;
                    twos = w as usize;
                }
            }
            for k in 0..ones + twos { m[idx[k % (n - 1)]] = if k < ones { 1 } else { -1 }; }
        }
        else { let mut b = vec![0i64; n]; if self.b(3) == 0 { for _ in 0..1 + self.b(3) { let i = self.edge(n - 1); b[i] = self.b(3) as i64 - 1; } } else { for x in b.iter_mut().take(n - 1) { *x = (self.r.next() % 3) as i64 - 1; } } for i in 0..n { m[i] = if i == 0 { -b[0] } else { b[i - 1] - b[i] }; } }
        match off {
            1 => {
                // one coefficient outside {-1,0,1}, the others make the sum zero
                let i = match self.b(8) { 0 | 1 => n - 2, 2 => 0, 3 => n - 3, 4 => 1, _ => self.b(n as u64 - 1) as usize };
                let d = match self.b(4) { 0 | 1 => 2, 2 => 2 + self.b(60) as i64, _ => 1 << (1 + self.b(7)) };
                r[i] = if self.b(2) == 0 { d } else { -d };
                let mut s: i64 = r.iter().sum();
                for &j in &idx { if j != i && s != 0 && (r[j] - s.signum()).abs() <= 1 { r[j] -= s.signum(); s -= s.signum(); } }
            }
            2 => { let i = idx[self.b(n as u64 - 1) as usize]; m[i] += 1; let j = idx[self.b(n as u64 - 1) as usize]; m[j] -= 1; }
            3 => { let i = idx[self.b(n as u64 - 1) as usize]; m[i] = 0; }
            _ => {}
        }
        (r, m, t)
    }
    /// u r + Lift(m), sum zero, for a secret key with 1/h = 1/u
    fn easy_ct(&mut self, off: u64, u: i64) -> Vec<u8> {
        let (r, m, t) = self.rm_shape(off);
        let c: Vec<i64> = (0..self.p.n).map(|i| u * r[i] + m[i] + t).collect();
        pack_q(&self.p, &c)
    }
    /// r h + Lift(m) for a public key
    fn shaped_ct(&mut self, pk: &[u8], off: u64) -> Vec<u8> {
        let n = self.p.n;
        let (r, m, t) = self.rm_shape(off);
        let mut h: Vec<i64> = (0..n - 1).map(|i| { let mut v = 0i64; for b in 0..self.p.logq { let k = i * self.p.logq + b; v |= ((pk[k / 8] >> (k % 8) & 1) as i64) << b; } v }).collect();
        h.push(-h.iter().sum::<i64>());
        let mut c: Vec<i64> = (0..n).map(|i| m[i] + t).collect();
        for i in 0..n { if r[i] != 0 { for j in 0..n { c[(i + j) % n] += r[i] * h[j]; } } }
        pack_q(&self.p, &c)
    }
    fn digit(&mut self, d: i64) -> u8 { (3 * self.b(85) as i64 + d.rem_euclid(3)) as u8 }
    /// seeds of key generation and encapsulation that make one coefficient of the decryption noise extreme
    fn aligned(&mut self) -> (Vec<u8>, Vec<u8>) {
        let n = self.p.n;
        let k = self.b(n as u64) as usize;
        let sg = |v: i64| v.signum();
        if self.p.hps {
            let gk = self.key_bytes();
            let mk = self.key_bytes();
            let (g, m) = (fixed_of(&self.p, &gk), fixed_of(&self.p, &mk));
            let s = if self.b(2) == 0 { 1 } else { -1 };
            let at = |a: &[i64], i: usize| a[(k + n - i) % n];
            let mut kseed: Vec<u8> = vec![];
            let mut eseed: Vec<u8> = vec![];
            for i in 0..n - 1 { let z = if self.b(3) == 0 { self.b(3) as i64 } else { 0 }; let d = at(&m, i); kseed.push(self.digit(if d == 0 { z } else { s * d })); let d = at(&g, i); let z = self.b(3) as i64; eseed.push(self.digit(if d == 0 { z } else { s * d })); }
            kseed.extend(gk);
            eseed.extend(mk);
            (kseed, eseed)
        } else {
            // f, g in T+; r along g (x-1), b with Lift(m) = (x-1) b along f
            let pat = self.b(3);
            let mk = |me: &mut Gen| -> (Vec<i64>, Vec<u8>) {
                loop {
                    let v: Vec<i64> = (0..n).map(|i| if i == n - 1 { 0 } else { match pat { 0 => me.b(3) as i64 - 1, 1 => if i / 2 % 2 == 0 { 1 } else { -1 }, _ => if me.b(20) == 0 { 1 } else { if i / 2 % 2 == 0 { 1 } else { -1 } } } }).collect();
                    let c: i64 = (0..n - 1).map(|i| v[i] * v[i + 1]).sum();
                    if c >= 0 { let b = (0..n - 1).map(|i| me.digit(v[i])).collect(); return (v, b); }
                }
            };
            let (f, fb) = mk(self);
            let (g, gb) = mk(self);
            let gx: Vec<i64> = (0..n).map(|i| g[(i + n - 1) % n] - g[i]).collect();
            let mut eseed: Vec<u8> = (0..n - 1).map(|i| { let d = sg(gx[(k + n - i) % n]); self.digit(d) }).collect();
            // coefficient k of (x-1) b f: sum b_i (f_{k-1-i} - f_{k-i})
            let b: Vec<i64> = (0..n).map(|i| if i == n - 1 { 0 } else { sg(f[(k + 2 * n - 1 - i) % n] - f[(k + n - i) % n]) }).collect();
            let m: Vec<i64> = (0..n).map(|i| b[(i + n - 1) % n] - b[i]).collect();
            for i in 0..n - 1 { let d = self.digit(m[i] - m[n - 1]); eseed.push(d); }
            let mut kseed = fb;
            kseed.extend(gb);
            (kseed, eseed)
        }
    }
    fn inputs(&mut self, name: &str, nat: &mut Native) -> Result<Vals, String> {
        self.k += 1;
        let mut v = Vals::new();
        match name {
            "kem_keypair" => { v.insert("rng0".into(), self.rm_bytes()); v.insert("rng1".into(), self.bytes(32)); }
            "kem_enc" => {
                v.insert("rng0".into(), self.rm_bytes());
                let pk = match self.b(5) { 0 => self.key(nat)?.0, 1 => self.bytes(self.p.ob), 2 => vec![0xff; self.p.ob], _ => { let c = self.coeffs(); pack_q(&self.p, &c) } };
                v.insert("pk".into(), pk);
            }
            "kem_dec" => {
                let mode = self.b(10);
                // multiples of three up to q/2 - 1
                let u = match self.b(4) { 0 => { let mut u = self.p.q / 2 - 1; while u % 3 != 0 { u -= 2; } u } 1 => { 3 * (1 + 2 * self.b(self.p.q as u64 / 12) as i64) } _ => 3 };
                let sk = match mode {
                    0..=3 => self.key(nat)?.1,
                    4 => { let (a, b) = (self.tern(), self.tern()); let h = self.coeffs(); let mut s = pack_3(&self.p, &a); s.extend(pack_3(&self.p, &b)); s.extend(pack_q(&self.p, &h)); s.extend(self.bytes(32)); s }
                    5 => self.bytes(self.p.sk),
                    _ => self.easy_sk(u),
                };
                let mut c = match mode {
                    0 | 1 => { let (pk, sk2) = self.key(nat)?; let mut e = Vals::new(); e.insert("pk".into(), pk); e.insert("rng0".into(), self.rm_bytes()); let a = nat.call(&cmdline("kem_enc", &e))?; v.insert("sk".into(), sk2); a.f.get("c").map(|s| unhex(s)).unwrap_or_default() }
                    2 | 4 | 6 => { let c = self.coeffs(); pack_q(&self.p, &c) }
                    3 | 5 => self.bytes(self.p.ob),
                    7 | 8 => self.easy_ct(0, u),
                    _ => { let o = 1 + self.b(6); self.easy_ct(o, u) }
                };
                if c.len() != self.p.ob { c = self.bytes(self.p.ob); }
                match self.b(8) {
                    0 => { let l = c.len() - 1; c[l] ^= 0x80 >> self.b(4); }
                    1 => { let i = self.b(c.len() as u64) as usize; c[i] ^= 1 << self.b(8); }
                    2 => { let i = self.b(c.len() as u64) as usize; c[i] = self.r.next() as u8; }
                    _ => {}
                }
                v.insert("c".into(), c);
                v.entry("sk".into()).or_insert(sk);
            }
            "rng_new" | "rng_default" | "rng_init" | "rng_bytes" => {
                v.insert("key".into(), self.bytes(32));
                let mut c = self.bytes(16);
                match self.b(3) { 0 => { let k = self.b(17) as usize; for x in c.iter_mut().rev().take(k) { *x = 0xff; } } 1 => { let k = self.b(16) as usize; for x in c.iter_mut().rev().take(k) { *x = 0xff; } let d = self.b(70) as u8; c[15] = 0xff - d; } _ => {} }
                v.insert("v".into(), c);
                let rc: i32 = [0, 1, i32::MAX, -1, i32::MIN, self.r.next() as i32][self.b(6) as usize];
                v.insert("rc".into(), rc.to_le_bytes().to_vec());
                if name == "rng_init" { v.insert("e".into(), self.bytes(48)); }
            }
            _ => return Err(format!("search: no generator for {}", name)),
        }
        Ok(v)
    }
}

fn found(kind: &str, trials: u64, cmds: &[String], why: &str, expected: &str, got: &str) -> Result<i32, String> {
    let js = |s: &str| format!("\"{}\"", s.replace('\\', "\\\\").replace('"', "\\\""));
    println!("{{\"found\":true,\"kind\":{},\"trials\":{},\"why\":{},\"commands\":[{}],\"expected\":{},\"got\":{}}}", js(kind), trials, js(why), cmds.iter().map(|s| js(s)).collect::<Vec<_>>().join(","), js(expected), js(got));
    Ok(1)
}

/// one ciphertext with the secret key it was made for and with other keys
pub fn dec_hints(native: &str, rm: usize, seed: u64) -> Result<Vec<HashMap<String, u128>>, String> {
    let mut nat = Native::start(native)?;
    let mut r = Rng(seed ^ 0x5eed);
    let mut bytes = |n: usize| -> Vec<u8> { (0..n).map(|_| r.next() as u8).collect() };
    let mut sks = vec![];
    let mut pk = vec![];
    for _ in 0..3 {
        let mut v = Vals::new();
        v.insert("rng0".into(), bytes(rm));
        v.insert("rng1".into(), bytes(32));
        let a = nat.call(&cmdline("kem_keypair", &v))?;
        if a.status != "ok" { return Err("no key pair".into()); }
        if pk.is_empty() { pk = unhex(&a.f["pk"]); }
        sks.push(unhex(&a.f["sk"]));
    }
    let mut v = Vals::new();
    v.insert("pk".into(), pk);
    v.insert("rng0".into(), bytes(rm));
    let a = nat.call(&cmdline("kem_enc", &v))?;
    if a.status != "ok" { return Err("no ciphertext".into()); }
    let c = unhex(&a.f["c"]);
    Ok(sks.iter().map(|sk| {
        let mut h = HashMap::new();
        for (n, b) in [("sk", sk), ("c", &c)] { for (i, x) in b.iter().enumerate() { h.insert(format!("{}[{}]", n, i), *x as u128); } }
        h
    }).collect())
}

pub fn run(o: &crate::Opt) -> Result<i32, String> {
    let f = crate::load(o)?;
    let g = |k: &str| -> Result<usize, String> { f.consts.get(k).map(|v| *v as usize).ok_or_else(|| format!("constant {}", k)) };
    let p = P { n: g("N")?, q: g("Q")? as i64, logq: g("LOGQ")?, w: g("W")?, pt: g("PT")?, ob: g("OB")?, iid: g("IID")?, rm: g("RM")?, osk: g("OSK")?, sk: g("SK")?, hps: f.tags.iter().any(|t| t == "hps") };
    let mut gen = Gen { p, r: Rng(o.seed.wrapping_mul(0x9E37_79B9).wrapping_add(12345)), pool: vec![], k: 0 };
    let mut nat = Native::start(&o.native)?;
    let t0 = std::time::Instant::now();
    let (kind, name) = o.what.split_once(':').unwrap_or((&o.what, ""));
    // inputs to try first, one command per line on standard input
    let mut first: Vec<(String, Vals)> = vec![];
    for l in std::io::stdin().lock().lines().map_while(|l| l.ok()) {
        let mut it = l.split_whitespace();
        if let Some(c) = it.next() { first.push((c.to_string(), it.filter_map(|x| x.split_once('=').map(|(a, b)| (a.to_string(), unhex(b)))).collect())); }
    }
    let mut trials = 0u64;
    let ctr = f.contracts.iter().find(|c| c.name == name);
    let base = match name { "kem_keypair_core" => "kem_keypair", "kem_dec_accept" => "kem_dec", n => n };
    let mut oracles: HashMap<i64, Oracle> = HashMap::new();
    let mut mine: Vec<Vals> = first.iter().filter(|x| x.0 == base).map(|x| x.1.clone()).collect();
    mine.reverse();
    // calls with the same public inputs: (public, command, trace)
    let mut seen: Vec<(Vec<u8>, String, String)> = vec![];
    let mut keys: Vec<(Vec<u8>, Vec<u8>)> = vec![];
    while (t0.elapsed().as_millis() as u64) < o.ms && trials < o.n {
        match kind {
            "trace" => {
                trials += 1;
                if base != "kem_keypair" && keys.len() < 3 {
                    let mut v = Vals::new();
                    v.insert("rng0".into(), gen.bytes(gen.p.rm));
                    v.insert("rng1".into(), gen.bytes(32));
                    let a = nat.call(&cmdline("kem_keypair", &v))?;
                    if a.status != "ok" { return Err("no key pair".into()); }
                    keys.push((unhex(&a.f["pk"]), unhex(&a.f["sk"])));
                    continue;
                }
                let mut v = Vals::new();
                let rnd = |gen: &mut Gen| if gen.b(2) == 0 { let n = gen.p.rm; gen.bytes(n) } else { gen.rm_bytes() };
                let public = match base {
                    "kem_keypair" => { v.insert("rng0".into(), rnd(&mut gen)); v.insert("rng1".into(), gen.bytes(32)); vec![] }
                    "kem_enc" => { let k = gen.b(2) as usize; v.insert("pk".into(), keys[k].0.clone()); v.insert("rng0".into(), rnd(&mut gen)); keys[k].0.clone() }
                    _ => {
                        let c = match seen.get(3 * (seen.len() / 3)) {
                            Some(x) => x.0.clone(),
                            None => {
                                let mut e = Vals::new();
                                e.insert("pk".into(), keys[0].0.clone());
                                e.insert("rng0".into(), rnd(&mut gen));
                                let a = nat.call(&cmdline("kem_enc", &e))?;
                                if a.status != "ok" { return Err("no ciphertext".into()); }
                                unhex(&a.f["c"])
                            }
                        };
                        let k = seen.len() % 3;
                        let mut sk = keys[k.min(1)].1.clone();
                        if k == 2 { let i = gen.b(sk.len() as u64 - 33) as usize; sk[i] ^= 1; }
                        v.insert("sk".into(), sk);
                        v.insert("c".into(), c.clone());
                        c
                    }
                };
                let cmd = cmdline(base, &v);
                let a = nat.call(&cmd)?;
                if a.status != "ok" { continue; }
                let t = a.f.get("trace").cloned().ok_or("no trace")?;
                if let Some(x) = seen.iter().find(|x| x.0 == public && x.2 != t) {
                    return found("ct", trials, &[x.1.clone(), cmd], &format!("the sequence of branches in {} depends on secrets", base), &format!("trace={}", x.2), &format!("trace={}", t));
                }
                if base == "kem_dec" || !seen.iter().any(|x| x.0 == public) { seen.push((public, cmd, t)); }
            }
            "spec" | "panic" | "dirty" => {
                let mut v = match mine.pop() { Some(v) => v, None => gen.inputs(base, &mut nat)? };
                if base == "rng_bytes" && !v.contains_key("x") {
                    let n = match gen.b(12) { _ if trials == 25 => 70003, _ if trials >= 30 && trials < 72 => (1u64 << (6 + (trials - 30) / 3)) + (trials - 30) % 3 - 1, _ if trials == 80 => (1 << 20) + 17, 0..=5 => gen.b(66), 6..=9 => 16 * gen.b(20) + gen.b(3), _ => gen.b(3000) } as usize;
                    v.insert("x".into(), gen.bytes(n));
                }
                if kind == "dirty" || (kind == "spec" && base.starts_with("kem_") && gen.b(2) == 0) { for (b, l) in [("pk", gen.p.ob), ("sk", gen.p.sk), ("c", gen.p.ob), ("k", 32)] { if !v.contains_key(b) { v.insert(b.into(), gen.bytes(l)); } } }
                let cmd = cmdline(base, &v);
                let a = nat.call(&cmd)?;
                trials += 1;
                if a.status == "abort" { return found(kind, trials, &[cmd], "process ended", "ok", &a.line); }
                if kind == "panic" { if a.status == "panic" { return found(kind, trials, &[cmd], "panic", "no panic", &a.line); } continue; }
                if a.status == "panic" { if kind == "spec" { return found(kind, trials, &[cmd], "panic", "ok", &a.line); } continue; }
                if kind == "dirty" {
                    let outs: &[&str] = match base { "kem_keypair" => &["pk", "sk"], "kem_enc" => &["c", "k"], _ => &["k"] };
                    let mut v2 = v.clone();
                    for b in outs { let n = v2[*b].len(); v2.insert(b.to_string(), gen.bytes(n)); }
                    let cmd2 = cmdline(base, &v2);
                    let a2 = nat.call(&cmd2)?;
                    for b in outs { if a.f.get(*b) != a2.f.get(*b) { return found(kind, trials, &[cmd, cmd2], &format!("{} depends on its old contents", b), a.f.get(*b).map_or("", |s| s), a2.f.get(*b).map_or("", |s| s)); } }
                    continue;
                }
                if base == "rng_bytes" && v["x"].len() > 3200 {
                    // piece by piece, theorems rngOut_step, rngKey_step and rngV_step
                    if a.status != "ok" { return found(kind, trials, &[cmd], "does not return Ok", "ok", &a.line); }
                    let n = v["x"].len();
                    let c = ctr.ok_or_else(|| format!("no contract {}", name))?;
                    let mut at = 0;
                    while at < n {
                        let l = if n - at > 3200 { 3200 } else { n - at };
                        if !oracles.contains_key(&(l as i64)) { oracles.insert(l as i64, Oracle::new(c, l as i64)?); }
                        let mut w = v.clone();
                        let k = u128::from_be_bytes(v["v"][..].try_into().map_err(|_| "v")?).wrapping_add(at as u128 / 16);
                        w.insert("v".into(), k.to_be_bytes().to_vec());
                        w.insert("x".into(), v["x"][at..at + l].to_vec());
                        for (nm, o, b) in oracles[&(l as i64)].expected(&w).ok_or("specification not evaluated")? {
                            let got = a.f.get(&nm).map(|s| unhex(s)).unwrap_or_default();
                            let o = if nm == "x" { o + at } else if at + l < n { continue } else { o };
                            if got.len() < o + b.len() || got[o..o + b.len()] != b[..] {
                                let pos = (0..b.len()).find(|i| got.get(o + i) != b.get(*i)).unwrap_or(0);
                                return found(kind, trials, &[cmd], &format!("{}[{}] differs from the specification", nm, o + pos), &format!("{}[{}..{}]={}", nm, o, o + b.len(), hex(&b)), &a.line);
                            }
                        }
                        at += l;
                    }
                    continue;
                }
                let xl = if base == "rng_bytes" { v["x"].len() as i64 } else { 0 };
                if !oracles.contains_key(&xl) { let c = ctr.ok_or_else(|| format!("no contract {}", name))?; oracles.insert(xl, Oracle::new(c, xl)?); }
                let or = &oracles[&xl];
                let exp = or.expected(&v).ok_or("specification not evaluated")?;
                if exp.is_empty() { continue; }
                if or.c.ret_result && a.status != "ok" { return found(kind, trials, &[cmd], "does not return Ok", "ok", &a.line); }
                for (n, at, b) in &exp {
                    let got = a.f.get(n).map(|s| unhex(s)).unwrap_or_default();
                    if got.len() < at + b.len() || got[*at..at + b.len()] != b[..] {
                        let pos = (0..b.len()).find(|i| got.get(at + i) != b.get(*i)).unwrap_or(0);
                        return found(kind, trials, &[cmd], &format!("{}[{}] differs from the specification", n, at + pos), &format!("{}[{}..{}]={}", n, at, at + b.len(), hex(b)), &a.line);
                    }
                }
                let _ = &or.out_len;
            }
            "roundtrip" => {
                // agreement of encapsulation and decapsulation for honest keys
                let mut kv = Vals::new();
                let ks: Vec<&Vals> = first.iter().filter(|x| x.0 == "kem_keypair" && x.1.contains_key("rng0")).map(|x| &x.1).collect();
                let es: Vec<&Vals> = first.iter().filter(|x| x.0 == "kem_enc" && x.1.contains_key("rng0")).map(|x| &x.1).collect();
                kv.insert("rng0".into(), if (trials as usize) < ks.len() { ks[trials as usize]["rng0"].clone() } else { gen.rm_bytes() });
                let mut es: Vec<Vec<u8>> = es.iter().map(|e| e["rng0"].clone()).collect();
                if gen.b(2) == 0 && (trials as usize) >= ks.len() { let (a, b) = gen.aligned(); kv.insert("rng0".into(), a); es.push(b); }
                kv.insert("rng1".into(), gen.bytes(32));
                let zero = |b: &[u8]| b.iter().all(|x| x % 3 == 0);
                if zero(&kv["rng0"][..gen.p.iid]) || (!gen.p.hps && zero(&kv["rng0"][gen.p.iid..])) { trials += 1; continue; }
                let kc = cmdline("kem_keypair", &kv);
                let ka = nat.call(&kc)?;
                if ka.status != "ok" { return found(kind, trials, &[kc], "key generation does not return Ok", "ok", &ka.line); }
                for j in 0..30usize {
                    let mut ev = Vals::new();
                    ev.insert("pk".into(), unhex(&ka.f["pk"]));
                    ev.insert("rng0".into(), if j < es.len() { es[j].clone() } else { gen.rm_bytes() });
                    let ec = cmdline("kem_enc", &ev);
                    let ea = nat.call(&ec)?;
                    if ea.status != "ok" { return found(kind, trials, &[kc, ec], "encapsulation does not return Ok", "ok", &ea.line); }
                    let mut dv = Vals::new();
                    dv.insert("sk".into(), unhex(&ka.f["sk"]));
                    dv.insert("c".into(), unhex(&ea.f["c"]));
                    let dc = cmdline("kem_dec", &dv);
                    let da = nat.call(&dc)?;
                    if da.status != "ok" || da.f.get("k") != ea.f.get("k") { return found(kind, trials, &[kc, ec, dc], "shared keys differ", &ea.f["k"], &da.line); }
                }
                trials += 1;
            }
            "reject" => {
                // for honest keys the result is the rejection key, or the hash of (r, m) that encrypts to c
                let c = f.contracts.iter().find(|c| c.name == "kem_dec").ok_or("contract kem_dec")?;
                if !oracles.contains_key(&0) { oracles.insert(0, Oracle::new(c, 0)?); }
                let (pk, sk) = gen.key(&mut nat)?;
                let mut dv = match mine.pop() { Some(v) if trials % 2 == 0 => v, _ => gen.inputs("kem_dec", &mut nat)? };
                if gen.b(3) == 0 {
                    let o = gen.b(7);
                    dv.insert("c".into(), gen.shaped_ct(&pk, o));
                } else if gen.b(2) == 0 {
                    // honest ciphertext, possibly modified
                    let mut e = Vals::new();
                    e.insert("pk".into(), pk);
                    e.insert("rng0".into(), gen.rm_bytes());
                    let a = nat.call(&cmdline("kem_enc", &e))?;
                    let mut c = a.f.get("c").map(|s| unhex(s)).unwrap_or_default();
                    if c.len() == gen.p.ob {
                        match gen.b(4) { 0 => { let l = c.len() - 1; c[l] ^= 0x80 >> gen.b(4); } 1 => { let i = gen.b(c.len() as u64) as usize; c[i] ^= 1 << gen.b(8); } 2 => { let t = gen.b((gen.p.n - 1) as u64) as usize * gen.p.logq; c[t / 8] = c[t / 8].wrapping_add(1 << (t % 8)); } _ => {} }
                        dv.insert("c".into(), c);
                    }
                }
                dv.insert("sk".into(), sk.clone());
                let cmd = cmdline("kem_dec", &dv);
                let a = nat.call(&cmd)?;
                trials += 1;
                if a.status != "ok" { return found(kind, trials, &[cmd], "decapsulation does not return Ok", "ok", &a.line); }
                let mut pre = sk[gen.p.osk..].to_vec();
                pre.extend(&dv["c"]);
                let rej = crate::concrete::sha3_256(&pre);
                let got = unhex(&a.f["k"]);
                if got == rej { continue; }
                let exp = oracles[&0].expected(&dv).ok_or("specification not evaluated")?;
                if got != exp[0].2 { return found(kind, trials, &[cmd], "neither the rejection key nor the key of an honest encapsulation", &hex(&exp[0].2), &a.line); }
            }
            "rngfail" => {
                for (name, lens) in [("kem_keypair", vec![gen.p.rm, 32]), ("kem_enc", vec![gen.p.rm])] {
                    let v = gen.inputs(name, &mut nat)?;
                    let ok = nat.call(&cmdline(name, &v))?;
                    let want: Vec<String> = lens.iter().map(|x| x.to_string()).collect();
                    trials += 1;
                    if ok.status != "ok" || ok.f.get("req") != Some(&want.join(",")) { return found(kind, trials, &[cmdline(name, &v)], "requests or result differ", &format!("ok req={}", want.join(",")), &ok.line); }
                    for k in 0..lens.len() {
                        let cmd = format!("{} fail={}", cmdline(name, &v), k);
                        let a = nat.call(&cmd)?;
                        if a.status != "err" || a.f.get("msg") != Some(&format!("vp-rng-failure-{}", k)) || a.f.get("req") != Some(&want[..k + 1].join(",")) { return found(kind, trials, &[cmd], "failure of the RNG not returned", &format!("err msg=vp-rng-failure-{} req={}", k, want[..k + 1].join(",")), &a.line); }
                    }
                }
            }
            _ => return Err(format!("search: unknown kind {}", kind)),
        }
    }
    println!("{{\"found\":false,\"kind\":\"{}\",\"trials\":{},\"ms\":{}}}", kind, trials, t0.elapsed().as_millis());
    Ok(0)
}
