#![allow(static_mut_refs, dead_code)]
mod concrete;
mod contracts;
mod divstep;
mod rngloop;
mod exec;
mod ir;
mod nf;
mod prove;
mod search;
mod smt;
mod sortnet;
mod spec;
mod term;

use contracts::*;
use exec::*;
use std::rc::Rc;

pub struct Opt { mode: String, ir: Vec<String>, spec: String, contracts: String, variant: String, goals: Vec<String>, seed: u64, cats: Vec<Cat>, json: Option<String>, stop: bool, native: String, what: String, ms: u64, n: u64, deep: bool }

fn main() {
    let h = std::thread::Builder::new().stack_size(2 << 30).spawn(real_main).unwrap();
    let code = h.join().unwrap_or(3);
    std::process::exit(code);
}

fn hooks(ex: &mut Ex) {
    let syms: Vec<(String, String)> = ex.prog.funcs.iter().map(|(s, f)| (s.clone(), f.path.clone())).chain(ex.prog.decl_paths.iter().map(|(s, p)| (s.clone(), p.clone()))).collect();
    for (s, p) in syms {
        let h = if p.contains("aes::autodetect::Aes256 as") && p.contains("NewBlockCipher>::new") { Hook::AesNew }
            else if p.contains("aes::autodetect::Aes256 as") && p.contains("BlockEncrypt>::encrypt_block") { Hook::AesEnc }
            else if p.contains("tiny_keccak::sha3::Sha3>::v256") { Hook::ShaNew }
            else if p.contains("tiny_keccak::sha3::Sha3 as") && p.ends_with("Hasher>::update") { Hook::ShaUpd }
            else if p.contains("tiny_keccak::sha3::Sha3 as") && p.ends_with("Hasher>::finalize") { Hook::ShaFin }
            else if p.contains("VpRng as") && p.ends_with("RNGState>::randombytes") { Hook::Rng }
            else { continue };
        ex.hooks.insert(s, Rc::new(h));
    }
}

fn real_main() -> i32 {
    let mut o = Opt { mode: String::new(), ir: vec![], spec: String::new(), contracts: String::new(), variant: String::new(), goals: vec![], seed: 1, cats: vec![Cat::Fun, Cat::Rng], json: None, stop: false, native: String::new(), what: String::new(), ms: 20_000, n: u64::MAX, deep: false };
    let a: Vec<String> = std::env::args().skip(1).collect();
    let mut i = 0;
    if let Some(m) = a.first() { if !m.starts_with("--") { o.mode = m.clone(); i = 1; } }
    while i < a.len() {
        let v = a.get(i + 1).cloned().unwrap_or_default();
        match a[i].as_str() {
            "--ir" => o.ir.push(v),
            "--spec" => o.spec = v,
            "--contracts" => o.contracts = v,
            "--variant" => o.variant = v,
            "--goals" => o.goals = v.split(',').map(|s| s.to_string()).collect(),
            "--seed" => o.seed = v.parse().unwrap_or(1),
            "--cats" => o.cats = v.split(',').map(|s| match s { "panic" => Cat::Panic, "ct" => Cat::Ct, "rng" => Cat::Rng, "indep" => Cat::Indep, _ => Cat::Fun }).collect(),
            "--json" => o.json = Some(v),
            "--stop" => o.stop = v == "1",
            "--deep" => o.deep = v == "1",
            "--native" => o.native = v,
            "--what" => o.what = v,
            "--ms" => o.ms = v.parse().unwrap_or(20_000),
            "--n" => o.n = v.parse().unwrap_or(u64::MAX),
            x => { eprintln!("unknown option {}", x); return 2; }
        }
        i += 2;
    }
    let r = match o.mode.as_str() { "" | "verify" => run(&o), "search" => search::run(&o), m => Err(format!("unknown mode {}", m)) };
    match r { Ok(c) => c, Err(e) => { eprintln!("error: {}", e); 2 } }
}

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() { match c { '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), '\n' => o.push_str("\\n"), c if (c as u32) < 32 => o.push(' '), c => o.push(c) } }
    o.push('"');
    o
}
fn jlist(v: &[String]) -> String { format!("[{}]", v.iter().map(|s| js(s)).collect::<Vec<_>>().join(",")) }
pub fn hexle(w: u16, v: &[u128]) -> String { let mut s = String::new(); for x in v { for k in 0..(w / 8) { s.push_str(&format!("{:02x}", (x >> (8 * k)) as u8)); } } s }
fn jinput(i: &Option<Input>) -> String { match i { None => "null".into(), Some(i) => format!("{{{}}}", i.vals.iter().map(|(n, w, v)| format!("{}:{}", js(n), js(&hexle(*w, v)))).collect::<Vec<_>>().join(",")) } }

fn jverdict(k: usize, v: &Verdict, ok: bool, goal: bool, inl: &[(String, String)]) -> String {
    let c = &cx().contracts[k];
    let obs: Vec<String> = v.obs.iter().map(|ob| {
        let be: Vec<String> = ob.backends.iter().map(|(b, n)| format!("{}:{}", js(b), n)).collect();
        let fail = match &ob.fail { None => "null".into(), Some(f) => format!("{{\"refuted\":{},\"why\":{},\"input\":{},\"input2\":{}}}", f.refuted, js(&f.why), jinput(&f.input), jinput(&f.input2)) };
        format!("{{\"name\":{},\"cat\":{},\"n\":{},\"ok\":{},\"backends\":{{{}}},\"fail\":{}}}", js(&ob.name), js(&format!("{:?}", ob.cat).to_lowercase()), ob.n, ob.ok, be.join(","), fail)
    }).collect();
    format!("{{\"name\":{},\"path\":{},\"symbol\":{},\"api\":{},\"goal\":{},\"ok\":{},\"ms\":{},\"steps\":{},\"error\":{},\"bounded\":{},\"note\":{},\"used\":{},\"executed\":{},\"inlined\":{{{}}},\"clauses\":{},\"obs\":[{}]}}",
        js(&c.name), js(&c.path), js(cx().sym[k].as_deref().unwrap_or("")), c.api, goal, ok, v.ms, v.steps, v.error.as_ref().map_or("null".into(), |e| js(e)), v.bounded.as_ref().map_or("null".into(), |e| js(e)), js(&format!("{}{}", cx().resolve_note[k], v.note.clone().unwrap_or_default())), jlist(&v.used), jlist(&v.executed),
        inl.iter().map(|(a, b)| format!("{}:{}", js(a), js(b))).collect::<Vec<_>>().join(","), c.requires.len() + c.ensures.len(), obs.join(",\n  "))
}

pub fn load(o: &Opt) -> Result<contracts::File, String> {
    let rd = |p: &str| std::fs::read_to_string(p).map_err(|e| format!("{}: {}", p, e));
    unsafe { smt::APP_EVAL = Some(spec::concrete); }
    smt::smt().seed = o.seed;
    spec::sp().load(&rd(&o.spec)?)?;
    contracts::parse(&rd(&o.contracts)?, &o.variant)
}

fn run(o: &Opt) -> Result<i32, String> {
    let rd = |p: &str| std::fs::read_to_string(p).map_err(|e| format!("{}: {}", p, e));
    let f = load(o)?;
    let mut prog = ir::Program::new();
    for (i, p) in o.ir.iter().enumerate() { prog.add_module(&rd(p)?, &format!("m{}", i))?; }
    let mut ex = Ex::new(prog);
    hooks(&mut ex);
    let n = f.contracts.len();
    let mut sym = vec![];
    let mut note = vec![];
    for c in &f.contracts { let (s, m) = resolve(&ex.prog, c, &f.contracts); sym.push(s); note.push(m); }
    for (i, s) in sym.iter().enumerate() { if let Some(s) = s { if !f.contracts[i].aux { ex.hooks.insert(s.clone(), Rc::new(Hook::Contract(i))); } } }
    ex.contract_cb = Some(contract_cb);
    set_cx(Ctx { contracts: f.contracts, sym, resolve_note: note, usable: vec![false; n], used: Default::default(), req_fail: Default::default(), seed: o.seed, deep: o.deep, cats: o.cats.clone(), ct_params: vec![None; n], native: (o.native.clone(), f.consts.get("RM").map_or(0, |v| *v as usize)), hints: None });
    for g in &o.goals { if !cx().contracts.iter().any(|c| c.name == *g) { eprintln!("note: no contract {} for {}", g, o.variant); } }
    let goals: Vec<usize> = (0..n).filter(|&i| o.goals.is_empty() && !cx().contracts[i].aux || o.goals.contains(&cx().contracts[i].name)).collect();
    let ord = order(&mut ex, &goals);
    let mut out = vec![];
    let mut bad: Vec<String> = goals.iter().filter(|g| cx().sym[**g].is_none()).map(|g| format!("{{\"name\":{},\"note\":{}}}", js(&cx().contracts[*g].name), js(&cx().resolve_note[*g]))).collect();
    let mut stopped = false;
    let mut allok = bad.is_empty();
    for k in ord.iter().copied() {
        let v = verify(&mut ex, k);
        // used at call sites only if functionally correct as well
        let mut need = o.cats.clone();
        need.push(Cat::Fun);
        if o.cats == [Cat::Ct] { need = vec![Cat::Fun]; }
        cx().usable[k] = v.ok(&need);
        cx().ct_params[k] = if v.error.is_none() { let mut ps = ct_params_of(&ex); let all: Vec<String> = cx().contracts[k].params.iter().map(|p| p.name.clone()).collect(); if ps.iter().any(|p| !all.contains(p)) { ps.extend(all); } Some(ps) } else { None };
        let goal = goals.contains(&k);
        let okf = if goal { v.ok(&o.cats) } else { cx().usable[k] };
        if goal && !okf { allok = false; }
        let inl: Vec<(String, String)> = cx().req_fail.drain().map(|(j, m)| (cx().contracts[j].name.clone(), m)).collect();
        out.push(jverdict(k, &v, okf, goal, &inl));
        if o.json.is_none() {
            println!("{:24} {} {}ms steps={} err={:?} used={:?}", cx().contracts[k].name, if okf { "OK" } else { "FAIL" }, v.ms, v.steps, v.error, v.used);
            for ob in &v.obs { println!("     {:?} {} {}/{} {:?} {}", ob.cat, ob.name, ob.ok, ob.n, ob.backends, ob.fail.as_ref().map_or(String::new(), |f| format!("refuted={} {}", f.refuted, f.why))); }
            for (a, b) in &inl { println!("     inlined {}: {}", a, b); }
        }
        if o.stop && v.obs.iter().any(|b| o.cats.contains(&b.cat) && b.fail.as_ref().map_or(false, |f| f.refuted)) { stopped = true; break; }
    }
    let st = smt::smt().stats.clone();
    let local: Vec<String> = { let mut v: Vec<String> = ex.prog.funcs.values().map(|f| f.path.clone()).filter(|p| p.starts_with("ntrust_native") || p.starts_with("<ntrust_native")).collect(); v.sort(); v.dedup(); v };
    match &o.json {
        Some(p) => {
            let t = format!("{{\"variant\":{},\"stopped\":{},\"all_ok\":{},\"unresolved\":[{}],\"stats\":{{\"z3_queries\":{},\"z3_unsat\":{},\"z3_sat\":{},\"z3_unknown\":{},\"z3_ms\":{},\"enumerations\":{},\"cached\":{},\"normal_forms\":{},\"syntactic\":{}}},\n\"functions\":{},\n\"contracts\":[{}]}}\n",
                js(&o.variant), stopped, allok && !stopped, bad.drain(..).collect::<Vec<_>>().join(","), st.smt_queries, st.smt_unsat, st.smt_sat, st.smt_unknown, st.smt_ms, st.enums, st.cached, st.nf, st.syntactic, jlist(&local), out.join(",\n "));
            std::fs::write(p, t).map_err(|e| e.to_string())?;
        }
        None => println!("{:?} unresolved {:?} all_ok {}", st, bad, allok),
    }
    Ok(0)
}
