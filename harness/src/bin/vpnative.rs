//! Runs the public interface natively on inputs given as text, one call per line:
//!   CMD name=hex ...       answers:  ok|err|panic name=hex ... [req=n,n] [msg=...]
use ntrust_native::*;
use std::collections::HashMap;
use std::io::{BufRead, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};

type R = Result<(), Box<dyn std::error::Error>>;

struct Script {
    data: Vec<Vec<u8>>,
    fail: Option<usize>,
    req: Vec<usize>,
}

#[derive(Debug)]
struct Failed(usize);
impl std::fmt::Display for Failed {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "vp-rng-failure-{}", self.0)
    }
}
impl std::error::Error for Failed {}

impl RNGState for Script {
    fn randombytes(&mut self, x: &mut [u8]) -> R {
        let k = self.req.len();
        self.req.push(x.len());
        if self.fail == Some(k) {
            return Err(Box::new(Failed(k)));
        }
        if let Some(d) = self.data.get(k) {
            for (i, b) in x.iter_mut().enumerate() {
                *b = d.get(i).copied().unwrap_or(0);
            }
        }
        Ok(())
    }
    fn randombytes_init(&mut self, _e: [u8; 48]) {}
}

// With `--cfg vp_trace` (see build_native in bin/vlib.py) the sequence of branches taken inside a call
// is hashed and reported as trace=hash.length.
#[cfg(vp_trace)]
extern "C" {
    fn vp_trace_start();
    fn vp_trace_stop(n: *mut u64) -> u64;
}
fn traced(f: impl FnOnce() -> R) -> (std::thread::Result<R>, String) {
    #[cfg(vp_trace)]
    unsafe {
        vp_trace_start();
    }
    let r = catch_unwind(AssertUnwindSafe(f));
    #[cfg(vp_trace)]
    let t = {
        let mut n = 0u64;
        let h = unsafe { vp_trace_stop(&mut n) };
        format!(" trace={:016x}.{}", h, n)
    };
    #[cfg(not(vp_trace))]
    let t = String::new();
    (r, t)
}

fn unhex(s: &str) -> Vec<u8> {
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect()
}
fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{:02x}", x)).collect()
}
fn arr<const N: usize>(a: &HashMap<String, String>, n: &str) -> [u8; N] {
    let mut r = [0u8; N];
    if let Some(s) = a.get(n) {
        let v = unhex(s);
        assert!(v.len() == N, "vpnative: length of {}: {} expected {}", n, v.len(), N);
        r.copy_from_slice(&v);
    }
    r
}

fn call(cmd: &str, a: &HashMap<String, String>) -> String {
    let mut rng = Script { data: vec![], fail: a.get("fail").map(|s| s.parse().unwrap()), req: vec![] };
    for k in 0.. {
        match a.get(&format!("rng{}", k)) {
            Some(s) => rng.data.push(unhex(s)),
            None => break,
        }
    }
    let st = |r: std::thread::Result<R>| -> String {
        match r {
            Ok(Ok(())) => "ok".into(),
            Ok(Err(e)) => format!("err msg={}", e.to_string().replace(' ', "_")),
            Err(p) => {
                let m = p.downcast_ref::<String>().cloned().or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
                format!("panic msg={}", m.replace(' ', "_").replace('\n', "_"))
            }
        }
    };
    let req = |r: &Script| r.req.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",");
    match cmd {
        "kem_keypair" => {
            let mut pk: [u8; CRYPTO_PUBLICKEYBYTES] = arr(a, "pk");
            let mut sk: [u8; CRYPTO_SECRETKEYBYTES] = arr(a, "sk");
            let (r, t) = traced(|| crypto_kem_keypair(&mut pk, &mut sk, &mut rng));
            let r = st(r);
            format!("{} pk={} sk={} req={}{}", r, hex(&pk), hex(&sk), req(&rng), t)
        }
        "kem_enc" => {
            let mut c: [u8; CRYPTO_CIPHERTEXTBYTES] = arr(a, "c");
            let mut k: [u8; CRYPTO_BYTES] = arr(a, "k");
            let pk: [u8; CRYPTO_PUBLICKEYBYTES] = arr(a, "pk");
            let (r, t) = traced(|| crypto_kem_enc(&mut c, &mut k, &pk, &mut rng));
            let r = st(r);
            format!("{} c={} k={} req={}{}", r, hex(&c), hex(&k), req(&rng), t)
        }
        "kem_dec" => {
            let mut k: [u8; CRYPTO_BYTES] = arr(a, "k");
            let c: [u8; CRYPTO_CIPHERTEXTBYTES] = arr(a, "c");
            let sk: [u8; CRYPTO_SECRETKEYBYTES] = arr(a, "sk");
            let (r, t) = traced(|| crypto_kem_dec(&mut k, &c, &sk));
            let r = st(r);
            format!("{} k={}{}", r, hex(&k), t)
        }
        "rng_new" | "rng_default" | "rng_init" | "rng_bytes" => {
            let rc = i32::from_le_bytes(arr(a, "rc"));
            let mut s = AesState { key: arr(a, "key"), v: arr(a, "v"), reseed_counter: rc };
            let mut x = a.get("x").map(|s| unhex(s)).unwrap_or_default();
            let r = st(catch_unwind(AssertUnwindSafe(|| {
                match cmd {
                    "rng_new" => s = AesState::new(),
                    "rng_default" => s = AesState::default(),
                    "rng_init" => s.randombytes_init(arr(a, "e")),
                    _ => return s.randombytes(&mut x),
                }
                Ok(())
            })));
            format!("{} key={} v={} rc={} x={}", r, hex(&s.key), hex(&s.v), hex(&s.reseed_counter.to_le_bytes()), hex(&x))
        }
        "sizes" => format!("ok pk={} sk={} c={} k={} name={}", CRYPTO_PUBLICKEYBYTES, CRYPTO_SECRETKEYBYTES, CRYPTO_CIPHERTEXTBYTES, CRYPTO_BYTES, CRYPTO_ALGNAME),
        // search for a key-generation seed that panics
        "panicsearch" => {
            let n: u64 = a["n"].parse().unwrap();
            let mut seedrng = AesState::new();
            let mut e = [0u8; 48];
            e[..8].copy_from_slice(&a["seed"].parse::<u64>().unwrap().to_le_bytes());
            seedrng.randombytes_init(e);
            let len: usize = a["len"].parse().unwrap();
            for i in 0..n {
                let mut d = vec![0u8; len];
                seedrng.randombytes(&mut d).unwrap();
                let mut rng = Script { data: vec![d.clone(), vec![0; 32]], fail: None, req: vec![] };
                let mut pk = [0u8; CRYPTO_PUBLICKEYBYTES];
                let mut sk = [0u8; CRYPTO_SECRETKEYBYTES];
                if catch_unwind(AssertUnwindSafe(|| crypto_kem_keypair(&mut pk, &mut sk, &mut rng))).is_err() {
                    return format!("found i={} rng0={}", i, hex(&d));
                }
            }
            "none".into()
        }
        _ => format!("error msg=unknown_command_{}", cmd),
    }
}

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let inp = std::io::stdin();
    let out = std::io::stdout();
    for l in inp.lock().lines() {
        let l = match l {
            Ok(l) => l,
            Err(_) => break,
        };
        let mut it = l.split_whitespace();
        let cmd = match it.next() {
            Some(c) => c.to_string(),
            None => continue,
        };
        let a: HashMap<String, String> = it.filter_map(|x| x.split_once('=').map(|(k, v)| (k.to_string(), v.to_string()))).collect();
        let r = call(&cmd, &a);
        let mut o = out.lock();
        let _ = writeln!(o, "{}", r);
        let _ = o.flush();
    }
}
