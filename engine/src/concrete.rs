//! Concrete reference implementations of the opaque specification functions.
//! Used to refute (find inputs) and to cross-check; never to discharge an obligation.

pub fn conv(n: usize, a: &[i64], b: &[i64]) -> Vec<i64> {
    let mut r = vec![0u32; n];
    for i in 0..n {
        let x = a[i] as u32;
        if x == 0 { continue; }
        for j in 0..n { let k = if i + j >= n { i + j - n } else { i + j }; r[k] = r[k].wrapping_add(x.wrapping_mul(b[j] as u32)); }
    }
    r.iter().map(|x| (x & 0xffff) as i64).collect()
}

/// one division step modulo p (p = 2 or 3); state (delta, f, g, v, w)
pub struct Ds { pub delta: i64, pub f: Vec<i64>, pub g: Vec<i64>, pub v: Vec<i64>, pub w: Vec<i64> }
impl Ds {
    pub fn init(n: usize, p: i64, a: &[i64]) -> Ds {
        let mut g = vec![0; n];
        for i in 0..n - 1 { g[n - 2 - i] = if p == 2 { (a[i] + a[n - 1]) % 2 } else { (a[i] % 4 + 2 * (a[n - 1] % 4)) % 3 }; }
        let mut w = vec![0; n];
        w[0] = 1;
        Ds { delta: 1, f: vec![1; n], g, v: vec![0; n], w }
    }
    pub fn step(&mut self, n: usize, p: i64) {
        let sign = if p == 2 { self.g[0] * self.f[0] % 2 } else { 2 * self.g[0] * self.f[0] % 3 };
        let mut v: Vec<i64> = vec![0; n];
        for i in 1..n { v[i] = self.v[i - 1]; }
        self.v = v;
        let swap = self.delta > 0 && self.g[0] != 0;
        if swap { self.delta = -self.delta; std::mem::swap(&mut self.f, &mut self.g); std::mem::swap(&mut self.v, &mut self.w); }
        self.delta += 1;
        if p == 2 { for i in 0..n { self.g[i] = (self.g[i] ^ (sign & self.f[i])) & 1; self.w[i] = (self.w[i] ^ (sign & self.v[i])) & 1; } }
        else { let t = |x: i64| (0b10_01_00_10_01_00i64 >> (2 * x)) & 3; for i in 0..n { self.g[i] = t(self.g[i] + t(sign * self.f[i])); self.w[i] = t(self.w[i] + t(sign * self.v[i])); } }
        self.g.copy_within(1.., 0);
        self.g[n - 1] = 0;
    }
}
pub fn r2inv(n: usize, a: &[i64]) -> Vec<i64> {
    let mut d = Ds::init(n, 2, a);
    for _ in 0..2 * (n - 1) - 1 { d.step(n, 2); }
    let mut r = vec![0; n];
    for i in 0..n - 1 { r[i] = d.v[n - 2 - i]; }
    r
}
pub fn s3inv(n: usize, a: &[i64]) -> Vec<i64> {
    let mut d = Ds::init(n, 3, a);
    for _ in 0..2 * (n - 1) - 1 { d.step(n, 3); }
    let mut r = vec![0; n];
    for i in 0..n - 1 { r[i] = d.f[0] * d.v[n - 2 - i] % 3; }
    r
}

pub fn sha3_256(msg: &[u8]) -> [u8; 32] {
    const RC: [u64; 24] = [0x1, 0x8082, 0x800000000000808a, 0x8000000080008000, 0x808b, 0x80000001, 0x8000000080008081, 0x8000000000008009, 0x8a, 0x88, 0x80008009, 0x8000000a, 0x8000808b, 0x800000000000008b, 0x8000000000008089, 0x8000000000008003, 0x8000000000008002, 0x8000000000000080, 0x800a, 0x800000008000000a, 0x8000000080008081, 0x8000000000008080, 0x80000001, 0x8000000080008008];
    const ROT: [u32; 24] = [1, 3, 6, 10, 15, 21, 28, 36, 45, 55, 2, 14, 27, 41, 56, 8, 25, 43, 62, 18, 39, 61, 20, 44];
    const PIL: [usize; 24] = [10, 7, 11, 17, 18, 3, 5, 16, 8, 21, 24, 4, 15, 23, 19, 13, 12, 2, 20, 14, 22, 9, 6, 1];
    let mut s = [0u64; 25];
    let mut f = |s: &mut [u64; 25]| {
        for r in 0..24 {
            let mut bc = [0u64; 5];
            for i in 0..5 { bc[i] = s[i] ^ s[i + 5] ^ s[i + 10] ^ s[i + 15] ^ s[i + 20]; }
            for i in 0..5 { let t = bc[(i + 4) % 5] ^ bc[(i + 1) % 5].rotate_left(1); for j in (0..25).step_by(5) { s[j + i] ^= t; } }
            let mut t = s[1];
            for i in 0..24 { let j = PIL[i]; let b = s[j]; s[j] = t.rotate_left(ROT[i]); t = b; }
            for j in (0..25).step_by(5) { let mut b = [0u64; 5]; b.copy_from_slice(&s[j..j + 5]); for i in 0..5 { s[j + i] ^= !b[(i + 1) % 5] & b[(i + 2) % 5]; } }
            s[0] ^= RC[r];
        }
    };
    let mut m = msg.to_vec();
    m.push(6);
    while m.len() % 136 != 0 { m.push(0); }
    let l = m.len();
    m[l - 1] |= 0x80;
    for ch in m.chunks(136) { for (i, b) in ch.chunks(8).enumerate() { s[i] ^= u64::from_le_bytes(b.try_into().unwrap()); } f(&mut s); }
    let mut o = [0u8; 32];
    for i in 0..4 { o[8 * i..8 * i + 8].copy_from_slice(&s[i].to_le_bytes()); }
    o
}

fn xt(a: u8) -> u8 { (a << 1) ^ if a & 0x80 != 0 { 0x1b } else { 0 } }
fn sbox() -> [u8; 256] {
    let mut s = [0u8; 256];
    let (mut p, mut q) = (1u8, 1u8);
    loop {
        p = p ^ xt(p);
        q ^= q << 1; q ^= q << 2; q ^= q << 4; if q & 0x80 != 0 { q ^= 9; }
        s[p as usize] = q ^ q.rotate_left(1) ^ q.rotate_left(2) ^ q.rotate_left(3) ^ q.rotate_left(4) ^ 0x63;
        if p == 1 { break; }
    }
    s[0] = 0x63;
    s
}
pub fn aes256(key: &[u8], blk: &[u8]) -> [u8; 16] {
    let sb = sbox();
    let mut w: Vec<[u8; 4]> = key.chunks(4).map(|c| [c[0], c[1], c[2], c[3]]).collect();
    let mut rc = 1u8;
    for i in 8..60 {
        let mut t = w[i - 1];
        if i % 8 == 0 { t = [sb[t[1] as usize] ^ rc, sb[t[2] as usize], sb[t[3] as usize], sb[t[0] as usize]]; rc = xt(rc); } else if i % 8 == 4 { for x in t.iter_mut() { *x = sb[*x as usize]; } }
        let p = w[i - 8];
        w.push([p[0] ^ t[0], p[1] ^ t[1], p[2] ^ t[2], p[3] ^ t[3]]);
    }
    let mut s = [0u8; 16];
    s.copy_from_slice(blk);
    let ark = |s: &mut [u8; 16], r: usize| for i in 0..16 { s[i] ^= w[4 * r + i / 4][i % 4]; };
    ark(&mut s, 0);
    for r in 1..15 {
        let mut t = [0u8; 16];
        for i in 0..16 { t[i] = sb[s[(i + 4 * (i % 4)) % 16] as usize]; }
        if r < 14 {
            for c in 0..4 { let a = [t[4 * c], t[4 * c + 1], t[4 * c + 2], t[4 * c + 3]]; let x = a[0] ^ a[1] ^ a[2] ^ a[3]; for k in 0..4 { t[4 * c + k] = a[k] ^ x ^ xt(a[k] ^ a[(k + 1) % 4]); } }
        }
        s = t;
        ark(&mut s, r);
    }
    s
}
