//! Instantiates the generic entry points of ntrust-native so that their code
//! appears in emitted LLVM IR.  `VpRng` stands for an arbitrary `RNGState`:
//! the verifier replaces calls of its `randombytes` by "returns arbitrary
//! bytes, or an arbitrary error".
use ntrust_native::*;

pub struct VpRng {
    pub token: u64,
}

type R = Result<(), Box<dyn std::error::Error>>;

impl RNGState for VpRng {
    #[inline(never)]
    fn randombytes(&mut self, x: &mut [u8]) -> R {
        x.fill(self.token as u8);
        Ok(())
    }
    fn randombytes_init(&mut self, _e: [u8; 48]) {}
}

#[no_mangle]
pub fn vp_keypair(pk: &mut [u8; CRYPTO_PUBLICKEYBYTES], sk: &mut [u8; CRYPTO_SECRETKEYBYTES], rng: &mut VpRng) -> R {
    crypto_kem_keypair(pk, sk, rng)
}

#[no_mangle]
pub fn vp_enc(c: &mut [u8; CRYPTO_CIPHERTEXTBYTES], k: &mut [u8; CRYPTO_BYTES], pk: &[u8; CRYPTO_PUBLICKEYBYTES], rng: &mut VpRng) -> R {
    crypto_kem_enc(c, k, pk, rng)
}

#[no_mangle]
pub fn vp_dec(k: &mut [u8; CRYPTO_BYTES], c: &[u8; CRYPTO_CIPHERTEXTBYTES], sk: &[u8; CRYPTO_SECRETKEYBYTES]) -> R {
    crypto_kem_dec(k, c, sk)
}

// The RNG functions see the generator through its public fields only.

#[no_mangle]
pub fn vp_rng_new(key: &mut [u8; 32], v: &mut [u8; 16], rc: &mut [i32; 1]) {
    let s = AesState::new();
    *key = s.key;
    *v = s.v;
    rc[0] = s.reseed_counter;
}

#[no_mangle]
pub fn vp_rng_default(key: &mut [u8; 32], v: &mut [u8; 16], rc: &mut [i32; 1]) {
    let s = AesState::default();
    *key = s.key;
    *v = s.v;
    rc[0] = s.reseed_counter;
}

#[no_mangle]
pub fn vp_rng_init(key: &mut [u8; 32], v: &mut [u8; 16], rc: &mut [i32; 1], e: &[u8; 48]) {
    let mut s = AesState { key: *key, v: *v, reseed_counter: rc[0] };
    s.randombytes_init(*e);
    *key = s.key;
    *v = s.v;
    rc[0] = s.reseed_counter;
}

#[no_mangle]
pub fn vp_rng_bytes(key: &mut [u8; 32], v: &mut [u8; 16], rc: &mut [i32; 1], x: &mut [u8]) -> R {
    let mut s = AesState { key: *key, v: *v, reseed_counter: rc[0] };
    let r = s.randombytes(x);
    *key = s.key;
    *v = s.v;
    rc[0] = s.reseed_counter;
    r
}
