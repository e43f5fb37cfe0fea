/-
Specification of NTRU-HPS / NTRU-HRSS on coefficient sequences.

This file is read twice: by Lean (NtruThm.lean proves facts about these definitions)
and by the verification engine, which evaluates the same definitions to terms and
proves that the compiled functions of the repository compute them.

A sequence is a function from indices to integers.  Lines starting with `-- @` tell
the engine which functions to keep symbolic at call sites (`opaque`) and which ones
have no body here (`builtin`).
-/
import Mathlib.Data.Int.ModEq
import Mathlib.Algebra.BigOperators.Group.Finset.Basic
import Mathlib.Data.List.Sort

namespace Ntru

noncomputable section

abbrev Seq := ℕ → ℤ

/-- sum of the first n values -/
def sumTo : ℕ → Seq → ℤ
  | 0, _ => 0
  | n + 1, f => sumTo n f + f n

/-- some value among the first n satisfies the predicate -/
def anyTo : ℕ → (ℕ → Prop) → Prop
  | 0, _ => False
  | n + 1, f => anyTo n f ∨ f n

instance (n : ℕ) (f : ℕ → Prop) : Decidable (anyTo n f) := Classical.dec _

/-! ### Ring arithmetic on coefficients modulo 2^16 -/

-- @opaque len=n seq=a:n,b:n range=0..65535 comm
def conv (n : ℕ) (a b : Seq) : Seq :=
  fun k => sumTo n (fun j => a j * b ((k + n - j) % n)) % 65536

def cst (c : ℤ) : Seq := fun _ => c

def copy (a : Seq) : Seq := fun i => a i

def addSeq (a b : Seq) : Seq := fun i => (a i + b i) % 65536

def subSeq (a b : Seq) : Seq := fun i => (a i - b i) % 65536

def scale3 (a : Seq) : Seq := fun i => (3 * a i) % 65536

/-- 3 (x-1) a -/
def scale3x (n : ℕ) (a : Seq) : Seq :=
  fun i => if i = 0 then (-3 * a 0) % 65536 else (3 * (a (i - 1) - a i)) % 65536

def modqPhi (n : ℕ) (a : Seq) : Seq := fun i => (a i - a (n - 1)) % 65536

def mod3Phi (n : ℕ) (a : Seq) : Seq := fun i => (a i + 2 * a (n - 1)) % 3

def sqMul (n : ℕ) (a b : Seq) : Seq := modqPhi n (conv n a b)

def s3Mul (n : ℕ) (a b : Seq) : Seq := mod3Phi n (conv n a b)

/-- {0,1,2} to {0,1,q-1} -/
def z3ToZq (q : ℕ) (a : Seq) : Seq := fun i => if a i = 2 then q - 1 else a i

/-- {0,1,q-1} modulo q to {0,1,2} (and what the code does elsewhere) -/
def zqToZ3 (q : ℕ) (a : Seq) : Seq :=
  fun i => if 2 * (a i % q) < q then a i % q % 4 else (a i % q + 1 - 2 * (a i % q % 2)) % 4

/-- representative modulo q in [-q/2, q/2) -/
def centre (q : ℕ) (c : ℤ) : ℤ := c % q - q * (c % q / (q / 2))

def rqToS3 (n q : ℕ) (a : Seq) : Seq :=
  fun i => (centre q (a i) - centre q (a (n - 1))) % 3

/-! ### Inverses

Division steps (Bernstein-Yang) on the reversed polynomials, modulo p = 2 or 3.
The state is (d, f, g, v, w); `dsIter` repeats the step, the inverse is read off v. -/

def dsG0 (n p : ℕ) (a : Seq) : Seq :=
  fun i => if i < n - 1 then (a (n - 2 - i) + (p - 1) * a (n - 1)) % p else 0

def dsW0 : Seq := fun i => if i = 0 then 1 else 0

def dsSwap (d : ℤ) (g : Seq) : Prop := 0 < d ∧ g 0 ≠ 0

instance (d : ℤ) (g : Seq) : Decidable (dsSwap d g) := Classical.dec _

def dsSign (p : ℕ) (f g : Seq) : ℤ := ((p - 1) * g 0 * f 0) % p

def dsD (d : ℤ) (g : Seq) : ℤ := if dsSwap d g then 1 - d else 1 + d

def dsF (d : ℤ) (f g : Seq) : Seq := fun i => if dsSwap d g then g i else f i

def dsG (n p : ℕ) (d : ℤ) (f g : Seq) : Seq :=
  fun i => if i = n - 1 then 0 else (if dsSwap d g then (f (i + 1) + dsSign p f g * g (i + 1)) % p else (g (i + 1) + dsSign p f g * f (i + 1)) % p)

def dsX (v : Seq) : Seq := fun i => if i = 0 then 0 else v (i - 1)

def dsV (d : ℤ) (g v w : Seq) : Seq := fun i => if dsSwap d g then w i else dsX v i

def dsW (p : ℕ) (d : ℤ) (f g v w : Seq) : Seq :=
  fun i => if dsSwap d g then (dsX v i + dsSign p f g * w i) % p else (w i + dsSign p f g * dsX v i) % p

/-- read the inverse off the final state -/
def dsOut (n p : ℕ) (f v : Seq) : Seq :=
  fun i => if i < n - 1 then (if p = 2 then v (n - 2 - i) else (f 0 * v (n - 2 - i)) % p) else 0

structure DsState where
  d : ℤ
  f : Seq
  g : Seq
  v : Seq
  w : Seq

/-- state after k steps -/
def dsIter (n p : ℕ) (a : Seq) : ℕ → DsState
  | 0 => ⟨1, cst 1, dsG0 n p a, cst 0, dsW0⟩
  | k + 1 =>
    let s := dsIter n p a k
    ⟨dsD s.d s.g, dsF s.d s.f s.g, dsG n p s.d s.f s.g, dsV s.d s.g s.v s.w, dsW p s.d s.f s.g s.v s.w⟩

-- @opaque len=n seq=a:n range=0..1
-- @builtin
def r2inv (n : ℕ) (a : Seq) : Seq :=
  let s := dsIter n 2 a (2 * (n - 1) - 1)
  dsOut n 2 s.f s.v

-- @opaque len=n seq=a:n range=0..2
-- @builtin
def s3inv (n : ℕ) (a : Seq) : Seq :=
  let s := dsIter n 3 a (2 * (n - 1) - 1)
  dsOut n 3 s.f s.v

/-- one Newton step: r (2 - a r), with -a written as the complement of a -/
def newton (n : ℕ) (a r : Seq) : Seq :=
  let c := conv n r (fun i => 65535 - a i)
  conv n (fun i => if i = 0 then (c 0 + 2) % 65536 else c i) r

def rqInvFrom (n : ℕ) (r a : Seq) : Seq :=
  newton n a (newton n a (newton n a (newton n a r)))

def rqInv (n : ℕ) (a : Seq) : Seq := rqInvFrom n (r2inv n a) a

/-! ### Codecs -/

def bitAt (a : Seq) (w t : ℕ) : ℤ := a (t / w) / 2 ^ (t % w) % 2

/-- n-1 coefficients of logq bits as a little-endian bit string, zero padded -/
def packq (n logq : ℕ) (a : Seq) : Seq :=
  fun k => sumTo 8 (fun b => if 8 * k + b < logq * (n - 1) then bitAt a logq (8 * k + b) * 2 ^ b else 0)

def unpackq (n logq : ℕ) (y : Seq) : Seq :=
  fun i => if i < n - 1 then sumTo logq (fun b => bitAt y 8 (logq * i + b) * 2 ^ b) else 0

/-- last coefficient completes the sum to zero -/
def unpackSumZero (n logq : ℕ) (y : Seq) : Seq :=
  let u := unpackq n logq y
  fun i => if i < n - 1 then u i else (- sumTo (n - 1) u) % 65536

/-- five ternary digits per byte -/
def pack3 (n : ℕ) (a : Seq) : Seq :=
  fun k => sumTo 5 (fun j => if 5 * k + j < n - 1 then a (5 * k + j) * 3 ^ j else 0) % 256

def unpack3 (n : ℕ) (y : Seq) : Seq :=
  fun i => if i < n - 1 then y (i / 5) / 3 ^ (i % 5) % 3 else 0

/-! ### Sampling -/

def sampleIid (n : ℕ) (u : Seq) : Seq := fun i => if i < n - 1 then u i % 3 else 0

-- @opaque len=n seq=a:n range=-2147483648..2147483647
-- @builtin
def sortAsc (n : ℕ) (a : Seq) : Seq :=
  fun i => ((List.ofFn (fun j : Fin n => a j)).mergeSort (· ≤ ·)).getD i 0

/-- 30 random bits above a 2-bit tag, read as a signed 32-bit number -/
def fixedKey (w : ℕ) (u : Seq) : Seq :=
  fun i =>
    let v := 4 * sumTo 30 (fun b => bitAt u 8 (30 * i + b) * 2 ^ b) + (if i < w / 2 then 1 else (if i < w then 2 else 0))
    v - 4294967296 * (v / 2147483648)

-- @opaque len=n seq=u:(30*(n-1)+7)/8 range=0..2
def sampleFixed (n w : ℕ) (u : Seq) : Seq :=
  let s := sortAsc (n - 1) (fixedKey w u)
  fun i => if i < n - 1 then s i % 4 else 0

def neg1 (c : ℤ) : ℤ := if c = 2 then -1 else c

-- @opaque len=n seq=u:n-1 range=0..2
def sampleIidPlus (n : ℕ) (u : Seq) : Seq :=
  let v := sampleIid n u
  let s := sumTo (n - 1) (fun i => neg1 (v (i + 1)) * neg1 (v i)) % 65536
  fun i => if s ≥ 32768 ∧ i % 2 = 0 then (3 - v i) % 3 else v i

/-! ### HRSS lift: (x-1) times the ternary representative of a/(x-1) -/

-- @opaque len=n seq=a:n range=0..2
def divXm1 (n : ℕ) (a : Seq) : Seq :=
  let s := sumTo n a
  fun i => (sumTo (n - 1 - i) (fun j => a (i + 1 + j)) + (n - 1 - i) * s) % 3

def liftHrss (n q : ℕ) (a : Seq) : Seq :=
  let b := z3ToZq q (divXm1 n a)
  fun i => if i = 0 then (- b 0) % 65536 else (b (i - 1) - b i) % 65536

/-! ### Validity checks of decryption: 0 accepts, 1 rejects -/

def checkC (logq n len : ℕ) (c : Seq) : ℤ :=
  if (logq * (n - 1)) % 8 = 0 then 0 else (if c (len - 1) / 2 ^ ((logq * (n - 1)) % 8) = 0 then 0 else 1)

-- @opaque len=1 seq=r:n range=0..1
def checkR (n q : ℕ) (r : Seq) : ℤ :=
  if anyTo (n - 1) (fun i => ¬ (r i % q = 0 ∨ r i % q = 1 ∨ r i % q = q - 1)) ∨ r (n - 1) ≠ 0 then 1 else 0

-- @opaque len=1 seq=m:n range=0..1
def checkM (n w : ℕ) (m : Seq) : ℤ :=
  let ps := sumTo n (fun i => if m i = 1 then 1 else 0)
  let ms := sumTo n (fun i => if m i = 2 then 1 else 0)
  if ps = w / 2 ∧ ms = w / 2 then 0 else 1

/-! ### Primitives from other crates -/

-- @opaque len=32 seq=msg:len range=0..255
opaque sha3 (len : ℕ) (msg : Seq) : Seq

-- @opaque len=16 seq=key:32,blk:16 range=0..255
opaque aes256 (key blk : Seq) : Seq

/-- concatenation: la values of a, then b -/
def app (la : ℕ) (a b : Seq) : Seq := fun i => if i < la then a i else b (i - la)

def drop (k : ℕ) (a : Seq) : Seq := fun i => a (i + k)

/-- b = 0 keeps r, b = 1 takes x -/
def choose (b : ℤ) (x r : Seq) : Seq := fun i => if b = 0 then r i else x i

def sha3of (len : ℕ) (msg : Seq) : Seq := sha3 len msg

/-! ### Key generation, encryption, decryption -/

def keyPk (n logq : ℕ) (g h : Seq) : Seq := packq n logq (conv n (conv n (rqInv n (conv n g h)) g) g)

def keySk3 (n logq : ℕ) (g h : Seq) : Seq := packq n logq (sqMul n (conv n (rqInv n (conv n g h)) h) h)

def encHps (n q logq : ℕ) (r m pk : Seq) : Seq :=
  packq n logq (addSeq (conv n r (unpackSumZero n logq pk)) (z3ToZq q m))

def encHrss (n q logq : ℕ) (r m pk : Seq) : Seq :=
  packq n logq (addSeq (conv n r (unpackSumZero n logq pk)) (liftHrss n q m))

/-- the message that decryption recovers -/
def decM (n q logq pt : ℕ) (c sk : Seq) : Seq :=
  s3Mul n (rqToS3 n q (conv n (unpackSumZero n logq c) (z3ToZq q (unpack3 n sk)))) (unpack3 n (drop pt sk))

def decR (n logq pt : ℕ) (c sk lm : Seq) : Seq :=
  sqMul n (subSeq (unpackSumZero n logq c) lm) (unpackq n logq (drop (2 * pt) sk))

def rmBytes (n q pt : ℕ) (r m : Seq) : Seq := app pt (pack3 n (zqToZ3 q r)) (pack3 n m)

def anyFail (a b c : ℤ) : ℤ := if a = 0 ∧ b = 0 ∧ c = 0 then 0 else 1

def decRmHps (n q logq pt : ℕ) (c sk : Seq) : Seq :=
  let m := decM n q logq pt c sk
  rmBytes n q pt (decR n logq pt c sk (z3ToZq q m)) m

def decFailHps (n q logq pt w len : ℕ) (c sk : Seq) : ℤ :=
  let m := decM n q logq pt c sk
  anyFail (checkC logq n len c) (checkM n w m) (checkR n q (decR n logq pt c sk (z3ToZq q m)))

def decRmHrss (n q logq pt : ℕ) (c sk : Seq) : Seq :=
  let m := decM n q logq pt c sk
  rmBytes n q pt (decR n logq pt c sk (liftHrss n q m)) m

def decFailHrss (n q logq pt len : ℕ) (c sk : Seq) : ℤ :=
  let m := decM n q logq pt c sk
  anyFail (checkC logq n len c) 0 (checkR n q (decR n logq pt c sk (liftHrss n q m)))

/-- key returned by decapsulation: hash of the message, or of the PRF key and the ciphertext -/
def decKey (pt ct osk : ℕ) (fail : ℤ) (rm c sk : Seq) : Seq :=
  choose fail (sha3 (32 + ct) (app 32 (drop osk sk) c)) (sha3 (2 * pt) rm)

/-! ### Random number generator: AES-256 in counter mode, big-endian 128-bit counter -/

/-- value of a 16-byte big-endian number -/
def ctrVal (v : Seq) : ℤ := sumTo 16 (fun i => v i * 256 ^ (15 - i))

/-- 16-byte big-endian number v plus k, modulo 2^128 (theorem ctrAdd_val); the first case is the form
    the engine compares with the code -/
def ctrAdd (k : ℕ) (v : Seq) : Seq :=
  fun i => if k ≤ 256 then (if i = 15 then (v 15 + k) % 256 else (if anyTo (14 - i) (fun j => v (i + 1 + j) ≠ 255) ∨ v 15 + k < 256 then v i else (v i + 1) % 256)) else (ctrVal v + k) / 256 ^ (15 - i) % 256

def xor8 (a b : ℤ) : ℤ := sumTo 8 (fun k => (a / 2 ^ k % 2 + b / 2 ^ k % 2) % 2 * 2 ^ k)

def aesBlk (key v : Seq) : Seq := aes256 key v

/-- bytes of a request: encrypted counters v+1, v+2, ... -/
def rngOut (key v : Seq) : Seq := fun i => aesBlk key (ctrAdd (i / 16 + 1) v) (i % 16)

/-- key and counter after b more blocks: the three blocks that follow -/
def rngKey (b : ℕ) (key v : Seq) : Seq := fun i => aesBlk key (ctrAdd (b + 1 + i / 16) v) (i % 16)

def rngV (b : ℕ) (key v : Seq) : Seq := fun i => aesBlk key (ctrAdd (b + 3) v) i

def rngCount (c : Seq) : Seq := fun _ => (c 0 + 2147483649) % 4294967296 - 2147483648

/-- state after seeding: the first three blocks under the zero key, xor the seed -/
def seedKey (e : Seq) : Seq := fun i => xor8 (aesBlk (cst 0) (ctrAdd (1 + i / 16) (cst 0)) (i % 16)) (e i)

def seedV (e : Seq) : Seq := fun i => xor8 (aesBlk (cst 0) (ctrAdd 3 (cst 0)) i) (e (32 + i))

end

end Ntru
