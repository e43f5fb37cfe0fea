"""Lean theorems about the specification functions: what meeting the contracts is worth.

The theorems do not mention /repo: they are compiled when one of the two source files has changed
(key: content of the files and version of lean) and the result is kept in build/lean-KEY.
"""
import hashlib, os, re, shutil, tempfile
from vlib import *

AXIOMS = {"propext", "Classical.choice", "Quot.sound"}
SETS = ["ntruhps2048509", "ntruhps2048677", "ntruhps4096821", "ntruhrss701"]
INV = ["par509", "par677", "par821", "par701"]
RANGES = ["conv_range", "conv_comm", "conv_le", "r2inv_range", "s3inv_range", "sampleFixed_tern", "sampleIidPlus_tern", "fixedKey_range"]
HASH = ("Lean theorems: hypothesis HashLocal, the value of sha3 depends only on the bytes below the length it is given")
NZ = ("Lean theorems: the sampled f (and g of HRSS) is not the zero polynomial, i.e. some sampling byte is not a multiple of 3 "
      "(probability of the contrary below 2^-800)")

THEOREMS = {
    "C01": ["agree_" + s for s in SETS] + RANGES,
    "C02": ["reject_" + s for s in SETS] + RANGES,
    "C03": ["hps_key", "hrss_key", "Keys.h_f", "Keys.hinv", "s3inv_correct", "rqInv_correct"] + INV + RANGES,
    "C04": ["Keys.enc_eq", "decode_encode", "packq_padding", "sampleIid_tern", "sampleFixed_weight"] + RANGES,
    "C05": ["Keys.rigid", "Keys.decR_eq", "Keys.decM_eq", "checkR_iff"] + RANGES,
    "C08": ["unpackq_packq", "packq_unpackq", "packq_padding", "packq_range", "decode_encode"],
    "C09": ["unpack3_pack3", "unpack3_range", "unpack3_last"],
    "C10": ["sampleIid_tern", "sampleFixed_tern", "sampleFixed_weight", "sampleIidPlus_tern", "sampleIidPlus_corr"],
    "C11": ["zero_one", "sorted_unique", "sortAsc_perm", "sortAsc_ascending", "fixedKey_range"],
    "C12": ["ctrAdd_val", "ctrAdd_num", "ctrAdd_succ", "rngOut_step", "rngKey_step", "rngV_step"],
    "C14": ["π_conv", "conv_range", "conv_comm", "conv_le", "dx_divXm1", "lift_dx", "centre_eq"],
    "C15": ["rqInv_mul", "s3inv_mul", "r2inv_correct", "s3inv_correct", "rqInv_correct", "r2inv_range", "s3inv_range"] + INV,
}
ASSUME = {"C01": [HASH, NZ], "C02": [HASH, NZ], "C03": [NZ], "C05": [NZ],
          "C12": ["Lean theorems: the value of aes256 depends only on the 16 bytes of the block"]}


def names():
    return sorted({t for ts in THEOREMS.values() for t in ts})


def build():
    """directory with report.txt: axioms of every listed theorem"""
    src = [open(os.path.join(VERIF, "spec", f)).read() for f in ("NtruSpec.lean", "NtruThm.lean")]
    probe = "import NtruThm\nopen Ntru\n" + "".join("#check @Ntru.%s\n#print axioms Ntru.%s\n" % (t, t) for t in names())
    code, ver, err = sh(["lean", "--version"], 60)
    if code != 0:
        return None
    key = hashlib.sha256("\0".join(src + [probe, ver]).encode()).hexdigest()[:16]
    out = os.path.join(BUILD, "lean-" + key)
    if os.path.exists(os.path.join(out, "report.txt")):
        return out
    os.makedirs(BUILD, exist_ok=True)
    tmp = tempfile.mkdtemp(prefix="lean-tmp-", dir=BUILD)
    try:
        for n, t in zip(("NtruSpec", "NtruThm", "Probe"), src + [probe]):
            open(os.path.join(tmp, n + ".lean"), "w").write(t)
        for n in ("NtruSpec", "NtruThm", "Probe"):
            code, o, err = sh(["lean", "-o", os.path.join(tmp, n + ".olean"), n + ".lean"], 600, {"LEAN_PATH": tmp}, cwd=tmp)
            if code is None:
                return None
            if code != 0 or "declaration uses" in o + err:
                raise CheckError("lean rejects %s: %s" % (n, (o + err)[-1500:]))
        open(os.path.join(tmp, "report.txt"), "w").write(o)
        try:
            os.rename(tmp, out)
        except OSError:
            pass
        return out
    finally:
        if os.path.isdir(tmp):
            shutil.rmtree(tmp, ignore_errors=True)


def check(prop):
    ts = THEOREMS.get(prop)
    if not ts:
        return {}
    out = build()
    if out is None:
        return {"theorems": ts, "theorems_total": len(ts), "theorems_ok": 0, "note": "lean did not finish: the theorems were not checked in this run", "assumptions": ["the Lean theorems listed under coverage.lean"]}
    rep = re.sub(r"\s+", " ", open(os.path.join(out, "report.txt")).read())
    ok = []
    for t in ts:
        m = re.search(r"'Ntru\.%s' (does not depend on any axioms|depends on axioms: \[([^\]]*)\])" % re.escape(t), rep)
        if not m:
            raise CheckError("theorem %s not found" % t)
        if m[2] and not {a.strip() for a in m[2].split(",")} <= AXIOMS:
            raise CheckError("theorem %s depends on axioms %s" % (t, m[2]))
        ok.append(t)
    return {"theorems": ts, "theorems_total": len(ts), "theorems_ok": len(ok), "axioms": sorted(AXIOMS), "assumptions": ASSUME.get(prop, [])}


if __name__ == "__main__":
    print(build())
    for p in sorted(THEOREMS):
        r = check(p)
        print(p, r["theorems_ok"], "of", r["theorems_total"])
