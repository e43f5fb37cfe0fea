"""Shared parts of the check driver: building, running the verifier, searching, replaying."""
import json, os, re, shutil, signal, subprocess, sys, threading, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
BUILD = os.path.join(VERIF, "build")
SPEC = os.path.join(VERIF, "spec", "NtruSpec.lean")
CONTRACTS = os.path.join(VERIF, "spec", "contracts.txt")
IRV = os.path.join(VERIF, "engine", "target", "release", "irv")
VARIANTS = ["ntruhps2048509", "ntruhps2048677", "ntruhps4096821", "ntruhrss701"]
HPS = VARIANTS[:3]

# rustc flags of the verified build: MIR inlining and LLVM passes off so that every function of
# the crate is present, overflow checks on so that every overflow is an explicit panic edge
IR_FLAGS = ("-C opt-level=3 -C no-prepopulate-passes -C overflow-checks=on -C debug-assertions=off "
            "-C codegen-units=1 -C panic=abort -Zinline-mir=no -Zshare-generics=no "
            "-C symbol-mangling-version=v0 --emit=llvm-ir,link")


class CheckError(Exception):
    """the check could not be carried out (not a violation)"""


def env():
    e = dict(os.environ)
    e["PATH"] = "/root/.cargo/bin:" + e.get("PATH", "/usr/bin:/bin")
    e["RUSTUP_TOOLCHAIN"] = "stable-x86_64-unknown-linux-gnu"
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_PROFILE_DEV_DEBUG"] = "0"
    for k in ("RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS", "CARGO_BUILD_TARGET", "CARGO_TARGET_DIR"):
        e.pop(k, None)
    return e


PROCS = set()
LOCK = threading.Lock()
STOP = threading.Event()


def sh(cmd, timeout, extra=None, cwd=VERIF, inp=None):
    """run a command in its own process group; (code, stdout, stderr); code None on timeout"""
    e = env()
    e.update(extra or {})
    p = subprocess.Popen(cmd, cwd=cwd, env=e, stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                         stderr=subprocess.PIPE, text=True, start_new_session=True)
    with LOCK:
        PROCS.add(p)
    try:
        out, err = p.communicate(inp or "", timeout=max(timeout, 1))
        return p.returncode, out, err
    except subprocess.TimeoutExpired:
        kill(p)
        out, err = p.communicate()
        return None, out, err
    finally:
        with LOCK:
            PROCS.discard(p)


def kill(p):
    try:
        os.killpg(p.pid, signal.SIGKILL)
    except (ProcessLookupError, PermissionError):
        pass


def kill_all():
    STOP.set()
    with LOCK:
        for p in list(PROCS):
            kill(p)


def build_engine():
    c, out, err = sh(["cargo", "build", "--release", "--offline", "--manifest-path",
                      os.path.join(VERIF, "engine", "Cargo.toml")], 600)
    if c != 0:
        raise CheckError("building the verifier failed:\n" + err[-3000:])


def forget(target, profile):
    """make cargo recompile the repository and the harness, whatever time stamps say"""
    fp = os.path.join(target, profile, ".fingerprint")
    if os.path.isdir(fp):
        for d in os.listdir(fp):
            if d.startswith("ntrust-native-") or d.startswith("vp-harness-"):
                shutil.rmtree(os.path.join(fp, d), ignore_errors=True)


def build_ir(variant):
    """compile /repo and the harness; returns the two LLVM IR files"""
    target = os.path.join(BUILD, variant)
    os.makedirs(target, exist_ok=True)
    forget(target, "debug")
    t0 = time.time()
    c, out, err = sh(["cargo", "build", "--offline", "--lib", "--message-format=json",
                      "--manifest-path", os.path.join(VERIF, "harness", "Cargo.toml"),
                      "--features", variant], 400,
                     {"RUSTC_BOOTSTRAP": "1", "RUSTFLAGS": IR_FLAGS, "CARGO_TARGET_DIR": target})
    if c != 0:
        raise CheckError("building %s failed:\n%s" % (variant, err[-3000:]))
    files = {}
    for l in out.splitlines():
        try:
            m = json.loads(l)
        except ValueError:
            continue
        if m.get("reason") != "compiler-artifact":
            continue
        name = m["target"]["name"].replace("-", "_")
        if name in ("ntrust_native", "vp_harness") and "custom-build" not in m["target"]["kind"]:
            for f in m["filenames"]:
                g = re.search(r"lib%s-([0-9a-f]+)\.(?:rlib|rmeta)$" % name, f)
                if g:
                    files[name] = os.path.join(target, "debug", "deps", "%s-%s.ll" % (name, g.group(1)))
    res = []
    for name in ("ntrust_native", "vp_harness"):
        f = files.get(name)
        if not f or not os.path.exists(f):
            raise CheckError("no LLVM IR for %s (%s)" % (name, variant))
        if os.path.getmtime(f) < t0 - 2:
            raise CheckError("stale LLVM IR %s" % f)
        res.append(f)
    return res


# integer functions of core whose branches do not count (see int_helper in exec.rs)
INT_HELPER = re.compile(r"^<[iu](8|16|32|64|128|size)( as core::cmp::(Partial)?Ord>::\w+|>::(abs|unsigned_abs|wrapping_abs|abs_diff"
                        r"|signum|(wrapping_)?(rem|div)_euclid))$")


def build_native(variant, profile):
    """the same crate as a native program; profile release, checked (overflow checks on) or trace
    (not optimised, reports a hash of the sequence of branches taken)"""
    target = os.path.join(BUILD, variant, "native")
    os.makedirs(target, exist_ok=True)
    forget(target, profile)
    env = {"CARGO_TARGET_DIR": target}
    if profile == "trace":
        obj = os.path.join(BUILD, variant, "trace.o")
        c, out, err = sh(["gcc", "-O2", "-c", "-o", obj, os.path.join(VERIF, "harness", "trace.c")], 60)
        if c != 0:
            raise CheckError("gcc: " + err[-1000:])
        env["CARGO_TARGET_DIR"] = target = os.path.join(BUILD, variant, "traced")
        forget(target, profile)
        env["RUSTFLAGS"] = "--cfg vp_trace -C passes=sancov-module -C llvm-args=-sanitizer-coverage-level=3 -C llvm-args=-sanitizer-coverage-trace-pc-guard -C codegen-units=1 -C link-arg=" + obj
    c, out, err = sh(["cargo", "build", "--offline", "--profile", profile, "--bin", "vpnative",
                      "--manifest-path", os.path.join(VERIF, "harness", "Cargo.toml"),
                      "--features", variant], 400, env)
    if c != 0:
        raise CheckError("building native %s failed:\n%s" % (variant, err[-3000:]))
    exe = os.path.join(target, profile, "vpnative")
    if profile == "trace":
        c, out, err = sh(["nm", "-C", "-S", exe], 60)
        if c != 0:
            raise CheckError("nm: " + err[-1000:])
        with open(exe + ".skip", "w") as f:
            for l in out.splitlines():
                w = l.split(None, 3)
                if len(w) == 4 and INT_HELPER.match(w[3]):
                    f.write("%s %s\n" % (w[0], w[1]))
    return exe


def verify(variant, ir, goals, cats, seed, timeout, stop=False, deep=False, native=None):
    """run the verifier; parsed result or None on timeout/crash (with reason)"""
    out = os.path.join(BUILD, variant, "irv-%s-%d.json" % (cats.replace(",", "_"), threading.get_ident()))
    if os.path.exists(out):
        os.remove(out)
    cmd = [IRV, "verify", "--ir", ir[0], "--ir", ir[1], "--spec", SPEC, "--contracts", CONTRACTS,
           "--variant", variant, "--goals", ",".join(goals), "--cats", cats, "--seed", str(seed),
           "--json", out, "--stop", "1" if stop else "0", "--deep", "1" if deep else "0"]
    if native:
        cmd += ["--native", native]
    c, o, e = sh(cmd, timeout)
    if c is None:
        return None, "verifier stopped after %d s" % timeout
    if c != 0 or not os.path.exists(out):
        return None, "verifier exit %s: %s" % (c, e[-600:])
    with open(out) as f:
        r = json.load(f)
    os.remove(out)
    return r, ""


def search(variant, native, what, seed, ms, first=(), n=None):
    cmd = [IRV, "search", "--spec", SPEC, "--contracts", CONTRACTS, "--variant", variant,
           "--native", native, "--what", what, "--ms", str(ms), "--seed", str(seed)]
    if n is not None:
        cmd += ["--n", str(n)]
    c, o, e = sh(cmd, ms / 1000 + 60, inp="\n".join(first) + "\n")
    if c in (0, 1) and o.strip():
        return json.loads(o.strip().splitlines()[-1])
    return {"found": False, "trials": 0, "error": (e or "")[-400:] or "no result"}
