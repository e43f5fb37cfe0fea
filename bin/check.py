#!/usr/bin/env python3
"""Decide one property on the current working tree of /repo.

usage: check.py PROPERTY
exit 0: holds; exit 1: VIOLATION line printed; anything else: the check could not be carried out.
"""
import concurrent.futures as cf
import hashlib, json, os, sys, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vlib, lean
from vlib import *
from props import PROPS

T0 = time.time()
# contracts that fix one of several representatives; the properties need only one of them
EXACT = {"r2_to_rq_inv", "rq_inv"}
LIMIT = 780  # seconds until every sub-step must have ended


def left():
    return LIMIT - (time.time() - T0)


class Result:
    def __init__(self, variant):
        self.variant = variant
        self.status = None      # proved | violated | bounded
        self.nfi = False        # no failing input found
        self.replay = None
        self.notes = []
        self.runs = []          # verifier outputs
        self.trials = {}        # native runs per search


def fails(r, cats):
    """(contract, obligation) pairs that are not discharged, refuted ones first"""
    out = []
    for c in r["contracts"]:
        for o in c["obs"]:
            if o["ok"] != o["n"] and o["cat"] in cats and o["fail"]:
                out.append((c, o))
    out.sort(key=lambda x: not x[1]["fail"]["refuted"])
    return out


def api_commands(r):
    """inputs of the public interface found by the verifier, as native commands"""
    out = []
    base = {"kem_keypair_core": "kem_keypair", "kem_dec_accept": "kem_dec"}
    for c in r["contracts"]:
        if not c["api"]:
            continue
        for o in c["obs"]:
            for k in ("input", "input2"):
                if o["fail"] and o["fail"].get(k):
                    out.append(base.get(c["name"], c["name"]) + "".join(" %s=%s" % (n, h) for n, h in o["fail"][k].items()))
    return out


def describe(c, o):
    return "obligation '%s' of contract %s (%s): %s/%s discharged; %s" % (o["name"], c["name"], c["path"], o["ok"], o["n"], (o["fail"] or {}).get("why", ""))


def decide(prop, p, variant, seed, thorough):
    res = Result(variant)
    goals = p["goals"] + p.get("hps" if variant in HPS else "hrss", [])
    api = p.get("api", goals)
    cat = {"functional": "fun"}.get(p["cats"], p["cats"])
    private = "api" in p
    with cf.ThreadPoolExecutor(4) as ex:
        nat_f = None
        if p["search"] or cat == "ct":
            nat_f = ex.submit(build_native, variant, p.get("native", "release"))
        ir = build_ir(variant)
        # a first search runs next to the proof
        early = []
        if p.get("always"):
            native = nat_f.result()
            ms = (60000 if thorough else p.get("ms", 8000)) // len(p["search"])
            def go():
                out = []
                for w in p["search"]:
                    out.append((w, search(variant, native, w, seed, ms)))
                    if out[-1][1]["found"]:
                        break
                return out
            early_f = ex.submit(go)
        ver_f = ex.submit(verify, variant, ir, goals, p["cats"], seed, min(420, left()), cat == "fun",
                          native=nat_f.result() if cat == "ct" else None)
        if p.get("always"):
            early = early_f.result()
            for w, s in early:
                res.trials[w] = res.trials.get(w, 0) + s.get("trials", 0)
                if s["found"]:
                    # give the verifier some time to name the obligation that fails
                    try:
                        r = ver_f.result(timeout=min(200, left()))[0]
                    except cf.TimeoutError:
                        r = None
                    return violated(res, prop, variant, s, r)
                if s.get("error") and not STOP.is_set():
                    raise CheckError("search %s: %s" % (w, s["error"]))
        r, why = ver_f.result()
    if r:
        res.runs.append(r)
        if r["all_ok"]:
            limited(res, r)
            if res.status == "bounded" and p["search"]:
                for w in p["search"]:
                    s = search(variant, nat_f.result(), w, seed + 1, 40000 // len(p["search"]))
                    res.trials[w] = res.trials.get(w, 0) + s.get("trials", 0)
                    if s["found"]:
                        return violated(res, prop, variant, s, r)
            return res
        for u in r["unresolved"]:
            res.notes.append("contract %s not applicable: %s" % (u["name"], u["note"]))
    else:
        res.notes.append(why)
    bad = fails(r, [cat]) if r else []
    if cat == "fun":
        pass
    for c, o in bad[:6]:
        res.notes.append(describe(c, o))
    for c in (r["contracts"] if r else []):
        if c["error"]:
            res.notes.append("contract %s: %s" % (c["name"], c["error"]))
    refuted = [(c, o) for c, o in bad if o["fail"]["refuted"]]
    # what was refuted on the public interface itself
    if cat == "ct":
        hit = [(c, o) for c, o in refuted if c["api"]]
        if hit:
            c, o = hit[0]
            f = o["fail"]
            base = {"kind": "ct", "why": f["why"], "commands": ["%s%s" % (c["name"], "".join(" %s=%s" % x for x in i.items())) for i in (f["input"], f["input2"]) if i],
                    "expected": "the same branches and addresses for both inputs", "got": describe(c, o)}
            return violated(res, prop, variant, base, r)
    # search for an input of the public interface
    native = nat_f.result() if nat_f else None
    first = api_commands(r) if r else []
    if native and p["search"]:
        ms = 40000 if refuted else 20000
        for w in p["search"]:
            m = min(ms, max(5, left() - 60) * 1000)
            s = search(variant, native, w, seed + 1, int(m / len(p["search"]) * 1.5), first)
            res.trials[w] = res.trials.get(w, 0) + s.get("trials", 0)
            if s["found"]:
                return violated(res, prop, variant, s, r)
            if s.get("error"):
                res.notes.append("search %s: %s" % (w, s["error"]))
    # does the public interface still meet its contracts when failing contracts are not used?
    r2 = None
    if (private or (r and r["stopped"])) and left() > 90 and not STOP.is_set():
        r2, why = verify(variant, ir, api, p["cats"], seed, min(330, left() - 45))
        if r2:
            res.runs.append(r2)
            if r2["all_ok"]:
                limited(res, r2)
                res.notes.append("the public interface meets its contracts; contracts of private functions listed above no longer apply and were replaced by the code")
                return res
            first = api_commands(r2)
            if native and first:
                for w in p["search"]:
                    s = search(variant, native, w, seed + 2, 15000, first, n=3 * len(first) + 20)
                    if s["found"]:
                        return violated(res, prop, variant, s, r2)
            refuted += [(c, o) for c, o in fails(r2, [cat]) if o["fail"]["refuted"]]
        else:
            res.notes.append(why)
    refuted = [(c, o) for c, o in refuted if c["name"] not in EXACT and not c["note"].startswith("guess")]
    if refuted:
        c, o = refuted[0]
        res.nfi = True
        return violated(res, prop, variant, {"kind": "obligation", "why": describe(c, o), "commands": [], "expected": o["name"], "got": json.dumps(o["fail"])}, r2 or r)
    res.status = "bounded"
    return res


def limited(res, r):
    """all obligations discharged; were they generated for all inputs?"""
    b = [c for c in r["contracts"] if c.get("bounded")]
    res.status = "bounded" if b else "proved"
    for c in b:
        res.notes.append("contract %s: %s" % (c["name"], c["bounded"]))


def violated(res, prop, variant, s, r):
    res.status = "violated"
    res.replay = {"property": prop, "variant": variant, "kind": s.get("kind"), "why": s.get("why"),
                  "commands": s.get("commands", []), "expected": s.get("expected"), "got": s.get("got"),
                  "search": s.get("what"),
                  "how": "python3 %s/bin/replay.py THIS_FILE runs the commands against the natively compiled /repo" % VERIF}
    if r:
        res.replay["failed_obligations"] = [describe(c, o) for c, o in fails(r, ["fun", "panic", "ct", "rng", "indep"])][:20]
        res.replay["function_counterexamples"] = [{"contract": c["name"], "path": c["path"], "input": o["fail"]["input"]} for c, o in fails(r, ["fun", "panic", "ct", "rng", "indep"]) if o["fail"]["refuted"] and o["fail"]["input"]][:3]
        if not res.replay["failed_obligations"]:
            res.replay["failed_obligations"] = ["obligations of contract %s (%s) cannot be generated: %s" % (c["name"], c["path"], c["error"]) for c in r["contracts"] if c["error"]]
            res.notes.append("input found by the search")
    else:
        res.replay["failed_obligations"] = ["the obligations of the property's contracts were not discharged before the verifier was stopped"]
    if not res.nfi:
        kill_all()
    return res


def summarize(prop, p, results, tier, seed, lean_info):
    cat = {"functional": "fun"}.get(p["cats"], p["cats"])
    n = ok = 0
    backends, per, inlined, z3ms, z3q, steps = {}, [], set(), 0, 0, 0
    under, executed, allf = set(), set(), set()
    for res in results:
        for r in res.runs[-1:]:
            z3ms += r["stats"]["z3_ms"]
            z3q += r["stats"]["z3_queries"]
            allf |= set(r["functions"])
            for c in r["contracts"]:
                if not c["ok"]:
                    continue
                cats = {"fun", cat}
                a = sum(o["n"] for o in c["obs"] if o["cat"] in cats)
                b = sum(o["ok"] for o in c["obs"] if o["cat"] in cats)
                n += a
                ok += b
                steps += c["steps"]
                under.add(c["path"])
                executed |= set(c["executed"])
                for o in c["obs"]:
                    if o["cat"] in cats:
                        for k, v in o["backends"].items():
                            backends[k] = backends.get(k, 0) + v
                per.append({"variant": res.variant, "contract": c["name"], "function": c["path"], "obligations": a, "discharged": b, "ms": c["ms"], "uses": c["used"]})
                for k, v in c["inlined"].items():
                    inlined.add("%s: call of %s executed instead of using its contract (%s)" % (c["name"], k, v))
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "proof",
        "coverage": {
            "obligations": n + lean_info.get("theorems_total", 0), "discharged": ok + lean_info.get("theorems_ok", 0),
            "checker_cmd": "%s verify (per variant) on LLVM IR of /repo; %s%s" % (IRV, solver(), "; lean" if lean_info else ""),
            "trusted_base": TRUSTED,
            "functions_under_contract": sorted(under),
            "functions_executed_inside_contracts": sorted(executed),
            "functions_of_the_crate_not_involved": sorted(allf - executed - {"ntrust_native::" + u for u in under}),
            "discharged_by": backends, "z3_queries": z3q, "solver_time_ms": z3ms, "instructions_executed": steps,
            "contracts": per, "calls_inlined": sorted(inlined), "lean": lean_info,
            "status_per_variant": {r.variant: r.status for r in results},
            "native_runs": {r.variant: r.trials for r in results},
            "notes": {r.variant: r.notes for r in results if r.notes},
        },
        "wall_s": round(time.time() - T0, 1),
        "assumptions": ASSUMPTIONS + lean_info.get("assumptions", []),
        "violations": 0,
    }
    return ev


def solver():
    z = "/usr/local/bin/z3-new"
    z = z if os.path.exists(z) else "z3"
    return sh([z, "--version"], 20)[1].strip() or z


TRUSTED = [
    "rustc front end up to LLVM IR (flags in bin/vlib.py), LLVM code generation after it",
    "the verifier in engine/ (IR semantics, normal forms, matching of loops with the division step specification, reading of the sorter as a comparator network)",
    solver(),
    "Lean 4 kernel and Mathlib (theorems about the specification functions: ranges used by the verifier, 0-1 principle, inverses, codecs, decryption correctness)",
]
ASSUMPTIONS = [
    "crates aes and tiny-keccak compute AES-256 and SHA3-256 (uninterpreted functions aes256, sha3)",
    "memory model of safe Rust: references passed to a function do not alias, a pointer with variable offset stays inside its object (the crate contains no unsafe code; checked on every run)",
    "undefined (never read) bytes may be refined to any value when branches merge",
]


def unsafe_free():
    import re
    for d, _, fs in os.walk(os.path.join(REPO, "src")):
        for f in fs:
            if f.endswith(".rs"):
                t = open(os.path.join(d, f), errors="replace").read()
                t = re.sub(r"//[^\n]*|/\*.*?\*/", "", t, flags=re.S)
                if re.search(r"\bunsafe\b", re.sub(r'"(\\.|[^"\\])*"', '""', t)):
                    return False
    return True


def main():
    prop = sys.argv[1]
    p = PROPS[prop]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1) % (1 << 32)
    tier = os.environ.get("VERIF_TIER", "quick")
    thorough = tier == "thorough" or "--thorough" in sys.argv
    variants = HPS if p.get("only") == "hps" else VARIANTS
    os.makedirs(BUILD, exist_ok=True)
    build_engine()
    results = []
    err = None
    with cf.ThreadPoolExecutor(8) as ex:
        lf = ex.submit(lean.check, prop)
        fs = {ex.submit(decide, prop, p, v, seed, thorough): v for v in variants}
        for f in cf.as_completed(fs):
            try:
                r = f.result()
                results.append(r)
                if r.status == "violated" and not r.nfi:
                    kill_all()
            except Exception as e:  # noqa
                if not STOP.is_set():
                    err = e
        try:
            lean_info = lf.result()
        except CheckError as e:
            lean_info = {}
            if not STOP.is_set():
                err = e
    results.sort(key=lambda r: r.variant)
    bad = [r for r in results if r.status == "violated"]
    bad.sort(key=lambda r: r.nfi)
    if not bad and err:
        raise err
    ev = summarize(prop, p, results, "thorough" if thorough else "quick", seed, lean_info)
    if not unsafe_free():
        ev["assumptions"].append("the crate now contains unsafe code: the memory-model assumption is not checked for it")
    edir = os.path.join(VERIF, "evidence")
    os.makedirs(edir, exist_ok=True)
    if bad:
        b = bad[0]
        ev["violations"] = len(bad)
        ev["coverage"]["violation_details"] = [{"variant": r.variant, "why": r.replay["why"], "no_failing_input": r.nfi} for r in bad]
        text = json.dumps(b.replay, indent=1)
        path = os.path.join(edir, "replay-%s-%s.json" % (prop, hashlib.sha256(text.encode()).hexdigest()[:10]))
        open(path, "w").write(text)
        json.dump(ev, open(os.path.join(edir, prop + ".json"), "w"), indent=1)
        for n in b.notes[:8]:
            print("note:", b.variant, n[:400])
        print("why: %s: %s" % (b.variant, b.replay["why"]))
        print("VIOLATION property=%s replay=%s%s" % (prop, path, " no-failing-input-found" if b.nfi else ""))
        return 1
    if any(r.status == "bounded" for r in results):
        ev["coverage"]["bounded"] = "no proof for %s: comparison with the specification on the number of runs in native_runs only" % ", ".join(r.variant for r in results if r.status == "bounded")
        ev["coverage"]["explanation"] = ev["coverage"]["bounded"]
        ev["level"] = "other"
    elif lean_info.get("note"):
        ev["level"] = "other"
        ev["coverage"]["explanation"] = lean_info["note"]
    elif ev["coverage"]["obligations"] < 50:
        raise CheckError("only %d obligations generated" % ev["coverage"]["obligations"])
    json.dump(ev, open(os.path.join(edir, prop + ".json"), "w"), indent=1)
    for r in results:
        for n in r.notes[:8]:
            print("note:", r.variant, n[:300])
    print("%s holds: %d obligations discharged in %d contracts, %s, %.1f s" % (prop, ev["coverage"]["discharged"], len(ev["coverage"]["contracts"]), {r.variant: r.status for r in results}, time.time() - T0))
    return 0


if __name__ == "__main__":
    try:
        code = main()
    except CheckError as e:
        kill_all()
        print("ERROR:", e, file=sys.stderr)
        code = 2
    except Exception:
        kill_all()
        import traceback
        traceback.print_exc()
        code = 3
    sys.stdout.flush()
    os._exit(code)
