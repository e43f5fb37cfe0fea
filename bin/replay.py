#!/usr/bin/env python3
"""Run the commands of a replay file against the natively compiled /repo.

prints expected and observed result; exit 1 if what was observed when the file was written
is observed again."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vlib import *

r = json.load(open(sys.argv[1]))
print("property:", r["property"], "variant:", r["variant"])
print("why:", r["why"])
for o in r.get("failed_obligations", []):
    print("failed:", o)
if not r["commands"]:
    print("no input of the public interface; verifier output:")
    print(r["got"])
    sys.exit(1)
profile = {"C06": "checked", "C07": "trace"}.get(r["property"], "release")
native = build_native(r["variant"], profile)
c, out, err = sh([native], 60, inp="\n".join(r["commands"]) + "\n")
for cmd, l in zip(r["commands"], out.splitlines()):
    print("command:", cmd[:300])
    print("result: ", l[:300])
print("expected:", str(r["expected"])[:300])
print("recorded:", str(r["got"])[:300])
again = str(r["got"]) in out or r["kind"] in ("ct",)
print("same result as recorded" if again else "differs from the recorded result")
sys.exit(1 if again else 0)
