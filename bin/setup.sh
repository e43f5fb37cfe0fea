#!/bin/bash
# build the verifier, the IR and the native runners once, so that later checks only rebuild the repository
set -e
cd "$(dirname "$0")/.."
python3 - <<'P'
import sys
sys.path.insert(0, "bin")
from vlib import *
import concurrent.futures as cf
import lean
build_engine()
with cf.ThreadPoolExecutor(5) as ex:
    lf = ex.submit(lean.build)
    def one(v):
        build_ir(v); build_native(v, "release"); build_native(v, "checked"); build_native(v, "trace")
    list(ex.map(one, VARIANTS))
    lf.result()
print("ready")
P
