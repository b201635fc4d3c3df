#!/usr/bin/env python3
"""replay.py FILE: runs one recorded counterexample against a native build (ASan, UBSan) of /repo's current sources."""
import sys, json, shutil
from concurrent.futures import ThreadPoolExecutor
import check
d = json.load(open(sys.argv[1]))
c = check.Checker(d["property"], "quick")
try:
    c.build_native(ThreadPoolExecutor(8), [check.VERIF + "/harness/" + h for h in d["harness"].split()]); c.native_done.wait()
    if not c.native: print(c.native_err); sys.exit(2)
    rc, so, se = c.run_native(d["fn"], d["args"], d["inputs"], d["native"]["jitter"], 1e-7 if d["kind"] == "witness" else None)
    print(so, se); print("exit", rc); sys.exit(1 if rc else 0)
finally:
    shutil.rmtree(c.work, ignore_errors=True)
