#!/usr/bin/env python3
"""Replays a counterexample written by check.py against a native build of /repo: replay.py FILE; exit 1 if it still fails."""
import json, os, sys, tempfile, shutil
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import check, props
r = json.load(open(sys.argv[1]))
unit = next(u for u in props.PROPS[r["property"]]["units"] if u["harness"] == r["unit"] and any(e["entry"] == r["entry"] for e in u["entries"]))
os.makedirs(check.BUILD, exist_ok=True)
wd = tempfile.mkdtemp(dir=check.BUILD)
try:
    exe = check.compile_native(unit, wd, "replay", r["flavor"])
    n = check.native_run(exe, r["entry"], r["inputs"], r["params"], wd, timeout=30)
    b = check.broke(n, r["kind"])
    print(n["out"][-2000:], n["err"][-2000:])
    print("violation reproduced: " + b if b else "no violation")
    sys.exit(1 if b else 0)
finally:
    shutil.rmtree(wd, ignore_errors=True)
