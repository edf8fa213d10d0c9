#!/usr/bin/env python3
"""Adds replay files (shrunk failures) that pass on the current tree to regressions/<id>.jsonl."""
import json, os, subprocess, sys
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
for f in sys.argv[1:]:
    d = json.load(open(f))
    line = json.dumps({"test": d["test"], "case": d["case"]}, sort_keys=True, separators=(",", ":"))
    if len(line) > 3000:
        print("too big", f); continue
    b = os.path.join(root, "target/harness/debug", d["property"].lower())
    r = subprocess.run([b, "--replay", f], capture_output=True, text=True, env=dict(os.environ, VERIF_ROOT=root, GCV_BIN=root + "/target/repo/debug", GCV_SHIM=root + "/target/shim.so"))
    if r.returncode != 0:
        print("does not pass", r.returncode, f, r.stdout[-300:]); continue
    out = os.path.join(root, "regressions", d["property"] + ".jsonl")
    have = open(out).read().splitlines() if os.path.exists(out) else []
    if line not in have:
        open(out, "a").write(line + "\n")
        print("added", f)
