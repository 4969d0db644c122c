#!/opt/venv/bin/python
"""Determinism of the simulator: the same seeds, run again with another number of workers and
another hash seed of the interpreter, must give the same digest run by run.

selfcheck.py [runs] [ids...]"""
import json
import os
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
n = sys.argv[1] if len(sys.argv) > 1 else "200"
ids = sys.argv[2:] or [c["property"] for c in json.load(open(os.path.join(HERE, "MANIFEST.json")))["checks"]]
bad = 0
for p in ids:
    got = []
    for workers, hashseed in ((8, "0"), (3, "0"), (5, "77")):
        with tempfile.NamedTemporaryFile(suffix=".json") as f:
            r = subprocess.run([os.path.join(HERE, "check.py"), p, "--runs", n, "--workers", str(workers), "--hashseed", hashseed, "--digest", f.name, "--seconds", "600"],
                               cwd=HERE, stdout=subprocess.PIPE, text=True)
            got.append(json.load(open(f.name)) if r.returncode == 0 else {})
    diff = [k for k in got[0] if any(g.get(k) != got[0][k] for g in got[1:])]
    print(p, f"{len(got[0])} runs, {len(diff)} differ", diff[:10], flush=True)
    bad += bool(diff) or not got[0]
sys.exit(bad)
