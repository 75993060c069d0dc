#!/usr/bin/env python3
"""Runs a check against planted bugs: catch.py ID[:PROP]... ; applies the patch in /repo, runs the quick check, undoes it."""
import json, subprocess, sys, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
for a in sys.argv[1:]:
    i, _, p = a.partition(":"); p = p or json.load(open(f"{V}/seeded/{i}/meta.json"))["property"]
    subprocess.run(["git", "-C", "/repo", "apply", "--whitespace=nowarn", f"{V}/seeded/{i}/patch.diff"], check=True)
    try: r = subprocess.run(["python3", "run.py", p], cwd=V, capture_output=True, text=True)
    finally: subprocess.run(["git", "-C", "/repo", "checkout", "-q", "--", "."], check=True)
    o = [l for l in r.stdout.splitlines()]; print(i, p, "CAUGHT" if r.returncode == 1 else f"missed rc={r.returncode}", "|", (o[1] if len(o) > 1 and r.returncode == 1 else (o or [""])[-1]).strip()[:160], flush=True)
