#!/usr/bin/env python3
"""Writes a planted bug: mkseed.py SPEC.py, where SPEC defines seeds = [dict(id, prop, edits=[(file, old, new)], needs, breaks, demo)]."""
import json, os, subprocess, sys, shutil, runpy
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SH = '''#!/bin/bash
# exit 0: the property's demonstration passes; nonzero: it fails
D=$(cd "$(dirname "$0")" && pwd); T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
g++ -O1 -DNDEBUG -w -I. "$D/demo.cc" lib/libclpoly.a -lgmpxx -lgmp -o "$T/demo" || exit 2
timeout 100 "$T/demo"
'''
for s in runpy.run_path(sys.argv[1])["seeds"]:
    d = f"{V}/seeded/{s['id']}"; w = f"/tmp/mk_{s['id']}"; shutil.rmtree(w, ignore_errors=True)
    subprocess.run(["git", "-C", "/repo", "worktree", "prune"]); subprocess.run(["git", "clone", "-q", "/repo", w], check=True)
    for f, a, b in s["edits"]:
        t = open(f"{w}/{f}").read()
        if t.count(a) < 1: print(s["id"], "TEXT NOT FOUND", a[:60]); break
        k = s.get("nth", 0); i = -1
        for _ in range(k + 1): i = t.find(a, i + 1)
        open(f"{w}/{f}", "w").write(t[:i] + b + t[i + len(a):])
    p = subprocess.run(["git", "-C", w, "diff"], capture_output=True, text=True).stdout
    os.makedirs(d, exist_ok=True); open(d + "/patch.diff", "w").write(p); open(d + "/demo.sh", "w").write(s.get("sh", SH)); os.chmod(d + "/demo.sh", 0o755)
    open(d + "/demo.cc", "w").write(s["demo"]); json.dump({"property": s["prop"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(d + "/meta.json", "w"), indent=1)
    shutil.rmtree(w); print(s["id"], len(p))
