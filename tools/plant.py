#!/usr/bin/env python3
"""Confirms planted bugs in scratch copies: plant.py ID...   (nothing here is used by a check)
For each seeded/ID: copy /repo to /tmp, apply patch.diff, build, run the stable tests, run demo.sh on both trees."""
import json, os, re, subprocess, sys, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def sh(c, cwd, t=3000):
    try: p = subprocess.run(c, shell=True, cwd=cwd, capture_output=True, text=True, timeout=t); return p.returncode, p.stdout + p.stderr
    except subprocess.TimeoutExpired: return 124, "timeout"
def one(i):
    d = f"{V}/seeded/{i}"; w = f"/tmp/plant_{i}"; shutil.rmtree(w, ignore_errors=True); sh(f"cp -a /repo {w}", "/tmp")
    try:
        rc, o = sh(f"bash {d}/demo.sh", w, 300)
        if rc: return f"demo fails on the unchanged tree: {o[-300:]}"
        rc, o = sh(f"git apply --whitespace=nowarn {d}/patch.diff", w)
        if rc: return "patch does not apply: " + o[-300:]
        os.makedirs(w + "/_vp", exist_ok=True)
        for f in ("support/prepare.sh", "build.sh", "test.sh"):
            s = open("/opt/vp/" + f).read().replace("/repo", w).replace("/opt/vp/support/prepare.sh", w + "/_vp/prepare.sh"); open(w + "/_vp/" + os.path.basename(f), "w").write(s)
        rc, o = sh(f"bash _vp/build.sh", w)
        if rc: return "does not build: " + o[-600:]
        rc, o = sh(f"bash {d}/demo.sh", w, 300); demo = (rc, o[-200:])
        if not rc: return "demo passes with the patch"
        rc, o = sh(f"bash _vp/test.sh {w}/out.json", w)
        r = json.load(open(w + "/out.json")); st = set(json.load(open("/opt/vp/BASELINE.json"))["stable"]); bad = sorted(st - set(r["passed"]))
        if bad: return f"{len(bad)} stable tests fail: {bad[:4]}"
        return f"OK (demo rc {demo[0]}: {demo[1].strip()[-120:]})"
    finally: shutil.rmtree(w, ignore_errors=True)
for i in sys.argv[1:]: print(i, one(i), flush=True)
