#!/usr/bin/env python3
"""Build and run one check: run.py C01 [--tier quick|thorough] [--replay FILE] [--only SCOPE]

Builds /verif/src/<id>.cc against /repo's current working tree (from scratch, in
a private scratch directory), runs the bounded-exhaustive exploration, writes
evidence/<id>.json.  Exit 0 = held on everything explored, 1 = VIOLATION printed."""
import glob, sys, os, json, subprocess, tempfile, time, shutil, argparse, hashlib
V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
CC = sorted(os.path.basename(x)[:-3] for x in glob.glob(os.path.join(REPO, "clpoly", "*.cc")) if not x.endswith("interval.cc"))
CFG = json.load(open(os.path.join(V, "checks.json")))

def build(pid, out):
    c = CFG[pid]
    flags = ["-std=c++20", "-I" + REPO, "-I" + os.path.join(V, "src"), "-D_GLIBCXX_ASSERTIONS", "-w"] + c.get("flags", ["-O1"])
    src = os.path.join(V, "src", c["src"])
    jobs, objs = [], []
    units = [(f, []) for f in [src] + [os.path.join(REPO, "clpoly", x + ".cc") for x in CC]] + [(os.path.join(REPO, u[5:]) if u.startswith("REPO/") else os.path.join(V, "src", u), fl) for u, fl in c.get("units", [])]
    for i, (f, fl) in enumerate(units):
        o = os.path.join(out, "%d_%s.o" % (i, os.path.basename(f))); objs.append(o)
        jobs.append((f, subprocess.Popen(["g++"] + flags + c.get("extra", []) + fl + ["-c", f, "-o", o], stderr=subprocess.PIPE, text=True)))
    ok = True
    for f, j in jobs:
        e = j.communicate()[1]
        if j.returncode: ok = False; print("BUILD FAILED", f, "\n", e[:4000])
    if not ok: return None
    exe = os.path.join(out, "h")
    r = subprocess.run(["g++"] + c.get("ldflags", []) + [x for x in flags if x.startswith("-fsan")] + objs + ["-o", exe] + c.get("libs", []) + ["-lgmpxx", "-lgmp"], stderr=subprocess.PIPE, text=True)
    if r.returncode: print("LINK FAILED", r.stderr[:4000]); return None
    return exe

def known(pid):
    k = {}
    p = os.path.join(V, "KNOWN_FINDINGS.txt")
    for l in open(p) if os.path.exists(p) else []:
        l = l.strip()
        if not l.startswith("{"): continue
        d = json.loads(l)
        if d.get("status") == "open" and d["property"] == pid: k[d["key"]] = d
    return k

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("pid"); ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay"); ap.add_argument("--only"); ap.add_argument("--keep")
    a = ap.parse_args()
    t0 = time.time()
    tmp = a.keep or tempfile.mkdtemp(prefix="vchk_" + a.pid + "_", dir=os.environ.get("TMPDIR", "/tmp"))
    os.makedirs(tmp, exist_ok=True)
    try:
        exe = build(a.pid, tmp)
        if not exe: return 2
        tb = time.time() - t0
        if a.replay:
            r = json.load(open(a.replay))
            cmd = [exe, "--replay", r["scope"], str(r["index"]), "--from", str(r.get("from", r["index"]))] + (["--thorough"] if r["tier"] == "thorough" else [])
            return subprocess.run(cmd).returncode
        kn = known(a.pid)
        kf = os.path.join(tmp, "known"); open(kf, "w").write("".join(k + "\n" for k in kn))
        cmd = [exe, "--known", kf] + (["--thorough"] if a.tier == "thorough" else []) + (["--only", a.only] if a.only else [])
        p = subprocess.run(cmd, stdout=subprocess.PIPE, text=True, errors="replace")
        viol, hit, res = [], {}, None
        for l in p.stdout.split("\n"):
            f = l.split("\t")
            if f[0] == "V" and len(f) >= 5:
                if f[3] in kn: hit.setdefault(f[3], f)
                elif f[3] == "nonreproducible": print("note: a failure did not reproduce when replayed alone and is not reported:", f[1], f[2], f[4])
                else: viol.append(f)
            elif f[0] == "R": res = json.loads(f[1])
        if res is None:
            print("harness died", p.returncode, p.stdout[-2000:]); return 2
        for k, f in hit.items(): print("KNOWN-FINDING: property=%s %s" % (a.pid, kn[k]["what"]))
        rd = os.path.join(V, "replays"); os.makedirs(rd, exist_ok=True)
        for f in viol[:6]:
            name = "%s-%s-%s.json" % (a.pid, f[1], f[2])
            json.dump({"property": a.pid, "scope": f[1], "index": int(f[2]), "from": int(f[5]) if len(f) > 5 else int(f[2]), "tier": a.tier, "key": f[3], "message": f[4],
                       "how": "python3 /verif/run.py %s --replay THIS" % a.pid}, open(os.path.join(rd, name), "w"), indent=1)
            print("VIOLATION property=%s replay=%s" % (a.pid, os.path.join(rd, name)))
            print("   ", f[3], "::", f[4][:1500])
        ev = {"property": a.pid, "tier": a.tier, "seed": int(os.environ.get("VERIF_SEED", "1")), "level": "model_checking",
              "coverage": {"states": res["states"], "transitions": res["transitions"], "traces_validated_against_impl": res["cases"],
                           "distinct_outcomes": res["outcomes"], "scopes": res["scopes"], "exhaustive": bool(res["complete"]) and not a.only,
                           "samples": res["samples"], "explore_seconds": res["seconds"], "build_seconds": round(tb, 1), **res["aux"]},
              "assumptions": CFG[a.pid].get("assumptions", []), "wall_s": round(time.time() - t0, 2), "violations": len(viol)}
        os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
        json.dump(ev, open(os.path.join(V, "evidence", a.pid + ".json"), "w"), indent=1)
        print("%s %s: %d cases (every case executed on the implementation), %d operations compared, %d distinct states, %d distinct outcomes, %.1fs (build %.1fs)%s"
              % (a.pid, a.tier, res["cases"], res["transitions"], res["states"], res["outcomes"], time.time() - t0, tb, "" if res["complete"] else " [stopped at the violation limit]"))
        return 1 if viol else 0
    finally:
        if not a.keep: shutil.rmtree(tmp, ignore_errors=True)
sys.exit(main())
