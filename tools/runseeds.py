#!/usr/bin/env python3
"""Runs the checks against the planted bugs in scratch copies (development aid). usage: runseeds.py [--all] [id...]"""
import json, os, subprocess, sys, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [a for a in sys.argv[1:] if not a.startswith("-")] or sorted(os.listdir(V + "/seeded"))
allp = [c["property"] for c in json.load(open(V + "/MANIFEST.json"))["checks"]]
for i in ids:
    d = "/tmp/rs/" + i
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    shutil.copytree("/repo/portable_concurrency", d + "/portable_concurrency")
    r = subprocess.run(["git", "apply", V + "/seeded/%s/patch.diff" % i], cwd=d, capture_output=True, text=True)
    if r.returncode:
        print(i, "PATCH FAILS", r.stderr); continue
    pr = json.load(open(V + "/seeded/%s/meta.json" % i))["property"]
    res = []
    for p in allp if "--all" in sys.argv else [pr]:
        r = subprocess.run([sys.executable, V + "/check.py", p], cwd=V, capture_output=True, text=True, env=dict(os.environ, VERIF_REPO=d, VERIF_EVIDENCE=d + "/ev"))
        if r.returncode or p == pr:
            v = [l for l in r.stdout.splitlines() if l.startswith(p + ":")]
            res.append("%s=%d %s" % (p, r.returncode, (v[0][:140] if v else r.stdout[-300:]) if p == pr else ""))
    print("%-26s %s" % (i, " ; ".join(res)), flush=True)
    shutil.rmtree(d, ignore_errors=True)
