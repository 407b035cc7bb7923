#!/usr/bin/env python3
"""Runs all checks on rewritten copies of the library (development aid). usage: refac.py [--build] [id...] [-C01,C02]"""
import json, os, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + "/tools")
from refactors import R
ids = [a for a in sys.argv[1:] if not a.startswith("-")] or list(R)
only = [x for a in sys.argv[1:] if a.startswith("-C") for x in a[1:].split(",")]
props = only or [c["property"] for c in json.load(open(V + "/MANIFEST.json"))["checks"]]
CM = "set -o pipefail; CC=/usr/bin/gcc CXX=/usr/bin/g++ cmake -S . -B _build -G Ninja -DCMAKE_BUILD_TYPE=Debug -DPC_BUILD_TESTS=ON -DPC_BUILD_EXAMPLES=OFF -DCMAKE_CXX_FLAGS=-Wno-error >/dev/null && ninja -C _build"
for i in ids:
    d = "/tmp/rf/" + i
    shutil.rmtree(d, ignore_errors=True)
    subprocess.run(["git", "clone", "-q", "/repo", d] if "--build" in sys.argv else ["mkdir", "-p", d], check=True)
    if "--build" not in sys.argv:
        shutil.copytree("/repo/portable_concurrency", d + "/portable_concurrency")
    for f, a, b in R[i]:
        p = d + "/portable_concurrency/bits/" + f
        s = open(p).read()
        if a not in s:
            print(i, "does not apply:", f, a[:60]); break
        open(p, "w").write(s.replace(a, b))
    else:
        if "--build" in sys.argv:
            r = subprocess.run(["bash", "-c", CM + " | tail -30 && timeout 120 ./_build/test/pc_unit_tests | grep -a FAILED"], cwd=d, capture_output=True, text=True)
            err = [l for l in r.stdout.splitlines() if "error" in l or "FAILED" in l]
            print(i, "BUILD", err[:5], flush=True)
        else:
            bad = []
            for p in props:
                r = subprocess.run([sys.executable, V + "/check.py", p], cwd=V, capture_output=True, text=True, env=dict(os.environ, VERIF_REPO=d, VERIF_EVIDENCE=d + "/ev"))
                if r.returncode:
                    v = [l for l in r.stdout.splitlines() if l.startswith(p + ":")]
                    bad.append("%s=%d %s" % (p, r.returncode, (v[0][:170] if v else (r.stdout + r.stderr)[-400:])))
            print("%-20s %s" % (i, "quiet" if not bad else "\n     ".join(["ALARM"] + bad)), flush=True)
    shutil.rmtree(d, ignore_errors=True)
