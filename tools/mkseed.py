#!/usr/bin/env python3
"""Creates and validates /verif/seeded/<id> from tools/seeds.py (development aid, not a check).
usage: mkseed.py id...   Works on a scratch clone of /repo in /tmp/sw/<n>."""
import json, os, subprocess, sys, shutil
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from seeds import S
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = "/tmp/sw/a"


def sh(cmd, cwd=W, timeout=600):
    try:
        return subprocess.run(cmd, cwd=cwd, shell=True, capture_output=True, text=True, timeout=timeout)
    except subprocess.TimeoutExpired:
        class R: returncode, stdout, stderr = 124, "", "timeout"
        return R


if not os.path.exists(W):
    os.makedirs("/tmp/sw", exist_ok=True)
    sh("git clone -q /repo a", "/tmp/sw")
sh("git checkout -q -- . && git pull -q")
CM = "CC=/usr/bin/gcc CXX=/usr/bin/g++ cmake -S . -B _build -G Ninja -DCMAKE_BUILD_TYPE=Debug -DPC_BUILD_TESTS=ON -DPC_BUILD_EXAMPLES=ON -Dasio_DIR=/opt/vp/cmake -DCMAKE_CXX_FLAGS=-Wno-error >/dev/null && ninja -C _build"
for id in sys.argv[1:]:
    s = S[id]
    d = V + "/seeded/" + id
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    open(d + "/demo.cpp", "w").write(s["demo"])
    open(d + "/demo.sh", "w").write("""#!/bin/bash
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d)
trap 'rm -rf "$t"' EXIT
%s -g %s -I. "$d/demo.cpp" $(find portable_concurrency -name '*.cpp') -o "$t/demo" -pthread -ldl || exit 3
%stimeout %d "$t/demo"
""" % (s.get("cxx", "g++ -std=c++17"), s.get("flags", "-O1"), s.get("env", ""), s.get("timeout", 60)))
    json.dump(dict(property=s["property"], needs=s["needs"], what_it_breaks=s["what"]), open(d + "/meta.json", "w"), indent=1)
    sh("git checkout -q -- .")
    a = sh("bash %s/demo.sh" % d)
    ok = True
    for f, old, new in s["edits"]:
        p = W + "/portable_concurrency/" + f
        t = open(p).read()
        if old not in t:
            print(id, "EDIT FAILED", f, old); ok = False; break
        open(p, "w").write(t.replace(old, new, s.get("count", 1)))
    if not ok:
        continue
    open(d + "/patch.diff", "w").write(sh("git diff").stdout)
    b = sh("bash %s/demo.sh" % d)
    bld = sh(CM)
    if bld.returncode:
        print(id, "BUILD FAILED", bld.stdout[-1500:])
        continue
    t = sh("./_build/test/pc_unit_tests", timeout=120)
    bad = [l for l in t.stdout.splitlines() if l.startswith("[  FAILED")]
    verdict = "GOOD" if a.returncode == 0 and b.returncode not in (0, 3) and t.returncode == 0 else "BAD"
    print(id, verdict, "demo clean=%d patched=%d tests=%d %s" % (a.returncode, b.returncode, t.returncode, bad[:3]))
    if verdict == "BAD":
        print("   clean:", (a.stdout + a.stderr)[-600:], "\n   patched:", (b.stdout + b.stderr)[-600:])
    sys.stdout.flush()
sh("git checkout -q -- .")
