#!/usr/bin/env python3
"""Mutation bench (development aid, not a check): applies small edits to a scratch copy of /repo and reports
which checks notice.  usage: mut.py [-j N] [name-prefix ...]"""
import os, subprocess, sys, shutil, concurrent.futures as cf
sys.path.insert(0, os.path.dirname(__file__))
from mutants import M

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def one(m):
    name, edits, props = m
    d = "/tmp/mut/" + name
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    shutil.copytree("/repo/portable_concurrency", d + "/portable_concurrency")
    for f, old, new in edits:
        p = d + "/portable_concurrency/bits/" + f
        s = open(p).read()
        if old not in s:
            return name, "EDIT-FAILED %s" % f
        open(p, "w").write(s.replace(old, new, 1))
    res = []
    for pr in props:
        r = subprocess.run([sys.executable, V + "/check.py", pr], cwd=V, capture_output=True, text=True,
                           env=dict(os.environ, VERIF_REPO=d, VERIF_EVIDENCE=d + "/ev"))
        v = [l for l in r.stdout.splitlines() if l.startswith(pr + ":")]
        res.append("%s=%d %s" % (pr, r.returncode, v[0][:150] if v else r.stdout[-200:].replace("\n", " ") + r.stderr[-300:] if r.returncode not in (0, 1) else ""))
    shutil.rmtree(d, ignore_errors=True)
    return name, "\n      ".join(res)


sel = [a for a in sys.argv[1:] if not a.startswith("-")]
todo = [m for m in M if not sel or any(m[0].startswith(s) for s in sel)]
with cf.ThreadPoolExecutor(max_workers=2) as ex:
    for n, r in ex.map(one, todo):
        print("%-28s %s" % (n, r), flush=True)
