#!/usr/bin/env python3
"""writes MANIFEST.json from properties.jsonl and props.py"""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
import props
TECH = {
    "C02": "static happens-before (vector clock) analysis over IR",
    "C04": "static lifetime and happens-before analysis over IR",
    "C10": "ownership typestate and leak analysis over IR",
    "C16": "lock-set analysis over IR",
    "C19": "compile-fail witnesses and static assertions",
    "C24": "typestate analysis over IR with failing allocations",
}
NA = {
    "C26": "quantifies over clocks, load and the scheduler of the machine; no static argument over the source bounds elapsed time or fairness",
}
for x in sys.argv[1:]:
    NA[x] = "check not built yet"
NOTE = ("Decides the rule on every abstract path of the most general clients listed in the evidence (user code, outcomes and the moments of other threads' "
        "operations are open); bounded number of operations and other-thread steps per client. Trusts clang's IR generation, the analyser, and the models of "
        "pthread, operator new and the exception runtime.")
NOTES = {
    "C19": "The compiler's verdict on each witness program is exact for that program; assumes the witnesses represent their class of misuse.",
}
checks, na = [], []
for l in open(V + "/properties.jsonl"):
    i = json.loads(l)["id"]
    if i in NA:
        na.append(dict(property=i, reason=NA[i]))
    else:
        checks.append(dict(property=i, quick_cmd="python3 check.py %s" % i, thorough_cmd="python3 check.py %s --thorough" % i,
                           technique=TECH.get(i, "path-sensitive typestate analysis over LLVM IR"), level="other", level_note=NOTES.get(i, NOTE)))
json.dump(dict(version=1, setup_cmd="python3 -c 'import vcore; vcore.engine()'", checks=checks, not_applicable=na,
               notes="One analyser (engine/tsa.cpp) over clang IR of /repo; areas/*.py hold the rules per client, drivers/*.cpp the clients. No hooks in /repo."),
          open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks", [n["property"] for n in na])
