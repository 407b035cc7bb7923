from vcore import E
from rule import *

DRIVER = "exec.cpp"
ENTRIES = []


def executor(is_async):
    def through_executor(v, p):
        posts = p.all("X.post")
        if [e.a[0] for e in posts] != [5]:
            v("executor", "posted to %s, expected exactly once to the given executor" % [e.a[0] for e in posts], posts[0] if posts else None)
            return
        lo, hi = ("attach", "attached") if is_async else ("parent-complete", "posted")
        if not p.first(lo).i < posts[0].i < p.first(hi).i:
            v("executor", "the work is not posted when its result is available", posts[0])
        for e in p.all("X.use"):
            if e.a[0] != 5:
                v("executor", "a moved-from or dead executor is used", e)
        m = p.chose("executor: run/drop/keep")
        run = m and (m[0] == 0 or (m[0] == 2 and p.chose("kept work is run")[0] == 1))
        (once(10) if run else never(10))(v, p)
        depth = 0
        for e in p.ev:
            depth += (e.n == "X.run") - (e.n == "X.done")
            if e.n == "F.call" and depth == 0:
                v("executor", "the function runs outside of the executor", e)
    return through_executor


def lvalue(v, p):
    if not p.has("attached", 5):
        v("lvalue executor", "an executor passed as lvalue is moved from", p.first("attached"))


def released(v, p):
    """when the operation is complete no copy of the executor and no function is left"""
    at = p.first("complete").i
    live = {}
    for e in p.ev[:at]:
        if e.n in ("X.ctor", "X.copy", "X.move", "F.ctor", "F.move"):
            live[e.a[0]] = e
            if e.n.endswith("move") and e.a[2] in live and e.n[0] == "X":
                live[e.a[2]] = None
        elif e.n in ("X.dtor", "F.dtor"):
            live.pop(e.a[0], None)
    for e in live.values():
        if e is not None:
            v("release", "%s outlives the finished operation" % ("an executor" if e.n[0] == "X" else "the function"), e)
            return


for k in ("then", "next", "notify", "ithen", "sthen", "snext", "snotify", "sithen", "async"):
    for m in ("ml", "mr", "cl", "cr"):
        pr = {"C22": [executor(k == "async")] + ([lvalue] if m[1] == "l" else []), "C10": [released], "C09": []}
        ENTRIES.append(E("e_%s_%s" % (k, m), "%s through a %s executor passed as %s; it runs, keeps or drops the work; the function may drop its own future" % (
            k, "movable" if m[0] == "m" else "copy only", "lvalue" if m[1] == "l" else "rvalue"), pr))


def own(v, p):
    at = []
    for e in p.ev:
        if e.n == "X.run":
            at.append(e.a[0])
        elif e.n == "X.done":
            at.pop()
        elif e.n == "F.call":
            cur = at[-1] if at else None
            want = {10: 5, 11: 6}.get(e.a[0])
            if want is not None and cur != want:
                v("executor", "function %d runs in executor %s, expected %s" % (e.a[0], cur, want), e)
    once(10, 11)(v, p)
    for i in (5, 6):
        count(1, "X.post", i)(v, p)
    if p.chose("inplace last")[0]:
        once(12)(v, p)
        result(2, ("val", 62))(v, p)


for n in ("two_chain", "two_sib"):
    ENTRIES.append(E("e_" + n, "continuations with different executors, %s" % n, {"C22": [own], "C01": [once(10, 11)]}))


def replaced(v, p):
    """a task overwritten inside of an executor is abandoned, tasks that change places are not"""
    m = p.chose("mode")[0]
    if m == 0:
        never(10)(v, p)
        once(11)(v, p)
        result(2, BROKEN)(v, p)
        result(3, ("notready",))(v, p)
        result(4, ("val", 61))(v, p)
    elif m == 1:
        once(10, 11)(v, p)
        result(2, ("val", 60))(v, p)
        result(3, ("notready",))(v, p)
        result(4, ("val", 61))(v, p)
    else:
        once(10, 11)(v, p)
        result(2, ("val", 60))(v, p)
        result(3, ("val", 61))(v, p)


for n in ("then", "next", "ithen", "sthen", "async"):
    ENTRIES.append(E("e_replace_" + n, "an executor that overwrites, swaps or moves the posted %s tasks" % n, {"C06": [replaced], "C10": []}))
