from vcore import E
from rule import *

DRIVER = "cont.cpp"
ENTRIES = []
PART = {}
CONFIGS = [dict(name="part%d" % i, defs=["-DCONT_PART=%d" % i], match=(lambda n, i=i: PART[n] == i)) for i in range(4)]
V = {"u": ("val", 7), "p": ("val", 7), "v": ("val", 0), "r": ("val", 70)}
W = {"u": ("val", 60), "p": ("val", 60), "v": ("val", 0), "r": ("val", 70)}
INNER = {0: "value", 1: "error", 2: "value", 3: "error", 4: "gone", 5: "gone"}


class Exp:
    """reference semantics of one continuation: what must be observed, from the open decisions of the path"""

    def __init__(self, p, kind, ptype, ret, x):
        o = p.chose("outcome")[0]
        self.parent = [V[ptype], ("exc", 7), BROKEN][o]
        run = True
        if x:
            m = p.chose("executor: run/drop/keep")
            mode = m[0] if m else None
            k = p.chose("kept work is run")
            run = mode == 0 or (mode == 2 and k and k[0] == 1)
            self.kept = mode == 2
        self.run = run
        self.late = False
        self.called = run and not (kind == "next" and o != 0)
        if not run:
            self.res = BROKEN
        elif not self.called:
            self.res = self.parent
        elif p.has("F.throw", 10):
            self.res = ("exc", 10)
        elif kind == "ithen":
            i = p.chose("inner")
            i = i[0] if i else None
            if i in (2, 3, 4):
                self.late = True
                self.res = [W[ret], ("exc", 61), BROKEN][p.chose("kept promise")[0]]
            else:
                self.res = {0: W[ret], 1: ("exc", 61)}.get(i, BROKEN)
        elif len(ret) == 2:
            i = p.chose("inner")
            i = i[0] if i else None
            self.late = i in (2, 3, 4)
            self.res = {"value": W[ret[1]], "error": ("exc", 61), "gone": BROKEN}.get(INNER.get(i), BROKEN)
        else:
            self.res = W[ret]


def mk(name, kind, fut, ptype, ret, x, part):
    def exp(p):
        return Exp(p, kind, ptype, ret, x)

    def calls(v, p):
        e = exp(p)
        (once(10) if e.called else never(10))(v, p)

    def argument(v, p):
        e = exp(p)
        if e.called and p.has("F.call", 10) and not p.has("F.throw", 10):
            result(1, e.parent)(v, p)
            if kind != "next" and not p.has("arg-valid", 1):
                v("argument", "the parent passed to the continuation is invalid", p.first("arg-valid"))

    def outcome(v, p):
        result(2, exp(p).res)(v, p)

    def readiness(v, p):
        e = exp(p)
        if p.has("before", 1):
            v("readiness", "the future is ready before its parent", p.first("before"))
        if p.has("kept", 1):
            v("readiness", "the future is ready while the executor still holds the work", p.first("kept"))
        want = 0 if e.late else 1
        if not p.has("pre-inner", want):
            v("readiness", "the future is %s although its result is %s" % (("ready", "not available yet") if e.late else ("not ready", "available")), p.first("pre-inner"))
        if not p.has("post-inner", 1):
            v("readiness", "the future is never ready", p.first("post-inner"))

    def executor(v, p):
        posts = p.all("X.post")
        pc = p.first("parent-complete")
        if x:
            if len(posts) != 1:
                v("executor", "the work is posted %d times" % len(posts), posts[-1] if posts else None)
            for e in posts:
                if e.a[0] != 5:
                    v("executor", "the work is posted to another executor", e)
                if e.i < pc.i:
                    v("executor", "the work is posted before the parent is ready", e)
            depth = 0
            for e in p.ev:
                if e.n == "X.run":
                    depth += 1
                elif e.n == "X.done":
                    depth -= 1
                elif e.n == "F.call" and depth == 0:
                    v("executor", "the function runs outside of the executor", e)
        else:
            for e in posts:
                v("executor", "unexpected post", e)
        c = p.first("F.call", 10)
        if c and (c.i < pc.i or c.i < p.first("attach").i):
            v("executor", "the function runs before the parent is ready", c)

    def validity(v, p):
        want = 1 if fut == "s" else 0
        if not p.has("parent-valid", want):
            v("validity", "after attaching, the parent is %s" % ("invalid" if want else "still valid"), p.first("parent-valid"))

    def released(v, p):
        at = p.first("pre-inner").i
        live = set()
        for e in p.ev:
            if e.i >= at:
                break
            if e.n in ("F.ctor", "F.move"):
                live.add(e.a[0])
            elif e.n == "F.dtor":
                live.discard(e.a[0])
        if live:
            v("release", "the function object outlives its finished operation", p.first("pre-inner"))

    props = {"C01": [calls], "C06": [when(lambda p: exp(p).res == BROKEN, outcome, readiness)], "C07": [outcome, readiness], "C08": [calls, argument, outcome],
             "C10": [released], "C15": [validity], "C22": [executor, calls], "C25": [argument, outcome]}
    if len(ret) == 2 or kind == "ithen":
        props["C18"] = [outcome, readiness, calls]
    PART["e_" + name] = part
    ENTRIES.append(E("e_" + name, "%s on %s of %s%s, function result %s; all parent outcomes, attach before/after" %
                     (kind, {"f": "future", "s": "shared_future"}[fut], ptype, " through an executor" if x else "", ret), props))


RETS = "u v r p fu su fv sv fr sr".split()
for x in ("", "_x"):
    for f in "fs":
        for r in RETS:
            mk("then_%su_%s%s" % (f, r, x), "then", f, "u", r, x, 0)
            mk("next_%su_%s%s" % (f, r, x), "next", f, "u", r, x, 1)
            mk("next_%sv_%s%s" % (f, r, x), "next", f, "v", r, x, 2)
    for k, ft, r in (("then", "fv", "u"), ("then", "sv", "u"), ("then", "fr", "u"), ("then", "sr", "u"), ("then", "fp", "u"), ("next", "fr", "u"), ("next", "sr", "u"),
                     ("next", "fp", "u"), ("next", "sp", "u"), ("next", "fr", "r"), ("next", "fp", "fu"),
                     ("ithen", "fu", "u"), ("ithen", "su", "u"), ("ithen", "fu", "v"), ("ithen", "fu", "r"), ("ithen", "fv", "u"), ("ithen", "sv", "v")):
        mk("%s_%s_%s%s" % (k, ft, r, x), k, ft[0], ft[1], r, x, 3)
