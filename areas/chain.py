"""Every source of futures combined with every way to consume them, for values, void and references."""
from vcore import E
from rule import *

DRIVER = "chain.cpp"
ENTRIES = []
PARTS = ["then_f next_s async_f task_s two_f", "then_s next_f async_s task_f two_s", "pro ith then_d next_d async_d task_d xnext_f xthen_s"]
PARTS = [p.split() for p in PARTS]
TYPES = {"u": ("val", 60), "v": ("val", 0), "r": ("val", 70)}
CONFIGS = [dict(name="%s%d" % (t, i), defs=["-DCHAIN_TYPE=%d" % ti, "-DCHAIN_PART=%d" % i, "-DTN=%s" % t],
                match=(lambda n, t=t, i=i: n.endswith("_" + t) and n[2:n.index("__")] in PARTS[i]))
           for ti, t in enumerate("uvr") for i in range(3)]
VALUE, ERROR, GONE, THROW, DROP, INVALID = range(6)
NEXT = "next snext xnext xsnext pass_next spass_next ret_next sret_snext chain detach".split()
THEN = "then sthen ithen allv anyv".split()
LOOK = "get share all any notify".split()
DOC = {"get": "get", "share": "share, read from several copies", "next": "next", "then": "then", "snext": "next on shared_future", "sthen": "then on shared_future",
       "xnext": "next through an executor", "xsnext": "next on shared_future through an executor", "pass_next": "returned from another continuation, then next",
       "spass_next": "a shared copy returned from another continuation, then next", "ret_next": "returned by the continuation that received it, then next",
       "sret_snext": "the same with shared futures", "chain": "next, next, then", "ithen": "interruptible then", "all": "when_all", "any": "when_any",
       "allv": "when_all of copies, then next", "anyv": "when_any, then next", "notify": "notify and get", "detach": "detach, then next"}


def expect(p, src, t):
    """(result, number of the step after which it is available)"""
    w = p.chose("what")[0]
    first = p.chose("inner first")[0]
    to, ti = (2, 1) if first else (1, 2)
    if src == "async_s":
        to = 0
    if src == "pro":
        to = 0
    if src.endswith("_d"):
        return {ERROR: ("exc", 61), THROW: ("exc", 62), DROP: BROKEN}.get(w, TYPES[t]), to
    r = {VALUE: TYPES[t], ERROR: ("exc", 61), THROW: ("exc", 62)}.get(w, BROKEN)
    if w in (VALUE, ERROR, GONE):
        return r, max(to, ti)
    if w == DROP:
        return r, to
    return r, max(to, ti) if src == "two_f" else to


def mk(src, con, t):
    def calls(v, p):
        r, at = expect(p, src, t)
        if con == "notify" or con in THEN or (con in NEXT and r[0] == "val"):
            once(11)(v, p)
        else:
            never(11)(v, p)
        if con == "chain":
            (once if r[0] == "val" and not p.has("F.throw", 11) else never)(12)(v, p)
            once(13)(v, p)
        for c in p.all("F.call", 11):
            if at and c.i < p.first("step", at).i:
                v("order", "the function runs before the result of the source exists", c)

    def outcome(v, p):
        r, at = expect(p, src, t)
        if con in LOOK or (p.has("F.call", 11) and not p.has("F.throw", 11)):
            result(1, r)(v, p)
        if con not in LOOK:
            if con in NEXT and r[0] != "val":
                result(2, r)(v, p)
            else:
                result(2, ("exc", 11) if p.has("F.throw", 11) else ("val", 80))(v, p)
        for e in p.all("index"):
            if e.a[0] != 1:
                v("index", "when_any reports the wrong future", e)

    def readiness(v, p):
        r, at = expect(p, src, t)
        for k in range(3):
            for e in p.all("s%d" % k):
                if e.a[0] != (1 if at <= k else 0):
                    v("readiness", "the future is %s although the result of the source %s" % (("not ready", "exists") if at <= k else ("ready", "does not exist yet")), e)

    props = {}
    if t == "u":
        props = {"C07": [outcome, readiness], "C25": [outcome], "C06": [when(lambda p: expect(p, src, t)[0] == BROKEN, outcome, readiness)]}
    if con not in LOOK:
        if t == "u":
            props["C01"] = [calls]
        props["C08"] = [calls, outcome, readiness]
    if con in ("all", "allv"):
        props["C11"] = [outcome, readiness]
    if con in ("any", "anyv"):
        props["C12"] = [outcome, readiness]
    if src[-2:] in ("_f", "_s") or src == "ith" or con in ("pass_next", "spass_next", "ret_next", "sret_snext"):
        props["C18"] = [calls, outcome, readiness]
    ENTRIES.append(E("e_%s__%s_%s" % (src, con, t), "source %s of %s consumed by: %s; all outcomes, all orders of completion and attachment" % (src, t, DOC[con]), props))


for t in "uvr":
    for p in PARTS:
        for s in p:
            for c in LOOK + NEXT + THEN:
                mk(s, c, t)
