from vcore import E
from rule import *

DRIVER = "values.cpp"
ENTRIES = []
PART = {}
CONFIGS = [dict(name="part%d" % i, defs=["-DVAL_PART=%d" % i], match=(lambda n, i=i: PART[n] == i)) for i in range(3)]
W = {"u": ("val", 60), "p": ("val", 60), "v": ("val", 0), "r": ("val", 70)}
INNER = {0: "value", 1: "error", 2: "value", 3: "error", 4: "gone", 5: "gone"}


def add(name, part, doc, props, **kw):
    PART["e_" + name] = part
    ENTRIES.append(E("e_" + name, doc, props, **kw))


def expected(p, ret):
    """(result, late)"""
    if p.has("F.throw", 10):
        return ("exc", 10), False
    if len(ret) == 2:
        i = (p.chose("inner") or [None])[0]
        return {"value": W[ret[1]], "error": ("exc", 61), "gone": BROKEN}.get(INNER.get(i), BROKEN), i in (2, 3, 4)
    return W[ret], False


def ready_times(late):
    def readiness(v, p):
        l = late(p)
        for e in p.all("before", 1) + p.all("kept", 1):
            v("readiness", "the future is ready before the function ran", e)
        for e in p.all("pre-inner"):
            if e.a[0] != (0 if l else 1):
                v("readiness", "the future is %s although its result is %s" % (("ready", "not available yet") if l else ("not ready", "available")), e)
        if not p.has("post-inner", 1):
            v("readiness", "the future is never ready", p.first("post-inner"))
    return readiness


def args(v, p):
    if p.has("F.call", 10) and not p.has("F.throw", 10):
        e = p.first("args")
        if e is None or list(e.a[:5]) != [40, 41, 42, 43, 1]:
            v("arguments", "the function receives %s" % (e and e.a,), e)
    for e in p.all("attached"):
        if e.a[0] != 41:
            v("arguments", "an argument given as lvalue was moved from", e)


def no_copy_of(*ids):
    def moved_not_copied(v, p):
        for i in ids:
            for e in p.all("U.copy", None, i)[:1]:
                v("copy", "value %d is copied instead of moved" % i, e)
    return moved_not_copied


def source(i):
    def source_intact(v, p):
        for e in p.all("source"):
            if e.a[0] != i:
                v("source", "the caller's object was moved from", e)
    return source_intact


def released(v, p):
    at = p.first("pre-inner").i
    live = set()
    for e in p.ev[:at]:
        if e.n in ("F.ctor", "F.move"):
            live.add(e.a[0])
        elif e.n == "F.dtor":
            live.discard(e.a[0])
    if live:
        v("release", "the function object outlives its finished operation", p.first("pre-inner"))


def mk_async(ret, part):
    def run(p):
        m = p.chose("executor: run/drop/keep")
        return m and (m[0] == 0 or (m[0] == 2 and p.chose("kept work is run")[0] == 1))

    def outcome(v, p):
        result(2, expected(p, ret)[0] if run(p) else BROKEN)(v, p)

    def late(p):
        return run(p) and expected(p, ret)[1]

    def calls(v, p):
        (once(10) if run(p) else never(10))(v, p)

    def executor(v, p):
        posts = p.all("X.post")
        if [e.a[0] for e in posts] != [5] or not p.first("attach").i < posts[0].i < p.first("attached").i:
            v("executor", "async posts %s" % [e.a[0] for e in posts], posts[0] if posts else None)
        depth = 0
        for e in p.ev:
            depth += (e.n == "X.run") - (e.n == "X.done")
            if e.n == "F.call" and depth == 0:
                v("executor", "the function runs outside of the executor", e)
    r = ready_times(late)
    pr = {"C06": [when(lambda p: not run(p), outcome, r)], "C07": [outcome, r], "C10": [released], "C22": [executor, calls], "C25": [args, outcome, no_copy_of(40, 60)], "C01": [calls]}
    if len(ret) == 2:
        pr["C18"] = [outcome, r, calls]
    add("async_" + ret, part, "async with value, lvalue, reference and move-only arguments, result %s, executor runs, keeps or drops the task" % ret, pr)


def mk_task(ret, part):
    def outcome(v, p):
        result(2, expected(p, ret)[0])(v, p)

    def quiet(v, p):
        for o in p.outcomes(3):
            v("escape", "running the task throws %s" % (o,), p_obs(p, 3))
    r = ready_times(lambda p: expected(p, ret)[1])
    pr = {"C07": [outcome, r, quiet], "C06": [outcome, r], "C10": [released], "C25": [args, outcome, no_copy_of(40, 60)], "C01": [once(10)], "C05": [outcome]}
    if len(ret) == 2:
        pr["C18"] = [outcome, r, once(10)]
    add("task_" + ret, part, "packaged_task with value, const reference, reference and move-only arguments, result %s, task destroyed before or after the inner result" % ret, pr)


for ret in ("u", "v", "r", "p"):
    mk_async(ret, 0)
    mk_task(ret, 0)
for ret in ("fu", "fv", "fr", "su", "sv", "sr"):
    mk_async(ret, 1)
    mk_task(ret, 1)
for n in ("lref", "cref", "val"):
    add("conv_" + n, 0, "packaged_task<U()> whose function returns %s" % n,
        {"C25": [source(60), when(notthrew(10), result(2, ("val", 60))), when(threw(10), result(2, ("exc", 10)))], "C07": [when(threw(10), result(2, ("exc", 10)))]})
for n, r in (("ready_rv", ("val", 7)), ("ready_lv", ("val", 7)), ("ready_clv", ("val", 7)), ("ready_ref", ("val", 70)), ("ready_v", ("val", 0)), ("ready_p", ("val", 7)),
             ("exc_ptr_u", ("exc", 7)), ("exc_ptr_v", ("exc", 7)), ("exc_ptr_r", ("exc", 7)), ("exc_obj_u", ("exc", 7)), ("exc_obj_v", ("exc", 7)), ("exc_obj_r", ("exc", 7))):
    add(n, 0, "make_ready_future / make_exceptional_future: " + n,
        {"C25": [present("state", 2), result(2, r), source(7)] + ([no_copy_of(7)] if n in ("ready_rv", "ready_p") else []), "C01": [once(1)]})


def no_copy_after_take(v, p):
    t = p.first("take").i
    for e in p.ev[t:]:
        if e.n == "U.copy":
            v("copy", "get() of a unique future copies the value", e)
            return


add("unique_get", 0, "get of a unique future hands the value over by move", {"C25": [result(2, ("val", 7)), source(7), no_copy_after_take], "C15": [present("valid", 0)]})


def adapters(v, p):
    o = p.chose("outcome")[0]
    result(2, [("val", 7), ("exc", 7), BROKEN][o])(v, p)
    result(3, [("val", 70), ("exc", 7), BROKEN][o])(v, p)
    present("ready0", 0, 0)(v, p)
    present("ready1", 1, 1)(v, p)


add("adapters", 0, "future_get and future_ready", {"C25": [adapters]})


def readers(typ):
    def every_reader(v, p):
        o = p.chose("outcome")[0]
        want = [{"u": ("val", 7), "r": ("val", 70)}[typ], ("exc", 7), BROKEN][o]
        addr = set()
        for e in p.ev:
            if e.n in OBS and e.a and e.a[0] in range(10, 16):
                got = (e.n, e.a[1]) if len(e.a) > 1 else (e.n,)
                if e.a[0] == 12 and o != 0:
                    v("next", "next() function called without a value", e)
                if got != want:
                    v("value", "a reader (%d) sees %s, expected %s" % (e.a[0], got, want), e)
                if e.n == "val":
                    addr.add(e.a[2])
        if len(addr) > 1:
            v("one object", "readers see different objects", p.last("val"))
        for t in (14, 15):
            if p.n("val", t) + p.n("exc", t) + p.n("ferr", t) != 1:
                v("value", "reader %d got no result" % t)
        for e in p.all("U.move"):
            src = e.a[2]
            if src in addr:
                v("stolen", "the stored value of a shared_future is moved from", e)

    def validity(v, p):
        if not p.has("share", 0, 1, 1):
            v("validity", "share(): %s" % p.first("share").a, p.first("share"))
        for e in p.all("valid"):
            if list(e.a[:2]) != [1, 1]:
                v("validity", "a shared_future becomes invalid", e)
        for e in p.all("moved", 1):
            v("validity", "a moved-from shared_future is valid", e)
    return every_reader, validity


for typ in "ur":
    for o in range(9):
        rd, va = readers(typ)
        add("sh_%s_%d" % (typ, o), 2, "shared_future<%s>: 3 operations of readers, continuations, copies and drops in any order" % typ, {"C25": [rd], "C15": [va], "C09": [rd]})
