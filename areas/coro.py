from vcore import E
from rule import *

DRIVER = "coro.cpp"
ENTRIES = []
PART = {}
CONFIGS = [dict(name="part%d" % i, defs=["-DCORO_PART=%d" % i], std="gnu++20", lower=True, match=(lambda n, i=i: PART[n] == i)) for i in range(3)]


def add(name, part, doc, props, **kw):
    PART["e_" + name] = part
    ENTRIES.append(E("e_" + name, doc, props, **kw))


def frames(v, p):
    """what a coroutine owns is destroyed exactly once, by the time everything is over"""
    live = {}
    for e in p.ev:
        if e.n in ("F.ctor", "F.move"):
            live[e.a[0]] = e
        elif e.n == "F.dtor":
            if live.pop(e.a[0], None) is None:
                v("frame", "what the coroutine owns is destroyed twice", e)
        elif e.n == "over" and live:
            pend = [e for e in live.values()]
            v("frame", "a coroutine frame is still alive although its coroutine is over", pend[0])
        elif e.n == "tooearly":
            v("early", "the coroutine's future is ready before the coroutine is", e)
    for i in (1, 2, 3):
        if p.n("co.start", i) > 1 or p.n("co.resume", i) > 1:
            v("resume", "the coroutine is resumed %d times" % p.n("co.resume", i), p.last("co.resume", i))


def awaited(t, how=None):
    """the await yields the delivered result and the coroutine's future follows"""
    def follows(v, p):
        o = how if how is not None else p.chose("outcome")[0]
        want = (("val", {"u": 7, "v": 0, "r": 70, "p": 7}[t]), ("exc", 7), BROKEN)[o]
        ret = ("val", {"u": 9, "v": 0, "r": 70, "p": 9}[t])
        if o == 0:
            if p.outcome(2) != want:
                v("await", "the await yields %s, expected %s" % (p.outcome(2), want), p_obs(p, 2))
            if p.n("co.resume", 1) != 1:
                v("resume", "the coroutine is resumed %d times" % p.n("co.resume", 1))
        elif p.outcome(2) is not None or p.has("co.resume"):
            v("await", "the await yields %s, expected the error %s" % (p.outcome(2), want), p_obs(p, 2))
        if p.ent.name.startswith("e_dropped"):
            return
        w = ret if o == 0 else want
        if p.outcome(1) != w and not (p.ent.name == "e_polled" and p.outcome(1) == ("notready",)):
            v("result", "the coroutine's future shows %s, expected %s" % (p.outcome(1), w), p_obs(p, 1))
    return follows


for t in ("u", "v", "r", "p", "us", "vs", "rs"):
    add("order_" + t, 0, "coroutine awaiting a result (%s), delivered before or after, any outcome" % t, {"C20": [frames, awaited(t[0])]})
for t in ("u", "v", "us", "p"):
    add("dropped_" + t, 0, "the future of the coroutine is dropped while it waits (%s)" % t, {"C20": [frames, awaited(t[0])]})


def caught(v, p):
    w = (("val", 7), ("exc", 7), BROKEN)[p.chose("outcome")[0]]
    if p.outcome(2) != w:
        v("await", "the await yields %s, expected %s" % (p.outcome(2), w), p_obs(p, 2))
    if p.outcome(1) != ("val", 9):
        v("result", "the coroutine's future shows %s" % (p.outcome(1),), p_obs(p, 1))


add("careful", 0, "a coroutine that catches the error", {"C20": [frames, caught]})
for n, t, o in (("u_value", "u", 0), ("u_error", "u", 1), ("u_gone", "u", 2), ("v_value", "v", 0), ("us_value", "u", 0), ("us_gone", "u", 2), ("alloc", "u", 0)):
    add("race_" + n, 1, "another thread delivers at any point of starting and suspending", {"C20": [frames, awaited(t, o)]},
        must=[("the delivery comes before the start", lambda p: len(p.env()) and True)])
for n, o in (("value", 0), ("error", 1), ("gone", 2)):
    add("waited_" + n, 1, "the coroutine ends on another thread while this one waits", {"C20": [frames, awaited("u", o)]})
add("polled", 1, "the coroutine ends on another thread while this one polls", {"C20": [frames, awaited("u", 0)]})
for t, val in (("u", 7), ("v", 0), ("r", 70), ("s", 7)):
    def own(v, p, val=val):
        w = (("val", val), ("exc", 7))[p.chose("outcome")[0]]
        if p.outcome(1) != w:
            v("result", "the coroutine's future shows %s, expected %s" % (p.outcome(1), w), p_obs(p, 1))
    add("at_once_" + t, 2, "a coroutine that does not wait (%s)" % t, {"C20": [frames, own]})
add("copied", 2, "a coroutine returning a const object", {"C20": [frames, result(1, ("val", 7))]})
add("nested", 2, "a coroutine awaiting a coroutine and a shared future", {"C20": [frames, result(1, ("val", 10)), result(2, ("val", 7)), result(3, ("val", 9)), result(4, ("val", 8))]})


def all_follow(v, p):
    o = p.chose("outcome")[0]
    w = (("val", 9), ("exc", 7))[o]
    for t in (1, 3, 4):
        if p.outcome(t) != w:
            v("result", "coroutine %d shows %s, expected %s" % (t, p.outcome(t), w), p_obs(p, t))
    if p.outcome(5) != (("val", 7), ("exc", 7))[o]:
        v("result", "the shared result shows %s" % (p.outcome(5),), p_obs(p, 5))
    if o == 0:
        vs = p.outcomes(2)
        if vs != [("val", 7)] * 3:
            v("await", "the awaits yield %s" % vs, p_obs(p, 2))


add("many", 2, "three coroutines awaiting one shared future", {"C20": [frames, all_follow, once(5)]})
add("cont", 2, "a continuation of a coroutine's future", {"C20": [frames, awaited("u"), once(10), result(3, ("val", 1))]})
add("unwrapped", 2, "a continuation that is a coroutine", {"C20": [frames, awaited("u")]})
add("all", 2, "awaiting when_all", {"C20": [frames, result(1, ("val", 9)), result(3, ("val", 7)), result(4, ("val", 8)), count(1, "co.resume", 1)]})
add("any", 2, "awaiting when_any", {"C20": [frames, result(1, ("val", 9)), result(3, ("notready",)), result(4, ("val", 8)), present("index", 1), count(1, "co.resume", 1)]})


def task_rule(v, p):
    w = ("val", 9) if p.chose("run")[0] and not p.has("F.throw", 10) else ("exc", 10) if p.has("F.throw", 10) else BROKEN
    if p.outcome(1) != w:
        v("result", "the coroutine's future shows %s, expected %s" % (p.outcome(1), w), p_obs(p, 1))


add("task", 2, "awaiting a task of an executor", {"C20": [frames, task_rule]})


def chained_rule(v, p):
    o = p.chose("outcome")[0]
    if p.outcome(2) != ("val", 7) or p.outcome(3) != ((("val", 8)) if o == 0 else None):
        v("await", "the awaits yield %s and %s" % (p.outcome(2), p.outcome(3)), p_obs(p, 2))
    w = (("val", 9), ("exc", 8))[o]
    if p.outcome(1) != w:
        v("result", "the coroutine's future shows %s, expected %s" % (p.outcome(1), w), p_obs(p, 1))


add("chained", 2, "a coroutine awaiting twice", {"C20": [frames, chained_rule]})


def oom(p):
    return any(e.k == "oom" for e in p.ev)


def full_rule(v, p):
    if not oom(p):
        if p.outcome(1) != ("val", 9):
            v("result", "the coroutine's future shows %s" % (p.outcome(1),), p_obs(p, 1))
    elif p.outcome(9) != ("nomem",) and p.outcome(1) != ("nomem",):
        v("reported", "memory ran out, the caller shows %s, the future %s" % (p.outcome(9), p.outcome(1)), p.kind("oom")[0])


add("full", 2, "memory runs out when a coroutine starts or waits", {"C20": [frames, full_rule], "C24": [frames, full_rule]}, must=[("memory runs out", oom)])
