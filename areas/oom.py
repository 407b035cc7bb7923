from vcore import E
from rule import *

DRIVER = "oom.cpp"
ENTRIES = []
PART = {}
CONFIGS = [dict(name="part%d" % i, defs=["-DOOM_PART=%d" % i], match=(lambda n, i=i: PART[n] == i)) for i in range(7)]


def add(name, part, doc, props, **kw):
    PART["e_" + name] = part
    ENTRIES.append(E("e_" + name, doc, props, **kw))


def oom(p):
    return any(e.k == "oom" for e in p.ev)


def fine(p):
    return not oom(p)


def failed(p):
    return p.outcome(9) is not None


def reported(v, p):
    """an operation that ran out of memory throws bad_alloc, one that did not succeeds"""
    o = p.outcome(9)
    if oom(p):
        if o not in (("nomem",), ("otherexc",) if p.ent.name == "e_pool_make" else None):
            v("reported", "memory ran out, the operation shows %s instead of bad_alloc" % (o,), p.kind("oom")[0])
    elif o is not None:
        v("reported", "the operation fails with %s although memory did not run out" % (o,), p_obs(p, 9))


FAILS = ("the operation runs out of memory", oom)
WORKS = ("the operation succeeds", fine)
BOTH = [FAILS, WORKS]


def want(p, t):
    o = p.chose("outcome")[0]
    return (("val", 7 if t == "u" else 0), ("exc", 7), BROKEN)[o]


for n, r in (("make", ("val", 7)), ("make_old", ("val", 7)), ("make_alloc", ("val", 7)), ("make_canceler", ("val", 7)), ("make_canceler_old", ("val", 7)),
             ("make_ready", ("val", 7)), ("make_error", ("exc", 7)), ("task", None), ("async", ("val", 7))):
    rules = [reported]
    if r:
        rules.append(when(fine, result(1, r)))
    if n.startswith("make_canceler"):
        rules.append(never(5))
    add(n, 0, "memory runs out in %s" % n, {"C24": rules}, must=BOTH)
add("func_big", 0, "memory runs out when a big callable is assigned: the old one stays", {"C24": [reported, when(oom, result(1, ("val", 6))), when(fine, result(1, ("val", 7)))]}, must=BOTH)


def attach(name, part, t, unique, consumes, doc):
    def others(v, p):
        for i in (1, 2) if unique else (1,):
            if part == 2 and name.startswith("r_"):
                break
            c = p.all("F.call", i)
            if len(c) != 1 and not (consumes and oom(p) and not c):
                v("earlier functions", "function %d attached before runs %d times, expected once" % (i, len(c)), c[-1] if c else None)
        if consumes and oom(p) and not p.has("attached") and p.has("awaited") and p.has("spent", 1):
            v("half attached", "attaching failed and the future is gone, but the producer is still told that its result is awaited", p.first("awaited"))

    def half(v, p):
        """a function whose attaching failed does not run unless it ran before the failure was reported; an attached one runs once"""
        c = p.all("F.call", 10)
        a = p.first("after")
        if len(c) > 1:
            v("half attached", "the function runs %d times" % len(c), c[1])
        elif oom(p) and not p.has("attached") and c and a and c[0].i > a.i and not p.has("taken"):
            # a continuation whose future could not be kept alive may still run only if something keeps it: nothing does
            v("half attached", "the function runs although attaching it failed", c[0])

    def other_result(v, p):
        o = p.outcome(1)
        if o is None:
            if not p.has("spent", 1):
                v("other handles", "the future shows nothing")
            elif not consumes:
                v("other handles", "the future is lost although the operation does not take it over", p.first("spent", 1))
        elif o != want(p, t) and not (name == "r_get" and p.has("val", 3)):
            v("other handles", "the future shows %s, expected %s" % (o, want(p, t)), p_obs(p, 1))

    def rep_(v, p):
        if name == "r_get":
            o = p.outcome(9)
            if oom(p) and o != ("nomem",):
                v("reported", "memory ran out, the operation shows %s instead of bad_alloc" % (o,), p.kind("oom")[0])
            if fine(p) and (p.outcome(3) or o) != want(p, t):
                v("reported", "get shows %s" % ((p.outcome(3) or o),))
            return
        reported(v, p)

    add(name, part, doc, {"C24": [rep_, others, half, other_result]}, must=BOTH if name not in () else [WORKS])


for n, t, c in (("notify", "u", 0), ("notify_ex", "u", 0), ("then", "u", 1), ("then_v", "v", 1), ("next", "u", 1), ("next_v", "v", 1),
                ("itn", "u", 1), ("detach", "u", 0), ("timed", "u", 0)):
    attach("p_" + n, 1, t, True, c, "memory runs out in %s on a pending future" % n)
for n, c in (("notify", 0), ("then", 0), ("next", 0), ("detach", 0), ("timed", 0)):
    attach("s_" + n, 2, "u", False, c, "memory runs out in %s on a pending shared_future" % n)
for n, c in (("notify", 0), ("then", 1), ("next", 1), ("get", 1), ("wait", 0), ("detach", 0)):
    attach("r_" + n, 2, "u", True, c, "memory runs out in %s on a ready future" % n)


def taken(val, broken=False):
    """the function's future cannot be taken over: the error reaches the result; the inner operation is not disturbed"""
    def through(v, p):
        o = p.outcome(1)
        if oom(p):
            ok = (("nomem",), BROKEN) if p.outcome(9) == ("nomem",) and broken else (("nomem",),)
            if o not in ok:
                v("reported", "memory ran out, the result shows %s, expected %s" % (o, ok), p.kind("oom")[0])
        elif o != val:
            v("result", "the result shows %s, expected %s" % (o, val), p_obs(p, 1))
        if p.outcome(9) is not None and not (broken and oom(p)):
            v("reported", "the completing call fails with %s" % (p.outcome(9),), p_obs(p, 9))
    return through


for n in ("then", "next", "sthen", "snext"):
    add("u_" + n, 3, "memory runs out when the future returned by a %s function is taken over" % n, {"C24": [taken(("val", 7)), once(2, 10), when(fine, once(1))]}, must=BOTH)
add("u_then_ready", 3, "as before, the returned future is shared and may be ready", {"C24": [taken(("val", 7)), once(2, 10)]}, must=BOTH)
add("u_void", 3, "as before, void result", {"C24": [taken(("val", 0)), once(2, 10), when(fine, once(1))]}, must=BOTH)
add("u_ref", 3, "as before, reference result", {"C24": [taken(("val", 70)), once(2, 10), when(fine, once(1))]}, must=BOTH)
for n, r in (("task", 7), ("task_v", 0), ("task_r", 70), ("async", 7)):
    add("u_" + n, 3, "memory runs out when the future returned by a %s function is taken over" % n, {"C24": [taken(("val", r), True), once(2, 10), when(fine, once(1))]}, must=BOTH)


def inputs(unique):
    def inputs_undisturbed(v, p):
        for i in (1, 2):
            c = p.all("F.call", i)
            if len(c) != 1 and not (oom(p) and not c and unique):
                v("earlier functions", "function %d attached to an input before runs %d times, expected once" % (i, len(c)))
        c = p.all("F.call", 10)
        if len(c) > 1 or (c and not p.has("attached")):
            v("half attached", "the function attached to the combined future runs %d times" % len(c), c[0])
    return inputs_undisturbed


for n in ("all2", "any2", "all_vec", "any_it", "all_s", "any_s", "all_sit"):
    shared = n.split("_")[-1][0] == "s"
    rules = [reported, inputs(not shared)]
    if shared:
        rules += [result(3, ("val", 7)), result(4, ("val", 8))]
    add(n, 4, "memory runs out in when_all/when_any (%s)" % n, {"C24": rules}, must=BOTH)

add("pool_make", 6, "memory runs out when the pool is made", {"C24": [reported, when(lambda p: p.has("made"), once(10))]}, must=BOTH)
for n, o in (("pool_post", (1, 2)), ("pool_post_big", (2,)), ("pool_async", (2,))):
    add(n, 6, "memory runs out in %s" % n, {"C24": [reported, once(*o), when(fine, once(10)), when(oom, never(10))]}, must=BOTH if n != "pool_post" else [WORKS])


def accepted(v, p):
    for i in range(20, 33):
        n = p.n("F.call", i)
        if n != p.n("posted", i):
            v("accepted tasks", "task %d was %s but ran %d times" % (i, "accepted" if p.has("posted", i) else "refused", n), p.first("F.call", i))


add("pool_full", 6, "memory runs out when the queue of the pool grows", {"C24": [reported, accepted]}, must=BOTH)


def result_of(tag, fail):
    def handed(v, p):
        o = p.outcome(tag)
        w = fail if oom(p) else (("val", 1),)
        if p.chose("outcome")[:1] == [1] and p.ent.name == "e_x_next":
            w = (("exc", 7),) + (fail if oom(p) else ())
        if o not in w:
            v("result", "the result shows %s, expected %s" % (o, w), p_obs(p, tag))
    return handed


ANY = [when(fine, once(10)), when(oom, never(10))]
for n, t in (("notify", "u"), ("then", "u"), ("next", "v")):
    def shared_result(v, p, t=t):
        if p.outcome(1) != want(p, t):
            v("other handles", "the future shows %s, expected %s" % (p.outcome(1), want(p, t)), p_obs(p, 1))
    R = [reported, once(1, 2, 3), result(4, ("val", 1)), shared_result]
    if n == "notify":
        R += ANY
    else:
        R += [when(oom, never(10)), result_of(2, (BROKEN, ("nomem",)))]
    add("x_" + n, 5, "memory runs out when the executor of a %s function takes it" % n, {"C24": R}, must=BOTH)
add("x_wait", 5, "as before, another thread waits for the result", {"C24": [reported, once(1), result(1, ("val", 7))] + ANY, "C03": [result(1, ("val", 7))]}, must=BOTH)
