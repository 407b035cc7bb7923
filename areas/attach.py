from vcore import E
from rule import *

DRIVER = "attach.cpp"
ENTRIES = []


def add(name, doc, props, **kw):
    ENTRIES.append(E("e_" + name, doc, props, **kw))


V, X, B = ("val", 7), ("exc", 7), BROKEN
how = {"value": V, "error": X, "gone": B}
attached_in_race = "attach while another thread %s, at every synchronisation point"
deed = {"value": "sets a value", "error": "sets an exception", "gone": "drops the promise"}
VV = ("val", 0)

for k, r in how.items():
    for n in ("notify", "snotify", "notifyx", "snotifyx"):
        add("%s_%s" % (n, k), attached_in_race % deed[k], {"C01": [once(1)], "C02": [result(1, r)]})
    add("notifyv_" + k, attached_in_race % deed[k], {"C01": [once(1)], "C02": [result(1, VV if k == "value" else r)]})
    for n in ("then", "sthen", "thenx", "sthenx", "ithen", "sithen"):
        add("%s_%s" % (n, k), attached_in_race % deed[k], {"C01": [once(1)], "C02": [result(1, r), result(2, ("val", 60))],
                                                            "C08": [once(1), result(1, r)]})
    for n in ("next", "snext", "nextv", "snextv"):
        if k == "value":
            add("%s_%s" % (n, k), attached_in_race % deed[k], {
                "C01": [once(1), result(2, ("val", 60))], "C02": [result(1, VV if n.endswith("v") else r), result(2, ("val", 60))], "C08": [once(1), result(2, ("val", 60))]})
        else:
            add("%s_%s" % (n, k), attached_in_race % deed[k], {"C01": [never(1), result(2, r)], "C02": [result(2, r)], "C08": [never(1), result(2, r)]})
    if k == "value":
        add("chain_value", "chain attached while the head is fulfilled", {"C01": [once(1, 2)], "C02": [result(1, ("val", 8)), result(2, ("val", 60))]})
    else:
        add("chain_" + k, "chain attached while the head fails", {"C01": [never(1), once(2)], "C02": [result(1, r), result(2, ("val", 60))]})
    add("three_" + k, "three functions on one state", {"C01": [once(1, 2, 3)], "C02": [result(1, r), result(2, r), result(3, r)]})
    add("inside_" + k, "attach from inside a notification", {"C01": [once(1, 2)], "C02": [result(2, r)]})
    add("inside_then_" + k, "attach from inside a continuation", {"C01": [once(1, 2)], "C02": [result(2, r)]})
    add("prod_" + k, "the producer is interrupted by two attaching threads", {"C01": [once(1, 50, 51)], "C02": [result(1, r), result(50, r), result(51, r)]})

add("crowd_notify", "two threads attach, a third fulfils", {"C01": [once(1, 50)], "C02": [result(1, V), result(50, V)]})
add("crowd_then", "two threads attach continuations, a third fulfils", {"C01": [once(1, 50)], "C02": [result(1, V), result(50, V)]})
NR = ("notready",)
add("prod_poll", "threads poll is_ready and read while the producer fulfils", {"C01": [once(1)], "C02": [result(1, V), result(50, V, NR), result(51, V, NR)]})
add("prod_poll_error", "a thread polls, one attaches, while the producer fails", {"C01": [once(1, 51)], "C02": [result(50, X, NR), result(51, X)]})
add("poll_main", "poll and read while another thread fulfils", {"C02": [result(1, V, NR)]})


def kinds(name, outcome, doc):
    """outcome(p) -> expected result of the operation"""
    def attached(v, p):
        o = outcome(p)
        once(1, 2)(v, p)
        (once(3) if o[0] == "val" else never(3))(v, p)
        result(1, o)(v, p)
        result(2, o)(v, p)
    props = {"C01": [attached]}
    add(name, doc, props)


def pick3(p):
    return (V, X, B)[p.chose("outcome")[0]]


def voided(o):
    return VV if o == V else o


kinds("by_promise", pick3, "promise")
kinds("by_promise_void", lambda p: voided(pick3(p)), "promise<void>")
kinds("by_promise_ref", lambda p: ("val", 70) if pick3(p) == V else pick3(p), "promise<R&>")
kinds("by_old_promise", pick3, "promise with get_future")
kinds("by_old_promise_late", pick3, "promise, future taken after fulfilment")
kinds("by_canceler", pick3, "cancellable promise")
kinds("by_allocator", pick3, "promise with allocator")


def task(p, val=V):
    if p.chose("task dropped") and p.chose("task dropped")[0]:
        return B
    if p.chose("work dropped") and p.chose("work dropped")[0]:
        return B
    return ("exc", 80) if p.has("F.throw", 80) else val


kinds("by_task", task, "packaged_task")
kinds("by_task_void", lambda p: task(p, VV), "packaged_task<void()>")
kinds("by_async", task, "async")
kinds("by_async_now", task, "async on an executor that runs at once")


def cont(p, always):
    o = pick3(p)
    if o != V and not always:
        return ("exc", 6) if o == X else B
    return ("exc", 80) if p.has("F.throw", 80) else V


kinds("by_then", lambda p: cont(p, True), "continuation (then)")
kinds("by_next", lambda p: cont(p, False), "continuation (next)")
kinds("by_thenx", lambda p: cont(p, True), "continuation on an executor")
kinds("by_ithen", lambda p: (V, X, B)[p.chose("inner")[0]], "interruptible continuation")
kinds("by_unwrap", pick3, "unwrapped inner future")
kinds("by_unwrap_shared", pick3, "unwrapped inner shared_future")
for n in ("by_when_all", "by_when_any", "by_when_all_empty", "by_when_all_vec0", "by_when_any_empty", "by_ready"):
    kinds(n, lambda p: V, n[3:])
kinds("by_ready_void", lambda p: VV, "make_ready_future()")
kinds("by_exceptional", lambda p: X, "make_exceptional_future")


def sees(v, p):
    for e in p.all("side"):
        if e.a[0] != 5:
            v("visibility", "readiness was learnt before the producer's earlier writes", e)
    if p.n("side") + p.n("early") != 1:
        v("visibility", "readiness is reported %d times" % p.n("side"))


for n in "poll spoll wait swait get notify then next timed all any".split():
    for k in how:
        add("side_%s_%s" % (n, k), "learns about readiness by %s, then reads data the producer wrote earlier" % n, {"C02": [sees]},
            must=[("readiness is learnt", lambda p: p.has("side"))])
