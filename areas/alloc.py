from vcore import E
from rule import *

DRIVER = "alloc.cpp"
ENTRIES = []
PART = {}
CONFIGS = [dict(name="part%d" % i, defs=["-DALLOC_PART=%d" % i], match=(lambda n, i=i: PART[n] == i)) for i in range(3)]


def add(name, part, doc, props, **kw):
    PART["e_" + name] = part
    ENTRIES.append(E("e_" + name, doc, props, **kw))


def paired(v, p):
    """each block is given back once, to an equal allocator, with the type and number it was obtained with"""
    live = {}
    for e in p.ev:
        if e.k != "ev":
            continue
        if e.n == "AL.alloc":
            live[e.a[0]] = e
        elif e.n == "AL.dealloc":
            o = live.pop(e.a[0], None)
            if o is None:
                v("foreign block", "memory that was not obtained from the allocator (or is already given back) is given to it", e)
                return
            if o.a[1] != e.a[1]:
                v("arena", "a block is given back to another arena than it was obtained from", e)
                return
            if o.a[2] != e.a[2] or o.a[3] != e.a[3]:
                v("size", "a block is given back with another type or number than it was obtained with", e)
                return
        elif e.n == "over" and live:
            v("kept", "memory of the allocator obtained at %s is not given back after everything is gone" % next(iter(live.values())).loc, e)
            return


def uses(v, p):
    """the state lives in memory of the allocator"""
    m = p.first("made")
    if m and not any(e.n == "AL.alloc" and e.i < m.i for e in p.ev if e.k == "ev"):
        v("state", "the state of the promise is not obtained from its allocator", m)


R2 = [paired, uses]
NODES = ("waiting on or detaching the future takes memory from the allocator", lambda p: len(p.all("AL.alloc")) > 1)
for t, part in (("u", 0), ("v", 0), ("r", 1), ("p", 1)):
    val = {"u": ("val", 7), "v": ("val", 0), "r": ("val", 70), "p": ("val", 7)}[t]
    for api in ("old", "new"):
        add("%s_%s" % (api, t), part, "promise with allocator (%s interface, result %s): open use, order, outcome and end" % (api, t), {"C23": R2})
add("unused", 2, "promise whose future is never taken", {"C23": R2})
add("two", 2, "two promises with different arenas, swapped or overwritten", {"C23": R2})
for k, val in (("value", ("val", 7)), ("error", ("exc", 7)), ("gone", BROKEN)):
    add("wait_" + k, 2, "blocked reader of an allocated state", {"C23": R2 + [result(1, val)]}, must=[NODES])
for k in ("value", "gone"):
    add("detach_" + k, 2, "detached future of an allocated state", {"C23": R2}, must=[NODES])
add("full_make", 2, "the allocator is exhausted", {"C23": [paired, when(lambda p: p.has("AL.full"), result(9, ("nomem",))), when(lambda p: not p.has("AL.full"), result(1, ("val", 7)))]})
for n in ("seq_all", "seq_any"):
    add(n, 2, "vector with the user's allocator given to when_all/when_any", {"C23": [paired]})
