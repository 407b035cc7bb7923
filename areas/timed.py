from vcore import E
from rule import *

DRIVER = "timed.cpp"
ENTRIES = []
PART = {}
CONFIGS = [dict(name="part%d" % i, defs=["-DTIMED_PART=%d" % i], match=(lambda n, i=i: PART[n] == i)) for i in range(3)]
B = BROKEN


def add(name, part, doc, props, **kw):
    PART["e_" + name] = part
    ENTRIES.append(E("e_" + name, doc, props, **kw))


def truth(v, p):
    """ready is reported only when the result is available, timeout only when it was not delivered when the waiter gave up"""
    begun = ended = None
    woke = None
    for e in p.ev:
        if e.k == "env-begin" and begun is None:
            begun = e
        elif e.k == "env-end" and ended is None:
            ended = e
        elif e.k == "ev" and e.n == "done":
            begun = ended = e
        elif e.k == "ev" and e.n == "wait":
            woke = e
        elif e.k == "cvwake" and e.tid == (p.ev[0].tid if p.ev else 1):
            woke = e
        elif e.k == "ev" and e.n == "status":
            if e.a[0] == 1 and (begun is None or e.a[1] == 0):
                v("ready is true", "the wait reports ready, the result is not available", e)
            elif e.a[0] == 0 and ended is not None and ended.i < woke.i and not dropped(p):
                v("timeout is true", "the wait reports timeout although the result had been delivered before it gave up", e)
            elif e.a[0] not in (0, 1):
                v("status", "the wait reports neither ready nor timeout", e)


def dropped(p):
    """the future was dropped before the delivery: nothing was delivered"""
    return p.chose("future is dropped before the wait") == [1] or p.ent.name.startswith("e_outlives")


def outlived(v, p):
    """once reported, ready is reported again"""
    s = p.all("status")
    if len(s) > 1 and s[0].a[0] == 1 and s[1].a[0] != 1:
        v("stable", "a second wait reports timeout after the first reported ready", s[1])
    if any(e.a[0] == 1 and not any(x.k == "env-begin" and x.i < e.i for x in p.ev) for e in s):
        v("ready is true", "the wait reports ready before the delivery", s[0])


def stable(v, p):
    seen = False
    for e in p.all("status"):
        if seen and e.a[0] != 1:
            v("stable", "a later wait reports timeout after an earlier one reported ready", e)
        seen = seen or e.a[0] == 1


def woken(p):
    """sleeping waiter resumed by the delivery itself"""
    b = [e.i for e in p.ev if e.k == "env-begin"]
    return any(e.k == "cvwake" and e.s and e.s[0] == "notified" and b and e.i > b[0] for e in p.ev)


def res(k, v):
    return {"value": v, "error": ("exc", 7), "gone": B}[k]


WOKEN = ("a sleeping waiter is resumed by the delivery", woken)
TIMEOUT = ("a timeout is reported", lambda p: p.has("status", 0))
K = {"for": 0, "until": 0, "sys": 0, "copy": 0, "forv": 0, "sfor": 0, "suntil": 0, "ssys": 0, "scopy": 0,
     "dfor": 1, "duntil": 1, "dmix": 1, "sdfor": 1, "sduntil": 1, "sdmix": 1}
for n, part in K.items():
    for k in ("value", "error", "gone"):
        val = {"forv": ("val", 0), "ssys": ("val", 0), "sdmix": ("val", 70)}.get(n, ("val", 7))
        r = [truth, stable, result(1, res(k, val))]
        if n.endswith("mix"):
            r.append(lambda v, p: [v("stable", "a timed wait after wait() reports timeout", e) for e in p.all("status")[1:] if e.a[0] != 1])
        add("%s_%s" % (n, k), part, "timed wait (%s), delivery (%s), timeout and spurious wake-up at every point" % (n, k), {"C21": r, "C04": [], "C03": [result(1, res(k, val))]},
            must=[WOKEN, TIMEOUT])
for n in ("late_u", "late_s", "late_cnt"):
    add(n, 1, "timed waits on a future that is already ready", {"C21": [truth, absent("status", 0), result(1, ("val", 7), ("exc", 7))]})
add("invalid", 1, "timed waits on an invalid future", {"C21": [result(i, NOSTATE) for i in range(1, 7)], "C15": [result(i, NOSTATE) for i in range(1, 7)]})
for k in ("value", "error", "gone"):
    add("outlives_" + k, 2, "the waiter outlives the future", {"C21": [outlived], "C04": []}, out=("return", "blocked"))
    add("two_" + k, 2, "two waiters on one shared state", {"C21": [truth, stable, result(1, res(k, ("val", 7))),
        lambda v, p: [v("timeout is true", "the result is there, the wait reports timeout", e) for e in p.all("status")[2:] if e.a[0] != 1]], "C04": []}, must=[WOKEN])
    for n in ("prod", "sprod"):
        add("%s_%s" % (n, k), 2, "delivering thread, the waiter waits, gives up and destroys everything at any point", {
            "C21": [lambda v, p: [v("ready is true", "ready was reported, the result is not available", e) for e in p.all("status2") if e.a[0] == 1 and not p.outcomes(2)],
                    when(lambda p: p.has("status2", 1), result(2, res(k, ("val", 7)))), absent("status2", 2)], "C04": []})
    add("pdrop_" + k, 2, "delivering thread, the waiter is destroyed at any point", {"C21": [], "C04": []})
    for n in ("sleep_", "ssleep_"):
      add(n + k, 2, "two threads sleep on copies of one waiter while the result is delivered", {"C21": [result(1, res(k, ("val", 7))),
        lambda v, p: [v("timeout is true", "a wait begun after the delivery reports timeout", e) for e in p.all("status2") if e.a[0] != 1 and
                      p.first("delivered") and any(x.n == "wait2" and x.tid == e.tid and x.i > p.first("delivered").i for x in p.ev if x.k == "ev")]], "C04": []},
        must=[("both sleep before the delivery", lambda p: sum(e.k == "park" for e in p.ev) == 2)])
