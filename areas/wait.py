from vcore import E
from rule import *

DRIVER = "wait.cpp"
ENTRIES = []


def add(name, doc, props, **kw):
    ENTRIES.append(E("e_" + name, doc, props, **kw))


B = BROKEN
VAL = {"U": ("val", 7), "v": ("val", 0), "r": ("val", 70)}


def res(k, t="U", v=None):
    return v or VAL[t] if k == "value" else ("exc", 7) if k == "error" else B


def after_delivery(v, p):
    """a waiting call returns only after the producer's step began"""
    d = p.first("returned")
    e = next((x for x in p.ev if x.k in ("env-begin", "thread-start")), None)
    if d is not None and e is None:
        v("early return", "the waiting call returns although nothing was delivered", d)
    r = p.first("ready", 0)
    if r:
        v("early return", "wait() returned but the result is not available", r)


def reads(*tr):
    def every_reader(v, p):
        for t, r in tr:
            if p.outcomes(t) != [r]:
                v("result", "the reader sees %s instead of %s" % (p.outcomes(t), r), p_obs(p, t))
    return every_reader


doc = "blocked caller of %s, delivery (%s) possible at each of its synchronisation points and while it sleeps"
for n, t in (("get", "U"), ("wait", "U"), ("swait", "U"), ("getv", "v"), ("waitv", "v"), ("getr", "r"), ("getp", "U"), ("unwrap", "U"), ("all", "U"),
             ("any", "U"), ("twice", "U")):
    for k in ("value", "error", "gone"):
        r = [reads((1, res(k, t))), after_delivery]
        add("%s_%s" % (n, k), doc % (n, k), {"C03": r, "C04": []})
for n, t in (("sget", "U"), ("sgetv", "v"), ("sgetr", "r")):
    for k in ("value", "error", "gone"):
        add("%s_%s" % (n, k), doc % (n, k), {"C03": [reads((1, res(k, t)), (2, res(k, t))), after_delivery], "C04": []})
for k in ("value", "error", "gone"):
    add("next_" + k, doc % ("get of a continuation", k), {"C03": [reads((1, res(k, v=("val", 8)))), after_delivery], "C04": []})
    add("many_" + k, "two blocked readers", {"C03": [reads((1, res(k)), (2, res(k)))], "C04": []})
    add("prod_" + k, "delivering thread, two readers block and resume at any point", {"C03": [reads((2, res(k)), (3, res(k)))], "C04": []},
        must=[("a reader blocks before the delivery", lambda p: any(e.k == "park" for e in p.ev))])
    add("last_" + k, "delivering thread, the only reader takes the result and destroys everything", {"C03": [reads((2, res(k)))], "C04": [], "C10": []},
        must=[("the reader blocks before the delivery", lambda p: any(e.k == "park" for e in p.ev))])
    add("dropped_" + k, "delivering thread, the only future is dropped at any point", {"C04": [], "C09": [], "C10": []})
add("task_run", doc % ("get on a packaged_task", "run"), {"C03": [when(notthrew(10), reads((1, ("val", 7)))), when(threw(10), reads((1, ("exc", 10))))], "C04": []})
add("task_drop", doc % ("get on a packaged_task", "drop"), {"C03": [reads((1, B))], "C04": []})
add("thread_get", "delivery by a std::thread", {"C03": [reads((1, ("val", 7)))], "C04": []})
