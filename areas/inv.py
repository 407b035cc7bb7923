from vcore import E
from rule import *

DRIVER = "inv.cpp"
ENTRIES = []
OPS = "get wait is_ready notify notify(ex) then then(ex) interruptible-then interruptible-then(ex) next next(ex) detach wait_for wait_until timed_waiter share move move-assign copy".split()


def add(name, doc, rules, **kw):
    ENTRIES.append(E("e_" + name, doc, {"C15": rules}, **kw))


def no_state(v, p):
    o = OPS[p.first("op").a[0]]
    if not p.has("valid0", 0):
        v("validity", "the object used up by an operation is still valid", p.first("valid0"))
    if p.outcomes(1) != [NOSTATE] or p.has("accepted"):
        v("no_state", "%s on an invalid object gives %s instead of no_state" % (o, p.outcomes(1) or "no error"), p.first("op"))
    if p.has("valid1", 1):
        v("validity", "a failed operation makes the object valid", p.first("valid1"))
    never(10)(v, p)
    absent("X.post")(v, p)


def allowed(v, p):
    if not p.has("accepted") or not p.has("result", 0):
        v("allowed", "an operation documented as allowed on an invalid object fails: %s" % p.outcomes(1))


KEEP_U = {"wait", "is_ready", "notify", "notify(ex)", "wait_for", "wait_until", "timed_waiter"}
KEEP_S = KEEP_U | {"get", "then", "then(ex)", "interruptible-then", "interruptible-then(ex)", "next", "next(ex)", "copy"}


def valid_after(keep):
    def validity(v, p):
        o = OPS[p.first("op").a[0]]
        if not p.has("accepted"):
            v("accepted", "%s on a valid object throws %s" % (o, p.outcomes(1)))
            return
        want = 1 if o in keep else 0
        if not p.has("valid1", want):
            v("validity", "after %s the object is %s" % (o, "invalid" if want else "still valid"), p.first("valid1"))
        if p.has("result", 0):
            v("validity", "the object produced by %s is invalid" % o, p.first("result"))
    return validity


for n in ("fu", "fv", "fr", "su", "sv", "sr"):
    add("inv_" + n, "every operation on a default constructed, moved-from or used-up %s" % n, [no_state])
for n in "uvr":
    add("allowed_" + n, "moves, copies and share of invalid objects", [allowed])
for n in ("f", "s"):
    add("valid_" + n, "validity after each operation, ready", [valid_after(KEEP_U if n == "f" else KEEP_S)])
    add("valid_%s_pending" % n, "validity after each operation, pending", [valid_after(KEEP_U if n == "f" else KEEP_S)])


def promise(v, p):
    o = p.first("op").a[0]
    if o == 4:
        if not p.has("accepted"):
            v("allowed", "moving a moved-from promise fails")
    elif p.outcomes(1) != [NOSTATE]:
        v("no_state", "operation %d of a moved-from promise gives %s" % (o, p.outcomes(1)), p.first("op"))
    present("pending", 0)(v, p)


for n, r in (("u", ("val", 7)), ("v", ("val", 0)), ("r", ("val", 70))):
    add("promise_" + n, "moved-from promise<%s>" % n, [promise, result(2, r)])


def task(v, p):
    o = p.first("op").a[0]
    present("valid0", 0)(v, p)
    if o < 2:
        if p.outcomes(1) != [NOSTATE]:
            v("no_state", "operation %d of an invalid task gives %s" % (o, p.outcomes(1)), p.first("op"))
    elif not p.has("accepted") or not p.has("result", 0):
        v("allowed", "operation %d of an invalid task fails" % o)


add("task_nostate", "packaged_task without a state", [task])
