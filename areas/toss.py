"""User types whose copying or moving throws: nothing is leaked, lost, run or half done."""
from vcore import E
from rule import *

DRIVER = "toss.cpp"
ENTRIES = []


def tossed(p):
    return bool(p.all("toss"))


def escapes(v, p):
    """the operation reports the failure of the user's type to its caller, and only then"""
    t = p.all("toss")
    if bool(t) != p.has("attempted", 1):
        v("failure", "the exception thrown by the user's type %s" % ("is swallowed" if t else "appears from nowhere"), t[0] if t else p.first("attempted"))
    if t and not p.has("threw", t[0].a[0]):
        v("failure", "the exception thrown by the user's type is replaced", p.first("threw"))


def contained(v, p):
    """... and does not escape where it has to become the result"""
    if p.has("attempted", 1):
        v("escape", "an exception leaves the operation that should store it", p.first("threw"))


def set_result(v, p):
    threw = p.has("attempted", 1)
    if not p.has("ready", 0 if threw else 1):
        v("readiness", "the future is %s although setting the value %s" % (("ready", "failed") if threw else ("not ready", "succeeded")), p.first("ready"))
    want = [("val", 8), ("exc", 9), BROKEN][p.chose("then")[0]] if threw else ("val", 7)
    result(1, want)(v, p)
    result(2, ("val", 80))(v, p)
    if not threw and not p.chose("attach first")[0]:
        result(4, SATISFIED)(v, p)
    once(11)(v, p)


def source(v, p):
    for e in p.all("source"):
        if e.a[0] != 7:
            v("source", "the caller's object was moved from", e)


for n, d in (("set_copy", "copying"), ("set_move", "moving")):
    ENTRIES.append(E("e_" + n, "promise::set_value, %s the value into the state may throw; then another value, an error or nothing" % d,
                     {"C05": [set_result], "C06": [set_result], "C25": [set_result, escapes, source], "C01": [set_result]}))


def stored(v, p):
    if not p.has("ready", 1):
        v("pending", "the future stays pending", p.first("ready"))
    if tossed(p):
        result(2, ("exc", 30))(v, p)
    else:
        result(2, ("val", 60), ("val", 61))(v, p)


for n in "task then next sthen snext async".split():
    ENTRIES.append(E("e_" + n, "%s: the result of the function may throw when it is moved into the state" % n, {"C07": [stored, contained, once(10)], "C25": [stored]}))


def arg(v, p):
    if not p.has("ready", 1):
        v("pending", "the future stays pending", p.first("ready"))
    if p.has("attempted", 1):
        result(2, BROKEN)(v, p)
        absent("body")(v, p)
    elif tossed(p):
        result(2, ("exc", 30))(v, p)
        absent("body")(v, p)
    else:
        result(2, ("val", 60))(v, p)
        count(1, "body")(v, p)


ENTRIES.append(E("e_next_arg", "next: the value is moved into the parameter", {"C08": [result(2, ("val", 60)), present("ready", 1)]}))
for n in ("next_arg_throws", "snext_arg_throws"):
    ENTRIES.append(E("e_" + n, "next with a by-value parameter: making the parameter may throw", {"C07": [arg], "C08": [arg]}))
ENTRIES.append(E("e_get", "get(): moving the value out may throw", {"C25": [when(tossed, result(2, ("exc", 30))), when(lambda p: not tossed(p), result(2, ("val", 7)))]}))
ENTRIES.append(E("e_sget", "copying from shared_future::get() may throw; the stored value stays", {"C25": [result(2, ("val", 7))]}))
ENTRIES.append(E("e_make_ready", "make_ready_future: copying the value may throw", {"C25": [escapes, source, when(lambda p: not tossed(p), result(2, ("val", 7)))]}))


def attach(shared, res):
    def attached(v, p):
        escapes(v, p)
        if tossed(p):
            never(10)(v, p)
        else:
            once(10)(v, p)
            if res:
                result(2, ("val", 80))(v, p)
        if shared:
            result(3, ("val", 7))(v, p)
    return attached


for n, d, res in (("then_fn", "then, copying the function throws", 1), ("next_fn", "next, copying the function throws", 1), ("notify_fn", "notify, copying the function throws", 0),
                  ("xthen_fn", "then through an executor, copying the function throws", 1), ("xnext_fn", "next through an executor, copying the function throws", 1),
                  ("then_ex", "then, copying the executor throws", 1), ("next_ex", "next, copying the executor throws", 1),
                  ("then_both", "then, copying the executor or the function throws", 1)):
    for s in "us":
        ENTRIES.append(E("e_%s%s" % (s, n), ("shared_future: " if s == "s" else "future: ") + d, {"C10": [attach(s == "s", res)], "C01": [attach(s == "s", res)]}))
for n, d in (("async_fn", "async, copying the function throws"), ("async_arg", "async, copying an argument throws")):
    ENTRIES.append(E("e_" + n, d, {"C10": [attach(False, 1), source], "C25": [attach(False, 1), source]}))
ENTRIES.append(E("e_task_fn", "packaged_task, copying the function throws", {"C10": [attach(False, 1)]}))
ENTRIES.append(E("e_canceller", "make_promise with a canceller, copying the canceller throws", {"C09": [escapes, never(10), when(lambda p: not tossed(p), result(2, ("val", 80)))]}))
ENTRIES.append(E("e_canceller_ctor", "promise with a canceller, copying the canceller throws", {"C09": [escapes, when(tossed, never(10)), when(lambda p: not tossed(p), once(10))]}))
