from vcore import E
from rule import *

DRIVER = "when.cpp"
ENTRIES = []
NONE = (-1, 2**64 - 1)


def done_at(p):
    """position of the end of the first completion of each input, and of its beginning"""
    b, e, how = {}, {}, {}
    for x in p.ev:
        if x.n == "complete":
            b.setdefault(x.a[0], x.i)
            how[x.a[0]] = x.a[1]
        elif x.n == "completed":
            e.setdefault(x.a[0], x.i)
    return b, e, how


def readiness(any_, n):
    def ready_iff(v, p):
        b, e, how = done_at(p)
        for x in p.ev:
            # `begun`: completions that had started (the result may be ready); `ended`: those that had returned (it must be, if that is enough)
            if x.n in ("state", "waited", "got") or (x.n == "F.call" and x.a[0] == 1):
                begun = sum(1 for i in b if b[i] < x.i)
                ended = sum(1 for i in e if e[i] < x.i)
                may = n == 0 or (begun >= 1 if any_ else begun == n)
                have = n == 0 or (ended >= 1 if any_ else ended == n)
                if x.n == "state":
                    if x.a[0] == 0:
                        v("valid", "the combined future is not valid", x)
                    if x.a[0] == 2 and not may:
                        v("not before", "the combined future is ready after %d of %d completions" % (begun, n), x)
                    if x.a[0] == 1 and have:
                        v("ready when", "the combined future is not ready after %d of %d completions" % (ended, n), x)
                elif not may:
                    v("not before", "%s after %d of %d completions" % ({"waited": "wait returns", "got": "get returns", "F.call": "the notification runs"}[x.n], begun, n), x)
    return ready_iff


def delivery(any_, n):
    def delivers_inputs(v, p):
        for o in p.outcomes(1):
            v("no error of its own", "the combined future delivers %s" % (o,), p_obs(p, 1))
        g = p.all("got")
        if len(g) != 1:
            v("delivered", "the result is obtained %d times, expected once" % len(g))
            return
        if not p.has("size", n):
            v("all inputs", "the result has %s inputs, expected %d" % (p.first("size").a, n), p.first("size"))
        b, e, how = done_at(p)
        idx = None
        if any_:
            x = p.first("index")
            idx = x.a[0]
            if n == 0:
                if idx not in NONE:
                    v("index", "index of an empty when_any is %s" % idx, x)
                idx = None
            elif idx not in range(n):
                v("index", "index %s does not name an input" % idx, x)
                return
        seen = p.all("input")
        if [x.a[0] for x in seen] != list(range(n)):
            v("all inputs", "the inputs seen are %s" % [x.a[0] for x in seen])
        for x in seen:
            i, st = x.a
            if st == 0:
                v("all inputs valid", "input %d is invalid" % i, x)
                continue
            if st == 1 and (not any_ or i == idx):
                v("ready inputs" if not any_ else "index", "input %d is not ready%s" % (i, " although index names it" if any_ else ""), x)
            if st == 1 and i in e and e[i] < p.first("look", i).i:
                v("ready inputs", "input %d is not ready although it was completed" % i, x)
            if st == 2 and (i not in b or b[i] > x.i):
                v("ready inputs", "input %d is ready although it was not completed" % i, x)
            if st == 2:
                want = [("val", 100 + i), ("exc", 100 + i), BROKEN][how[i]] if i in how else None
                result(10 + i, want)(v, p)
    return delivers_inputs


def source(v, p):
    for x in p.all("source-valid", 0):
        v("copied", "a shared_future of the input range becomes invalid", x)


FORMS = dict(t0=(0, "no argument"), t1=(1, "one future"), t2=(2, "two futures"), tm=(3, "future, shared_future lvalue, shared_future rvalue"),
             v0=(0, "empty vector"), v1=(1, "vector of 1"), v2=(2, "vector of 2"), v3=(3, "vector of 3"), sv0=(0, "empty shared vector"), sv2=(2, "shared vector of 2"),
             i0=(0, "empty range"), i2=(2, "range of 2"), si0=(0, "empty shared range"), si2=(2, "shared range of 2"))


def add(kind, op, form, doc, rules, note=True, **kw):
    n, what = FORMS[form]
    prop = {"all": "C11", "any": "C12"}[op]
    pr = {prop: rules, "C01": [once(1)]} if note else {prop: rules}
    ENTRIES.append(E("e_%s_%s_%s" % (kind, op, form), "when_%s(%s): %s" % (op, what, doc), pr, **kw))


for op in ("all", "any"):
    a = op == "any"
    for f in FORMS:
        n = FORMS[f][0]
        add("seq", op, f, "completions in any order, with any outcome, before and after the call", [readiness(a, n), delivery(a, n), source, once(1)])
    for f in ("t2", "v2", "si2"):
        n = FORMS[f][0]
        add("call", op, f, "inputs completed by other threads at any point of the call and of the wait", [readiness(a, n), delivery(a, n), source], note=False)
        add("compl", op, f, "two threads complete inputs concurrently", [readiness(a, n), delivery(a, n), source, once(1), present("done")])
        add("drop", op, f, "the combined future is dropped at any time", [present("dropped"), source], note=False)
    add("read", op, "t2", "a third thread waits and reads while two complete", [readiness(a, 2), delivery(a, 2), present("done")], note=False)
for f in ("t2", "tm", "v3", "si2"):
    n = FORMS[f][0]
    add("first", "any", f, "the result is taken after the first completion, the others complete later", [readiness(True, n), delivery(True, n)], note=False)
