"""Rule library: automata over the events of one abstract path.  A rule is f(v, p); v(rule, msg, ev) reports."""
import vcore

SCOPED = {"U": ("U.ctor", "U.copy", "U.move", "U.dtor"), "F": ("F.ctor", None, "F.move", "F.dtor"),
          "A": ("A.ctor", "A.copy", None, "A.dtor")}


def named(n, f):
    f.__name__ = n
    return f


# ---------------------------------------------------------------- ownership

def balance(v, p):
    """construct/destroy typestate of every user object: made once, destroyed once, not used outside, not called moved-from"""
    live = {}
    called = {}
    for e in p.ev:
        if e.k != "ev":
            continue
        n = e.n
        if n in ("U.ctor", "U.copy", "U.move", "F.ctor", "F.copy", "F.move", "X.ctor", "X.copy", "X.move"):
            o = e.a[0]
            if o in live:
                v("ownership", "a user object is constructed over a live one", e)
                return
            if n.endswith(("copy", "move")):
                src = e.a[2]
                if src not in live:
                    v("ownership", "a user object is %s from a dead object" % ("copied" if n.endswith("copy") else "moved"), e)
                    return
                if e.a[1] == -7 and n.startswith("U"):
                    v("ownership", "a moved-from value is passed on", e)
                    return
            live[o] = e
        elif n in ("U.dtor", "F.dtor", "X.dtor"):
            o = e.a[0]
            if o not in live:
                v("ownership", "a user object is destroyed twice", e)
                return
            del live[o]
        elif n == "U.assign":
            if e.a[0] not in live or e.a[2] not in live:
                v("ownership", "assignment involving a dead user value", e)
                return
        elif n == "F.call":
            if not isinstance(e.a[0], int) or e.a[0] < 0:
                v("ownership", "a moved-from or destroyed function object is called", e)
                return
            called[e.a[0]] = called.get(e.a[0], 0) + 1
            if called[e.a[0]] > 1 and e.a[0] not in p.ent.recall:
                v("at most once", "function %d is called again" % e.a[0], e)
                return
        elif n == "val":
            if len(e.a) > 1 and e.a[1] in (-7, -8):
                v("ownership", "a %s value is delivered" % ("moved-from" if e.a[1] == -7 else "destroyed"), e)
                return
    if p.out == "return" and live and not p.ent.leaks:
        o, e = next(iter(live.items()))
        v("ownership", "a user object (%s) is never destroyed" % e.n, e)


USERCODE = ("F.call", "F.dtor", "U.dtor", "X.post", "X.dtor", "U.copy", "F.move")


def nolock(v, p):
    """no user code below a library lock"""
    held = {}
    for e in p.ev:
        if e.k in ("lock", "cvwake"):
            held.setdefault(e.tid, []).append((e.a[0 if e.k == "lock" else 1], e))
        elif e.k in ("unlock", "cvwait"):
            l, m = held.get(e.tid, []), e.a[0 if e.k == "unlock" else 1]
            for i in range(len(l) - 1, -1, -1):
                if l[i][0] == m:
                    del l[i]
                    break
        elif e.k == "ev" and held.get(e.tid):
            bad = None
            if e.n in ("F.call", "X.post"):
                bad = "user code is called"
            elif e.n in ("F.dtor", "U.dtor", "X.dtor") and e.a[1] not in (-7,):
                bad = "a user object is destroyed"
            if bad:
                h = held[e.tid][-1][1]
                v("no user code under lock", "%s while the mutex locked at %s is held" % (bad, h.loc), e)
                return


vcore.CROSS_RULES["C10"] = [balance]
vcore.CROSS_RULES["C16"] = [nolock]
vcore.CROSS_RULES["C02"] = []


# ---------------------------------------------------------------- calls

def once(*ids):
    def exactly_once(v, p):
        for i in ids:
            c = p.all("F.call", i)
            if len(c) != 1:
                v("exactly once", "function %d is started %d times, expected once" % (i, len(c)), c[1] if len(c) > 1 else None)
    return exactly_once


def never(*ids):
    def not_started(v, p):
        for i in ids:
            for c in p.all("F.call", i)[:1]:
                v("not started", "function %d is started although it must not" % i, c)
    return not_started


def result(tag, *allowed):
    """the future observed with this tag shows one of these results"""
    def delivered(v, p):
        for o in p.outcomes(tag) or [None]:
            if o not in allowed:
                v("result", "observation %d shows %s, expected %s" % (tag, o, " or ".join(map(str, allowed))), p_obs(p, tag))
    return delivered


def p_obs(p, tag):
    for e in p.ev:
        if e.k == "ev" and e.a and e.a[0] == tag and e.n in OBS:
            return e
    return None


OBS = ("val", "exc", "ferr", "invalid", "notready", "badcall", "nomem", "otherexc")


def when(cond, *rules):
    """apply rules to the paths where cond(p)"""
    def conditional(v, p):
        if cond(p):
            for r in rules:
                r(v, p)
    conditional.__name__ = "when:" + ",".join(r.__name__ for r in rules)
    return conditional


def threw(i):
    return lambda p: p.has("F.throw", i)


def notthrew(i):
    return lambda p: not p.has("F.throw", i)


def before(n1, a1, n2, a2):
    def ordered(v, p):
        x, y = p.first(n1, *a1), p.first(n2, *a2)
        if x and y and x.i > y.i:
            v("order", "%s%s happens before %s%s" % (n2, a2, n1, a1), y)
    return ordered


def absent(n, *a):
    def no_event(v, p):
        e = p.first(n, *a)
        if e:
            v("event", "unexpected %s %s" % (n, list(a)), e)
    return no_event


def present(n, *a):
    def has_event(v, p):
        if not p.has(n, *a):
            v("event", "%s %s is missing" % (n, list(a)))
    return has_event


def count(k, n, *a):
    def counted(v, p):
        c = p.all(n, *a)
        if len(c) != k:
            v("event", "%s %s happens %d times, expected %d" % (n, list(a), len(c), k), c[-1] if c else None)
    return counted


BROKEN = ("ferr", 4)
NOSTATE = ("ferr", 3)
SATISFIED = ("ferr", 2)
RETRIEVED = ("ferr", 1)
