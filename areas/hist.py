"""promise / packaged_task histories against a reference automaton"""
from vcore import E
from rule import *

DRIVER = "hist.cpp"
ENTRIES = []
PART = {}
CONFIGS = [dict(name="part%d" % i, defs=["-DHIST_PART=%d" % i], match=(lambda n, i=i: PART[n] == i)) for i in range(5)]
VAL = {"u": lambda i: ("val", i), "v": lambda i: ("val", 0), "r": lambda i: ("val", 70)}


class Op:
    """one asynchronous operation"""

    def __init__(self, name, taken):
        self.name, self.taken, self.res, self.live, self.notes = name, taken, None, True, []
        self.fired = set()

    def reachable(self):
        return not self.taken or self.live


class Ref:
    """reference automaton; yields the expected reaction to each operation"""

    def __init__(self, typ, task, old):
        self.typ, self.task = typ, task
        a, b = Op(30, not old), Op(31, True)
        self.h = [a, b]                  # handles p, q
        self.f = [a if not old else None, b]
        self.ran = {}
        self.must_run = {}
        self.never = set()

    def state(self, i):
        return 0 if self.f[i] is None else 2 if self.f[i].res is not None else 1

    def abandon(self, i):
        o = self.h[i]
        self.h[i] = None
        if o is not None and o.taken and o.live and o.res is None:
            self.fulfil(o, BROKEN)

    def fulfil(self, o, res):
        o.res = res
        o.fired |= set(o.notes)

    def set(self, i, res):
        o = self.h[i]
        if o is None:
            return NOSTATE
        if not o.reachable():
            return ("ok",)
        if o.res is not None:
            return SATISFIED
        self.fulfil(o, res)
        return ("ok",)

    def getf(self, i):
        o = self.h[i]
        if o is None:
            return NOSTATE
        if o.taken:
            return RETRIEVED
        o.taken = True
        self.dropf()
        self.f[0] = o
        return ("ok",)

    def dropf(self):
        o = self.f[0]
        self.f[0] = None
        if o is not None:
            o.live = False

    def move(self, d, s):
        o = self.h[s]
        self.abandon(d)
        self.h[s] = None
        self.h[d] = o
        return ("ok",)

    def note(self, k):
        o = self.f[0]
        if o is None:
            return NOSTATE
        o.notes.append(100 + k)
        if o.res is not None:
            o.fired.add(100 + k)
        return ("ok",)

    def call(self, i, p, k):
        """packaged_task invocation: (reaction, called function)"""
        o = self.h[i]
        if o is None:
            return NOSTATE, None
        if not o.reachable():
            return ("ok",), None
        if o.res is not None:
            return SATISFIED, None
        thrown = p.has("F.throw", o.name)
        self.fulfil(o, ("exc", o.name) if thrown else VAL[self.typ](o.name))
        return ("ok",), o.name


P_OPS = ("set_value", "set_exception", "get_future", "q = move(p)", "p = move(q)", "q.set_value", "drop future", "is_awaiten", "destroy", "notify", "move future")
T_OPS = ("run", "get_future", "u = move(t)", "t = move(u)", "swap", "u.run", "drop future", "destroy", "notify", "valid", "move construct")


def mk(typ, task, old):
    def history(v, p):
        ref = Ref(typ, task, old)
        allops = [ref.h[0], ref.h[1]]
        ops = p.all("op")
        names = T_OPS if task else P_OPS
        for j, e in enumerate(ops):
            end = ops[j + 1].i if j + 1 < len(ops) else len(p.ev)
            seg = [x for x in p.ev[e.i:end] if x.k == "ev"]
            k, op = e.a[:2]
            what = "destroy the second handle" if k == 51 else names[op]
            want, called, flag = ("ok",), None, None
            if k == 51:
                ref.abandon(1)
            elif task:
                if op in (0, 5):
                    want, called = ref.call(1 if op == 5 else 0, p, k)
                elif op == 1:
                    want = ref.getf(0)
                elif op == 2:
                    ref.move(1, 0)
                elif op == 3:
                    ref.move(0, 1)
                elif op == 4:
                    ref.h.reverse()
                elif op == 6:
                    ref.dropf()
                elif op == 7:
                    ref.abandon(0)
                elif op == 8:
                    want = ref.note(k)
                elif op == 9:
                    flag = ("tvalid", [int(x is not None) for x in ref.h])
                elif op == 10:
                    flag = ("moved", [0])
            else:
                if op == 0:
                    want = ref.set(0, VAL[typ](20 + k))
                elif op == 1:
                    want = ref.set(0, ("exc", 20 + k))
                elif op == 2:
                    want = ref.getf(0)
                elif op == 3:
                    ref.move(1, 0)
                elif op == 4:
                    ref.move(0, 1)
                elif op == 5:
                    want = ref.set(1, VAL[typ](20 + k))
                elif op == 6:
                    ref.dropf()
                elif op == 7:
                    o = ref.h[0]
                    if o is None:
                        want = NOSTATE
                    else:
                        flag = ("awaiten", [int(o.reachable())])
                elif op == 8:
                    ref.abandon(0)
                elif op == 9:
                    want = ref.note(k)
                elif op == 10:
                    flag = ("moved", [0])
            if k < 50:
                got = next(((x.n, x.a[1]) if x.n in ("ferr", "exc", "val") else (x.n,) for x in seg if x.n in OBS + ("ok",) and x.a and x.a[0] == k), None)
                if got != want:
                    v("reaction", "%s (step %d) reacts with %s, expected %s" % (what, k, got, want), e)
                    return
                if flag:
                    x = next((x for x in seg if x.n == flag[0]), None)
                    if x is None or list(x.a[:len(flag[1])]) != flag[1]:
                        v("answer", "%s answers %s, expected %s" % (flag[0], x and x.a, flag[1]), x)
                        return
                calls = [x.a[0] for x in seg if x.n == "F.call" and x.a[0] < 100]
                if calls != ([called] if called else []):
                    v("invocation", "%s (step %d) starts %s, expected %s" % (what, k, calls, called), e)
                    return
                if called and not p.has("F.throw", called):
                    x = p.first("argument", called)
                    if not x or x.a[1] != 80 + k:
                        v("argument", "the task receives argument %s, expected %d" % (x and x.a[1], 80 + k), x)
                        return
            # readiness and notifications after each step
            for i in (0, 1):
                x = next((x for x in seg if x.n == "fut" and x.a[0] == i), None)
                if x is not None and x.a[1] != ref.state(i):
                    v("readiness", "after %s future %d is %s, expected %s" % (what, i, x.a[1], ref.state(i)), x)
                    return
            if task:
                live = set()
                for x in p.ev[:end]:
                    if x.n in ("F.ctor", "F.move") and x.a[1] < 100:
                        live.add(x.a[0])
                    elif x.n == "F.dtor":
                        live.discard(x.a[0])
                keep = sum(1 for o in allops if o.res is None and o.reachable() and o in ref.h)
                if len(live) != keep:
                    v("release", "after %s %d task functions are alive, expected %d" % (what, len(live), keep), e)
                    return
            fired = [x.a[0] for x in p.ev[:end] if x.n == "F.call" and x.a[0] >= 100]
            exp = sorted(n for o in allops for n in o.fired)
            if sorted(fired) != exp:
                v("notification", "after %s notifications %s ran, expected %s" % (what, fired, exp), e)
                return
        for i in (0, 1):
            o = ref.f[i]
            want = ("invalid",) if o is None else ("notready",) if o.res is None else o.res
            if p.outcome(60 + i) != want:
                v("result", "future %d shows %s, expected %s" % (i, p.outcome(60 + i), want), p_obs(p, 60 + i))
        for x in p.all("kept"):
            if x.a[0] != x.a[1]:
                v("value", "set_value(const T&) modifies its argument", x)
    return history


def add(name, part, typ, task, old, doc, props):
    n = "e_" + name
    PART[n] = part
    h = mk(typ, task, old)
    ENTRIES.append(E(n, doc, {x: [h] for x in props}))


for part, typ in enumerate("uvr"):
    for o in range(11):
        add("p_%s_%d" % (typ, o), part, typ, False, False, "make_promise<%s>: histories beginning with %s" % (typ, P_OPS[o]), ("C05", "C06", "C09", "C15", "C25"))
        add("o_%s_%d" % (typ, o), part, typ, False, True, "promise<%s>()/get_future(): histories beginning with %s" % (typ, P_OPS[o]), ("C05", "C06", "C09", "C15", "C25"))
for part, typ in ((3, "u"), (4, "v"), (4, "r")):
    for o in range(11):
        add("t_%s_%d" % (typ, o), part, typ, True, True, "packaged_task<%s(U)>: histories beginning with %s" % (typ, T_OPS[o]), ("C05", "C06", "C07", "C09", "C10", "C15", "C25"))
