from vcore import E
from rule import *

DRIVER = "cancel.cpp"
ENTRIES = []
PART = {}
CONFIGS = [dict(name="part%d" % i, defs=["-DCANCEL_PART=%d" % i], match=(lambda n, i=i: PART[n] == i)) for i in range(2)]
STEPS = ("deliver", "executor runs", "executor drops", "drop the future", "detach")


def add(name, part, doc, props, **kw):
    PART["e_" + name] = part
    ENTRIES.append(E("e_" + name, doc, props, **kw))


def live_fns(p, upto):
    live = {}
    for e in p.ev[:upto]:
        if e.n in ("F.ctor", "F.move"):
            live[e.a[0]] = e.a[1]
        elif e.n == "F.dtor":
            live.pop(e.a[0], None)
    return sorted(i for i in live.values() if i >= 0)


class Chain:
    def __init__(self, links):
        self.links = [l for l in links if l != "NONE"]
        self.i = 0
        self.src = None
        self.cur = None            # outcome so far
        self.queued = self.cancelled = self.detached = self.delivered = False
        self.started = []
        self.released = set()      # function ids that must be gone
        self.canceller = 0
        self.dropped = False

    def done(self):
        return self.cur is not None and self.i == len(self.links)

    def fid(self):
        return 10 + self.i

    def advance(self):
        while self.i < len(self.links) and not self.cancelled:
            l = self.links[self.i]
            if l.endswith("X"):
                self.queued = True
                return
            self.fire()

    def fire(self):
        l = self.links[self.i].replace("X", "")
        if l in ("T", "ST") or self.cur[0] == "val":
            self.started.append(self.fid())
            self.cur = ("val", 60)
        self.released.add(self.fid())
        self.i += 1

    def step(self, st, how):
        if st == 0:
            self.delivered = True
            if not self.cancelled:
                self.cur = [("val", 7), ("exc", 7), BROKEN][how]
                self.advance()
        elif st == 1 and self.queued:
            self.queued = False
            if not self.cancelled:
                self.fire()
                self.advance()
        elif st == 2 and self.queued:
            self.queued = False
            if not self.cancelled:
                self.released.add(self.fid())
                self.cur = BROKEN
                self.i += 1
                self.advance()
        elif st == 3:
            self.dropped = True
            if not self.detached and not self.done():
                self.cancelled = True
                for k in range(len(self.links)):
                    self.released.add(10 + k)
                if not self.delivered:
                    self.canceller = 1
        elif st == 4:
            self.detached = True


def chain(links):
    def cancellation(v, p):
        c = Chain(links)
        steps = p.all("step")
        fin = p.first("finish").i
        for j, e in enumerate(steps):
            st, how = e.a[:2]
            end = next(x for x in p.ev[e.i:] if x.n == "end")
            c.step(st, how)
            nxt = steps[j + 1].i if j + 1 < len(steps) else fin
            got = [x.a[0] for x in p.ev[:end.i] if x.n == "F.call" and x.a[0] != 1]
            what = "after '%s'" % STEPS[st]
            if got != c.started:
                v("started", "%s functions %s have been started, expected %s" % (what, got, c.started), e)
                return
            n = len([x for x in p.ev[:end.i] if x.n == "F.call" and x.a[0] == 1])
            if n != c.canceller:
                v("canceller", "%s the canceller has run %d times, expected %d" % (what, n, c.canceller), e)
                return
            left = [i for i in live_fns(p, end.i) if i in c.released]
            if left:
                v("release", "%s functions %s are still alive" % (what, left), e)
                return
            a = next((x for x in p.ev[end.i:nxt] if x.n == "awaiten"), None)
            if a is not None and not c.delivered and a.a[0] != int(not c.cancelled):
                v("is_awaiten", "%s is_awaiten() answers %d" % (what, a.a[0]), a)
                return
            f = next((x for x in p.ev[end.i:nxt] if x.n == "fut"), None)
            want = 0 if c.dropped else 2 if c.done() else 1
            if f.a[0] != want:
                v("future", "%s the future is %s, expected %s" % (what, f.a[0], want), f)
                return
        want = ("invalid",) if c.dropped else c.cur if c.done() else ("notready",)
        if p.outcome(2) != want:
            v("result", "the future shows %s, expected %s" % (p.outcome(2), want), p_obs(p, 2))
    return cancellation


P0 = "T_NONE N_NONE TX_NONE NX_NONE ST_NONE SN_NONE NONE_NONE T_T T_N T_TX T_NX N_T N_N N_TX N_NX".split()
P1 = "TX_T TX_N TX_TX TX_NX NX_T NX_N NX_TX NX_NX ST_N SN_ST SN_NX".split()
for part, l in ((0, P0), (1, P1)):
    for n in l:
        add("chain_" + n, part, "source -> %s: deliver, run, drop work, drop future, detach in any order" % n.replace("_", " -> "), {"C09": [chain(n.split("_"))], "C06": [chain(n.split("_"))]})


def sib(kind):
    def siblings(v, p):
        # 10: child 1, 11: child 2; a pending child is cancelled by dropping its future
        steps = p.all("step")
        c = {10: True, 11: True}
        sh = cp = True
        det = delivered = False
        canc = 0
        started = []
        for e in steps:
            st = e.a[0]
            end = next(x for x in p.ev[e.i:] if x.n == "end")
            if st == 0:
                delivered = True
                if canc == 0:
                    started += [i for i in (10, 11) if c[i]]
            elif st == 1:
                if not det:
                    c[10] = False
            elif st == 2:
                c[11] = False
            elif st == 3:
                sh = False
            elif st == 4:
                cp = False
            elif st == 5:
                det = True
            if not delivered and not (c[10] or c[11] or sh or cp):
                canc = 1
            got = [x.a[0] for x in p.ev[:end.i] if x.n == "F.call" and x.a[0] != 1]
            if sorted(got) != started:
                v("started", "functions %s have been started, expected %s" % (got, started), e)
                return
            n = len([x for x in p.ev[:end.i] if x.n == "F.call" and x.a[0] == 1])
            if n != canc:
                v("canceller", "the canceller has run %d times, expected %d" % (n, canc), e)
                return
            want = sorted(i for i in (10, 11) if c[i] and not delivered)
            left = [i for i in live_fns(p, end.i) if i >= 10]
            if left != want:
                v("release", "functions %s are alive, expected %s" % (left, want), e)
                return
            a = next((x for x in p.ev[end.i:] if x.n in ("awaiten", "step", "finish")), None)
            if a.n == "awaiten" and a.a[0] != int(canc == 0):
                v("is_awaiten", "is_awaiten() answers %d" % a.a[0], a)
                return
    return siblings


add("sib_0", 1, "then and next children of one shared_future, copies dropped in any order", {"C09": [sib(0)]})
add("sib_1", 1, "next and then children of one shared_future, copies dropped in any order", {"C09": [sib(1)]})


def async_(v, p):
    (once(10) if p.has("once") else never(10))(v, p)
    d = p.first("dropped")
    if d and live_fns(p, d.i):
        v("release", "the function is alive after the future was dropped", d)


add("async", 1, "async task dropped, detached, or run", {"C09": [async_]})


def ithen(v, p):
    w = p.chose("dropped")[0]
    (never(10) if w == 0 else once(10))(v, p)
    if w == 0:
        count(1, "F.call", 1)(v, p)
        if live_fns(p, p.first("dropped").i):
            v("release", "functions are alive after the future was dropped", p.first("dropped"))
    else:
        never(1)(v, p)
        present("awaiten", 1)(v, p)
        present("awaiten2", 0 if w == 1 else 1)(v, p)
        if p.outcomes(3):
            v("no-op", "setting a dropped promise reports %s" % p.outcomes(3), p_obs(p, 3))
        result(2, ("invalid",) if w == 1 else [("val", 60), ("exc", 60), BROKEN][p.chose("set")[0]])(v, p)


add("ithen", 1, "interruptible continuation whose future is dropped", {"C09": [ithen]})


def inside(v, p):
    once(10)(v, p)
    present("awaiten", 1)(v, p)
    present("awaiten2", 0)(v, p)
    present("survived")(v, p)
    if p.outcomes(3):
        v("no-op", "setting a dropped promise reports %s" % p.outcomes(3), p_obs(p, 3))


for n in ("", "_s"):
    add("ithen_inside" + n, 1, "the future is dropped while the interruptible function runs", {"C09": [inside]})


def unwrap(v, p):
    o = p.chose("order")[0]
    aw = [e.a[0] for e in p.all("awaiten")]
    n = len(p.all("F.call", 1))
    if o == 0:
        if aw != [1, 0] or n != 1:
            v("inner", "dropping the outer future leaves the inner operation alive (awaited %s, cancelled %d times)" % (aw, n), p.first("dropped"))
    elif o == 1:
        if aw != [1, 1] or n:
            v("inner", "the inner operation of a detached future is cancelled", p.first("detached"))
    else:
        result(2, ("val", 7))(v, p)
        if n:
            v("inner", "the canceller runs although the result was delivered", p.first("F.call", 1))
    if p.outcomes(3):
        v("no-op", "setting a dropped promise reports %s" % p.outcomes(3), p_obs(p, 3))


add("unwrap_f", 1, "pending returned future, outer future dropped, detached or read", {"C09": [unwrap], "C18": [unwrap]})
add("unwrap_s", 1, "pending returned shared_future, outer future dropped, detached or read", {"C09": [unwrap], "C18": [unwrap]})
for n in ("then", "next", "task"):
    add("self_" + n, 1, "a started %s function drops the future of its own operation" % n,
        {"C09": [once(10), present("survived"), present("probe", 3)], "C10": []})


def race(links):
    def either_or(v, p):
        """the delivery is either complete or did not happen"""
        n = {i: len(p.all("F.call", i)) for i in (1, 10, 11)}
        for i in n:
            if n[i] > 1:
                v("at most once", "function %d starts %d times" % (i, n[i]), p.last("F.call", i))
        if n[1] and (n[10] or n[11]):
            v("either or", "the operation is both cancelled and executed", p.first("F.call", 1))
        d, g = p.first("drop"), p.first("give")
        dd, gg = p.first("dropped"), p.first("given")
        if g and dd and dd.i < g.i:
            if n[10] or n[11]:
                v("started", "a function is started after its future was dropped", p.first("F.call", 10) or p.first("F.call", 11))
            if not n[1]:
                v("canceller", "the canceller did not run although the future was dropped before the delivery", dd)
        if g and d and gg.i < d.i:
            if n[1]:
                v("canceller", "the canceller runs although the result was delivered", p.first("F.call", 1))
    return either_or


for n in ("NONE_NONE", "T_NONE", "N_NONE", "SN_NONE", "N_T", "NX_NONE"):
    for k, d in (("drop", "the dropping thread, delivery at any point"), ("give", "the delivering thread, drop at any point"), ("gone", "the abandoning thread, drop at any point")):
        add("race_%s_%s" % (k, n), 1, "source -> %s: %s" % (n.replace("_", " -> "), d), {"C09": [race(n)]})


def race_run(v, p):
    c = len(p.all("F.call", 10))
    if c > 1:
        v("at most once", "the function starts %d times" % c)
    d = p.first("dropped")
    f = p.first("F.call", 10)
    r = p.first("X.run")
    if f and d and d.i < r.i:
        v("started", "the function is started after its future was dropped", f)


add("race_run_TX", 1, "the executor's thread runs or drops the work, the future is dropped at any point", {"C09": [race_run]})
add("race_run_NX", 1, "the executor's thread runs or drops the work, the future is dropped at any point", {"C09": [race_run]})
add("race_task", 1, "a packaged_task is run or destroyed, the future is dropped at any point", {"C09": [race_run]})
