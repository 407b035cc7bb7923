from vcore import E
from rule import *

DRIVER = "pool.cpp"
ENTRIES = []


def closed_at(p, *names):
    """index from which posting is certainly too late"""
    l = [e.i for e in p.ev if e.n in names]
    return min(l) if l else None


def pool(stops=False, exact=True, attach=False):
    """every task accepted before the pool is closed runs exactly once (at most once if it is stopped), all others never;
    nothing runs or stays alive after wait() returned"""
    def accepted_tasks(v, p):
        begin = closed_at(p, "wait", "stop")
        end = closed_at(p, "waited", "stopped", "destroyed")
        calls = {}
        for e in p.ev:
            if e.n == "F.call":
                calls.setdefault(e.a[0], []).append(e)
        waited = p.first("waited")
        if attach and waited:
            # certainly attached before wait() was called: a task has been run
            wt = p.first("wait")
            if not any(e.n == "F.call" and e.i < wt.i for e in p.ev):
                waited = None
        stopped = stops and p.first("stop")
        for e in p.ev:
            if e.n != "post":
                continue
            i = e.a[0]
            c = calls.get(i, [])
            done = p.first("posted", i)
            if done is None:
                v("accepted", "posting task %d does not return" % i, e)
                continue
            if len(c) > 1:
                v("exactly once", "task %d runs %d times" % (i, len(c)), c[1])
            if done.i < begin if begin is not None else True:
                if not c and not stopped:
                    v("accepted", "task %d posted before closing never runs" % i, e)
            elif end is not None and e.i > end:
                if c:
                    v("closed", "task %d posted after closing runs" % i, c[0])
        for l in calls.values():
            for c in l:
                if waited and c.i > waited.i:
                    v("wait", "task %d starts after wait() returned" % c.a[0], c)
        # threads of the pool are done when wait() returned
        if waited:
            for i, l in calls.items():
                lv = p.first("F.leave", i)
                if lv is None or lv.i > waited.i:
                    v("wait", "task %d is not finished when wait() returns" % i, l[0])
        # rejected or discarded tasks are destroyed no later than the pool
        d = p.first("destroyed")
        if d:
            for e in p.ev:
                if e.n == "F.dtor" and e.i > d.i and e.a[1] not in (-7,) and exact:
                    v("release", "a task outlives the pool", e)
    return accepted_tasks


def rejected(*ids):
    """a task posted after closing is destroyed at once"""
    def destroyed_at_once(v, p):
        for i in ids:
            a = p.first("posted", i)
            if not any(e.i < a.i for e in p.all("F.dtor", None, i)):
                v("closed", "task %d posted after closing is not destroyed" % i, a)
    return destroyed_at_once


def add(name, doc, props=(), stops=False, extra=(), attach=False, **kw):
    pr = {"C13": [pool(stops, attach=attach)] + list(extra)}
    for x in props:
        pr.setdefault(x, [])
    ENTRIES.append(E("e_" + name, doc, pr, **kw))


for n in (1, 2):
    for t in (0, 1, 2, 3):
        add("wait_%d_%d" % (n, t), "%d threads, %d tasks, wait" % (n, t), extra=[once(*range(10, 10 + t))], thorough=(n, t) == (2, 3))
    add("stop_%d" % n, "%d threads, 2 tasks, stop, 1 task, wait, 1 task" % n, stops=True, extra=[never(20, 21), rejected(20, 21)],
        must=[("both tasks run", lambda p: p.has("F.call", 10) and p.has("F.call", 11)), ("no task runs", lambda p: not p.has("F.call"))])
    add("dtor_%d" % n, "%d threads, 2 tasks, destruction" % n, stops=True)


def chain(v, p):
    if threw(10)(p):
        result(2, ("exc", 10))(v, p)
        never(11)(v, p)
    elif threw(11)(p):
        result(2, ("exc", 11))(v, p)
    else:
        result(2, ("val", 41))(v, p)
        once(10, 11)(v, p)
    never(20)(v, p)
    result(3, BROKEN)(v, p)


for n in (1, 2):
    add("async_%d" % n, "%d threads: async, next through the pool, get; async after wait reports broken_promise" % n, extra=[chain])
add("wait_twice", "wait, post, wait, stop, destruction", extra=[once(10), never(20), rejected(20)])


def nested(v, p):
    once(10)(v, p)
    pool()(v, p)
    # posted by the pool thread while wait() may already have closed the queue: run once or destroyed
    if len(p.all("F.call", 11)) > 1:
        v("exactly once", "task 11 runs twice", p.all("F.call", 11)[1])


ENTRIES.append(E("e_nested", "a task posts another one while the owner waits", {"C13": [nested], "C16": []},
                 must=[("the inner task runs", lambda p: p.has("F.call", 11))]))
add("idle_release", "the future of a promise owned by an executed task reports broken_promise while the pool is idle", ("C10",),
    extra=[result(2, BROKEN), before("ran", (), "got", ()), count(1, "ran")])


def leftover(v, p):
    # the function may not have started when the destructor stops the pool
    a, b = p.outcome(2), p.outcome(3)
    r10, r11, r12 = (p.has("F.call", i) for i in (10, 11, 12))
    if a != (("val", 40) if r10 else BROKEN):
        v("stop", "future of task 10 (%s) shows %s" % ("run" if r10 else "discarded", a), p_obs(p, 2))
    if r10 and r11 or r12:
        v("stop", "a task starts after its pool was stopped by the only thread", p.first("F.call", 12 if r12 else 11))
    if b != BROKEN:
        v("stop", "future of a discarded task shows %s" % (b,), p_obs(p, 3))


ENTRIES.append(E("e_leftover", "a task stops its own pool, the others are discarded and their futures report it", {"C13": [leftover]},
                 must=[("the stopping task runs", lambda p: p.has("F.call", 10)), ("nothing runs", lambda p: not p.has("F.call"))]))

for s in ("wait", "stop"):
    add("attach_" + s, "this thread is attached, another one posts twice and calls %s at any moment" % s, stops=s == "stop", attach=True)
    add("attach_two_" + s, "two attached threads, a task is posted and %s is called at any moment" % s, stops=s == "stop", attach=True)
    for k in ("attach_", "attach_two_"):
        ENTRIES[-1 if k == "attach_two_" else -2].props["C13"].append(present("left"))
add("posters", "two threads post while the pool runs, then wait", extra=[once(10, 11)])
add("stop_race", "another thread stops the pool while the owner waits", stops=True)
add("attach_destroy_0", "only a user thread serves the pool; wait, then the pool is destroyed at once", ("C04",), extra=[once(10, 11)])
add("attach_destroy_1", "a user thread joins a pool of one; wait, then the pool is destroyed at once", ("C04",), extra=[once(10, 11)], thorough=True)
add("attach_destroy_1s", "a user thread joins a pool of one; stop and wait, then the pool is destroyed at once", ("C04",), stops=True)
ENTRIES.append(E("e_dependent", "two threads; the first task waits for what the second one delivers", {"C13": [result(2, ("val", 40)), result(3, ("val", 0)), count(2, "ran"), before("ran", (), "waited", ())]}))
