from vcore import E
from rule import *

DRIVER = "latch.cpp"
ENTRIES = []


def spec(total, waits):
    def counting(v, p):
        """released exactly when the counter is zero, everybody, and is_ready tells the truth"""
        left = total
        rel = 0
        for e in p.ev:
            if e.n == "down":
                left -= e.a[0]
            elif e.n == "released":
                rel += 1
                if left > 0:
                    v("early release", "a waiting thread is released while %d count-downs are missing" % left, e)
        if waits is not None and rel != waits:
            v("release", "%d of %d waiting threads are released" % (rel, waits))
    return counting


def truth(total):
    def is_ready(v, p):
        # `down` precedes the call, so between it and its end both answers are possible
        left = total
        open_ = {}
        for e in p.ev:
            if e.n == "down":
                left -= e.a[0]
            elif e.n == "is_ready":
                if e.a[0] == 1 and left > 0:
                    v("is_ready", "is_ready is true while %d count-downs are missing" % left, e)
        last = p.last("is_ready")
        if left == 0 and p.out == "return" and last and last.tid == 1 and last.a[0] != 1:
            v("is_ready", "is_ready is false although the counter is zero", last)
    return is_ready


def add(name, doc, total, waits, extra=(), **kw):
    ENTRIES.append(E("e_" + name, doc, {"C17": [spec(total, waits), truth(total)] + list(extra), "C04": []} if name.startswith("destroy")
                     else {"C17": [spec(total, waits), truth(total)] + list(extra)}, **kw))


add("wait_1", "wait, one count-down at any point", 1, 1)
add("wait_2", "wait, two count-downs at any points", 2, 1)
add("wait_n", "wait, count_down(2)", 2, 1)
add("wait_zero", "wait on a zero latch", 0, 1, [present("is_ready", 1)])
add("wait_with_waiter", "two waiting threads", 1, 2)
add("dnw_2", "count_down_and_wait with a counting thread", 2, 1)
add("dnw_meet", "two threads meet", 2, 2)
add("dnw_meet3", "three threads meet", 3, 3)
add("dnw_waiter", "count_down_and_wait releases two waiters", 1, 3)
add("down_waiters", "count_down releases two waiters", 1, 2)
add("down_n_waiters", "count_down(1), count_down(2) release two waiters", 3, 2)
add("down_partial", "count-downs that do not reach zero release nobody", 3, 0, out=("end",), leaks=True, parked=True)
add("down_ready", "is_ready during count-downs", 2, 0)
add("destroy_by_waiter", "the released waiter destroys the latch at once (counting thread analysed)", 1, 1)
add("destroy_by_waiter_main", "the released waiter destroys the latch at once (waiter analysed)", 1, 1)
add("destroy_after_down", "the counting thread destroys the latch with two threads still inside wait", 1, 2)
add("destroy_after_dnw", "the last count_down_and_wait returns and the latch is destroyed", 2, 3)
