from vcore import E
from rule import *

DRIVER = "func.cpp"
ENTRIES = []
PART = {}
CONFIGS = [dict(name="part%d" % i, defs=["-DFUNC_PART=%d" % i], match=(lambda n, i=i: PART[n] == i)) for i in range(3)]
MOVED = "moved-from"
# kind -> (callee id | None: as given, result, may throw, empty)
KIND = {
    "small": (None,), "big": (None,), "thr": (None,), "aligned": (None,), "fptr": (15,), "fref": (16,), "mf": (13,), "cmf": (14,), "md": ("md",), "refw": (12,),
    "lval": (None,), "biglval": (None,), "nested": (None,), "stdf": (15,),
    "nullf": "empty", "nullmf": "empty", "nullmd": "empty", "emptystd": "empty", "emptynested": "empty", "emptybig": "empty",
}


def history(kind):
    def content(i):
        k = KIND[kind]
        if k == "empty":
            return None
        return i if k[0] is None else k[0]

    def like_reference(v, p):
        """callee, argument, result, emptiness and lifetime after every operation equal those of the reference"""
        slot = [content(10), None]
        m = p.first("M").a[0]
        cur = None
        step = 0
        for e in p.ev:
            n = e.n
            if n == "assign":
                s = e.a[0]
                slot[s], slot[1 - s] = slot[1 - s], MOVED
            elif n == "swap":
                slot.reverse()
            elif n == "null":
                slot[e.a[0]] = None
            elif n == "fresh":
                slot[e.a[0]] = content(20 + step) if e.a[0] else 20 + step
            elif n == "step":
                step += 1
            elif n == "test":
                s = slot[e.a[0]]
                if s != MOVED and e.a[1] != (0 if s is None else 1):
                    v("emptiness", "object %d (%s) tests as %s" % (e.a[0], "empty" if s is None else "holding a function", e.a[1]), e)
                    return
            elif n == "source" and e.a[0] != 1:
                v("copy", "a callable given as lvalue is moved from", e)
                return
            elif n == "call":
                cur = e
            elif n == "called":
                s = slot[e.a[0]]
                seg = p.ev[cur.i:e.i]
                calls = [x for x in seg if x.n == "F.call"]
                ob = [(x.n,) + ((x.a[1],) if len(x.a) > 1 else ()) for x in seg if x.n in OBS]
                if s is None:
                    if calls or ob != [("badcall",)]:
                        v("empty call", "calling an empty function gives %s" % (ob,), e)
                        return
                elif s == "md":
                    if ob != [("val", 77)]:
                        v("call", "member pointer yields %s" % (ob,), e)
                        return
                else:
                    thr = any(x.n == "F.throw" for x in seg)
                    want = ("exc", s) if thr else ("val", s + 100)
                    if [x.a[0] for x in calls] != [s]:
                        v("call", "function %s is held, %s called" % (s, [x.a[0] for x in calls]), calls[0] if calls else e)
                        return
                    a = [x for x in seg if x.n == "F.arg"]
                    if a and a[0].a[1] != m:
                        v("argument", "the callable receives another object", a[0])
                        return
                    if ob != [want]:
                        v("result", "call yields %s, expected %s" % (ob, want), e)
                        return

    def lifetime(v, p):
        """after every operation exactly the callables held by the two objects exist: an overwritten one is destroyed at once"""
        slot = [content(10), None]
        live, step = {}, 0
        for e in p.ev:
            n = e.n
            if n in ("F.ctor", "F.move", "F.copy"):
                live[e.a[0]] = e.a[1]
                if n == "F.move" and e.a[2] in live:
                    live[e.a[2]] = -7
            elif n == "F.dtor":
                live.pop(e.a[0], None)
            elif n == "assign":
                slot[e.a[0]], slot[1 - e.a[0]] = slot[1 - e.a[0]], MOVED
            elif n == "swap":
                slot.reverse()
            elif n == "null":
                slot[e.a[0]] = None
            elif n == "fresh":
                slot[e.a[0]] = content(20 + step) if e.a[0] else 20 + step
            if n == "step" or n == "gone":
                step += 1
                if n == "gone":
                    slot = []
                want = sorted(x for x in slot if isinstance(x, int) and (x == 10 or x >= 20))
                have = sorted(x for x in live.values() if x not in (-7, 12))
                if want != have:
                    v("lifetime", "after %s callables %s exist, %s are held" % ("the objects are destroyed" if n == "gone" else "operation %d" % step, have, want), e)
                    return
    return [like_reference, lifetime]


def add(name, part, doc, props, **kw):
    PART["e_" + name] = part
    ENTRIES.append(E("e_" + name, doc, props, **kw))


for k in KIND:
    part = 0 if list(KIND).index(k) < 10 else 1
    add("h_" + k, part, "unique_function holding kind %s: any 3 (thorough: 4) of call, assign, move, swap, reset, replace on two objects" % k,
        {"C14": history(k)}, recall=range(0, 200))


def args(v, p):
    l = [list(e.a) for e in p.all("args")]
    if l != [[44, 41, 42, 43, 45, 1], [50, 41, 42, 53, 55, 1]]:
        v("arguments", "the callable receives %s" % l, p.first("args"))
    if not p.has("sources", 44, 41, 42):
        v("arguments", "an argument passed as lvalue is moved from", p.first("sources"))
    if [e.a[0] for e in p.all("res")] != [45, 55]:
        v("result", "results %s" % [e.a[0] for e in p.all("res")], p.first("res"))
    # a by-value argument is copied only once, a reference never
    if len(p.all("U.copy", None, 44)) != 1 or p.all("U.copy", None, 41) or p.all("U.copy", None, 42) or p.all("U.copy", None, 43) or p.all("U.copy", None, 50):
        v("arguments", "an argument is copied", (p.all("U.copy") or [None])[-1])


for n in ("args_small", "args_big"):
    add(n, 2, "value, reference, rvalue and move-only arguments, " + n, {"C14": [args]})
for n in ("small", "big", "csmall", "cbig", "conv", "fptr"):
    add("res_" + n, 2, "reference results, " + n, {"C14": [count(2, "same", 1), absent("same", 0)]})
for n in ("void_small", "void_big"):
    add(n, 2, "unique_function<void()> discards a result, " + n, {"C14": [count(1, "ran"), present("returned")]})
add("self", 2, "recursive call, then reset or destruction", {"C14": [count(1, "ran", 2), count(1, "ran", 1), count(1, "ran", 0), count(3, "keep", 7),
                                                               when(lambda p: p.chose("how") == [0], result(2, ("badcall",)))]})
add("bomb", 2, "copying the callable into the function may throw", {"C14": [
    when(threw(10), result(2, ("exc", 10)), once(11), never(10)), when(notthrew(10), present("replaced"), once(10), never(11))]})
