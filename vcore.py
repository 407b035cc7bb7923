"""Harness: builds the IR of a driver unit from /repo's working tree, runs the typestate analyser on
its entries, and applies the rules of one property to every abstract path."""
import concurrent.futures as cf
import glob
import hashlib
import importlib
import json
import multiprocessing
import os
import shutil
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
EVID = os.environ.get("VERIF_EVIDENCE", os.path.join(VERIF, "evidence"))
BUILD = os.path.join(VERIF, "build")
LLVM_CONFIG = "/usr/lib/llvm-18/bin/llvm-config"
CLANG = "clang++"
OPT = "opt-18"


class Broken(Exception):
    """the analysis itself could not be carried out (error exit, neither pass nor violation)"""


class Rejected(Broken):
    """a client of the public API no longer compiles"""


# ------------------------------------------------------------------ building

def engine():
    src = os.path.join(VERIF, "engine", "tsa.cpp")
    h = hashlib.sha256(open(src, "rb").read()).hexdigest()[:16]
    out = os.path.join(BUILD, "tsa-" + h)
    if os.path.exists(out):
        return out
    os.makedirs(BUILD, exist_ok=True)
    flags = subprocess.check_output([LLVM_CONFIG, "--cxxflags"], text=True).replace("-fno-exceptions", "").split()
    libdir = subprocess.check_output([LLVM_CONFIG, "--libdir"], text=True).strip()
    tmp = out + ".%d.tmp" % os.getpid()
    r = subprocess.run([CLANG, "-O2", "-w", src, "-o", tmp] + flags + ["-fno-rtti", "-L" + libdir, "-lLLVM-18"],
                       capture_output=True, text=True)
    if r.returncode:
        raise Broken("engine does not build:\n" + r.stderr[-3000:])
    os.rename(tmp, out)
    return out


def repo_sources():
    """the library's own translation units (a new one is picked up by itself)"""
    l = sorted(glob.glob(os.path.join(REPO, "portable_concurrency", "**", "*.cpp"), recursive=True))
    if not l:
        raise Broken("no library translation unit found below %s/portable_concurrency" % REPO)
    return l


def compile_ir(driver, work, defs=(), std="gnu++17", lower=False):
    drv = os.path.join(VERIF, "drivers", driver)
    unit = os.path.join(work, driver.replace("/", "_") + "".join(defs).replace("=", "_").replace("-", "_") + std + ".unit.cpp")
    with open(unit, "w") as f:
        for s in repo_sources():
            f.write('#include "%s"\n' % s)
        f.write('#include "%s"\n' % drv)
    bc = unit + ".bc"
    cmd = [CLANG, "-std=" + std, "-DNDEBUG", "-gline-tables-only", "-O1", "-Xclang", "-disable-llvm-passes", "-w", "-c", "-emit-llvm",
           "-I" + REPO, "-I" + os.path.join(VERIF, "drivers"), *defs, unit, "-o", bc]
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode:
        raise Rejected("client unit %s does not compile against the current tree:\n%s" % (driver, r.stderr[:3000]))
    if lower:   # split coroutines into ordinary functions; nothing else is changed
        r = subprocess.run([OPT, "-passes=coro-early,cgscc(coro-split),coro-cleanup", bc, "-o", bc + ".low.bc"], capture_output=True, text=True)
        if r.returncode:
            raise Broken("opt: " + r.stderr[:1000])
        bc += ".low.bc"
    return bc


# ------------------------------------------------------------------ traces

class Ev:
    __slots__ = ("k", "tid", "loc", "fn", "a", "s", "i", "n")

    def __repr__(self):
        t = "" if self.tid == 1 else " [thread %d]" % self.tid
        nm = self.k if self.k != "ev" else ""
        return "%s%s %s %s%s" % (nm, "" if not self.s else (" " if nm else "") + "/".join(x for x in self.s if x),
                                 ",".join(map(str, self.a)), ("@" + self.loc) if self.loc else "", t)


class Path:
    def __init__(self, entry, out, evs, leaks):
        self.entry, self.out, self.ev, self.leaks = entry, out, evs, leaks

    def all(self, name, *args, tid=None):
        """driver events called `name` whose leading arguments are args (None = any)"""
        r = []
        for e in self.ev:
            if e.n == name and (tid is None or e.tid == tid) and all(
                    x is None or (i < len(e.a) and e.a[i] == x) for i, x in enumerate(args)):
                r.append(e)
        return r

    def kind(self, k, **kw):
        return [e for e in self.ev if e.k == k]

    def n(self, name, *args, **kw):
        return len(self.all(name, *args, **kw))

    def has(self, name, *args, **kw):
        return bool(self.all(name, *args, **kw))

    def first(self, name, *args, **kw):
        l = self.all(name, *args, **kw)
        return l[0] if l else None

    def last(self, name, *args, **kw):
        l = self.all(name, *args, **kw)
        return l[-1] if l else None

    def chose(self, what):
        """values chosen for an open decision of the environment, in order"""
        return [e.a[0] for e in self.ev if e.k == "choose" and e.s[0] == what]

    def env(self, name=None):
        return [e for e in self.ev if e.k == "env-begin" and (name is None or e.s[0] == name)]

    def outcome(self, tag):
        """observed result of the future with this tag"""
        for e in self.ev:
            if e.k == "ev" and e.n in ("val", "exc", "ferr", "invalid", "notready", "badcall", "nomem", "otherexc") and e.a and e.a[0] == tag:
                if e.n in ("val", "exc", "ferr"):
                    return (e.n, e.a[1])
                return (e.n,)
        return None

    def outcomes(self, tag):
        r = []
        for e in self.ev:
            if e.k == "ev" and e.n in ("val", "exc", "ferr", "invalid", "notready", "badcall", "nomem", "otherexc") and e.a and e.a[0] == tag:
                r.append((e.n, e.a[1]) if e.n in ("val", "exc", "ferr") else (e.n,))
        return r

    def text(self, limit=4000):
        l = []
        for e in self.ev:
            if e.k in ("any", "branch", "extern", "load", "undef-cmp", "undef-branch"):
                continue
            l.append("  %4d %r" % (e.i, e))
        if len(l) > limit:
            l = l[:limit // 2] + ["  ..."] + l[-limit // 2:]
        return "\n".join(l)


def run_entries(tsa, bc, entries, max_paths):
    r = subprocess.run([tsa, bc, "--repo", REPO, "--max-paths", str(max_paths)] + entries, capture_output=True, text=True)
    if r.returncode:
        raise Broken("analyser failed on %s: %s" % (entries, r.stderr[-2000:]))
    res, cur = {}, None
    strs = None
    for line in reversed(r.stdout.splitlines()[-3:]):
        if line.startswith("STRINGS "):
            strs = json.loads(line[8:])
            break
    if strs is None:
        raise Broken("analyser output incomplete for %s" % entries)
    for line in r.stdout.splitlines():
        if line.startswith("ENTRY "):
            cur = line[6:]
            res[cur] = [[], None]
        elif line.startswith("END "):
            res[cur][1] = json.loads(line[4:])
        elif line.startswith("{"):
            j = json.loads(line)
            evs = []
            for i, (k, tid, loc, fn, a, s) in enumerate(j["ev"]):
                e = Ev()
                e.k, e.tid, e.i = strs[k], tid, i
                e.loc = strs[loc] if loc >= 0 else ""
                e.fn = strs[fn] if fn >= 0 else ""
                e.a = a
                e.s = [strs[x] for x in s]
                e.n = e.s[0] if e.k == "ev" else None
                evs.append(e)
            leaks = [(o, strs[l] if l >= 0 else "?", sz) for o, l, sz in j["leaks"]]
            res[cur][0].append(Path(cur, j["out"], evs, leaks))
    return res


# ------------------------------------------------------------------ rules

class Report:
    """violations of one property"""

    def __init__(self, prop):
        self.prop = prop
        self.items = []      # dicts
        self.obligations = 0

    def violation(self, rule, entry, site, msg, path=None):
        self.items.append(dict(rule=rule, entry=entry, site=site, msg=msg, path=path))


ALL = frozenset(("memory", "lock", "outcome", "race", "leak", "termination", "parked"))
# what the cross-cutting properties look at in the entries of all areas
CROSS = {"C02": frozenset(("race",)), "C10": frozenset(("memory", "leak")), "C16": frozenset(("lock",))}
CROSS_RULES = {}     # property -> [rule]   (filled by rule.py)


class E:
    """one entry of a driver unit and what each property demands of its paths"""

    def __init__(self, name, doc, props, out=("return",), leaks=False, must=(), cross=("C02", "C10", "C16"), recall=(), parked=False,
                 min_paths=1, thorough=False, generic=ALL):
        self.name, self.doc, self.out, self.leaks, self.must = name, doc, out, leaks, must
        self.props = {k: list(v) for k, v in props.items()}
        self.recall = recall          # function ids that may be called more than once
        self.parked = parked
        self.min_paths, self.thorough = min_paths, thorough
        self.generic = {k: generic for k in self.props}
        for c in cross:
            if c in self.props:
                self.props[c] = self.props[c] + CROSS_RULES.get(c, [])
            else:
                self.props[c] = list(CROSS_RULES.get(c, []))
                self.generic[c] = CROSS[c]


UNDECIDED = ("unknown-deref", "unknown-call", "unsupported-instruction", "unknown-memcpy-size", "recursion-depth")



def client_site(e):
    return e.loc or "client code of the entry"


def generic(rep, ent, p, cats):
    """obligations every path of every entry has to meet; False: the path cannot be judged further"""
    if p.out == "err":
        e = [x for x in p.ev if x.k == "err"][-1]
        if e.s[0] in UNDECIDED:
            raise Broken("%s: analysis cannot follow %s at %s" % (p.entry, e.s[0], e.loc))
        cat = "termination" if e.s[0] == "livelock" else "lock" if ("lock" in e.s[0] or "wait" in e.s[0]) else "memory"
        if cat in cats:
            rep.violation("%s discipline: %s" % (cat, e.s[0]), p.entry, client_site(e), "%s (%s) in %s" % (e.s[0], "/".join(e.s[1:]), e.fn), p)
        return False
    if p.out in ("loop-bound", "step-bound"):
        if "termination" in cats:
            last = [x for x in p.ev if x.loc][-1:]
            rep.violation("termination", p.entry, last[0].loc if last else "?", "a loop does not settle within the analysis bound", p)
        return False
    if p.out not in ent.out:
        if "outcome" in cats:
            last = [x for x in p.ev if x.loc and x.k in ("terminate", "escape", "blocked", "assert-fail", "cvwait")][-1:] or [x for x in p.ev if x.loc][-1:]
            what = {"terminate": "the path ends in std::terminate", "blocked": "the thread stays blocked although everything that has to wake it has happened",
                    "throw": "an exception escapes", "assert": "an assertion of the library fails"}.get(p.out, "path ends in " + p.out)
            rep.violation("outcome", p.entry, last[0].loc if last else "?", what + (" (%s)" % "/".join(last[0].s) if last and last[0].s else ""), p)
        return False
    ok = True
    for e in p.ev:
        if e.k == "race" and "race" in cats:
            rep.violation("happens-before", p.entry, e.loc or e.s[2],
                          "%s in %s is not ordered after the other thread's %s at %s (%s)" % (e.s[0], e.fn or "client", e.s[1], e.s[2] or "client code", e.s[3]), p)
            ok = False
            break
    for e in p.ev:
        if e.k == "env-throw" and "outcome" in cats:
            rep.violation("outcome", p.entry, client_site(e), "an exception escapes from the other thread's operation", p)
            ok = False
        if e.k == "parked" and "parked" in cats and not ent.parked:
            rep.violation("blocked", p.entry, client_site(e), "another thread is still blocked although everything that has to wake it has happened", p)
            ok = False
    if "leak" in cats and not ent.leaks and p.leaks:
        o, loc, sz = p.leaks[0]
        rep.violation("leak", p.entry, loc, "an object of %d bytes allocated at %s is never released" % (sz, loc), p)
        ok = False
    return ok


class V:
    """handed to a rule: reports a violation on the current path"""

    def __init__(self, rep, p):
        self.rep, self.p = rep, p

    def __call__(self, rule, msg, ev=None):
        site = client_site(ev) if ev is not None else next((x.loc for x in reversed(self.p.ev) if x.loc), "?")
        self.rep.violation(rule, self.p.entry, site, msg, self.p)


def areas():
    out = []
    for f in sorted(glob.glob(os.path.join(VERIF, "areas", "*.py"))):
        n = os.path.basename(f)[:-3]
        if n != "__init__":
            out.append(importlib.import_module("areas." + n))
    return out


def run_property(prop, rep, work, tier, stats):
    tsa = engine()
    todo = []
    for a in areas():
        for cfg in getattr(a, "CONFIGS", [dict()]):
            mt = cfg.get("match", lambda n: True)
            ents = [e for e in a.ENTRIES if mt(e.name) and prop in e.props and (tier == "thorough" or not e.thorough)]
            if ents:
                todo.append((a, cfg, ents))
    if not todo:
        import props
        if "extra" in props.PROPS[prop]:
            return
        raise Broken("no entries for " + prop)

    def build(t):
        a, cfg, ents = t
        defs = list(cfg.get("defs", [])) + (["-DVX_THOROUGH=1"] if tier == "thorough" else [])
        try:
            return compile_ir(a.DRIVER, work, defs, cfg.get("std", "gnu++17"), cfg.get("lower", False))
        except Rejected as e:
            return e

    maxp = 200000 if tier == "thorough" else 40000
    with cf.ThreadPoolExecutor(max_workers=8) as ex:
        bcs = list(ex.map(build, todo))
    global AREAS
    AREAS = {a.__name__: a for a, _, _ in todo}
    with cf.ProcessPoolExecutor(max_workers=8, mp_context=multiprocessing.get_context("fork")) as ex:
        jobs = []
        undecided = None
        for (a, cfg, ents), bc in zip(todo, bcs):
            if isinstance(bc, Rejected):
                if any(e.generic[prop] is ALL for e in ents):
                    err = next((l for l in str(bc).splitlines() if "error:" in l), "?")
                    rep.violation("public API accepts the client", a.DRIVER, err.split(": ")[0].replace(REPO + "/", ""),
                                  "a program that uses the documented operations is rejected by the compiler: " + err.split("error: ")[-1], ("compile error", str(bc)))
                else:
                    undecided = bc
                continue
            have = subprocess.run([tsa, bc, "--list"], capture_output=True, text=True).stdout.split()
            known = {e.name for e in a.ENTRIES if cfg.get("match", lambda n: True)(e.name)}
            missing = [n for n in known if n not in have]
            if missing:
                raise Broken("entries missing in %s: %s" % (a.DRIVER, missing))
            extra = [n for n in have if n not in known]
            if extra:
                raise Broken("entries without a rule in %s: %s" % (a.DRIVER, extra))
            for i in range(0, len(ents), 4):
                jobs.append((a, cfg, ents[i:i + 4], ex.submit(run_judge, tsa, bc, a.__name__, [e.name for e in ents[i:i + 4]], maxp, prop)))
        for a, cfg, e, r in ((a, cfg, e, r) for a, cfg, es, fut in jobs for e, r in zip(es, fut.result())):
            r, n, st, nev, obl = r
            rep.items += r.items
            rep.obligations += obl
            stats["entries"] += 1
            stats["paths"] += n
            stats["steps"] += st["steps"]
            stats["functions"] |= set(st["repo_functions"])
            stats["callsites"] += st["callsites"]
            stats["unknown"] |= set(st["unknown"])
            stats["per_entry"]["%s/%s" % (a.__name__.split(".")[-1], e.name) + ("@" + cfg["name"] if "name" in cfg else "")] = {
                "client": e.doc, "paths": n, "events": nev, "rules": [getattr(f, "__name__", "rule") for f in e.props[prop]]}
    if undecided:
        raise undecided


def run_judge(tsa, bc, area, names, maxp, prop):
    res = run_entries(tsa, bc, names, maxp)
    return [judge(next(x for x in AREAS[area].ENTRIES if x.name == n), res[n], prop) for n in names]


def judge(e, res, prop):
    rep = Report(prop)
    paths, st = res
    if st["truncated"]:
        raise Broken("%s: path limit reached" % e.name)
    obl = nev = 0
    good = []
    for p in paths:
        nev += len(p.ev)
        p.ent = e
        obl += 1
        if generic(rep, e, p, e.generic[prop]):
            good.append(p)
    for p in good:
        for f in e.props[prop]:
            obl += 1
            f(V(rep, p), p)
    if not rep.items and e.generic[prop] is ALL:
        if not paths:
            rep.violation("completion", e.name, "?", "no path of this entry completes")
        for what, pred in e.must:
            if not any(pred(p) for p in paths):
                rep.violation("reachability", e.name, next((x.loc for p in paths[:1] for x in reversed(p.ev) if x.loc), "?"), "no path reaches: " + what, paths[0] if paths else None)
    # only the text of a few violating paths goes back
    kept = {}
    for it in rep.items:
        k = (it["rule"], it["site"], it["msg"])
        if k in kept or len(kept) >= 6:
            it["path"] = None
        else:
            kept[k] = 1
            it["path"] = (it["path"].out, it["path"].text()) if it["path"] is not None else None
    rep.items = [it for it in rep.items if it["path"] is not None or it["rule"] == "completion"]
    return rep, len(paths), st, nev, obl


def known_findings(prop):
    f = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(f):
        return []
    return [k for k in json.load(open(f)).get("known", []) if k["property"] == prop]


def main(argv):
    prop = argv[1]
    tier = "thorough" if ("--thorough" in argv or os.environ.get("VERIF_TIER") == "thorough") and "--quick" not in argv else "quick"
    t0 = time.time()
    sys.path.insert(0, VERIF)
    import rule
    import props
    mod = props.PROPS[prop]
    work = tempfile.mkdtemp(prefix="verif-%s-" % prop)
    rep = Report(prop)
    stats = dict(entries=0, paths=0, steps=0, functions=set(), callsites=0, unknown=set(), per_entry={}, extra={})
    try:
        run_property(prop, rep, work, tier, stats)
        if "extra" in mod:
            mod["extra"](rep, work, tier, stats)
    except Broken as e:
        print("ANALYSIS-BROKEN property=%s %s" % (prop, e))
        if not rep.items:
            return 2
    finally:
        shutil.rmtree(work, ignore_errors=True)
    # one report per distinct (rule, entry, site)
    seen, items = set(), []
    for it in rep.items:
        k = (it["rule"], it["entry"], it["site"], it["msg"])
        if k not in seen:
            seen.add(k)
            items.append(it)
    known = known_findings(prop)
    fresh = []
    reported = set()
    for it in items:
        hit = None
        for k in known:
            if k["entry"] == it["entry"] and k["rule"] == it["rule"] and k["match"] in it["msg"]:
                hit = k
        if hit:
            if hit["id"] not in reported:
                print("KNOWN-FINDING: property=%s %s" % (prop, hit["what"]))
                reported.add(hit["id"])
        else:
            fresh.append(it)
    os.makedirs(EVID, exist_ok=True)
    rdir = os.path.join(EVID, "replay")
    os.makedirs(rdir, exist_ok=True)
    for f in glob.glob(os.path.join(rdir, prop + "-*.txt")):
        os.remove(f)
    for i, it in enumerate(fresh[:10]):
        rp = os.path.join(rdir, "%s-%d.txt" % (prop, i))
        with open(rp, "w") as f:
            f.write("property: %s\nrule: %s\nentry: %s\nconstruct: %s\nviolation: %s\n" % (prop, it["rule"], it["entry"], it["site"], it["msg"]))
            if it["path"] is not None:
                f.write("\nabstract path (entry %s, outcome %s):\n%s\n" % (it["entry"], it["path"][0], it["path"][1]))
        it["replay"] = rp
    ev = dict(property=prop, tier=tier, seed=int(os.environ.get("VERIF_SEED", "1")), level=mod.get("level", "other"),
              wall_s=round(time.time() - t0, 2), violations=len(fresh),
              assumptions=mod.get("assumptions", []) + COMMON_ASSUMPTIONS)
    cov = dict(explanation=mod["rule"], entries=stats["entries"], abstract_paths=stats["paths"], ir_steps=stats["steps"],
               repo_functions_analysed=len(stats["functions"]), call_sites=stats["callsites"], rule_evaluations=rep.obligations,
               opaque_externals=sorted(stats["unknown"]), per_entry=stats["per_entry"])
    cov.update(stats["extra"])
    ev["coverage"] = cov
    json.dump(ev, open(os.path.join(EVID, prop + ".json"), "w"), indent=1)
    for it in fresh[:10]:
        print("%s: %s [%s]\n    at %s, entry %s" % (prop, it["msg"], it["rule"], it["site"], it["entry"]))
        print("VIOLATION property=%s replay=%s" % (prop, it["replay"]))
    if fresh:
        return 1
    print("OK property=%s entries=%d paths=%d functions=%d rule evaluations=%d (%.1fs)" %
          (prop, stats["entries"], stats["paths"], len(stats["functions"]), rep.obligations, time.time() - t0))
    return 0


COMMON_ASSUMPTIONS = [
    "libstdc++ headers are analysed as IR; pthread, exception runtime and operator new are modelled",
    "other threads' operations interfere at synchronisation operations, one whole operation at a time",
    "notifications, executors' post and the moves of results do not throw",
]

if __name__ == "__main__":
    sys.exit(main(sys.argv))
