#!/usr/bin/env python3
"""Automatic mutants (development aid, not a check): one syntactic change per mutant, judged by all rules of all
areas until the first violation.  Prints KILLED / nocompile / BROKEN / SURVIVED.
usage: auto.py [-jN] [--area a,b,..] file-pattern ..."""
import concurrent.futures as cf, importlib, os, re, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
BITS = "/repo/portable_concurrency/bits/"
ORDER = {"latch": "latch", "when_": "when oom toss chain", "closable": "pool", "thread_pool": "pool oom", "timed": "timed oom", "unique_function": "func oom toss inv",
         "coro": "coro", "future_sequence": "when chain"}
DEFAULT = "hist inv attach values cont cancel exec func wait when timed alloc oom toss pool coro chain"


def mutants(f):
    lines = open(BITS + f).read().split("\n")
    for i, l in enumerate(lines):
        s = l.strip()
        if s.startswith(("//", "#", "*", "template", "using", "static_assert", "friend", "typename")) or not s:
            continue

        def put(kind, new):
            return "%s:%d:%s" % (f, i + 1, kind), "\n".join(lines[:i] + [new] + lines[i + 1:]), s + "   =>   " + new.strip()
        stmt = re.match(r"[\w:\->.*<>()!, {}\[\]&]+;$", s) and l.startswith("  ") and lines[i - 1].strip().endswith((";", "{", "}", ")", "else", ":"))
        if stmt and not re.match(r"(return|break|continue|public|private|typedef|auto|const|static|bool|int|std::\w+<.*> \w+;|\}|friend|explicit|virtual|\w+(<.*>)? \w+(;|\{.*\};)$)", s) and "= default" not in s and "= delete" not in s and "noexcept" not in s:
            yield put("del", re.match(r"\s*", l).group(0) + ";")
        m = re.match(r"(\s*)(?:} else )?if \((.*)\)( \{)?( return.*;| \w.*;)?$", l)
        if m:
            yield put("neg", l.replace("if (" + m.group(2) + ")", "if (!(" + m.group(2) + "))"))
            yield put("iftrue", l.replace("if (" + m.group(2) + ")", "if (true || (" + m.group(2) + "))"))
            yield put("iffalse", l.replace("if (" + m.group(2) + ")", "if (false && (" + m.group(2) + "))"))
        for k, m in enumerate(re.finditer(r"std::(move|forward<[\w.&: ]+>)\(", l)):
            yield put("nomove%d" % k, l[:m.start()] + "(" + l[m.end():])
        for k, m in enumerate(re.finditer(r"\b(true|false)\b", l)):
            if not re.search(r"_type|noexcept|template|enable_if", l):
                yield put("bool%d" % k, l[:m.start()] + ("false" if m.group(1) == "true" else "true") + l[m.end():])
        for k, m in enumerate(re.finditer(r"memory_order_(acquire|release|acq_rel|seq_cst)", l)):
            yield put("relax%d" % k, l[:m.start()] + "memory_order_relaxed" + l[m.end():])
        for k, m in enumerate(re.finditer(r"(==|!=|<=|>=| < | > )", l)):
            if "operator" in l or "template" in l or "include" in l:
                continue
            r = {"==": "!=", "!=": "==", "<=": "<", ">=": ">", " < ": " <= ", " > ": " >= "}[m.group(1)]
            yield put("rel%d" % k, l[:m.start()] + r + l[m.end():])
        for k, m in enumerate(re.finditer(r"(\+\+|--)", l)):
            yield put("inc%d" % k, l[:m.start()] + {"++": "--", "--": "++"}[m.group(1)] + l[m.end():])
        for k, m in enumerate(re.finditer(r"(in_place_index_t<|get\(|state\(\) == )(\d)", l)):
            pass
        m = re.match(r"(\s*)return (.*);$", l)
        if m and m.group(2) in ("nullptr",):
            pass
        if re.search(r"\b(notify_all)\b", l):
            yield put("one", l.replace("notify_all", "notify_one"))
        if re.search(r"\bstd::(lock_guard|unique_lock)\b.*\{", l) and "unique_lock" not in l:
            yield put("nolock", "")
        if "weak_ptr" in l and "weak_ptr" in l.replace("std::weak_ptr", "weak_ptr"):
            pass


def one(m, areas):
    name, text, desc = m
    d = tempfile.mkdtemp(prefix="auto-", dir="/tmp/auto")
    try:
        shutil.copytree("/repo/portable_concurrency", d + "/portable_concurrency")
        open(d + "/portable_concurrency/bits/" + name.split(":")[0], "w").write(text)
        r = subprocess.run([sys.executable, __file__, "--one", d] + areas, capture_output=True, text=True, env=dict(os.environ, VERIF_REPO=d), timeout=1500)
        out = r.stdout.strip().split("\n")[-1]
        return name, desc, out or "BROKEN " + r.stderr[-300:]
    except subprocess.TimeoutExpired:
        return name, desc, "BROKEN timeout"
    finally:
        shutil.rmtree(d, ignore_errors=True)


def judge_all(d, names):
    import vcore, rule
    tsa = vcore.engine()
    broken, compiled = None, False
    for n in names:
        a = importlib.import_module("areas." + n)
        for cfg in getattr(a, "CONFIGS", [dict()]):
            mt = cfg.get("match", lambda n: True)
            ents = [e for e in a.ENTRIES if mt(e.name) and not e.thorough]
            try:
                bc = vcore.compile_ir(a.DRIVER, d, list(cfg.get("defs", [])), cfg.get("std", "gnu++17"), cfg.get("lower", False))
            except vcore.Rejected as x:
                print("nocompile " + n + " " + next((l for l in str(x).splitlines() if "error:" in l), "?")[-120:])
                return
            for i in range(0, len(ents), 4):
                try:
                    res = vcore.run_entries(tsa, bc, [e.name for e in ents[i:i + 4]], 40000)
                    for e in ents[i:i + 4]:
                        for prop in e.props:
                            rep = vcore.judge(e, res[e.name], prop)[0]
                            if rep.items:
                                it = rep.items[0]
                                print("KILLED %s %s/%s: %s at %s: %s" % (prop, n, e.name, it["rule"], it["site"], it["msg"][:100]))
                                return
                except vcore.Broken as x:
                    broken = x
            os.unlink(bc)
    print("BROKEN %s" % broken if broken else "SURVIVED")


if __name__ == "__main__":
    if sys.argv[1] == "--one":
        judge_all(sys.argv[2], sys.argv[3:])
        sys.exit()
    j, pats, ar = 4, [], None
    for a in sys.argv[1:]:
        if a.startswith("-j"):
            j = int(a[2:])
        elif a.startswith("--area="):
            ar = a[7:].split(",")
        else:
            pats.append(a)
    todo = []
    for f in sorted(os.listdir(BITS)):
        if any(re.search(p, f) for p in pats):
            o = next((v for k, v in ORDER.items() if f.startswith(k) or k in f), DEFAULT).split()
            todo += [(m, ar or o) for m in mutants(f)]
    print(len(todo), "mutants", flush=True)
    with cf.ThreadPoolExecutor(max_workers=j) as ex:
        for n, desc, r in ex.map(lambda t: one(*t), todo):
            print("%-45s %s\n      %s" % (n, r, desc), flush=True)
