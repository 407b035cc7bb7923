"""C19: programs the compiler has to reject (each with a nearly equal twin it has to accept) and documented types."""
import concurrent.futures as cf
import os
import re
import subprocess

HERE = os.path.dirname(os.path.abspath(__file__))
W = []          # (name, bad, good, declarations, flags)


def w(name, bad, good, decl="", flags=()):
    W.append((name, bad, good, decl, list(flags)))


FUT = [("future", "auto f = pc::make_ready_future(1);"), ("shared_future", "auto f = pc::make_ready_future(1).share();")]
# copies
for t, decl in (("pc::future<int>", "auto a = pc::make_ready_future(1);"), ("pc::promise<int>", "pc::promise<int> a;"), ("pc::promise<void>", "pc::promise<void> a;"),
                ("pc::promise<int &>", "pc::promise<int &> a;"), ("pc::packaged_task<int()>", "pc::packaged_task<int()> a{[] { return 1; }};"),
                ("pc::unique_function<int()>", "pc::unique_function<int()> a{[] { return 1; }};")):
    w("copy construction of " + t, "%s b(a);" % t, "%s b(std::move(a));" % t, decl)
    w("copy construction of const " + t, "const %s &c = a; %s b(c);" % (t, t), "%s &c = a; %s b(std::move(c));" % (t, t), decl)
    w("copy assignment of " + t, "%s b; b = a;" % t, "%s b; b = std::move(a);" % t, decl)
w("copy of latch", "pc::latch b(a);", "(void)a.is_ready();", "pc::latch a(1); a.count_down();")
w("move of latch", "pc::latch b(std::move(a));", "(void)a.is_ready();", "pc::latch a(1); a.count_down();")
w("copy of static_thread_pool", "pc::static_thread_pool b(a);", "a.stop();", "pc::static_thread_pool a(1);")
w("move of static_thread_pool", "pc::static_thread_pool b(std::move(a));", "a.stop();", "pc::static_thread_pool a(1);")
w("latch from a number", "pc::latch a = 1; a.count_down();", "pc::latch a(1); a.count_down();")
w("pool from a number", "pc::static_thread_pool a = 1;", "pc::static_thread_pool a(1);")
# nested futures
for o in ("future", "shared_future"):
    for i in ("future", "shared_future"):
        w("nested %s<%s>" % (o, i), "pc::%s<pc::%s<int>> f; (void)f;" % (o, i), "pc::%s<int> f; (void)f;" % o)
# executors
for k, d in FUT:
    fk = "pc::%s<int>" % k
    for op, fn in (("notify", "[] {}"), ("then", "[](%s g) { return g.get(); }" % fk), ("then", "[](%s) { return pc::make_ready_future(1); }" % fk),
                   ("then", "[](pc::promise<int> p, %s) { p.set_value(1); }" % fk), ("next", "[](int i) { return i; }"), ("next", "[](int i) { return pc::make_ready_future(i); }")):
        w("%s.%s(%s) through a type not declared an executor" % (k, op, fn), "(void)(f.%s(Other{}, %s), 0);" % (op, fn), "(void)(f.%s(Exec{}, %s), 0);" % (op, fn), d)
w("async through a type not declared an executor", "(void)pc::async(Other{}, [] { return 1; });", "(void)pc::async(Exec{}, [] { return 1; });")
w("async without executor", "(void)pc::async([] { return 1; });", "(void)pc::async(pc::inplace_executor, [] { return 1; });")
w("async through the pool itself", "(void)pc::async(p, [] { return 1; });", "(void)pc::async(p.executor(), [] { return 1; });", "pc::static_thread_pool p(1);")
# arguments
for k, d in FUT:
    w("%s.then with a function of the value" % k, "(void)f.then([](int) {});", "(void)f.next([](int) {});", d)
    w("%s.next with a function of the future" % k, "(void)f.next([](pc::%s<int>) {});" % k, "(void)f.then([](pc::%s<int>) {});" % k, d)
    w("%s.next with a wrong argument" % k, "(void)f.next([](std::string) {});", "(void)f.next([](long) {});", d)
    w("%s.next with a mutable reference" % k, "(void)f.next([](int &) {});", "(void)f.next([](const int &) {});", d)
    w("%s.then with a wrong future" % k, "(void)f.then([](pc::%s<long>) {});" % k, "(void)f.then([](pc::%s<int>) {});" % k, d)
    w("%s.notify with a function that needs an argument" % k, "f.notify([](int) {});", "f.notify([] {});", d)
    w("%s.then promise of another future" % k, "(void)f.then([](pc::promise<int>, pc::%s<long>) {});" % k, "(void)f.then([](pc::promise<int>, pc::%s<int>) {});" % k, d)
w("writing through shared_future::get", "f.get() = 2;", "(void)f.get();", FUT[1][1])
w("writing through a const shared reference continuation", "(void)f.next([](auto &i) { i = 2; });", "(void)f.next([](auto &i) { (void)i; });", FUT[1][1])
w("get on a const future", "f.get();", "(void)f.is_ready();", "const auto f = pc::make_ready_future(1);")
w("shared_future from an lvalue future", "pc::shared_future<int> s(f);", "pc::shared_future<int> s(std::move(f));", FUT[0][1])
w("future from a shared_future", "pc::future<int> s(std::move(f));", "pc::shared_future<int> s(std::move(f));", FUT[1][1])
w("future of another type", "pc::future<long> s(std::move(f));", "pc::future<int> s(std::move(f));", FUT[0][1])
w("timed_waiter on a temporary", "pc::timed_waiter t(pc::make_ready_future(1));", "pc::timed_waiter t(f);", FUT[0][1])
w("implicit timed_waiter", "pc::timed_waiter t = f;", "pc::timed_waiter t(f);", FUT[0][1])
w("temporary as result of promise<int&>", "p.set_value(1);", "p.set_value(i);", "pc::promise<int &> p; int i = 0;")
w("const object as result of promise<int&>", "p.set_value(i);", "p.set_value(j);", "pc::promise<int &> p; const int i = 0; int j = 0;")
w("value for promise<void>", "p.set_value(1);", "p.set_value();", "pc::promise<void> p;")
w("no value for promise<int>", "p.set_value();", "p.set_value(1);", "pc::promise<int> p;")
w("wrong value for promise<int>", 'p.set_value("");', "p.set_value(1);", "pc::promise<int> p;")
w("move-only result copied into the promise", "p.set_value(v);", "p.set_value(std::move(v));", "pc::promise<Ptr> p; Ptr v;")
# combinators
for c in ("when_all", "when_any"):
    w(c + " of an lvalue future", "(void)pc::%s(f);" % c, "(void)pc::%s(std::move(f));" % c, FUT[0][1])
    w(c + " of an lvalue vector of futures", "(void)pc::%s(v);" % c, "(void)pc::%s(std::move(v));" % c, "std::vector<pc::future<int>> v;")
    w(c + " of something else", "(void)pc::%s(1);" % c, "(void)pc::%s(pc::make_ready_future(1));" % c)
    w(c + " of a vector of something else", "(void)pc::%s(std::vector<int>{});" % c, "(void)pc::%s(std::vector<pc::future<int>>{});" % c)
    w(c + " of a future and something else", "(void)pc::%s(std::move(f), 1);" % c, "(void)pc::%s(std::move(f));" % c, FUT[0][1])
# functions
for c in ("pc::unique_function", "pc::packaged_task"):
    w(c + " with a wrong result", "%s<int()> f([] { return std::string(); });" % c, "%s<int()> f([] { return 1L; });" % c)
    w(c + " with a missing argument", "%s<int()> f([](int i) { return i; });" % c, "%s<int(int)> f([](int i) { return i; });" % c)
    w(c + " with a wrong argument", "%s<int(int)> f([](std::string) { return 1; });" % c, "%s<int(int)> f([](long) { return 1; });" % c)
    w(c + " of something that is not callable", "%s<int()> f(1);" % c, "%s<int()> f([] { return 1; });" % c)
    w(c + " returning void for a value", "%s<int()> f([] {});" % c, "%s<void()> f([] {});" % c)
    w(c + " copying a move-only callable", "auto l = [p = Ptr()] { return 1; }; %s<int()> f(l);" % c, "auto l = [p = Ptr()] { return 1; }; %s<int()> f(std::move(l));" % c)
    w(c + " called with a wrong argument", 'f("");', "f(1);", "%s<int(int)> f([](int i) { return i; });" % c)
    w(c + " called with an lvalue move-only argument", "f(p);", "f(std::move(p));", "%s<void(Ptr)> f([](Ptr) {}); Ptr p;" % c)
w("implicit packaged_task", "pc::packaged_task<int()> t = [] { return 1; };", "pc::packaged_task<int()> t([] { return 1; });")
w("unique_function as bool", "bool b = f; (void)b;", "bool b = f ? true : false; (void)b;", "pc::unique_function<void()> f;")
w("async with missing arguments", "(void)pc::async(Exec{}, [](int) {});", "(void)pc::async(Exec{}, [](int) {}, 1);")
w("async with wrong arguments", '(void)pc::async(Exec{}, [](int) {}, "");', "(void)pc::async(Exec{}, [](int) {}, 1);")
w("async given a reference parameter for a decayed argument", "int i = 0; (void)pc::async(Exec{}, [](int &) {}, 1);", "int i = 0; (void)pc::async(Exec{}, [](int &) {}, std::ref(i));")
# a discarded future cancels its operation at once: diagnosed
ND = ["-Werror=unused-result"]
for what, e in (("then", "f.then([](pc::future<int>) {})"), ("then with executor", "f.then(Exec{}, [](pc::future<int>) {})"),
                ("interruptible then", "f.then([](pc::promise<int>, pc::future<int>) {})"), ("interruptible then with executor", "f.then(Exec{}, [](pc::promise<int>, pc::future<int>) {})"),
                ("next", "f.next([](int) {})"), ("next with executor", "f.next(Exec{}, [](int) {})"),
                ("async", "pc::async(Exec{}, [] {})"), ("when_all", "pc::when_all(std::move(f))"), ("when_any", "pc::when_any(std::move(f))"),
                ("when_all of a range", "pc::when_all(&f, &f + 1)"), ("when_any of a range", "pc::when_any(&f, &f + 1)"),
                ("when_all of a vector", "pc::when_all(std::vector<pc::future<int>>{})"), ("when_any of a vector", "pc::when_any(std::vector<pc::future<int>>{})"),
                ("get_future", "pc::packaged_task<int()>{}.get_future()"), ("make_promise", "pc::make_promise<int>()"),
                ("make_promise with allocator", "pc::make_promise<int>(std::allocator<int>{})"), ("make_promise with canceler", "pc::make_promise<int>(pc::canceler_arg, [] {})")):
    w("discarded result of " + what, e + ";", "auto r = %s; (void)r;" % e, FUT[0][1], ND)
for what, e in (("shared then", "f.then([](pc::shared_future<int>) {})"), ("shared then with executor", "f.then(Exec{}, [](pc::shared_future<int>) {})"),
                ("shared interruptible then", "f.then([](pc::promise<int>, pc::shared_future<int>) {})"),
                ("shared interruptible then with executor", "f.then(Exec{}, [](pc::promise<int>, pc::shared_future<int>) {})"),
                ("shared next", "f.next([](int) {})"), ("shared next with executor", "f.next(Exec{}, [](int) {})"),
                ("when_all of shared", "pc::when_all(f)"), ("when_any of shared", "pc::when_any(f)"),
                ("when_all of a shared range", "pc::when_all(&f, &f + 1)"), ("when_any of a shared range", "pc::when_any(&f, &f + 1)")):
    w("discarded result of " + what, e + ";", "auto r = %s; (void)r;" % e, FUT[1][1], ND)


def compile(cc, std, src, repo, flags, pch=None):
    cmd = [cc, "-std=" + std, "-I", repo, "-I", HERE, "-fsyntax-only", "-w"] + (["-ferror-limit=0"] if "clang" in cc else ["-fmax-errors=0"]) + flags
    if any(f.startswith("-Werror=") for f in flags):
        cmd.remove("-w")
        cmd.append("-Wno-deprecated-declarations")
    if pch:
        cmd += ["-include-pch", pch]
    return subprocess.run(cmd + ["-x", "c++", src], capture_output=True, text=True)


def first_error(out):
    return next((l for l in out.splitlines() if "error:" in l), out[-300:])


def decide(rep, work, tier, stats):
    from vcore import REPO
    confs = [("clang++", "gnu++14"), ("clang++", "gnu++17"), ("clang++", "gnu++20")]
    rej = confs[:1]
    if tier == "thorough":
        confs += [("g++", "gnu++14"), ("g++", "gnu++17"), ("g++", "gnu++20"), ("clang++", "c++23"), ("g++", "c++23")]
        rej = list(confs)
    n = dict(types=0, rejected=0, accepted=0)
    jobs = []
    with cf.ThreadPoolExecutor(max_workers=8) as ex:
        # documented types, in every language version, with and without the deprecated API
        for cc, std in confs:
            for nodep in ([], ["-DPC_NO_DEPRECATED"]):
                jobs.append(("types", cc, std, nodep, None, ex.submit(compile, cc, std, os.path.join(HERE, "types.cpp"), REPO, nodep)))
                jobs.append(("uses", cc, std, nodep, None, ex.submit(compile, cc, std, os.path.join(HERE, "uses.cpp"), REPO, nodep)))
        for i, (name, bad, good, decl, flags) in enumerate(W):
            for which, body in (("bad", bad), ("good", good)):
                src = os.path.join(work, "w%d_%s.cpp" % (i, which))
                with open(src, "w") as f:
                    f.write('#include "prelude.h"\nvoid witness() {\n  %s\n  %s\n}\n' % (decl, body))
        pchs = {}
        for cc, std in rej:
            if "clang" in cc:
                pch = os.path.join(work, "pch_" + std)
                r = subprocess.run([cc, "-std=" + std, "-I", REPO, "-I", HERE, "-w", "-x", "c++-header", os.path.join(HERE, "prelude.h"), "-o", pch], capture_output=True, text=True)
                if r.returncode == 0:
                    pchs[(cc, std)] = pch
        for i, (name, bad, good, decl, flags) in enumerate(W):
            for cc, std in rej:
                for which in ("bad", "good"):
                    jobs.append((which, cc, std, [], i, ex.submit(compile, cc, std, os.path.join(work, "w%d_%s.cpp" % (i, which)), REPO, flags, pchs.get((cc, std)))))
        broken = set()
        for kind, cc, std, nodep, i, fut in jobs:
            r = fut.result()
            rep.obligations += 1
            conf = "%s -std=%s%s" % (cc, std, " PC_NO_DEPRECATED" if nodep else "")
            out = r.stdout + r.stderr
            if kind in ("types", "uses"):
                n["types"] += len(re.findall(r"^(?:IS|NOT|TYPE|THEN|NEXT|ASYNC)\(", open(os.path.join(HERE, kind + ".cpp")).read(), re.M))
                if r.returncode:
                    for l in [l for l in out.splitlines() if "error:" in l][:5] or [out[-200:]]:
                        rep.violation("documented types and declarations" if kind == "types" else "documented use compiles", "witness/%s.cpp" % kind, l.split(" ")[0].rstrip(":").replace(REPO + "/", ""),
                                      l.split("error: ")[-1], (conf, out[:4000]))
                continue
            name = W[i][0]
            src = W[i][3] + " " + W[i][1 if kind == "bad" else 2]
            if kind == "good":
                n["accepted"] += 1
                if r.returncode:
                    rep.violation("correct use is accepted", name, first_error(out).split(" ")[0].replace(REPO + "/", ""), "%s: `%s` is rejected: %s" % (name, src, first_error(out).split("error: ")[-1]), (conf, out[:4000]))
            else:
                n["rejected"] += 1
                if not r.returncode:
                    rep.violation("misuse is rejected", name, "public headers", "%s: `%s` compiles" % (name, src), (conf, src))
    stats["extra"]["witnesses"] = dict(n, configurations=[" ".join(c) for c in confs], programs=[x[0] for x in W])
