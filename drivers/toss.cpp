// values, functions, executors and cancellers whose copying or moving throws
#include "vx.h"
using namespace vx;

static bool armed;
static void may_throw(const char *what, long id) {
  if (armed && vx_bool(what)) {
    vx_ev("toss", id);
    throw Exc{id};
  }
}
struct V {
  long id;
  explicit V(long i) : id(i) { vx_ev("U.ctor", this, id); }
  V(const V &o) : id((may_throw("copying the value throws", 30), o.id)) { vx_ev("U.copy", this, id, &o); }
  V(V &&o) : id((may_throw("moving the value throws", 30), o.id)) { vx_ev("U.move", this, id, &o); o.id = -7; }
  V &operator=(const V &) = delete;
  ~V() { vx_ev("U.dtor", this, id); id = -8; }
};
template <class Ret> struct FnC { // copying throws, moving does not
  long id;
  Ret ret;
  FnC(long i, Ret r) : id(i), ret(r) { vx_ev("F.ctor", this, id); }
  FnC(FnC &&o) noexcept : id(o.id), ret(o.ret) { vx_ev("F.move", this, id, &o); o.id = -7; }
  FnC(const FnC &o) : id((may_throw("copying the function throws", 31), o.id)), ret(o.ret) { vx_ev("F.copy", this, id, &o); }
  ~FnC() { vx_ev("F.dtor", this, id); id = -8; }
  template <class... A> auto operator()(A &&...a) -> decltype(ret(std::forward<A>(a)...)) {
    vx_ev("F.call", id);
    return ret(std::forward<A>(a)...);
  }
};
template <class R> FnC<R> fnc(long id, R r) { return FnC<R>(id, r); }
struct ExC {
  Box *box;
  long id;
  ExC(Box *b, long i) : box(b), id(i) { vx_ev("X.ctor", this, id); }
  ExC(const ExC &o) : box(o.box), id((may_throw("copying the executor throws", 32), o.id)) { vx_ev("X.copy", this, id, &o); }
  ExC(ExC &&o) noexcept : box(o.box), id(o.id) { vx_ev("X.move", this, id, &o); o.id = -7; }
  ~ExC() { vx_ev("X.dtor", this, id); id = -8; }
};
template <class T> void post(ExC &e, T &&t) { vx::post(Ex{e.box, e.id}, std::forward<T>(t)); }
template <class T> void post(const ExC &e, T &&t) { vx::post(Ex{e.box, e.id}, std::forward<T>(t)); }
namespace portable_concurrency {
template <> struct is_executor<ExC> : std::true_type {};
} // namespace portable_concurrency
static void showv(int tag, const V &v) { vx_ev("val", tag, v.id, &v); }
static void look(int tag, pc::future<V> &f) {
  if (!f.is_ready())
    vx_ev("notready", tag);
  else
    guarded(tag, [&] { V v = f.get(); showv(tag, v); });
}
// runs op with throwing copies; tells whether it threw
template <class Op> static bool attempt(Op op) {
  armed = true;
  bool threw = false;
  try {
    op();
  } catch (Exc &e) {
    threw = true;
    vx_ev("threw", e.id);
  }
  armed = false;
  vx_ev("attempted", threw ? 1 : 0);
  return threw;
}

// ------------------------------------------------------------- storing the value fails
template <class Op> static void set_value(Op op) {
  auto pf = pc::make_promise<V>();
  auto p = std::move(pf.first);
  bool early = vx_bool("attach first");
  pc::future<V> f = std::move(pf.second), g;
  auto attach = [&] { g = f.then(nt(11, [](pc::future<V> x) { armed = false; look(1, x); return V{80}; })); };
  if (early)
    attach();
  bool threw = attempt([&] { op(p); });
  vx_ev("ready", (early ? g.is_ready() : f.is_ready()) ? 1 : 0);
  int again = vx_pick("then", 3);
  if (threw) {
    if (again == VALUE) {
      V w{8};
      p.set_value(w);
    } else if (again == ERROR)
      p.set_exception(std::make_exception_ptr(Exc{9}));
  } else
    guarded(4, [&] { p.set_value(V{8}); });
  { auto gone = std::move(p); }
  if (!early)
    attach();
  look(2, g);
}
ENTRY(set_copy) { V v{7}; set_value([&](pc::promise<V> &p) { p.set_value(v); }); vx_ev("source", v.id); }
ENTRY(set_move) { V v{7}; set_value([&](pc::promise<V> &p) { p.set_value(std::move(v)); }); }

// ------------------------------------------------------------- storing the result of a function fails
struct Make {
  template <class... A> V operator()(A &&...) const {
    V v{60};
    V w{61};
    return vx_bool("which") ? std::move(v) : std::move(w); // never elided
  }
};
template <class F> static void finish(F &f) {
  vx_ev("ready", f.is_ready() ? 1 : 0);
  armed = false;
  look(2, f);
}
ENTRY(task) {
  pc::packaged_task<V()> t{nt(10, Make{})};
  auto f = t.get_future();
  attempt([&] { t(); });
  t = pc::packaged_task<V()>{};
  finish(f);
}
ENTRY(then) {
  auto pf = pc::make_promise<void>();
  auto f = pf.second.then(nt(10, Make{}));
  attempt([&] { pf.first.set_value(); });
  finish(f);
}
ENTRY(next) {
  auto pf = pc::make_promise<void>();
  auto f = pf.second.next(nt(10, Make{}));
  attempt([&] { pf.first.set_value(); });
  finish(f);
}
ENTRY(sthen) {
  auto pf = pc::make_promise<U>();
  auto s = pf.second.share();
  auto f = s.then(nt(10, Make{}));
  attempt([&] { pf.first.set_value(U{1}); });
  finish(f);
}
ENTRY(snext) {
  auto pf = pc::make_promise<U>();
  auto s = pf.second.share();
  auto f = s.next(nt(10, Make{}));
  attempt([&] { pf.first.set_value(U{1}); });
  finish(f);
}
ENTRY(async) {
  Box box;
  box.mode = LATER;
  auto f = pc::async(Ex{&box, 5}, nt(10, Make{}));
  attempt([&] { box.run_all(5); });
  finish(f);
}
// passing the value into the function fails
ENTRY(next_arg) {
  auto pf = pc::make_promise<V>();
  auto f = pf.second.next(nt(10, [](V v) { return U{v.id + 53}; }));
  pf.first.set_value(V{7});
  vx_ev("ready", f.is_ready() ? 1 : 0);
  obs(2, f);
}
ENTRY(next_arg_throws) {
  auto pf = pc::make_promise<V>();
  auto body = [](V v) { vx_ev("body"); return U{60}; };
  auto f = pf.second.next(body);
  {
    V v{7};
    auto q = std::move(pf.first);
    attempt([&] { q.set_value(v); });
  }
  vx_ev("ready", f.is_ready() ? 1 : 0);
  obs(2, f);
}
ENTRY(snext_arg_throws) {
  auto pf = pc::make_promise<V>();
  auto s = pf.second.share();
  auto body = [](V v) { vx_ev("body"); return U{60}; };
  auto f = s.next(body);
  {
    V v{7};
    auto q = std::move(pf.first);
    attempt([&] { q.set_value(v); });
  }
  vx_ev("ready", f.is_ready() ? 1 : 0);
  obs(2, f);
}
ENTRY(get) {
  auto pf = pc::make_promise<V>();
  pf.first.set_value(V{7});
  armed = true;
  guarded(2, [&] { V v = pf.second.get(); showv(2, v); });
  armed = false;
  vx_ev("valid", pf.second.valid() ? 1 : 0);
}
ENTRY(sget) {
  auto pf = pc::make_promise<V>();
  auto s = pf.second.share();
  pf.first.set_value(V{7});
  armed = true;
  guarded(3, [&] { V v = s.get(); showv(3, v); });
  armed = false;
  guarded(2, [&] { showv(2, s.get()); });
}
ENTRY(make_ready) {
  V v{7};
  pc::future<V> f;
  if (!attempt([&] { f = pc::make_ready_future(v); }))
    look(2, f);
  vx_ev("source", v.id);
}

// ------------------------------------------------------------- handing over the function, executor, canceller fails
template <class Attach> static void attach_unique(Attach a) {
  auto pf = pc::make_promise<U>();
  Box box;
  box.mode = NOW;
  pc::future<U> g;
  bool early = vx_bool("attach first");
  if (!early)
    pf.first.set_value(U{7});
  bool threw = attempt([&] { a(pf.second, g, box); });
  if (early)
    pf.first.set_value(U{7});
  if (!threw && g.valid())
    obs(2, g);
}
template <class Attach> static void attach_shared(Attach a) {
  auto pf = pc::make_promise<U>();
  auto s = pf.second.share();
  Box box;
  box.mode = NOW;
  pc::future<U> g;
  bool early = vx_bool("attach first");
  if (!early)
    pf.first.set_value(U{7});
  bool threw = attempt([&] { a(s, g, box); });
  if (early)
    pf.first.set_value(U{7});
  if (!threw && g.valid())
    obs(2, g);
  obs(3, s);
}
struct Ret80 {
  template <class... A> U operator()(A &&...) const { return U{80}; }
};
#define BOTH(n, ...)                                                                                                                       \
  ENTRY(u##n) { attach_unique([](pc::future<U> &f, pc::future<U> &g, Box &box) { __VA_ARGS__; }); }                                         \
  ENTRY(s##n) { attach_shared([](pc::shared_future<U> &f, pc::future<U> &g, Box &box) { __VA_ARGS__; }); }
BOTH(then_fn, auto x = fnc(10, Ret80{}); g = f.then(x))
BOTH(next_fn, auto x = fnc(10, Ret80{}); g = f.next(x))
BOTH(notify_fn, auto x = fnc(10, nothing{}); f.notify(x))
BOTH(xthen_fn, auto x = fnc(10, Ret80{}); g = f.then(Ex{&box, 5}, x))
BOTH(xnext_fn, auto x = fnc(10, Ret80{}); g = f.next(Ex{&box, 5}, x))
BOTH(then_ex, ExC e(&box, 5); g = f.then(e, nt(10, Ret80{})))
BOTH(next_ex, ExC e(&box, 5); g = f.next(e, nt(10, Ret80{})))
BOTH(then_both, ExC e(&box, 5); auto x = fnc(10, Ret80{}); g = f.then(e, x))
ENTRY(async_fn) {
  Box box;
  box.mode = NOW;
  auto x = fnc(10, Ret80{});
  pc::future<U> g;
  if (!attempt([&] { g = pc::async(Ex{&box, 5}, x); }))
    obs(2, g);
}
ENTRY(async_arg) {
  Box box;
  box.mode = NOW;
  V v{7};
  pc::future<U> g;
  if (!attempt([&] { g = pc::async(Ex{&box, 5}, nt(10, [](const V &x) { armed = false; return U{x.id + 73}; }), v); }))
    obs(2, g);
  vx_ev("source", v.id);
}
ENTRY(task_fn) {
  auto x = fnc(10, Ret80{});
  pc::packaged_task<U()> t;
  attempt([&] { t = pc::packaged_task<U()>{x}; });
  if (t.valid()) {
    auto g = t.get_future();
    t();
    obs(2, g);
  }
}
ENTRY(canceller) {
  auto x = fnc(10, nothing{});
  attempt([&] {
    auto pf = pc::make_promise<U>(pc::canceler_arg, x);
    pf.first.set_value(U{80});
    obs(2, pf.second);
  });
}
ENTRY(canceller_ctor) {
  auto x = fnc(10, nothing{});
  attempt([&] { pc::promise<U> p(pc::canceler_arg, x); });
}
