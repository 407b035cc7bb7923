// C++20 coroutines over futures
#include "vx.h"
#include <coroutine>
using namespace vx;

// parameters of user coroutines whose lifetime is that of the frame
struct Tok {
  long id;
  explicit Tok(long i) : id(i) { vx_ev("F.ctor", this, id); }
  Tok(Tok &&o) noexcept : id(o.id) { vx_ev("F.move", this, id, &o); o.id = -7; }
  ~Tok() { vx_ev("F.dtor", this, id); id = -8; }
};
template <class T> struct give {
  static T one(long id) { return T{id}; }
};
template <class T> struct aw; // await and report what comes out
template <> struct aw<U> {
  static void see(int tag, U &&u) { val(tag, u); }
  static void see(int tag, const U &u) { val(tag, u); }
};

// reports what the awaited future gives, then returns 9 or lets the error through
template <class F> pc::future<U> watch(F a, Tok t) {
  vx_ev("co.start", t.id);
  val(2, co_await a);
  vx_ev("co.resume", t.id);
  co_return U{9};
}
template <class F> pc::future<void> watch_v(F a, Tok t) {
  vx_ev("co.start", t.id);
  co_await a;
  vx_ev("val", 2, 0, 0);
  vx_ev("co.resume", t.id);
}
template <class F> pc::future<R &> watch_r(F a, Tok t) {
  vx_ev("co.start", t.id);
  R &r = co_await a;
  val(2, r);
  vx_ev("co.resume", t.id);
  co_return r;
}
template <class F> pc::shared_future<U> watch_s(F a, Tok t) {
  vx_ev("co.start", t.id);
  val(2, co_await a);
  vx_ev("co.resume", t.id);
  co_return U{9};
}
template <class F> pc::future<std::unique_ptr<U>> watch_p(F a, Tok t) {
  vx_ev("co.start", t.id);
  auto p = co_await a;
  val(2, p);
  vx_ev("co.resume", t.id);
  co_return std::unique_ptr<U>(new U{9});
}
// catches what the awaited future gives
template <class F> pc::future<U> careful(F a, Tok t) {
  try {
    val(2, co_await a);
  } catch (Exc &e) {
    vx_ev("exc", 2, e.id);
  } catch (std::future_error &e) {
    errcode(2, e);
  }
  vx_ev("co.resume", t.id);
  co_return U{9};
}
template <class T> struct co;
template <> struct co<U> { template <class F> static auto run(F f, Tok t) { return watch(std::move(f), std::move(t)); } };
template <> struct co<void> { template <class F> static auto run(F f, Tok t) { return watch_v(std::move(f), std::move(t)); } };
template <> struct co<R &> { template <class F> static auto run(F f, Tok t) { return watch_r(std::move(f), std::move(t)); } };
template <> struct co<std::unique_ptr<U>> { template <class F> static auto run(F f, Tok t) { return watch_p(std::move(f), std::move(t)); } };

struct as_is { template <class F> static F of(F f) { return f; } };
struct shared { template <class F> static auto of(F f) { return f.share(); } };

// await, then deliver or the other way round
template <class T, class K> static void order() {
  auto pf = pc::make_promise<T>();
  pc::promise<T> p = std::move(pf.first);
  int out = vx_pick("outcome", 3), early = vx_bool("early");
  if (early) {
    deliver(p, out, 7);
    { auto q = std::move(p); }
  }
  auto f = co<T>::run(K::of(std::move(pf.second)), Tok{1});
  if (!early) {
    vx_ev(f.is_ready() ? "tooearly" : "pending");
    deliver(p, out, 7);
    { auto q = std::move(p); }
  }
  obs(1, f);
  vx_ev("over");
}
// the coroutine's own future is dropped, the coroutine goes on
template <class T, class K> static void dropped() {
  auto pf = pc::make_promise<T>();
  pc::promise<T> p = std::move(pf.first);
  { auto f = co<T>::run(K::of(std::move(pf.second)), Tok{1}); }
  deliver(p, vx_pick("outcome", 3), 7);
  { auto q = std::move(p); }
  vx_ev("over");
}
// another thread delivers while the coroutine suspends
template <class T, class K, int How> static void race() {
  auto pf = pc::make_promise<T>();
  owned<T> o(std::move(pf.first));
  vx_rely("deliver", produce<T, How>, &o, AT_SYNC | AT_WAIT);
  auto f = co<T>::run(K::of(std::move(pf.second)), Tok{1});
  vx_rest(0);
  vx_join();
  obs(1, f);
  vx_ev("over");
}
// another thread waits for the coroutine's result
template <int How> static void waited() {
  auto pf = pc::make_promise<U>();
  owned<U> o(std::move(pf.first));
  auto f = co<U>::run(std::move(pf.second), Tok{1});
  vx_rely("deliver", produce<U, How>, &o, AT_SYNC | AT_WAIT);
  get(1, f);
  vx_rest(0);
  vx_join();
  vx_ev("over");
}

#if CORO_PART == 0
ENTRY(order_u) { order<U, as_is>(); }
ENTRY(order_v) { order<void, as_is>(); }
ENTRY(order_r) { order<R &, as_is>(); }
ENTRY(order_p) { order<std::unique_ptr<U>, as_is>(); }
ENTRY(order_us) { order<U, shared>(); }
ENTRY(order_vs) { order<void, shared>(); }
ENTRY(order_rs) { order<R &, shared>(); }
ENTRY(dropped_u) { dropped<U, as_is>(); }
ENTRY(dropped_v) { dropped<void, as_is>(); }
ENTRY(dropped_us) { dropped<U, shared>(); }
ENTRY(dropped_p) { dropped<std::unique_ptr<U>, as_is>(); }
ENTRY(careful) {
  auto pf = pc::make_promise<U>();
  pc::promise<U> p = std::move(pf.first);
  int out = vx_pick("outcome", 3);
  auto f = careful(std::move(pf.second), Tok{1});
  deliver(p, out, 7);
  { auto q = std::move(p); }
  obs(1, f);
}
#elif CORO_PART == 1
ENTRY(race_u_value) { race<U, as_is, VALUE>(); }
ENTRY(race_u_error) { race<U, as_is, ERROR>(); }
ENTRY(race_u_gone) { race<U, as_is, GONE>(); }
ENTRY(race_v_value) { race<void, as_is, VALUE>(); }
ENTRY(race_us_value) { race<U, shared, VALUE>(); }
ENTRY(race_us_gone) { race<U, shared, GONE>(); }
ENTRY(waited_value) { waited<VALUE>(); }
ENTRY(waited_error) { waited<ERROR>(); }
ENTRY(waited_gone) { waited<GONE>(); }
// the awaited result belongs to a promise with an allocator: the handle is pushed by its override
ENTRY(race_alloc) {
  auto pf = pc::make_promise<U>(std::allocator<U>{});
  owned<U> o(std::move(pf.first));
  vx_rely("deliver", produce<U, VALUE>, &o, AT_SYNC | AT_WAIT);
  auto f = co<U>::run(std::move(pf.second), Tok{1});
  vx_rest(0);
  vx_join();
  obs(1, f);
  vx_ev("over");
}
// the coroutine ends on another thread while the result is asked for here
ENTRY(polled) {
  auto pf = pc::make_promise<U>();
  owned<U> o(std::move(pf.first));
  auto f = co<U>::run(std::move(pf.second), Tok{1});
  vx_rely("deliver", produce<U, VALUE>, &o, AT_SYNC | AT_WAIT);
  if (f.is_ready())
    obs(1, f);
  else
    vx_ev("notready", 1);
  vx_rest(0);
  vx_join();
  vx_ev("over");
}
#else
// what a coroutine returns or throws without awaiting
static pc::future<U> at_once(int how, Tok t) {
  if (how == 1)
    throw Exc{7};
  co_return U{7};
}
static pc::future<void> at_once_v(int how, Tok t) {
  if (how == 1)
    throw Exc{7};
  co_return;
}
static pc::future<R &> at_once_r(int how, Tok t) {
  if (how == 1)
    throw Exc{7};
  co_return robj;
}
static pc::shared_future<U> at_once_s(int how, Tok t) {
  if (how == 1)
    throw Exc{7};
  co_return U{7};
}
static pc::future<U> copied(Tok t) {
  const U u{7};
  co_return u;
}
ENTRY(at_once_u) { auto f = at_once(vx_pick("outcome", 2), Tok{1}); obs(1, f); vx_ev("over"); }
ENTRY(at_once_v) { auto f = at_once_v(vx_pick("outcome", 2), Tok{1}); obs(1, f); vx_ev("over"); }
ENTRY(at_once_r) { auto f = at_once_r(vx_pick("outcome", 2), Tok{1}); obs(1, f); vx_ev("over"); }
ENTRY(at_once_s) { auto f = at_once_s(vx_pick("outcome", 2), Tok{1}); obs(1, f); vx_ev("over"); }
ENTRY(copied) { auto f = copied(Tok{1}); obs(1, f); vx_ev("over"); }
// one coroutine awaits another and a second future
static pc::future<U> outer(pc::future<U> a, pc::shared_future<U> b, Tok t) {
  auto x = co_await watch(std::move(a), Tok{2});
  val(3, x);
  val(4, co_await b);
  vx_ev("co.resume", t.id);
  co_return U{10};
}
ENTRY(nested) {
  auto a = pc::make_promise<U>(), b = pc::make_promise<U>();
  auto f = outer(std::move(a.second), b.second.share(), Tok{1});
  int first = vx_bool("a first");
  if (!first) b.first.set_value(U{8});
  a.first.set_value(U{7});
  if (first) {
    vx_ev(f.is_ready() ? "tooearly" : "pending");
    b.first.set_value(U{8});
  }
  obs(1, f);
  vx_ev("over");
}
// several coroutines await one shared future
ENTRY(many) {
  auto pf = pc::make_promise<U>();
  auto s = pf.second.share();
  auto f = co<U>::run(s, Tok{1});
  auto g = co<U>::run(s, Tok{2});
  s.notify(note(5));
  deliver(pf.first, vx_pick("outcome", 2), 7);
  auto h = co<U>::run(s, Tok{3});
  obs(1, f);
  obs(3, g);
  obs(4, h);
  obs(5, s);
  vx_ev("over");
}
// continuations of the coroutine's future
ENTRY(cont) {
  auto pf = pc::make_promise<U>();
  auto f = co<U>::run(std::move(pf.second), Tok{1});
  auto g = f.then(nt(10, [](auto x) { obs(1, x); return 1L; }));
  deliver(pf.first, vx_pick("outcome", 2), 7);
  obs(3, g);
  vx_ev("over");
}
// a coroutine as continuation: its future is taken over
ENTRY(unwrapped) {
  auto a = pc::make_promise<U>(), b = pc::make_promise<U>();
  auto f = a.second.next([&](U) { return watch(std::move(b.second), Tok{1}); });
  a.first.set_value(U{6});
  vx_ev(f.is_ready() ? "tooearly" : "pending");
  deliver(b.first, vx_pick("outcome", 2), 7);
  obs(1, f);
  vx_ev("over");
}
// awaiting combined futures
static pc::future<U> both(pc::future<U> a, pc::future<U> b, Tok t) {
  auto r = co_await pc::when_all(std::move(a), std::move(b));
  obs(3, std::get<0>(r));
  obs(4, std::get<1>(r));
  vx_ev("co.resume", t.id);
  co_return U{9};
}
ENTRY(all) {
  auto a = pc::make_promise<U>(), b = pc::make_promise<U>();
  auto f = both(std::move(a.second), std::move(b.second), Tok{1});
  a.first.set_value(U{7});
  vx_ev(f.is_ready() ? "tooearly" : "pending");
  b.first.set_value(U{8});
  obs(1, f);
  vx_ev("over");
}
static pc::future<U> either_of(pc::future<U> a, pc::future<U> b, Tok t) {
  auto r = co_await pc::when_any(std::move(a), std::move(b));
  vx_ev("index", (long)r.index);
  obs(3, std::get<0>(r.futures));
  obs(4, std::get<1>(r.futures));
  vx_ev("co.resume", t.id);
  co_return U{9};
}
ENTRY(any) {
  auto a = pc::make_promise<U>(), b = pc::make_promise<U>();
  auto f = either_of(std::move(a.second), std::move(b.second), Tok{1});
  b.first.set_value(U{8});
  obs(1, f);
  a.first.set_value(U{7});
  vx_ev("over");
}
// awaiting a task that runs on an executor
ENTRY(task) {
  Box b;
  b.mode = LATER;
  auto f = co<U>::run(pc::async(Ex{&b, 1}, fn(10, [] { return U{7}; })), Tok{1});
  vx_ev(f.is_ready() ? "tooearly" : "pending");
  if (vx_bool("run"))
    b.run_all(1);
  else
    b.drop_all(1);
  obs(1, f);
  vx_ev("over");
}
// two results in a row, the second future is only made later
static pc::future<U> chain(pc::future<U> a, pc::future<U> *b, Tok t) {
  val(2, co_await a);
  val(3, co_await std::move(*b));
  vx_ev("co.resume", t.id);
  co_return U{9};
}
ENTRY(chained) {
  auto a = pc::make_promise<U>(), b = pc::make_promise<U>();
  auto f = chain(std::move(a.second), &b.second, Tok{1});
  { auto q = std::move(a.first); q.set_value(U{7}); }
  deliver(b.first, vx_pick("outcome", 2), 8);
  obs(1, f);
  vx_ev("over");
}
// memory runs out when the coroutine wants to wait
ENTRY(full) {
  auto pf = pc::make_promise<U>();
  pf.second.notify(note(5));
  guarded(9, [&] {
    auto f = [&] {
      vx_oom(1);
      auto r = co<U>::run(std::move(pf.second), Tok{1});
      vx_oom(0);
      return r;
    }();
    pf.first.set_value(U{7});
    obs(1, f);
  });
  vx_oom(0);
  vx_ev("over");
}
#endif
