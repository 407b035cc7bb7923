// running out of memory inside of the library's operations
#include "vx.h"
using namespace vx;

// `op` is the only thing memory can run out in
template <class Op> static void tight(Op op) {
  guarded(9, [&] {
    struct scope {
      scope() { vx_oom(1); }
      ~scope() { vx_oom(0); }
    } s;
    op();
  });
  vx_ev("after");
}
// the handles that existed before the operation go on working: two earlier notifications, the producer,
// and the future if it is still there
template <class F> static void still(int tag, F &f) {
  if (f.valid())
    obs(tag, f);
  else
    vx_ev("spent", tag);
}
template <class T, class Op> static void pending(Op op) {
  auto pf = pc::make_promise<T>();
  pc::promise<T> p = std::move(pf.first);
  auto f = std::move(pf.second);
  f.notify(note(1));
  f.notify(note(2));
  tight([&] { op(f); });
  vx_ev(p.is_awaiten() ? "awaited" : "ignored");
  deliver(p, vx_pick("outcome", 3), 7);
  { auto q = std::move(p); }
  still(1, f);
  vx_ev("over");
}
// as above, the future is shared and stays with the caller
template <class T, class Op> static void spending(Op op) {
  auto pf = pc::make_promise<T>();
  pc::promise<T> p = std::move(pf.first);
  pc::shared_future<T> f = pf.second.share();
  f.notify(note(1));
  tight([&] { op(f); });
  deliver(p, vx_pick("outcome", 3), 7);
  { auto q = std::move(p); }
  still(1, f);
  vx_ev("over");
}
template <class T, class Op> static void ready(Op op) {
  auto pf = pc::make_promise<T>();
  pc::promise<T> p = std::move(pf.first);
  auto f = std::move(pf.second);
  deliver(p, vx_pick("outcome", 3), 7);
  { auto q = std::move(p); }
  tight([&] { op(f); });
  still(1, f);
  vx_ev("over");
}
template <class F> static void put(pc::future<F> &&) {}
struct wide { long x[9]; };

#if OOM_PART == 0
// making promises
ENTRY(make) {
  tight([] { auto pf = pc::make_promise<U>(); pf.first.set_value(U{7}); vx_oom(0); obs(1, pf.second); });
}
ENTRY(make_old) {
  tight([] { pc::promise<U> p; auto f = p.get_future(); p.set_value(U{7}); vx_oom(0); obs(1, f); });
}
ENTRY(make_alloc) {
  tight([] { auto pf = pc::make_promise<U>(std::allocator<U>{}); pf.first.set_value(U{7}); vx_oom(0); obs(1, pf.second); });
}
ENTRY(make_canceler) {
  tight([] { auto pf = pc::make_promise<U>(pc::canceler_arg, note(5)); vx_ev("made"); pf.first.set_value(U{7}); vx_oom(0); obs(1, pf.second); });
}
ENTRY(make_canceler_old) {
  tight([] { pc::promise<U> p(pc::canceler_arg, note(5)); vx_ev("made"); auto f = p.get_future(); p.set_value(U{7}); vx_oom(0); obs(1, f); });
}
ENTRY(make_ready) {
  tight([] { auto f = pc::make_ready_future(U{7}); vx_oom(0); obs(1, f); });
}
ENTRY(make_error) {
  tight([] { auto f = pc::make_exceptional_future<U>(Exc{7}); vx_oom(0); obs(1, f); });
}
ENTRY(task) {
  tight([] { pc::packaged_task<U(long)> t(fn(10, [](long x) { return U{x}; })); auto f = t.get_future(); t(7); vx_oom(0); obs(1, f); });
}
ENTRY(async) {
  tight([] { auto f = pc::async(pc::inplace_executor, nt(10, [](long x) { return U{x}; }), 7L); vx_oom(0); obs(1, f); });
}
ENTRY(func_big) {
  pc::unique_function<long()> g = [] { return 6L; };
  wide w{};
  w.x[0] = 7;
  tight([&] { g = pc::unique_function<long()>(nt(10, [w] { return w.x[0]; })); });
  guarded(1, [&] { vx_ev("val", 1, g()); });
}
#elif OOM_PART == 1
// attaching to a pending future
ENTRY(p_notify) { pending<U>([](auto &f) { f.notify(note(10)); vx_ev("attached"); }); }
ENTRY(p_notify_ex) { static Box b; b.mode = NOW; pending<U>([](auto &f) { f.notify(Ex{&b, 1}, note(10)); vx_ev("attached"); }); }
ENTRY(p_then) { pending<U>([](auto &f) { auto g = f.then(fn(10, [](auto x) { obs(2, x); return 1L; })).detach(); vx_ev("attached"); }); }
ENTRY(p_then_v) { pending<void>([](auto &f) { auto g = f.then(fn(10, [](auto x) { obs(2, x); })).detach(); vx_ev("attached"); }); }
ENTRY(p_next) { pending<U>([](auto &f) { auto g = f.next(fn(10, [](U x) { val(2, x); return 1L; })).detach(); vx_ev("attached"); }); }
ENTRY(p_next_v) { pending<void>([](auto &f) { auto g = f.next(fn(10, [] { return 1L; })).detach(); vx_ev("attached"); }); }
ENTRY(p_itn) { pending<U>([](auto &f) { auto g = f.then(itn<long, pc::future<U>>(10, [](auto p, auto x) { obs(2, x); p.set_value(1); })).detach(); vx_ev("attached"); }); }
ENTRY(p_detach) { pending<U>([](auto &f) { auto g = f.detach(); f = std::move(g); vx_ev("attached"); }); }
ENTRY(p_timed) { pending<U>([](auto &f) { pc::timed_waiter w(f); vx_ev("attached"); }); }
#elif OOM_PART == 2
ENTRY(s_notify) { spending<U>([](auto &f) { f.notify(note(10)); vx_ev("attached"); }); }
ENTRY(s_then) { spending<U>([](auto &f) { auto g = f.then(fn(10, [](auto x) { obs(2, x); return 1L; })).detach(); vx_ev("attached"); }); }
ENTRY(s_next) { spending<U>([](auto &f) { auto g = f.next(fn(10, [](const U &x) { val(2, x); return 1L; })).detach(); vx_ev("attached"); }); }
ENTRY(s_detach) { spending<U>([](auto &f) { auto g = f.detach(); f = std::move(g); vx_ev("attached"); }); }
ENTRY(s_timed) { spending<U>([](auto &f) { pc::timed_waiter w(f); vx_ev("attached"); }); }
// attaching to a ready future
ENTRY(r_notify) { ready<U>([](auto &f) { f.notify(note(10)); vx_ev("attached"); }); }
ENTRY(r_then) { ready<U>([](auto &f) { auto g = f.then(fn(10, [](auto x) { vx_ev(x.is_ready() ? "ok" : "early"); return 1L; })).detach(); vx_ev("attached"); }); }
ENTRY(r_next) { ready<U>([](auto &f) { auto g = f.next(fn(10, [](U x) { val(2, x); return 1L; })).detach(); vx_ev("attached"); }); }
ENTRY(r_get) { ready<U>([](auto &f) { get_val(3, f); }); }
ENTRY(r_wait) { ready<U>([](auto &f) { f.wait(); vx_ev("attached"); }); }
ENTRY(r_detach) { ready<U>([](auto &f) { auto g = f.detach(); f = std::move(g); vx_ev("attached"); }); }
#elif OOM_PART == 3
// a function returns a future: the operation on it needs memory when it is taken over
template <class Attach> static void inner(Attach attach) {
  auto pf = pc::make_promise<U>();
  auto in = pc::make_promise<U>();
  in.second.notify(note(1));
  auto g = attach(pf.second, nt(10, [&](auto &&...) { vx_oom(1); return std::move(in.second); }));
  if (g.valid())
    g.notify(note(2));
  vx_ev("setup");
  guarded(9, [&] { pf.first.set_value(U{6}); });
  vx_oom(0);
  vx_ev("after");
  { auto q = std::move(pf.first); }
  in.first.set_value(U{7});
  { auto q = std::move(in.first); }
  obs(1, g);
}
ENTRY(u_then) { inner([](auto &f, auto fn) { return f.then(std::move(fn)); }); }
ENTRY(u_next) { inner([](auto &f, auto fn) { return f.next(std::move(fn)); }); }
ENTRY(u_sthen) { inner([](auto &f, auto fn) { auto s = f.share(); return s.then(std::move(fn)); }); }
ENTRY(u_snext) { inner([](auto &f, auto fn) { auto s = f.share(); return s.next(std::move(fn)); }); }
ENTRY(u_then_ready) {
  auto in = pc::make_promise<U>();
  if (vx_bool("inner ready")) {
    in.first.set_value(U{7});
    vx_ev("early");
  }
  auto pf = pc::make_promise<U>();
  auto g = pf.second.then(nt(10, [&](auto) { vx_oom(1); return in.second.share(); }));
  g.notify(note(2));
  guarded(9, [&] { pf.first.set_value(U{6}); });
  vx_oom(0);
  vx_ev("after");
  guarded(8, [&] { in.first.set_value(U{7}); });
  obs(1, g);
}
template <class T> static void inner_v() {
  auto in = pc::make_promise<T>();
  in.second.notify(note(1));
  auto pf = pc::make_promise<void>();
  auto g = pf.second.next(nt(10, [&] { vx_oom(1); return std::move(in.second); }));
  g.notify(note(2));
  guarded(9, [&] { pf.first.set_value(); });
  vx_oom(0);
  vx_ev("after");
  maker<T>::set(in.first, 7);
  { auto q = std::move(in.first); }
  obs(1, g);
}
ENTRY(u_void) { inner_v<void>(); }
ENTRY(u_ref) { inner_v<R &>(); }
// the same with a task: the error either comes out of the call or through the future
template <class T> static void inner_task() {
  auto in = pc::make_promise<T>();
  in.second.notify(note(1));
  pc::packaged_task<pc::future<T>()> t(nt(10, [&] { vx_oom(1); return std::move(in.second); }));
  auto g = t.get_future();
  g.notify(note(2));
  guarded(9, [&] { t(); });
  vx_oom(0);
  vx_ev("after");
  { auto q = std::move(t); }
  maker<T>::set(in.first, 7);
  { auto q = std::move(in.first); }
  obs(1, g);
}
ENTRY(u_task) { inner_task<U>(); }
ENTRY(u_task_v) { inner_task<void>(); }
ENTRY(u_task_r) { inner_task<R &>(); }
ENTRY(u_async) {
  auto in = pc::make_promise<U>();
  in.second.notify(note(1));
  pc::future<U> g;
  Box b;
  b.mode = LATER;
  g = pc::async(Ex{&b, 1}, nt(10, [&] { vx_oom(1); return std::move(in.second); }));
  g.notify(note(2));
  guarded(9, [&] { b.run_all(1); });
  vx_oom(0);
  b.drop_all(1);
  vx_ev("after");
  in.first.set_value(U{7});
  { auto q = std::move(in.first); }
  obs(1, g);
}
#elif OOM_PART == 4
// combining futures
template <class Op> static void combine(Op op) {
  auto a = pc::make_promise<U>(), b = pc::make_promise<U>();
  a.second.notify(note(1));
  b.second.notify(note(2));
  tight([&] { op(a.second, b.second); });
  int x = vx_pick("outcome a", 2), y = vx_pick("outcome b", 2);
  if (x == 0) a.first.set_value(U{7});
  { auto q = std::move(a.first); }
  if (y == 0) b.first.set_value(U{8});
  { auto q = std::move(b.first); }
  still(3, a.second);
  still(4, b.second);
  vx_ev("over");
}
template <class F> static void hold(F f) { auto g = f.detach(); g.notify(note(10)); vx_ev("attached"); }
ENTRY(all2) { combine([](auto &a, auto &b) { pc::future<std::tuple<pc::future<U>, pc::future<U>>> c = pc::when_all(std::move(a), std::move(b)); c.notify(note(10)); vx_ev("attached"); }); }
ENTRY(any2) { combine([](auto &a, auto &b) { auto c = pc::when_any(std::move(a), std::move(b)); c.notify(note(10)); vx_ev("attached"); }); }
ENTRY(all_vec) {
  combine([](auto &a, auto &b) {
    std::vector<pc::future<U>> v;
    v.reserve(2);
    v.push_back(std::move(a));
    v.push_back(std::move(b));
    auto c = pc::when_all(std::move(v));
    c.notify(note(10));
    vx_ev("attached");
  });
}
ENTRY(any_it) {
  combine([](auto &a, auto &b) {
    pc::future<U> v[2] = {std::move(a), std::move(b)};
    auto c = pc::when_any(std::begin(v), std::end(v));
    c.notify(note(10));
    vx_ev("attached");
  });
}
template <class Op> static void combine_s(Op op) {
  auto a = pc::make_promise<U>(), b = pc::make_promise<U>();
  auto sa = a.second.share(), sb = b.second.share();
  sa.notify(note(1));
  sb.notify(note(2));
  tight([&] { op(sa, sb); });
  a.first.set_value(U{7});
  b.first.set_value(U{8});
  obs(3, sa);
  obs(4, sb);
  vx_ev("over");
}
ENTRY(all_s) { combine_s([](auto &a, auto &b) { auto c = pc::when_all(a, b); c.notify(note(10)); vx_ev("attached"); }); }
ENTRY(any_s) { combine_s([](auto &a, auto &b) { auto c = pc::when_any(a, b); c.notify(note(10)); vx_ev("attached"); }); }
ENTRY(all_sit) {
  combine_s([](auto &a, auto &b) {
    pc::shared_future<U> v[2] = {a, b};
    auto c = pc::when_all(std::begin(v), std::end(v));
    c.notify(note(10));
    vx_ev("attached");
  });
}
#elif OOM_PART == 5
// memory runs out when the finished operation is handed to an executor: the other functions still run
template <class T, class Attach> static void handing(Attach attach) {
  static Box b;
  b.mode = LATER;
  b.n = 0;
  auto pf = pc::make_promise<T>();
  auto s = pf.second.share();
  s.notify(note(1));
  auto g = attach(s, Ex{&b, 1});
  s.notify(note(2));
  auto h = s.then(nt(3, [](auto x) { return x.is_ready() ? 1L : 0L; }));
  tight([&] { deliver(pf.first, vx_pick("outcome", 2), 7); });
  b.run_all(1);
  g();
  { auto q = std::move(pf.first); }
  obs(1, s);
  obs(4, h);
}
ENTRY(x_notify) { handing<U>([](auto &s, Ex e) { s.notify(e, note(10)); return [] {}; }); }
ENTRY(x_then) { handing<U>([](auto &s, Ex e) { return [g = s.then(e, nt(10, [](auto x) { return x.is_ready() ? 1L : 0L; }))]() mutable { obs(2, g); }; }); }
ENTRY(x_next) { handing<void>([](auto &s, Ex e) { return [g = s.next(e, nt(10, [] { return 1L; }))]() mutable { obs(2, g); }; }); }
// the waiting thread is woken although an executor fails
ENTRY(x_wait) {
  static Box b;
  b.mode = LATER;
  b.n = 0;
  auto pf = pc::make_promise<U>();
  auto s = pf.second.share();
  owned<U> o(std::move(pf.first));
  auto s2 = s;
  s2.notify(note(1));
  struct other { owned<U> o; pc::shared_future<U> s; } w{std::move(o), std::move(s2)};
  vx_rely("deliver", [](void *p) {
    auto *o = &static_cast<other *>(p)->o;
    static_cast<other *>(p)->s.notify(Ex{&b, 1}, note(10));
    vx_oom(1);
    guarded(9, [&] { o->p->set_value(U{7}); });
    vx_oom(0);
    vx_ev("after");
    o->p.reset();
  }, &w, AT_WAIT | AT_SYNC);
  get(1, s);
  vx_rest(0);
  vx_join();
  b.run_all(1);
}
#else
// the pool
ENTRY(pool_make) {
  tight([] {
    pc::static_thread_pool pool(2);
    vx_oom(0);
    vx_ev("made");
    post(pool.executor(), note(10));
    pool.wait();
  });
}
ENTRY(pool_post) {
  pc::static_thread_pool pool(1);
  post(pool.executor(), note(1));
  tight([&] { post(pool.executor(), note(10)); vx_ev("attached"); });
  post(pool.executor(), note(2));
  pool.wait();
  vx_ev("over");
}
// the queue grows: the task that does not fit any more is refused, the others run
ENTRY(pool_full) {
  pc::static_thread_pool pool(0);
  for (long i = 20; i < 33; ++i)
    tight([&] { post(pool.executor(), note(i)); vx_ev("posted", i); });
  pool.wait();
  pool.attach();
  vx_ev("over");
}
ENTRY(pool_post_big) {
  pc::static_thread_pool pool(1);
  tight([&] { wide w{}; post(pool.executor(), nt(10, [w] { (void)w; })); vx_ev("attached"); });
  post(pool.executor(), note(2));
  pool.wait();
  vx_ev("over");
}
ENTRY(pool_async) {
  pc::static_thread_pool pool(1);
  pc::future<U> f;
  tight([&] { f = pc::async(pool.executor(), nt(10, [] { return U{7}; })); vx_ev("attached"); });
  post(pool.executor(), note(2));
  pool.wait();
  obs(1, f);
  vx_ev("over");
}
#endif
