// async, packaged_task, ready futures, shared readers: what goes in comes out
#include "vx.h"
using namespace vx;

// ------------------------------------------------------------- function results
enum { IN_READY_VALUE, IN_READY_ERROR, IN_LATE_VALUE, IN_LATE_ERROR, IN_LATE_GONE, IN_INVALID, IN_N };
template <class T> struct Inner {
  std::unique_ptr<pc::promise<T>> p;
  int kind = -1;
  pc::future<T> take() {
    int how = vx_pick("inner", IN_N);
    if (how == IN_INVALID)
      return pc::future<T>{};
    auto pf = pc::make_promise<T>();
    p.reset(new pc::promise<T>(std::move(pf.first)));
    if (how == IN_READY_VALUE)
      deliver(*p, VALUE, 60);
    if (how == IN_READY_ERROR)
      deliver(*p, ERROR, 61);
    kind = how;
    return std::move(pf.second);
  }
  void finish() {
    if (!p)
      return;
    if (kind == IN_LATE_VALUE)
      deliver(*p, VALUE, 60);
    if (kind == IN_LATE_ERROR)
      deliver(*p, ERROR, 61);
    p.reset();
  }
};
template <class Ret> struct Result;
template <> struct Result<U> { void finish() {} U make() { return U{60}; } };
template <> struct Result<std::unique_ptr<U>> { void finish() {} std::unique_ptr<U> make() { return std::unique_ptr<U>(new U{60}); } };
template <> struct Result<void> { void finish() {} void make() {} };
template <> struct Result<R &> { void finish() {} R &make() { return robj; } };
template <class T> struct Result<pc::future<T>> : Inner<T> { pc::future<T> make() { return this->take(); } };
template <class T> struct Result<pc::shared_future<T>> : Inner<T> { pc::shared_future<T> make() { return this->take(); } };

template <class F> static void ready(const char *what, F &f) { vx_ev(what, f.is_ready() ? 1 : 0); }

// ------------------------------------------------------------- async
template <class Ret> static void async_() {
  Result<Ret> r;
  Box box;
  U lv{41}, ref{42};
  vx_ev("attach");
  auto f = pc::async(Ex{&box, 5},
                     fn(10,
                        [&](U &&a, U b, U &c, std::unique_ptr<U> &&d) -> Ret {
                          U x(std::move(a));
                          vx_ev("args", x.id, b.id, c.id, d->id, &c == &ref ? 1 : 0);
                          return r.make();
                        }),
                     U{40}, lv, std::ref(ref), std::unique_ptr<U>(new U{43}));
  vx_ev("attached", lv.id);
  if (box.n) {
    ready("kept", f);
    if (vx_bool("kept work is run"))
      box.run_all(5);
    else
      box.drop_all(5);
  }
  ready("pre-inner", f);
  r.finish();
  ready("post-inner", f);
  obs(2, f);
}
// ------------------------------------------------------------- packaged_task
template <class Ret> static void task_() {
  Result<Ret> r;
  U lv{41}, ref{42};
  pc::packaged_task<Ret(U, const U &, U &, std::unique_ptr<U>)> t(fn(10, [&](U &&a, const U &b, U &c, std::unique_ptr<U> &&d) -> Ret {
    U x(std::move(a));
    vx_ev("args", x.id, b.id, c.id, d->id, &b == &lv && &c == &ref ? 1 : 0);
    return r.make();
  }));
  auto f = t.get_future();
  ready("before", f);
  guarded(3, [&] { t(U{40}, lv, ref, std::unique_ptr<U>(new U{43})); });
  vx_ev("attached", lv.id);
  ready("pre-inner", f);
  bool gone = vx_bool("the task is destroyed before the inner result");
  if (gone) {
    auto x = std::move(t);
  }
  ready("pre-inner", f);
  r.finish();
  ready("post-inner", f);
  obs(2, f);
}
template <class T> static void conv() {
  U src{60};
  pc::packaged_task<U()> t(fn(10, [&]() -> T { return static_cast<T>(src); }));
  auto f = t.get_future();
  t();
  vx_ev("source", src.id);
  obs(2, f);
}
#define BOTH(n, T) \
  ENTRY(async_##n) { async_<T>(); } \
  ENTRY(task_##n) { task_<T>(); }

// ------------------------------------------------------------- ready futures
template <class F> static void show_ready(F f) {
  vx_ev("state", f.valid() ? (f.is_ready() ? 2 : 1) : 0);
  f.notify(nt(1, [] {}));
  get(2, f);
}

// ------------------------------------------------------------- readers of a shared_future
// takes the value away if it is allowed to
static void greedy(int tag, U &v) { val(tag, v); U mine(std::move(v)); }
static void greedy(int tag, U &&v) { val(tag, v); U mine(std::move(v)); }
static void greedy(int tag, const U &v) { val(tag, v); }
static void greedy(int tag, R &v) { val(tag, v); }
template <class T> static void reader(int tag, const pc::shared_future<T> &f) { guarded(tag, [&] { greedy(tag, f.get()); }); }
enum { S_GET1, S_GET2, S_NEXT, S_THEN, S_COPY, S_DROP, S_MOVE, S_DETACH, S_NEXT2, S_OPS };
template <class T> static void shared_readers(int op0) {
  auto pf = pc::make_promise<T>();
  pc::shared_future<T> a = pf.second.share(), b = a;
  vx_ev("share", pf.second.valid() ? 1 : 0, a.valid() ? 1 : 0, b.valid() ? 1 : 0);
  int how = vx_pick("outcome", 3);
  bool early = vx_bool("delivered first");
  auto give = [&] {
    deliver(pf.first, how, 7);
    auto gone = std::move(pf.first);
  };
  if (early)
    give();
  std::vector<pc::future<void>> keep;
  keep.reserve(4);
  for (int k = 0; k < 3; ++k) {
    int op = k ? vx_pick("op", S_OPS) : op0;
    switch (op) {
    case S_GET1: if (early) reader(10, a); break;
    case S_GET2: if (early) reader(11, b); break;
    case S_NEXT: keep.push_back(b.next(fn(20 + k, [](auto &&v) { greedy(12, std::forward<decltype(v)>(v)); }))); break;
    case S_THEN: keep.push_back(b.then(fn(20 + k, [](pc::shared_future<T> x) { reader(13, x); }))); break;
    case S_COPY: a = b; break;
    case S_DROP: a = pc::shared_future<T>{}; a = b; break;
    case S_MOVE: { pc::shared_future<T> x(std::move(a)); vx_ev("moved", a.valid() ? 1 : 0); a = std::move(x); break; }
    case S_DETACH: a = a.detach(); break;
    case S_NEXT2: keep.push_back(b.next(fn(20 + k, [](auto &v) { auto x = v; x.id += 0; }))); break;
    }
    vx_ev("valid", a.valid() ? 1 : 0, b.valid() ? 1 : 0);
  }
  if (!early)
    give();
  b = pc::shared_future<T>{};
  reader(14, a);
  reader(15, a);
}
// ------------------------------------------------------------- adapters
#if VAL_PART == 0
BOTH(u, U) BOTH(v, void) BOTH(r, R &) BOTH(p, std::unique_ptr<U>)
ENTRY(conv_lref) { conv<U &>(); }
ENTRY(conv_cref) { conv<const U &>(); }
ENTRY(conv_val) { conv<U>(); }
ENTRY(ready_rv) { show_ready(pc::make_ready_future(U{7})); }
ENTRY(ready_lv) { U u{7}; show_ready(pc::make_ready_future(u)); vx_ev("source", u.id); }
ENTRY(ready_clv) { const U u{7}; show_ready(pc::make_ready_future(u)); vx_ev("source", u.id); }
ENTRY(ready_ref) { show_ready(pc::make_ready_future(std::ref(robj))); }
ENTRY(ready_v) { show_ready(pc::make_ready_future()); }
ENTRY(ready_p) { show_ready(pc::make_ready_future(std::unique_ptr<U>(new U{7}))); }
ENTRY(exc_ptr_u) { show_ready(pc::make_exceptional_future<U>(std::make_exception_ptr(Exc{7}))); }
ENTRY(exc_ptr_v) { show_ready(pc::make_exceptional_future<void>(std::make_exception_ptr(Exc{7}))); }
ENTRY(exc_ptr_r) { show_ready(pc::make_exceptional_future<R &>(std::make_exception_ptr(Exc{7}))); }
ENTRY(exc_obj_u) { show_ready(pc::make_exceptional_future<U>(Exc{7})); }
ENTRY(exc_obj_v) { show_ready(pc::make_exceptional_future<void>(Exc{7})); }
ENTRY(exc_obj_r) { show_ready(pc::make_exceptional_future<R &>(Exc{7})); }
ENTRY(unique_get) {
  auto pf = pc::make_promise<U>();
  bool lv = vx_bool("lvalue");
  U src{7};
  if (lv) pf.first.set_value(src); else pf.first.set_value(U{7});
  vx_ev("source", src.id);
  vx_ev("take");
  U x = pf.second.get();
  vx_ev("val", 2, x.id, &x);
  vx_ev("valid", pf.second.valid() ? 1 : 0);
}
ENTRY(adapters) {
  auto pf = pc::make_promise<U>();
  auto pr = pc::make_promise<R &>();
  int how = vx_pick("outcome", 3);
  auto s = pr.second.share();
  vx_ev("ready0", pc::future_ready(pf.second) ? 1 : 0, pc::future_ready(s) ? 1 : 0);
  deliver(pf.first, how, 7);
  { auto gone = std::move(pf.first); }
  deliver(pr.first, how, 7);
  { auto gone = std::move(pr.first); }
  vx_ev("ready1", pc::future_ready(pf.second) ? 1 : 0, pc::future_ready(s) ? 1 : 0);
  guarded(2, [&] { U u = pc::future_get(pf.second); val(2, u); });
  guarded(3, [&] { R &r = pc::future_get(s); val(3, r); });
}
#elif VAL_PART == 1
BOTH(fu, pc::future<U>) BOTH(fv, pc::future<void>) BOTH(fr, pc::future<R &>)
BOTH(su, pc::shared_future<U>) BOTH(sv, pc::shared_future<void>) BOTH(sr, pc::shared_future<R &>)
#elif VAL_PART == 2
#define SH(o) ENTRY(sh_u_##o) { shared_readers<U>(o); } ENTRY(sh_r_##o) { shared_readers<R &>(o); }
SH(0) SH(1) SH(2) SH(3) SH(4) SH(5) SH(6) SH(7) SH(8)
#endif
