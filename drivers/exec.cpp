// executors with a lifetime of their own
#include "vx.h"
using namespace vx;

// `Move`: has a move constructor; `post` takes it by reference and uses it after running the task
template <bool Move> struct XX;
template <> struct XX<true> {
  Box *box;
  long id;
  XX(Box *b, long i) : box(b), id(i) { vx_ev("X.ctor", this, id); }
  XX(const XX &o) : box(o.box), id(o.id) { vx_ev("X.copy", this, id, &o); }
  XX(XX &&o) noexcept : box(o.box), id(o.id) { vx_ev("X.move", this, id, &o); o.id = -7; }
  ~XX() { vx_ev("X.dtor", this, id); id = -8; }
};
template <> struct XX<false> {
  Box *box;
  long id;
  XX(Box *b, long i) : box(b), id(i) { vx_ev("X.ctor", this, id); }
  XX(const XX &o) noexcept : box(o.box), id(o.id) { vx_ev("X.copy", this, id, &o); }
  ~XX() { vx_ev("X.dtor", this, id); id = -8; }
};
template <bool M, class T> void post(const XX<M> &e, T &&t) {
  vx_ev("X.use", e.id);
  post(Ex{e.box, e.id}, std::forward<T>(t));
  vx_ev("X.use", e.id);
}
namespace portable_concurrency {
template <bool M> struct is_executor<XX<M>> : std::true_type {};
}
enum { THEN, NEXT, NOTIFY, ITHEN, STHEN, SNEXT, SNOTIFY, SITHEN, ASYNC };

template <int K, bool Move, bool Lvalue> static void one() {
  Box box;
  struct world { pc::future<U> f; } *w = new world;
  auto pf = pc::make_promise<U>();
  pc::shared_future<U> s;
  {
    XX<Move> own(&box, 5);
    auto ex = [&]() -> std::conditional_t<Lvalue, XX<Move> &, XX<Move> &&> { return static_cast<std::conditional_t<Lvalue, XX<Move> &, XX<Move> &&>>(own); };
    bool drop_inside = vx_bool("the function drops its future");
    auto body = [w, drop_inside] {
      if (drop_inside)
        w->f = pc::future<U>{};
      return U{60};
    };
    if (K >= STHEN && K < ASYNC)
      s = pf.second.share();
    vx_ev("attach");
    if constexpr (K == THEN) w->f = pf.second.then(ex(), nt(10, [=](pc::future<U>) { return body(); }));
    if constexpr (K == NEXT) w->f = pf.second.next(ex(), nt(10, [=](U &&) { return body(); }));
    if constexpr (K == NOTIFY) pf.second.notify(ex(), nt(10, [=] { body(); }));
    if constexpr (K == ITHEN) w->f = pf.second.then(ex(), itn<U, pc::future<U>>(10, [=](pc::promise<U> p, pc::future<U>) { p.set_value(body()); }));
    if constexpr (K == STHEN) w->f = s.then(ex(), nt(10, [=](pc::shared_future<U>) { return body(); }));
    if constexpr (K == SNEXT) w->f = s.next(ex(), nt(10, [=](const U &) { return body(); }));
    if constexpr (K == SNOTIFY) s.notify(ex(), nt(10, [=] { body(); }));
    if constexpr (K == SITHEN) w->f = s.then(ex(), itn<U, pc::shared_future<U>>(10, [=](pc::promise<U> p, pc::shared_future<U>) { p.set_value(body()); }));
    if constexpr (K == ASYNC) w->f = pc::async(ex(), nt(10, [=] { return body(); }));
    vx_ev("attached", own.id);
  }
  vx_ev("parent-complete");
  deliver(pf.first, VALUE, 7);
  vx_ev("posted");
  if (vx_bool("kept work is run"))
    box.run_all(5);
  else
    box.drop_all(5);
  vx_ev("complete");
  if (w->f.valid())
    vx_ev("ready", w->f.is_ready() ? 1 : 0);
  delete w;
}
#define K1(n, k) \
  ENTRY(n##_ml) { one<k, true, true>(); } \
  ENTRY(n##_mr) { one<k, true, false>(); } \
  ENTRY(n##_cl) { one<k, false, true>(); } \
  ENTRY(n##_cr) { one<k, false, false>(); }
K1(then, THEN) K1(next, NEXT) K1(notify, NOTIFY) K1(ithen, ITHEN) K1(sthen, STHEN) K1(snext, SNEXT) K1(snotify, SNOTIFY) K1(sithen, SITHEN) K1(async, ASYNC)

// two continuations on different executors, chained or siblings: each goes to its own
template <int K> static void two() {
  Box a, b;
  auto pf = pc::make_promise<U>();
  pc::future<U> r, r2;
  if (K == 0) {
    r = pf.second.next(Ex{&a, 5}, nt(10, [](U &&) { return U{60}; })).next(Ex{&b, 6}, nt(11, [](U &&) { return U{61}; }));
  } else {
    auto s = pf.second.share();
    r = s.next(Ex{&a, 5}, nt(10, [](const U &) { return U{60}; }));
    r2 = s.then(Ex{&b, 6}, nt(11, [](pc::shared_future<U>) { return U{61}; }));
  }
  if (vx_bool("inplace last"))
    r = r.then(nt(12, [](pc::future<U>) { return U{62}; }));
  a.mode = vx_bool("first at once") ? NOW : LATER;
  b.mode = vx_bool("second at once") ? NOW : LATER;
  deliver(pf.first, VALUE, 7);
  vx_ev("first");
  a.run_all(5);
  vx_ev("second");
  b.run_all(6);
  vx_ev("complete");
  obs(2, r);
}
ENTRY(two_chain) { two<0>(); }
ENTRY(two_sib) { two<1>(); }

// an executor with room for one task: a new one replaces the old one by move assignment; or tasks trade places
struct XO {
  Later **slot;
  int mode; // 0 overwrite, 1 swap and run the newer first, 2 move out and drop the empty one
};
template <class T> void post(XO e, T &&t) {
  using D = LaterT<std::decay_t<T>>;
  vx_ev("X.post", 5);
  std::decay_t<T> x(std::forward<T>(t));
  if (e.mode == 2) {
    { std::decay_t<T> y(std::move(x)); x = std::move(y); }
    vx_ev("X.run", 5);
    x();
    vx_ev("X.done", 5);
  } else if (!*e.slot)
    *e.slot = new D(std::move(x));
  else if (e.mode == 0)
    static_cast<D *>(*e.slot)->t = std::move(x);
  else {
    std::swap(static_cast<D *>(*e.slot)->t, x);
    vx_ev("X.run", 5);
    x();
    vx_ev("X.done", 5);
  }
}
namespace portable_concurrency {
template <> struct is_executor<XO> : std::true_type {};
}
template <int K> static pc::future<U> start(XO ex, pc::future<U> f, long id) {
  if constexpr (K == THEN) return f.then(ex, nt(id, [id](pc::future<U>) { return U{id + 50}; }));
  if constexpr (K == NEXT) return f.next(ex, nt(id, [id](U &&) { return U{id + 50}; }));
  if constexpr (K == ITHEN) return f.then(ex, itn<U, pc::future<U>>(id, [id](pc::promise<U> p, pc::future<U>) { p.set_value(U{id + 50}); }));
  if constexpr (K == STHEN) return f.share().then(ex, nt(id, [id](pc::shared_future<U>) { return U{id + 50}; }));
  if constexpr (K == ASYNC) return pc::async(ex, nt(id, [id] { return U{id + 50}; }));
}
template <int K> static void replace() {
  Later *slot = nullptr;
  int mode = vx_pick("mode", 3);
  XO ex{&slot, mode};
  auto a = start<K>(ex, pc::make_ready_future(U{7}), 10);
  auto b = start<K>(ex, pc::make_ready_future(U{8}), 11);
  vx_ev("both");
  obs(2, a);
  obs(3, b);
  if (slot) {
    vx_ev("X.run", 5);
    slot->run();
    vx_ev("X.done", 5);
    delete slot;
    obs(4, a.valid() ? a : b);
  }
}
ENTRY(replace_then) { replace<THEN>(); }
ENTRY(replace_next) { replace<NEXT>(); }
ENTRY(replace_ithen) { replace<ITHEN>(); }
ENTRY(replace_sthen) { replace<STHEN>(); }
ENTRY(replace_async) { replace<ASYNC>(); }
