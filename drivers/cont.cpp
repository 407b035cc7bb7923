// continuations: every kind of parent, function, result and executor, sequentially, all outcomes
#include "vx.h"
using namespace vx;

// ------------------------------------------------------------- what the function returns
enum { IN_READY_VALUE, IN_READY_ERROR, IN_LATE_VALUE, IN_LATE_ERROR, IN_LATE_GONE, IN_INVALID, IN_N };
template <class T> struct Inner {
  std::unique_ptr<pc::promise<T>> p;
  pc::future<T> take() {
    int how = vx_pick("inner", IN_N);
    if (how == IN_INVALID)
      return pc::future<T>{};
    auto pf = pc::make_promise<T>();
    p.reset(new pc::promise<T>(std::move(pf.first)));
    if (how == IN_READY_VALUE)
      deliver(*p, VALUE, 60);
    if (how == IN_READY_ERROR)
      deliver(*p, ERROR, 61);
    kind = how;
    return std::move(pf.second);
  }
  int kind = -1;
  void finish() {
    vx_ev("inner-complete");
    if (!p)
      return;
    if (kind == IN_LATE_VALUE)
      deliver(*p, VALUE, 60);
    if (kind == IN_LATE_ERROR)
      deliver(*p, ERROR, 61);
    p.reset();
  }
};
template <class Ret> struct Result; // make(): the value the user function returns
template <> struct Result<U> {
  void finish() {}
  U make() { return U{60}; }
};
template <> struct Result<std::unique_ptr<U>> {
  void finish() {}
  std::unique_ptr<U> make() { return std::unique_ptr<U>(new U{60}); }
};
template <> struct Result<void> {
  void finish() {}
  void make() {}
};
template <> struct Result<R &> {
  void finish() {}
  R &make() { return robj; }
};
template <class T> struct Result<pc::future<T>> : Inner<T> {
  pc::future<T> make() { return this->take(); }
};
template <class T> struct Result<pc::shared_future<T>> : Inner<T> {
  pc::shared_future<T> make() { return this->take(); }
};

// ------------------------------------------------------------- the continuation
enum { THEN, NEXT, ITHEN };
struct Saw {
  template <class T> void operator()(pc::future<T> f) const { vx_ev("arg-valid", f.valid() ? 1 : 0); vx::obs(1, f); }
  template <class T> void operator()(pc::shared_future<T> f) const { vx_ev("arg-valid", f.valid() ? 1 : 0); vx::obs(1, f); }
  void operator()(const U &x) const { val(1, x); }
  void operator()(R &x) const { val(1, x); }
  void operator()(const std::unique_ptr<U> &x) const { val(1, x); }
  void operator()() const { vx_ev("val", 1, 0, 0); }
};
template <class Ret> struct Body {
  Result<Ret> *r;
  template <class... A> Ret operator()(A &&...a) const {
    Saw{}(std::forward<A>(a)...);
    return r->make();
  }
};
template <class Ret> struct Later2 { // interruptible: keeps the promise, delivers at once or later
  pc::promise<Ret> *keep;
  template <class P, class F> void operator()(P p, F f) const {
    Saw{}(std::move(f));
    int how = vx_pick("inner", IN_N);
    if (how == IN_READY_VALUE)
      deliver(p, VALUE, 60);
    else if (how == IN_READY_ERROR)
      deliver(p, ERROR, 61);
    else if (how != IN_INVALID)
      *keep = std::move(p);
  }
};

template <int Kind, class Ret> struct Attach;
template <class Ret> struct Attach<THEN, Ret> {
  template <class F> static auto go(F &f, Result<Ret> *r) { return f.then(fn(10, Body<Ret>{r})); }
  template <class F> static auto go(F &f, Result<Ret> *r, Ex x) { return f.then(x, fn(10, Body<Ret>{r})); }
};
template <class Ret> struct Attach<NEXT, Ret> {
  template <class F> static auto go(F &f, Result<Ret> *r) { return f.next(fn(10, Body<Ret>{r})); }
  template <class F> static auto go(F &f, Result<Ret> *r, Ex x) { return f.next(x, fn(10, Body<Ret>{r})); }
};

template <class T> static pc::future<T> parent(pc::future<T> &f, pc::future<T> *) { return std::move(f); }
template <class T> static pc::shared_future<T> parent(pc::future<T> &f, pc::shared_future<T> *) { return f.share(); }
template <class F> struct value_of;
template <class T> struct value_of<pc::future<T>> { using type = T; };
template <class T> struct value_of<pc::shared_future<T>> { using type = T; };

template <class Fut, int Kind, class Ret, bool X> struct Go;
template <class Fut, int Kind, class Ret> struct Go<Fut, Kind, Ret, false> {
  static auto go(Fut &f, Result<Ret> *r, Ex) { return Attach<Kind, Ret>::go(f, r); }
};
template <class Fut, int Kind, class Ret> struct Go<Fut, Kind, Ret, true> {
  static auto go(Fut &f, Result<Ret> *r, Ex x) { return Attach<Kind, Ret>::go(f, r, x); }
};
template <class Fut, class Ret> struct Go<Fut, ITHEN, Ret, false> {
  static auto go(Fut &f, pc::promise<Ret> *r, Ex) { return f.then(itn<Ret, Fut>(10, Later2<Ret>{r})); }
};
template <class Fut, class Ret> struct Go<Fut, ITHEN, Ret, true> {
  static auto go(Fut &f, pc::promise<Ret> *r, Ex x) { return f.then(x, itn<Ret, Fut>(10, Later2<Ret>{r})); }
};

template <class Fut, int Kind, class Ret, bool X> static void cont() {
  using T = typename value_of<Fut>::type;
  auto pf = pc::make_promise<T>();
  Fut f = parent(pf.second, (Fut *)0);
  Result<Ret> r;
  Box box;
  int how = vx_pick("outcome", 3);
  bool early = vx_bool("attach first");
  auto complete = [&] {
    vx_ev("parent-complete");
    pc::promise<T> p = std::move(pf.first);
    deliver(p, how, 7);
  };
  if (!early)
    complete();
  vx_ev("attach");
  auto g = Go<Fut, Kind, Ret, X>::go(f, &r, Ex{&box, 5});
  vx_ev("parent-valid", f.valid() ? 1 : 0);
  if (early) {
    vx_ev("before", g.is_ready() ? 1 : 0);
    complete();
  }
  if (box.n) {
    vx_ev("kept", g.is_ready() ? 1 : 0);
    if (vx_bool("kept work is run"))
      box.run_all(5);
    else
      box.drop_all(5);
  }
  vx_ev("pre-inner", g.is_ready() ? 1 : 0);
  r.finish();
  vx_ev("post-inner", g.is_ready() ? 1 : 0);
  obs(2, g);
}
template <class Fut, class Ret, bool X> static void icont() {
  using T = typename value_of<Fut>::type;
  auto pf = pc::make_promise<T>();
  Fut f = parent(pf.second, (Fut *)0);
  pc::promise<Ret> keep;
  Box box;
  int how = vx_pick("outcome", 3);
  bool early = vx_bool("attach first");
  auto complete = [&] {
    vx_ev("parent-complete");
    pc::promise<T> p = std::move(pf.first);
    deliver(p, how, 7);
  };
  if (!early)
    complete();
  vx_ev("attach");
  auto g = Go<Fut, ITHEN, Ret, X>::go(f, &keep, Ex{&box, 5});
  vx_ev("parent-valid", f.valid() ? 1 : 0);
  if (early) {
    vx_ev("before", g.is_ready() ? 1 : 0);
    complete();
  }
  if (box.n) {
    vx_ev("kept", g.is_ready() ? 1 : 0);
    if (vx_bool("kept work is run"))
      box.run_all(5);
    else
      box.drop_all(5);
  }
  vx_ev("pre-inner", g.is_ready() ? 1 : 0);
  vx_ev("inner-complete");
  {
    pc::promise<Ret> p = std::move(keep);
    int fin = vx_pick("kept promise", 3);
    deliver(p, fin, fin == ERROR ? 61 : 60);
  }
  vx_ev("post-inner", g.is_ready() ? 1 : 0);
  obs(2, g);
}

#define C(n, Fut, Kind, Ret)                                                                                                               \
  ENTRY(n) { cont<Fut, Kind, Ret, false>(); }                                                                                               \
  ENTRY(n##_x) { cont<Fut, Kind, Ret, true>(); }
#define I(n, Fut, Ret)                                                                                                                     \
  ENTRY(n) { icont<Fut, Ret, false>(); }                                                                                                    \
  ENTRY(n##_x) { icont<Fut, Ret, true>(); }
#define UP std::unique_ptr<U>
#define ALLRET(p, Fut, Kind)                                                                                                               \
  C(p##_u, Fut, Kind, U)                                                                                                                    \
  C(p##_v, Fut, Kind, void)                                                                                                                 \
  C(p##_r, Fut, Kind, R &)                                                                                                                  \
  C(p##_p, Fut, Kind, UP)                                                                                                                   \
  C(p##_fu, Fut, Kind, pc::future<U>)                                                                                                       \
  C(p##_su, Fut, Kind, pc::shared_future<U>)                                                                                                \
  C(p##_fv, Fut, Kind, pc::future<void>)                                                                                                    \
  C(p##_sv, Fut, Kind, pc::shared_future<void>)                                                                                             \
  C(p##_fr, Fut, Kind, pc::future<R &>)                                                                                                     \
  C(p##_sr, Fut, Kind, pc::shared_future<R &>)

#if CONT_PART == 0
ALLRET(then_fu, pc::future<U>, THEN)
ALLRET(then_su, pc::shared_future<U>, THEN)
#elif CONT_PART == 1
ALLRET(next_fu, pc::future<U>, NEXT)
ALLRET(next_su, pc::shared_future<U>, NEXT)
#elif CONT_PART == 2
ALLRET(next_fv, pc::future<void>, NEXT)
ALLRET(next_sv, pc::shared_future<void>, NEXT)
#else
C(then_fv_u, pc::future<void>, THEN, U)
C(then_sv_u, pc::shared_future<void>, THEN, U)
C(then_fr_u, pc::future<R &>, THEN, U)
C(then_sr_u, pc::shared_future<R &>, THEN, U)
C(then_fp_u, pc::future<UP>, THEN, U)
C(next_fr_u, pc::future<R &>, NEXT, U)
C(next_sr_u, pc::shared_future<R &>, NEXT, U)
C(next_fp_u, pc::future<UP>, NEXT, U)
C(next_sp_u, pc::shared_future<UP>, NEXT, U)
C(next_fr_r, pc::future<R &>, NEXT, R &)
C(next_fp_fu, pc::future<UP>, NEXT, pc::future<U>)
I(ithen_fu_u, pc::future<U>, U)
I(ithen_su_u, pc::shared_future<U>, U)
I(ithen_fu_v, pc::future<U>, void)
I(ithen_fu_r, pc::future<U>, R &)
I(ithen_fv_u, pc::future<void>, U)
I(ithen_sv_v, pc::shared_future<void>, void)
#endif
