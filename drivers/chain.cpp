// sources of futures x ways to consume them, sequentially: every order of the steps, every outcome
#include "vx.h"
using namespace vx;

// What happens to the source: see WHAT in areas/chain.py
enum { W_VALUE, W_ERROR, W_GONE, W_THROW, W_DROP, W_INVALID, W_N };

template <class T> struct make_it;
template <> struct make_it<U> { static U go() { return U{60}; } };
template <> struct make_it<void> { static void go() {} };
template <> struct make_it<R &> { static R &go() { return robj; } };

template <class T> struct Base {
  int what;
  pc::promise<T> ip; // inner
  pc::future<T> iff;
  void open(int n = W_N) {
    what = vx_pick("what", n);
    auto pf = pc::make_promise<T>();
    ip = std::move(pf.first);
    iff = std::move(pf.second);
  }
  pc::future<T> take() {
    if (what == W_THROW)
      throw Exc{62};
    if (what == W_INVALID)
      return pc::future<T>{};
    return std::move(iff);
  }
  T direct() {
    if (what == W_THROW || what == W_ERROR)
      throw Exc{61 + (what == W_THROW)};
    return make_it<T>::go();
  }
  void inner() {
    vx_ev("inner");
    pc::promise<T> p = std::move(ip);
    if (what <= W_GONE)
      deliver(p, what, what == W_ERROR ? 61 : 60);
  }
};
enum { THEN, NEXT, ASYNC, TASK };
// K: who calls the function, In: what it returns
template <class T, class In> struct res_of { using type = In; };
template <class T> struct res_of<T, T> { using type = pc::future<T>; };
template <class T, class In> struct Call {
  Base<T> *b;
  template <class... A> In operator()(A &&...) const { return b->take(); }
};
template <class T> struct Call<T, T> {
  Base<T> *b;
  template <class... A> T operator()(A &&...) const { return b->direct(); }
};
template <class T, int K, class In, bool X> struct Src;
template <class T, class In, bool X> struct Src<T, THEN, In, X> : Base<T> {
  using Fut = typename res_of<T, In>::type;
  pc::promise<void> op;
  Box box;
  Fut go(pc::future<void> &f, std::false_type) { return f.then(Call<T, In>{this}); }
  Fut go(pc::future<void> &f, std::true_type) { return f.then(Ex{&box, 5}, Call<T, In>{this}); }
  Fut make() {
    this->open();
    if (this->what == W_DROP && !X)
      vx_stop();
    box.mode = this->what == W_DROP ? DROP : NOW;
    auto pf = pc::make_promise<void>();
    op = std::move(pf.first);
    return go(pf.second, std::integral_constant<bool, X>{});
  }
  void outer() { op.set_value(); }
};
template <class T, class In, bool X> struct Src<T, NEXT, In, X> : Base<T> {
  using Fut = typename res_of<T, In>::type;
  pc::promise<void> op;
  Box box;
  Fut go(pc::future<void> &f, std::false_type) { return f.next(Call<T, In>{this}); }
  Fut go(pc::future<void> &f, std::true_type) { return f.next(Ex{&box, 5}, Call<T, In>{this}); }
  Fut make() {
    this->open();
    box.mode = this->what == W_DROP && X ? DROP : NOW;
    auto pf = pc::make_promise<void>();
    op = std::move(pf.first);
    return go(pf.second, std::integral_constant<bool, X>{});
  }
  void outer() {
    if (this->what == W_DROP && !X)
      op = pc::promise<void>{};
    else
      op.set_value();
  }
};
template <class T, class In, bool X> struct Src<T, ASYNC, In, X> : Base<T> {
  using Fut = typename res_of<T, In>::type;
  Box box;
  Fut make() {
    this->open();
    box.mode = X ? NOW : LATER;
    if (X && this->what == W_DROP)
      box.mode = DROP;
    return pc::async(Ex{&box, 5}, Call<T, In>{this});
  }
  void outer() {
    if (X)
      return;
    if (this->what == W_DROP)
      box.drop_all(5);
    else
      box.run_all(5);
  }
};
template <class T, class In, bool X> struct Src<T, TASK, In, X> : Base<T> {
  using Fut = typename res_of<T, In>::type;
  pc::packaged_task<In()> t;
  Fut make() {
    this->open();
    t = pc::packaged_task<In()>{Call<T, In>{this}};
    return t.get_future();
  }
  void outer() {
    if (this->what == W_DROP)
      t = pc::packaged_task<In()>{};
    else
      t();
  }
};
// two levels: the inner future is itself the result of a continuation which returns a future
struct two_f {};
struct two_s {};
template <class T, class In> struct Call2 {
  Base<T> *b;
  pc::future<void> *mid;
  In operator()(pc::future<void>) const { return mid->next(Call<T, In>{b}); }
};
template <class T, class In, bool X> struct Src2 : Base<T> {
  using Fut = In;
  pc::promise<void> op, mp;
  pc::future<void> mid;
  Fut make() {
    this->open();
    auto pf = pc::make_promise<void>();
    op = std::move(pf.first);
    auto mf = pc::make_promise<void>();
    mp = std::move(mf.first);
    mid = std::move(mf.second);
    if (this->what == W_DROP)
      mp = pc::promise<void>{};
    return pf.second.then(Call2<T, In>{this, &mid});
  }
  void outer() {
    op.set_value();
    if (X && this->what != W_DROP)
      mp.set_value();
  }
  void inner() {
    if (!X && this->what != W_DROP)
      mp.set_value();
    Base<T>::inner();
  }
};
template <class T, bool X> struct Src<T, THEN, two_f, X> : Src2<T, pc::future<T>, X> {};
template <class T, bool X> struct Src<T, THEN, two_s, X> : Src2<T, pc::shared_future<T>, X> {};
// interruptible continuation and plain promise
struct ith {};
struct pro {};
template <class T, bool X> struct Src<T, THEN, ith, X> : Base<T> {
  using Fut = pc::future<T>;
  pc::promise<void> op;
  pc::promise<T> kept;
  bool called = false;
  Fut make() {
    this->open(W_THROW);
    auto pf = pc::make_promise<void>();
    op = std::move(pf.first);
    auto take = [this](pc::promise<T> p, pc::future<void>) { kept = std::move(p); };
    return pf.second.then(take);
  }
  void outer() {
    op.set_value();
    called = true;
  }
  void inner() {
    if (!called)
      vx_stop();
    vx_ev("inner");
    pc::promise<T> p = std::move(kept);
    deliver(p, this->what, this->what == W_ERROR ? 61 : 60);
  }
};
template <class T, bool X> struct Src<T, THEN, pro, X> : Base<T> {
  using Fut = pc::future<T>;
  Fut make() {
    this->open(W_THROW);
    return std::move(this->iff);
  }
  void outer() {}
};

// ------------------------------------------------------------- consumers
template <class T> struct Saw {
  void operator()(pc::future<T> f) const { obs(1, f); }
  void operator()(pc::shared_future<T> f) const { obs(1, f); }
  void operator()(const U &x) const { val(1, x); }
  void operator()(R &x) const { val(1, x); }
  void operator()() const { vx_ev("val", 1, 0, 0); }
};
template <class T> struct Body {
  template <class... A> U operator()(A &&...a) const {
    Saw<T>{}(std::forward<A>(a)...);
    return U{80};
  }
};
template <class T> pc::shared_future<T> shr(pc::future<T> f) { return f.share(); }
template <class T> pc::shared_future<T> shr(pc::shared_future<T> f) { return f; }
template <class T> struct Pass { // hands the future on: unwrapped again
  T *f;
  T operator()(pc::future<void>) const { return std::move(*f); }
};
template <class T> struct SPass {
  pc::shared_future<T> *f;
  pc::shared_future<T> operator()(pc::future<void>) const { return *f; }
};
template <class T> struct Ret1 { // continuation which returns its argument
  pc::future<T> operator()(pc::future<T> f) const { return f; }
  pc::shared_future<T> operator()(pc::shared_future<T> f) const { return f; }
};

template <class T, class F> struct c_get {
  F f;
  void attach(F x) { f = std::move(x); }
  void state(const char *n) { vx_ev(n, f.is_ready() ? 1 : 0); }
  void finish() { obs(1, f); }
};
template <class T, class F> struct c_share {
  pc::shared_future<T> f;
  void attach(F x) { f = shr(std::move(x)); }
  void state(const char *n) { vx_ev(n, f.is_ready() ? 1 : 0); }
  void finish() { auto g = f; obs(1, f); obs(1, g); obs(1, f); }
};
template <class T, class F> struct c_res {
  pc::future<U> g;
  void state(const char *n) { vx_ev(n, g.is_ready() ? 1 : 0); }
  void finish() { obs(2, g); }
};
template <class T, class F> struct c_next : c_res<T, F> {
  void attach(F x) { this->g = x.next(fn(11, Body<T>{})); }
};
template <class T, class F> struct c_then : c_res<T, F> {
  void attach(F x) { this->g = x.then(fn(11, Body<T>{})); }
};
template <class T, class F> struct c_snext : c_res<T, F> {
  void attach(F x) { auto s = shr(std::move(x)); this->g = s.next(fn(11, Body<T>{})); }
};
template <class T, class F> struct c_sthen : c_res<T, F> {
  void attach(F x) { auto s = shr(std::move(x)); this->g = s.then(fn(11, Body<T>{})); }
};
template <class T, class F> struct c_xnext : c_res<T, F> {
  Box box;
  void attach(F x) { box.mode = NOW; this->g = x.next(Ex{&box, 6}, fn(11, Body<T>{})); }
};
template <class T, class F> struct c_xsnext : c_res<T, F> {
  Box box;
  void attach(F x) { box.mode = NOW; auto s = shr(std::move(x)); this->g = s.next(Ex{&box, 6}, fn(11, Body<T>{})); }
};
template <class T, class F> struct c_pass_next : c_res<T, F> {
  F h;
  void attach(F x) { h = std::move(x); this->g = pc::make_ready_future().then(Pass<F>{&h}).next(fn(11, Body<T>{})); }
};
template <class T, class F> struct c_spass_next : c_res<T, F> {
  pc::shared_future<T> h;
  void attach(F x) { h = shr(std::move(x)); this->g = pc::make_ready_future().then(SPass<T>{&h}).next(fn(11, Body<T>{})); }
};
template <class T, class F> struct c_ret_next : c_res<T, F> {
  void attach(F x) { this->g = x.then(Ret1<T>{}).next(fn(11, Body<T>{})); }
};
template <class T, class F> struct c_sret_snext : c_res<T, F> {
  pc::shared_future<T> h;
  void attach(F x) {
    h = shr(std::move(x));
    pc::shared_future<T> k = h.then(Ret1<T>{});
    this->g = k.next(fn(11, Body<T>{}));
  }
};
template <class T, class F> struct c_chain : c_res<T, F> { // the error has to pass two more functions
  void attach(F x) { this->g = x.next(fn(11, Body<T>{})).next(nt(12, [](U u) { return u; })).then(nt(13, [](pc::future<U> u) { return u; })); }
};
template <class T, class F> struct c_ithen : c_res<T, F> {
  void attach(F x) {
    this->g = x.then(itn<U, F>(11, [](pc::promise<U> p, F f) { obs(1, f); p.set_value(U{80}); }));
  }
};
template <class T, class F> struct c_all {
  pc::promise<U> op;
  pc::future<std::tuple<F, pc::future<U>>> f;
  void attach(F x) {
    f = pc::when_all(std::move(x), pc::make_ready_future(U{1}));
  }
  void state(const char *n) { vx_ev(n, f.is_ready() ? 1 : 0); }
  void finish() {
    if (!f.is_ready()) {
      vx_ev("notready", 1);
      return;
    }
    auto t = f.get();
    obs(1, std::get<0>(t));
    obs(3, std::get<1>(t));
  }
};
template <class T, class F> struct c_any {
  pc::promise<U> op;
  pc::future<pc::when_any_result<std::tuple<pc::future<U>, F>>> f;
  void attach(F x) {
    auto pf = pc::make_promise<U>();
    op = std::move(pf.first);
    f = pc::when_any(std::move(pf.second), std::move(x));
  }
  void state(const char *n) { vx_ev(n, f.is_ready() ? 1 : 0); }
  void finish() {
    if (!f.is_ready()) {
      vx_ev("notready", 1);
      return;
    }
    auto t = f.get();
    vx_ev("index", (long)t.index);
    obs(1, std::get<1>(t.futures));
  }
};
template <class T, class F> struct c_allv { // through a vector of shared futures, consumed by next
  pc::future<U> g;
  void attach(F x) {
    std::vector<pc::shared_future<T>> v;
    v.push_back(shr(std::move(x)));
    v.push_back(v[0]);
    g = pc::when_all(v.begin(), v.end()).next(fn(11, [](std::vector<pc::shared_future<T>> r) {
      for (auto &i : r)
        obs(1, i);
      return U{80};
    }));
  }
  void state(const char *n) { vx_ev(n, g.is_ready() ? 1 : 0); }
  void finish() { obs(2, g); }
};
template <class T, class F> struct c_anyv {
  pc::future<U> g;
  void attach(F x) {
    std::vector<F> v;
    v.push_back(std::move(x));
    g = pc::when_any(v.begin(), v.end()).next(fn(11, [](pc::when_any_result<std::vector<F>> r) {
      vx_ev("index", (long)r.index + 1);
      obs(1, r.futures[0]);
      return U{80};
    }));
  }
  void state(const char *n) { vx_ev(n, g.is_ready() ? 1 : 0); }
  void finish() { obs(2, g); }
};
template <class T, class F> struct c_notify {
  F f;
  void attach(F x) {
    f = std::move(x);
    f.notify(note(11));
  }
  void state(const char *n) { vx_ev(n, f.is_ready() ? 1 : 0); }
  void finish() { obs(1, f); }
};
template <class T, class F> struct c_detach {
  pc::future<U> g;
  void attach(F x) {
    auto d = x.detach();
    g = d.next(fn(11, Body<T>{}));
  }
  void state(const char *n) { vx_ev(n, g.is_ready() ? 1 : 0); }
  void finish() { obs(2, g); }
};

template <class S, class C> static void chain() {
  S s;
  C c;
  // the steps "outer", "inner", and attaching the consumer in any order
  int inner_first = vx_bool("inner first");
  int at = vx_pick("attach at", 3);
  auto f = s.make();
  if (at == 0) {
    c.attach(std::move(f));
    c.state("s0");
  }
  vx_ev("step", 1);
  inner_first ? s.inner() : s.outer();
  if (at == 1)
    c.attach(std::move(f));
  if (at <= 1)
    c.state("s1");
  vx_ev("step", 2);
  inner_first ? s.outer() : s.inner();
  if (at == 2)
    c.attach(std::move(f));
  c.state("s2");
  c.finish();
}
#define FT pc::future<T>
#define ST pc::shared_future<T>
#define CAT_(a, b, c) e_##a##__##b##_##c
#define CAT(a, b, c) CAT_(a, b, c)
#define ONE(sn, cn, ...) extern "C" void CAT(sn, cn, TN)() { chain<__VA_ARGS__, c_##cn<T, __VA_ARGS__::Fut>>(); }
#define SOURCE(sn, ...)                                                                                                                    \
  ONE(sn, get, __VA_ARGS__) ONE(sn, share, __VA_ARGS__) ONE(sn, next, __VA_ARGS__) ONE(sn, then, __VA_ARGS__)                              \
  ONE(sn, snext, __VA_ARGS__) ONE(sn, sthen, __VA_ARGS__) ONE(sn, xnext, __VA_ARGS__) ONE(sn, xsnext, __VA_ARGS__)                         \
  ONE(sn, pass_next, __VA_ARGS__) ONE(sn, spass_next, __VA_ARGS__) ONE(sn, ret_next, __VA_ARGS__) ONE(sn, sret_snext, __VA_ARGS__)         \
  ONE(sn, chain, __VA_ARGS__) ONE(sn, ithen, __VA_ARGS__) ONE(sn, all, __VA_ARGS__) ONE(sn, any, __VA_ARGS__) ONE(sn, allv, __VA_ARGS__)   \
  ONE(sn, anyv, __VA_ARGS__) ONE(sn, notify, __VA_ARGS__) ONE(sn, detach, __VA_ARGS__)
#if CHAIN_TYPE == 0
using T = U;
#elif CHAIN_TYPE == 1
using T = void;
#else
using T = R &;
#endif
#if CHAIN_PART == 0
SOURCE(then_f, Src<T, THEN, FT, false>)
SOURCE(next_s, Src<T, NEXT, ST, false>)
SOURCE(async_f, Src<T, ASYNC, FT, false>)
SOURCE(task_s, Src<T, TASK, ST, false>)
SOURCE(two_f, Src<T, THEN, two_f, false>)
#elif CHAIN_PART == 1
SOURCE(then_s, Src<T, THEN, ST, false>)
SOURCE(next_f, Src<T, NEXT, FT, false>)
SOURCE(async_s, Src<T, ASYNC, ST, true>)
SOURCE(task_f, Src<T, TASK, FT, false>)
SOURCE(two_s, Src<T, THEN, two_s, true>)
#else
SOURCE(pro, Src<T, THEN, pro, false>)
SOURCE(ith, Src<T, THEN, ith, false>)
SOURCE(then_d, Src<T, THEN, T, true>)
SOURCE(next_d, Src<T, NEXT, T, true>)
SOURCE(async_d, Src<T, ASYNC, T, false>)
SOURCE(task_d, Src<T, TASK, T, false>)
SOURCE(xnext_f, Src<T, NEXT, FT, true>)
SOURCE(xthen_s, Src<T, THEN, ST, true>)
#endif
