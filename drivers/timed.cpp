// timed waits: timed_waiter and the deprecated members
#include "vx.h"
#include <chrono>
using namespace vx;
using std::chrono::milliseconds;

static int st(pc::future_status s) { return s == pc::future_status::ready ? 1 : s == pc::future_status::timeout ? 0 : 2; }
// one wait: what it reported, and what the future says then
template <class W, class F> static void once_(W &w, F &f, bool until) {
  vx_ev("wait");
  int s = until ? st(w.wait_until(std::chrono::steady_clock::now() + milliseconds(5))) : st(w.wait_for(milliseconds(5)));
  vx_ev("status", s, f.is_ready() ? 1 : 0);
}
#define OUT3(n, ...)                                                                                                                       \
  ENTRY(n##_value) { run<__VA_ARGS__, VALUE>(); }                                                                                           \
  ENTRY(n##_error) { run<__VA_ARGS__, ERROR>(); }                                                                                           \
  ENTRY(n##_gone) { run<__VA_ARGS__, GONE>(); }

// kind of wait
struct tw_for { template <class F> static void go(F &f) { pc::timed_waiter w(f); once_(w, f, false); once_(w, f, false); } };
struct tw_until { template <class F> static void go(F &f) { pc::timed_waiter w(f); once_(w, f, true); once_(w, f, true); } };
struct tw_sys {
  template <class F> static void go(F &f) {
    pc::timed_waiter w(f);
    vx_ev("wait");
    int s = st(w.wait_until(std::chrono::system_clock::now() + milliseconds(5)));
    vx_ev("status", s, f.is_ready() ? 1 : 0);
  }
};
struct tw_copy {
  template <class F> static void go(F &f) {
    pc::timed_waiter w;
    {
      pc::timed_waiter a(f);
      w = a;
    }
    pc::timed_waiter c = w;
    once_(w, f, false);
    once_(c, f, false);
  }
};
struct dep_for { template <class F> static void go(F &f) { once_(f, f, false); once_(f, f, false); } };
struct dep_until { template <class F> static void go(F &f) { once_(f, f, true); } };
struct dep_mix { template <class F> static void go(F &f) { once_(f, f, false); f.wait(); vx_ev("waited"); once_(f, f, true); } };

template <class T, class K, bool Sh, int How> static void run() {
  auto pf = pc::make_promise<T>();
  owned<T> o(std::move(pf.first));
  vx_rely("fulfil", produce<T, How>, &o, AT_SYNC | AT_WAIT | AT_EVENT);
  vx_ev("start");
  if (Sh) {
    auto s = pf.second.share();
    K::go(s);
    vx_ev("returned");
    vx_rest(0);
    vx_join();
    obs(1, s);
    obs(2, s);
  } else {
    K::go(pf.second);
    vx_ev("returned");
    vx_rest(0);
    vx_join();
    obs(1, pf.second);
  }
}
#if TIMED_PART == 0
OUT3(for, U, tw_for, false)
OUT3(until, U, tw_until, false)
OUT3(sys, U, tw_sys, false)
OUT3(copy, U, tw_copy, false)
OUT3(forv, void, tw_for, false)
OUT3(sfor, U, tw_for, true)
OUT3(suntil, U, tw_until, true)
OUT3(ssys, void, tw_sys, true)
OUT3(scopy, U, tw_copy, true)
#elif TIMED_PART == 1
OUT3(dfor, U, dep_for, false)
OUT3(duntil, U, dep_until, false)
OUT3(dmix, U, dep_mix, false)
OUT3(sdfor, U, dep_for, true)
OUT3(sduntil, U, dep_until, true)
OUT3(sdmix, R &, dep_mix, true)

// already delivered
template <class F> static void late(F f) {
  pc::timed_waiter w(f);
  once_(w, f, false);
  pc::timed_waiter v(f);
  once_(v, f, true);
  once_(f, f, false);
  once_(f, f, true);
  obs(1, f);
}
ENTRY(late_u) {
  auto pf = pc::make_promise<U>();
  deliver(pf.first, vx_pick("outcome", 2), 7);
  vx_ev("done");
  late(std::move(pf.second));
}
ENTRY(late_s) {
  auto pf = pc::make_promise<U>();
  deliver(pf.first, vx_pick("outcome", 2), 7);
  vx_ev("done");
  late(pf.second.share());
}
ENTRY(late_cnt) {
  auto f = pc::make_ready_future(1).next(nt(10, [](int) { return U{7}; }));
  vx_ev("done");
  late(std::move(f));
}
ENTRY(invalid) {
  pc::future<U> f;
  pc::shared_future<U> s;
  guarded(1, [&] { pc::timed_waiter w(f); });
  guarded(2, [&] { pc::timed_waiter w(s); });
  guarded(3, [&] { (void)f.wait_for(milliseconds(1)); });
  guarded(4, [&] { (void)f.wait_until(std::chrono::steady_clock::now()); });
  guarded(5, [&] { (void)s.wait_for(milliseconds(1)); });
  guarded(6, [&] { (void)s.wait_until(std::chrono::steady_clock::now()); });
}
#else
// the waiter outlives the future (and the operation) or is destroyed before the result
template <int How> static void outlives() {
  auto pf = pc::make_promise<U>();
  owned<U> o(std::move(pf.first));
  vx_rely("fulfil", produce<U, How>, &o, AT_SYNC | AT_WAIT | AT_EVENT | AT_REF);
  pc::timed_waiter w(pf.second);
  vx_ev("start");
  bool early = vx_bool("future is dropped before the wait");
  if (early) {
    pc::future<U> g = std::move(pf.second);
  }
  vx_ev("wait");
  int s = st(w.wait_for(milliseconds(5)));
  vx_ev("status", s, pf.second.valid() ? (pf.second.is_ready() ? 1 : 0) : 2);
  {
    pc::future<U> g = std::move(pf.second);
  }
  vx_ev("wait");
  vx_ev("status", st(w.wait_for(milliseconds(5))), 2);
  vx_rest(0);
  vx_join();
}
ENTRY(outlives_value) { outlives<VALUE>(); }
ENTRY(outlives_error) { outlives<ERROR>(); }
ENTRY(outlives_gone) { outlives<GONE>(); }
// delivering thread is analysed; the waiting thread waits, gives up and destroys everything at any point
template <bool Sh> struct side {
  std::conditional_t<Sh, pc::shared_future<U>, pc::future<U>> f;
  pc::timed_waiter w;
  bool fut_first;
};
template <bool Sh> static void wait_and_go(void *p) {
  auto *s = static_cast<side<Sh> *>(p);
  auto f = std::move(s->f);
  {
    pc::timed_waiter w = std::move(s->w);
    vx_ev("wait2");
    int r = st(w.wait_for(milliseconds(5)));
    vx_ev("status2", r);
  }
  if (f.is_ready())
    get(2, f);
}
template <bool Sh> static void drop_waiter(void *p) {
  auto *s = static_cast<side<Sh> *>(p);
  pc::timed_waiter w = std::move(s->w);
}
template <bool Sh, int How> static void producer(void (*act)(void *)) {
  auto pf = pc::make_promise<U>();
  side<Sh> s{std::move(pf.second), {}, false};
  s.w = pc::timed_waiter(s.f);
  vx_budget(3);
  vx_rely("waiter", act, &s, AT_SYNC | AT_EVENT | AT_REF);
  vx_ev("start");
  {
    pc::promise<U> p = std::move(pf.first);
    deliver(p, How, 7);
  }
  vx_ev("delivered");
  vx_rest(0);
  vx_join();
}
#define PROD(n, Sh, act)                                                                                                                   \
  ENTRY(n##_value) { producer<Sh, VALUE>(act<Sh>); }                                                                                        \
  ENTRY(n##_error) { producer<Sh, ERROR>(act<Sh>); }                                                                                        \
  ENTRY(n##_gone) { producer<Sh, GONE>(act<Sh>); }
PROD(prod, false, wait_and_go)
PROD(sprod, true, wait_and_go)
PROD(pdrop, false, drop_waiter)
// two waiters on one shared state
template <int How> static void two() {
  auto pf = pc::make_promise<U>();
  auto s = pf.second.share();
  owned<U> o(std::move(pf.first));
  pc::timed_waiter a(s), b(s);
  vx_rely("fulfil", produce<U, How>, &o, AT_SYNC | AT_WAIT | AT_EVENT);
  vx_ev("start");
  once_(a, s, false);
  once_(b, s, false);
  vx_rest(0);
  vx_join();
  once_(a, s, false);
  once_(b, s, true);
  obs(1, s);
}
// two threads sleep on copies of one waiter while the result is delivered
struct copy_ { pc::timed_waiter w; };
static void sleeper(void *p) {
  pc::timed_waiter w = std::move(static_cast<copy_ *>(p)->w);
  vx_ev("wait2");
  vx_ev("status2", st(w.wait_for(milliseconds(5))));
}
template <class Fut, int How> static void sleepers() {
  auto pf = pc::make_promise<U>();
  Fut f(std::move(pf.second));
  pc::timed_waiter w(f);
  copy_ a{w}, b{w};
  w = pc::timed_waiter();
  vx_longwaits();
  vx_budget(2);
  vx_rely("sleeper a", sleeper, &a, AT_EVENT);
  vx_rely("sleeper b", sleeper, &b, AT_EVENT);
  vx_ev("start");
  {
    pc::promise<U> p = std::move(pf.first);
    deliver(p, How, 7);
  }
  vx_ev("delivered");
  vx_rest(0);
  vx_join();
  obs(1, f);
}
ENTRY(sleep_value) { sleepers<pc::future<U>, VALUE>(); }
ENTRY(sleep_error) { sleepers<pc::future<U>, ERROR>(); }
ENTRY(sleep_gone) { sleepers<pc::future<U>, GONE>(); }
ENTRY(ssleep_value) { sleepers<pc::shared_future<U>, VALUE>(); }
ENTRY(ssleep_error) { sleepers<pc::shared_future<U>, ERROR>(); }
ENTRY(ssleep_gone) { sleepers<pc::shared_future<U>, GONE>(); }
ENTRY(two_value) { two<VALUE>(); }
ENTRY(two_error) { two<ERROR>(); }
ENTRY(two_gone) { two<GONE>(); }
#endif
