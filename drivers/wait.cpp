// blocking on a result, and waking a blocked thread
#include "vx.h"
using namespace vx;

#define OUT3(n, T, how)                                                                                                                    \
  ENTRY(n##_value) { how<T, VALUE>(); }                                                                                                     \
  ENTRY(n##_error) { how<T, ERROR>(); }                                                                                                     \
  ENTRY(n##_gone) { how<T, GONE>(); }

// the waiting thread is analysed, delivery may happen at each of its steps
template <class T, int How, class Wait> static void waiter(Wait wait) {
  auto pf = pc::make_promise<T>();
  owned<T> o(std::move(pf.first));
  vx_rely("fulfil", produce<T, How>, &o, AT_SYNC | AT_WAIT | AT_REF);
  vx_ev("start");
  wait(pf.second);
  vx_ev("returned");
  vx_join();
}
template <class T, int How> static void w_get() {
  waiter<T, How>([](auto &f) { get(1, f); });
}
template <class T, int How> static void w_wait() {
  waiter<T, How>([](auto &f) {
    f.wait();
    vx_ev("ready", f.is_ready() ? 1 : 0);
    obs(1, f);
  });
}
template <class T, int How> static void w_sget() {
  waiter<T, How>([](auto &f) {
    auto sf = f.share();
    get(1, sf);
    get(2, sf);
  });
}
template <class T, int How> static void w_swait() {
  waiter<T, How>([](auto &f) {
    auto sf = f.share();
    sf.wait();
    vx_ev("ready", sf.is_ready() ? 1 : 0);
    obs(1, sf);
  });
}
// waits on an operation derived from the one being fulfilled
template <class T, int How> static void w_next() {
  waiter<T, How>([](auto &f) {
    auto g = f.next(nt(10, [](auto &&x) { return U{x.id + 1}; }));
    get(1, g);
  });
}
template <class T, int How> static void w_unwrap() {
  waiter<T, How>([](auto &f) {
    auto g = pc::make_ready_future(1).next(nt(10, [&](int) { return std::move(f); }));
    get(1, g);
  });
}
template <class T, int How> static void w_all() {
  waiter<T, How>([](auto &f) {
    auto g = pc::when_all(std::move(f));
    g.wait();
    auto t = g.get();
    obs(1, std::get<0>(t));
  });
}
template <class T, int How> static void w_any() {
  waiter<T, How>([](auto &f) {
    auto g = pc::when_any(std::move(f));
    auto t = g.get();
    vx_ev("index", t.index);
    obs(1, std::get<0>(t.futures));
  });
}
template <class T, int How> static void w_two_waits() {
  waiter<T, How>([](auto &f) {
    f.wait();
    f.wait();
    get(1, f);
  });
}
OUT3(get, U, w_get)
OUT3(wait, U, w_wait)
OUT3(sget, U, w_sget)
OUT3(swait, U, w_swait)
OUT3(getv, void, w_get)
OUT3(waitv, void, w_wait)
OUT3(sgetv, void, w_sget)
OUT3(getr, R &, w_get)
OUT3(sgetr, R &, w_sget)
OUT3(getp, std::unique_ptr<U>, w_get)
OUT3(next, U, w_next)
OUT3(unwrap, U, w_unwrap)
OUT3(all, U, w_all)
OUT3(any, U, w_any)
OUT3(twice, U, w_two_waits)

// packaged_task run or dropped by another thread
struct tasked {
  std::unique_ptr<pc::packaged_task<U(long)>> t;
};
static void task_run(void *p) {
  auto *o = static_cast<tasked *>(p);
  auto t = std::move(o->t);
  (*t)(7);
}
static void task_drop(void *p) { static_cast<tasked *>(p)->t.reset(); }
static void w_task(void (*act)(void *)) {
  pc::packaged_task<U(long)> t{fn(10, [](long x) { return U{x}; })};
  auto f = t.get_future();
  tasked o{std::make_unique<pc::packaged_task<U(long)>>(std::move(t))};
  vx_rely("run", act, &o, AT_SYNC | AT_WAIT | AT_REF);
  vx_ev("start");
  get(1, f);
  vx_ev("returned");
  vx_join();
}
ENTRY(task_run) { w_task(task_run); }
ENTRY(task_drop) { w_task(task_drop); }

// ------------------------------------------------------------- several waiting threads
struct reader {
  pc::shared_future<U> f;
  int tag;
};
static void read_get(void *p) {
  auto *r = static_cast<reader *>(p);
  auto f = std::move(r->f);
  get(r->tag, f);
  vx_ev("returned", r->tag);
}
static void read_wait(void *p) {
  auto *r = static_cast<reader *>(p);
  auto f = std::move(r->f);
  f.wait();
  obs(r->tag, f);
  vx_ev("returned", r->tag);
}
template <int How> static void many(void (*rd)(void *)) {
  auto pf = pc::make_promise<U>();
  auto sf = pf.second.share();
  owned<U> o(std::move(pf.first));
  reader r{sf, 2};
  vx_rely("other reader", rd, &r, AT_WAIT);
  vx_rely("fulfil", produce<U, How>, &o, AT_WAIT | AT_SYNC);
  vx_ev("start");
  get(1, sf);
  vx_ev("returned");
  vx_rest(0);
  vx_join();
}
ENTRY(many_value) { many<VALUE>(read_get); }
ENTRY(many_error) { many<ERROR>(read_wait); }
ENTRY(many_gone) { many<GONE>(read_get); }

// the delivering thread is analysed; readers block before, and are resumed (and destroy) during delivery
template <int How> static void producer(void (*rd)(void *)) {
  auto pf = pc::make_promise<U>();
  auto sf = pf.second.share();
  reader a{sf, 2}, b{std::move(sf), 3};
  vx_budget(4);
  vx_rely("reader a", rd, &a, AT_SYNC | AT_EVENT);
  vx_rely("reader b", rd, &b, AT_SYNC | AT_EVENT);
  vx_ev("start");
  {
    pc::promise<U> p = std::move(pf.first);
    deliver(p, How, 7);
  }
  vx_ev("delivered");
  vx_rest(0);
  vx_join();
}
ENTRY(prod_value) { producer<VALUE>(read_get); }
ENTRY(prod_error) { producer<ERROR>(read_wait); }
ENTRY(prod_gone) { producer<GONE>(read_get); }

// the only reader owns the future: it is gone when it returns
struct sole {
  pc::future<U> f;
};
static void sole_get(void *p) {
  auto f = std::move(static_cast<sole *>(p)->f);
  get(2, f);
  vx_ev("returned", 2);
}
static void sole_drop(void *p) { auto f = std::move(static_cast<sole *>(p)->f); }
template <int How> static void last_owner(void (*act)(void *)) {
  auto pf = pc::make_promise<U>();
  sole a{std::move(pf.second)};
  vx_budget(4);
  vx_rely("reader", act, &a, AT_SYNC | AT_EVENT | AT_REF);
  vx_ev("start");
  {
    pc::promise<U> p = std::move(pf.first);
    deliver(p, How, 7);
  }
  vx_ev("delivered");
  vx_rest(0);
  vx_join();
}
ENTRY(last_value) { last_owner<VALUE>(sole_get); }
ENTRY(last_error) { last_owner<ERROR>(sole_get); }
ENTRY(last_gone) { last_owner<GONE>(sole_get); }
ENTRY(dropped_value) { last_owner<VALUE>(sole_drop); }
ENTRY(dropped_error) { last_owner<ERROR>(sole_drop); }
ENTRY(dropped_gone) { last_owner<GONE>(sole_drop); }

// ------------------------------------------------------------- real threads
ENTRY(thread_get) {
  auto pf = pc::make_promise<U>();
  std::thread t([p = std::move(pf.first)]() mutable {
    auto q = std::move(p);
    q.set_value(U{7});
  });
  get(1, pf.second);
  vx_ev("returned");
  t.join();
}
