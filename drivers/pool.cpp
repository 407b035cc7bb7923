// static_thread_pool
#include "vx.h"
#include <thread>
using namespace vx;

#ifdef VX_THOROUGH
enum { BUD = 5 };
#else
enum { BUD = 3 };
#endif

static void work(pc::static_thread_pool &p, long id) {
  vx_ev("post", id);
  post(p.executor(), nt(id, [] {}));
  vx_ev("posted", id);
}
// ---------------------------------------------------------------- owner's view
template <int N, int Tasks> static void post_wait() {
  vx_budget(BUD);
  {
    pc::static_thread_pool pool(N);
    for (int i = 0; i < Tasks; ++i)
      work(pool, 10 + i);
    vx_ev("wait");
    pool.wait();
    vx_ev("waited");
  }
  vx_ev("destroyed");
}
template <int N> static void post_stop() {
  vx_budget(BUD);
  {
    pc::static_thread_pool pool(N);
    work(pool, 10);
    work(pool, 11);
    vx_ev("stop");
    pool.stop();
    vx_ev("stopped");
    work(pool, 20);
    vx_ev("wait");
    pool.wait();
    vx_ev("waited");
    work(pool, 21);
  }
  vx_ev("destroyed");
}
template <int N> static void post_dtor() {
  vx_budget(BUD);
  {
    pc::static_thread_pool pool(N);
    work(pool, 10);
    work(pool, 11);
    vx_ev("wait");
    vx_ev("stop");
  }
  vx_ev("waited");
  vx_ev("destroyed");
}
// wait twice, post in between
ENTRY(wait_twice) {
  vx_budget(BUD);
  {
    pc::static_thread_pool pool(1);
    work(pool, 10);
    vx_ev("wait");
    pool.wait();
    vx_ev("waited");
    work(pool, 20);
    pool.wait();
    pool.stop();
  }
  vx_ev("destroyed");
}
// a task posts another one
ENTRY(nested) {
  vx_budget(BUD);
  {
    pc::static_thread_pool pool(1);
    auto ex = pool.executor();
    post(ex, nt(10, [ex] {
           vx_ev("inner-post");
           post(ex, nt(11, [] {}));
         }));
    vx_ev("wait");
    pool.wait();
    vx_ev("waited");
  }
  vx_ev("destroyed");
}
// results travel through futures
template <int N, int Bud> static void async_get() {
  vx_budget(Bud);
  {
    pc::static_thread_pool pool(N);
    auto f = pc::async(pool.executor(), fn(10, [](U &&u) { return U(std::move(u)); }), U{40});
    auto g = f.next(pool.executor(), fn(11, [](U &&) { return U{41}; }));
    get(2, g);
    vx_ev("wait");
    pool.wait();
    vx_ev("waited");
    auto h = pc::async(pool.executor(), fn(20, [] { return U{42}; }));
    obs(3, h);
  }
  vx_ev("destroyed");
}
// the task that ran releases what it owned while the pool is idle
ENTRY(idle_release) {
  vx_budget(BUD);
  {
    pc::static_thread_pool pool(1);
    auto pf = pc::make_promise<U>();
    post(pool.executor(), [p = std::move(pf.first)] { vx_ev("ran"); });
    get(2, pf.second); // broken_promise as soon as the task object is destroyed
    vx_ev("got");
    vx_ev("wait");
    pool.wait();
    vx_ev("waited");
  }
  vx_ev("destroyed");
}
// a task waits for one posted later: the free thread has to take that one
ENTRY(dependent) {
  vx_budget(BUD - 1);
  {
    pc::static_thread_pool pool(2);
    auto pf = pc::make_promise<U>();
    auto ex = pool.executor();
    vx_ev("post", 10);
    auto dn = pc::make_promise<void>();
    post(ex, [f = std::move(pf.second), d = std::move(dn.first)]() mutable {
      get(2, f);
      vx_ev("ran");
      d.set_value();
    });
    vx_ev("posted", 10);
    vx_ev("post", 11);
    post(ex, [p = std::move(pf.first)]() mutable { p.set_value(U{40}); vx_ev("ran"); });
    vx_ev("posted", 11);
    get(3, dn.second);
    vx_ev("wait");
    pool.wait();
    vx_ev("waited");
  }
  vx_ev("destroyed");
}
// leftovers of a stopped pool are destroyed, their futures report it
ENTRY(leftover) {
  vx_budget(BUD);
  pc::future<U> f, g, h;
  {
    pc::static_thread_pool pool(1);
    auto ex = pool.executor();
    f = pc::async(ex, nt(10, [&] { pool.stop(); return U{40}; }));
    g = pc::async(ex, nt(11, [] { return U{41}; }));
    h = g.then(ex, nt(12, [](pc::future<U>) { return U{42}; }));
  }
  vx_ev("destroyed");
  obs(2, f);
  obs(3, g.valid() ? g : h);
}
// ---------------------------------------------------------------- worker's view: this thread is attached, others post and stop
struct who {
  pc::static_thread_pool *pool;
  long id;
};
static void other_post(void *p) {
  auto *w = static_cast<who *>(p);
  work(*w->pool, w->id);
}
static void other_stop(void *p) {
  vx_ev("stop");
  static_cast<pc::static_thread_pool *>(p)->stop();
  vx_ev("stopped");
}
static void other_wait(void *p) {
  vx_ev("wait");
  static_cast<pc::static_thread_pool *>(p)->wait();
  vx_ev("waited");
}
static void other_attach(void *p) {
  static_cast<pc::static_thread_pool *>(p)->attach();
  vx_ev("detached");
}
template <bool Stop, bool Two> static void attached() {
  {
    pc::static_thread_pool pool(0);
    who a{&pool, 10}, b{&pool, 11};
    vx_budget(2);
    vx_rely("post", other_post, &a, AT_WAIT | AT_SYNC | AT_EVENT);
    if (Two)
      vx_rely("attach", other_attach, &pool, AT_WAIT | AT_SYNC);
    else
      vx_rely("post", other_post, &b, AT_WAIT | AT_SYNC | AT_EVENT);
    vx_rely("close", Stop ? other_stop : other_wait, &pool, AT_WAIT | AT_SYNC | AT_EVENT);
    vx_ev("start");
    pool.attach();
    vx_ev("left");
    vx_rest(0);
    vx_join();
  }
  vx_ev("destroyed");
}
ENTRY(attach_wait) { attached<false, false>(); }
ENTRY(attach_stop) { attached<true, false>(); }
ENTRY(attach_two_wait) { attached<false, true>(); }
ENTRY(attach_two_stop) { attached<true, true>(); }

// a user thread joins the pool; the owner waits and destroys the pool at once
template <int N, bool Stop> static void attach_destroy() {
  vx_budget(BUD - Stop);
  std::thread t;
  {
    pc::static_thread_pool pool(N);
    pc::latch in(1);
    t = std::thread([&pool, &in] {
      post(pool.executor(), nt(11, [&in] { in.count_down(); }));
      pool.attach();
      vx_ev("left");
    });
    in.wait(); // a task ran, so somebody serves
    work(pool, 10);
    if (Stop) {
      vx_ev("stop");
      pool.stop();
    }
    vx_ev("wait");
    pool.wait();
    vx_ev("waited");
  }
  vx_ev("destroyed");
  t.join();
}
// two threads post while the pool runs
ENTRY(posters) {
  vx_budget(2);
  {
    pc::static_thread_pool pool(1);
    who a{&pool, 11};
    vx_rely("post", other_post, &a, AT_SYNC | AT_EVENT);
    vx_ev("start");
    work(pool, 10);
    vx_rest(0);
    vx_ev("wait");
    pool.wait();
    vx_ev("waited");
    vx_join();
  }
  vx_ev("destroyed");
}
// two owners' threads call stop and wait
ENTRY(stop_race) {
  vx_budget(2);
  {
    pc::static_thread_pool pool(1);
    vx_rely("stop", other_stop, &pool, AT_SYNC | AT_EVENT);
    vx_ev("start");
    work(pool, 10);
    vx_ev("wait");
    pool.wait();
    vx_ev("waited");
    vx_rest(0);
    vx_join();
  }
  vx_ev("destroyed");
}
ENTRY(wait_1_1) { post_wait<1, 1>(); }
ENTRY(wait_1_2) { post_wait<1, 2>(); }
ENTRY(wait_1_3) { post_wait<1, 3>(); }
ENTRY(wait_2_1) { post_wait<2, 1>(); }
ENTRY(wait_2_2) { post_wait<2, 2>(); }
ENTRY(wait_2_3) { post_wait<2, 3>(); }
ENTRY(wait_1_0) { post_wait<1, 0>(); }
ENTRY(wait_2_0) { post_wait<2, 0>(); }
ENTRY(stop_1) { post_stop<1>(); }
ENTRY(stop_2) { post_stop<2>(); }
ENTRY(dtor_1) { post_dtor<1>(); }
ENTRY(dtor_2) { post_dtor<2>(); }
ENTRY(async_1) { async_get<1, BUD>(); }
ENTRY(async_2) { async_get<2, BUD - 2>(); }
ENTRY(attach_destroy_0) { attach_destroy<0, false>(); }
ENTRY(attach_destroy_1) { attach_destroy<1, false>(); }
ENTRY(attach_destroy_1s) { attach_destroy<1, true>(); }
