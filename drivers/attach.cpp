// attaching to a future while its producer (and other threads) go on
#include "vx.h"
using namespace vx;

// The other thread fulfils at any point of the attaching operation (or before, or after).
template <class T, class Attach> static void race(void (*prod)(void *), Attach attach) {
  auto pf = pc::make_promise<T>();
  owned<T> o(std::move(pf.first));
  vx_rely("fulfil", prod, &o, AT_SYNC | AT_EVENT | AT_REF);
  vx_ev("start");
  attach(pf.second);
  vx_rest(0);
  vx_join();
  vx_ev("done");
}
template <class T, class Attach> static void race_shared(void (*prod)(void *), Attach attach) {
  auto pf = pc::make_promise<T>();
  auto sf = pf.second.share();
  owned<T> o(std::move(pf.first));
  vx_rely("fulfil", prod, &o, AT_SYNC | AT_EVENT | AT_REF);
  vx_ev("start");
  attach(sf);
  vx_rest(0);
  vx_join();
  vx_ev("done");
}

#define RACE3(n, T, body)                                                                                                                  \
  ENTRY(n##_value) { race<T>(produce<T, VALUE>, body); }                                                                                    \
  ENTRY(n##_error) { race<T>(produce<T, ERROR>, body); }                                                                                    \
  ENTRY(n##_gone) { race<T>(produce<T, GONE>, body); }
#define RACES3(n, T, body)                                                                                                                 \
  ENTRY(n##_value) { race_shared<T>(produce<T, VALUE>, body); }                                                                             \
  ENTRY(n##_error) { race_shared<T>(produce<T, ERROR>, body); }                                                                             \
  ENTRY(n##_gone) { race_shared<T>(produce<T, GONE>, body); }

// the notification reads the result through the future it was attached to
static auto n_notify = [](auto &f) {
  auto *pf = &f;
  f.notify(nt(1, [pf] { vx::obs(1, *pf); }));
};
RACE3(notify, U, n_notify)
RACES3(snotify, U, n_notify)
RACE3(notifyv, void, n_notify)

static auto n_notify_exec = [](auto &f) {
  Box box;
  box.mode = NOW;
  auto *pf = &f;
  f.notify(Ex{&box, 5}, nt(1, [pf] { vx::obs(1, *pf); }));
  vx_rest(0);
  vx_join();
};
RACE3(notifyx, U, n_notify_exec)
RACES3(snotifyx, U, n_notify_exec)

// then: receives the parent
static auto n_then = [](auto &f) {
  auto g = f.then(nt(1, [](auto p) {
    vx::obs(1, p);
    return U{60};
  }));
  vx_rest(0);
  vx_join();
  obs(2, g);
};
RACE3(then, U, n_then)
RACES3(sthen, U, n_then)

static auto n_thenx = [](auto &f) {
  Box box;
  box.mode = LATER;
  auto g = f.then(Ex{&box, 5}, nt(1, [](auto p) {
    vx::obs(1, p);
    return U{60};
  }));
  vx_rest(0);
  vx_join();
  box.run_all(5);
  obs(2, g);
};
RACE3(thenx, U, n_thenx)
RACES3(sthenx, U, n_thenx)

static auto n_next = [](auto &f) {
  auto g = f.next(nt(1, [](auto &&x) {
    val(1, x);
    return U{60};
  }));
  vx_rest(0);
  vx_join();
  obs(2, g);
};
RACE3(next, U, n_next)
RACES3(snext, U, n_next)
static auto n_nextv = [](auto &f) {
  auto g = f.next(nt(1, [] {
    vx_ev("val", 1, 0, 0);
    return U{60};
  }));
  vx_rest(0);
  vx_join();
  obs(2, g);
};
RACE3(nextv, void, n_nextv)
RACES3(snextv, void, n_nextv)

static auto n_ithen = [](auto &f) {
  auto g = f.then(itn<U, std::decay_t<decltype(f)>>(1, [](auto q, auto p) {
    vx::obs(1, p);
    q.set_value(U{60});
  }));
  vx_rest(0);
  vx_join();
  obs(2, g);
};
RACE3(ithen, U, n_ithen)
RACES3(sithen, U, n_ithen)

// a chain attached while the head is being fulfilled
static auto n_chain = [](auto &f) {
  auto g = f.next(nt(1, [](U x) { return U{x.id + 1}; })).then(nt(2, [](pc::future<U> p) {
    vx::obs(1, p);
    return U{60};
  }));
  vx_rest(0);
  vx_join();
  obs(2, g);
};
RACE3(chain, U, n_chain)

// three functions attached to one state
static auto n_three = [](auto &f) {
  auto *pf = &f;
  f.notify(nt(1, [pf] { vx::obs(1, *pf); }));
  f.notify(nt(2, [pf] { vx::obs(2, *pf); }));
  f.notify(nt(3, [pf] { vx::obs(3, *pf); }));
};
RACES3(three, U, n_three)

// ------------------------------------------------------------- two attaching threads and the producer
struct other {
  pc::shared_future<U> f;
  long id;
};
static void other_notify(void *p) {
  auto *o = static_cast<other *>(p);
  o->f.notify(nt(o->id, [o] { vx::obs(o->id, o->f); }));
}
static void other_then(void *p) {
  auto *o = static_cast<other *>(p);
  o->f.then(nt(o->id, [](pc::shared_future<U> f) { vx::obs(50, f); })).detach();
}
template <class Main> static void crowd(void (*second)(void *), Main main) {
  auto pf = pc::make_promise<U>();
  pc::shared_future<U> sf = pf.second.share();
  owned<U> o(std::move(pf.first));
  other a{sf, 50};
  vx_budget(2);
  vx_rely("fulfil", produce<U, VALUE>, &o, AT_SYNC);
  vx_rely("attach", second, &a, AT_SYNC);
  vx_ev("start");
  main(sf);
  vx_rest(0);
  vx_join();
  vx_ev("done");
}
ENTRY(crowd_notify) { crowd(other_notify, n_notify); }
ENTRY(crowd_then) { crowd(other_then, n_then); }

// the producer is interrupted by attaching threads
template <int How> static void producer_role(void (*a1)(void *), void (*a2)(void *)) {
  auto pf = pc::make_promise<U>();
  pc::shared_future<U> sf = pf.second.share();
  other a{sf, 50}, b{sf, 51};
  sf.notify(nt(1, [&] { vx::obs(1, sf); }));
  vx_budget(2);
  vx_rely("attach a", a1, &a, AT_SYNC | AT_EVENT);
  vx_rely("attach b", a2, &b, AT_SYNC | AT_EVENT);
  vx_ev("start");
  {
    pc::promise<U> p = std::move(pf.first);
    deliver(p, How, 7);
  }
  vx_rest(0);
  vx_join();
  vx_ev("done");
}
ENTRY(prod_value) { producer_role<VALUE>(other_notify, other_notify); }
ENTRY(prod_error) { producer_role<ERROR>(other_notify, other_notify); }
ENTRY(prod_gone) { producer_role<GONE>(other_notify, other_notify); }

// an observer polls is_ready and then reads
static void poll(void *p) {
  auto *o = static_cast<other *>(p);
  vx::obs(o->id, o->f);
}
ENTRY(prod_poll) { producer_role<VALUE>(poll, poll); }
ENTRY(prod_poll_error) { producer_role<ERROR>(poll, other_notify); }

// main polls while another thread fulfils
ENTRY(poll_main) {
  race<U>(produce<U, VALUE>, [](auto &f) {
    if (f.is_ready())
      get(1, f);
    else
      vx_ev("notready", 1);
  });
}

// data the producer wrote before delivering is visible to whoever learns about readiness
template <int How, class Learn> static void side(Learn learn) {
  auto pf = pc::make_promise<U>();
  owned<U> o(std::move(pf.first));
  vx_rely("fulfil", produce<U, How>, &o, AT_SYNC | AT_WAIT);
  vx_ev("start");
  learn(pf.second, [&] { vx_ev("side", o.side); });
  vx_rest(0);
  vx_join();
  vx_ev("done");
}
#define SIDE(n, body)                                                                                                                      \
  ENTRY(side_##n##_value) { side<VALUE>(body); }                                                                                            \
  ENTRY(side_##n##_error) { side<ERROR>(body); }                                                                                            \
  ENTRY(side_##n##_gone) { side<GONE>(body); }
static auto l_poll = [](auto &f, auto see) {
  if (f.is_ready())
    see();
  else
    vx_ev("early");
};
static auto l_spoll = [](auto &f, auto see) {
  auto sf = f.share();
  if (sf.is_ready())
    see();
  else
    vx_ev("early");
};
static auto l_wait = [](auto &f, auto see) {
  f.wait();
  see();
};
static auto l_swait = [](auto &f, auto see) {
  auto sf = f.share();
  sf.wait();
  see();
};
static auto l_get = [](auto &f, auto see) {
  get(1, f);
  see();
};
static auto l_notify = [](auto &f, auto see) {
  f.notify(nt(1, see));
};
static auto l_then = [](auto &f, auto see) {
  auto g = f.then(nt(1, [see](pc::future<U>) { see(); }));
  vx_rest(0);
};
static auto l_next = [](auto &f, auto see) {
  auto g = f.next(nt(1, [](U) {}));
  g.wait();
  see();
};
static auto l_timed = [](auto &f, auto see) {
  pc::timed_waiter w{f};
  if (w.wait_for(std::chrono::seconds(1)) == pc::future_status::ready)
    see();
  else
    vx_ev("early");
};
static auto l_all = [](auto &f, auto see) {
  auto a = pc::when_all(std::move(f));
  a.wait();
  see();
};
static auto l_any = [](auto &f, auto see) {
  auto a = pc::when_any(std::move(f));
  a.wait();
  see();
};
SIDE(poll, l_poll)
SIDE(spoll, l_spoll)
SIDE(wait, l_wait)
SIDE(swait, l_swait)
SIDE(get, l_get)
SIDE(notify, l_notify)
SIDE(then, l_then)
SIDE(next, l_next)
SIDE(timed, l_timed)
SIDE(all, l_all)
SIDE(any, l_any)

// ------------------------------------------------------------- attaching from inside a continuation
static auto n_inside = [](auto &f) {
  auto *pf = &f;
  f.notify(nt(1, [pf] { pf->notify(nt(2, [pf] { vx::obs(2, *pf); })); }));
};
RACES3(inside, U, n_inside)
static auto n_inside_then = [](auto &f) {
  auto *pf = &f;
  f.then(nt(1, [pf](pc::shared_future<U> p) { p.then(nt(2, [](pc::shared_future<U> q) { vx::obs(2, q); })).detach(); })).detach();
};
RACES3(inside_then, U, n_inside_then)

// ------------------------------------------------------------- all kinds of producers, attach before or after completion
template <class T> static pc::shared_future<T> shared(pc::future<T> &f) { return f.share(); }
template <class T> static pc::shared_future<T> shared(pc::shared_future<T> &f) { return f; }
template <class Fut> static void attach3(Fut &f, long base) {
  auto sf = shared(f);
  sf.notify(nt(base, [sf, base] { vx::obs(base, sf); }));
  sf.then(nt(base + 1, [base](auto p) { vx::obs(base + 1, p); })).detach();
  sf.next(nt(base + 2, [](auto &&...) {})).detach();
}
template <class Fut, class Complete> static void around(Fut f, Complete complete) {
  bool early = vx_bool("attach before completion");
  if (early) {
    attach3(f, 1);
    complete();
  } else {
    complete();
    attach3(f, 1);
  }
  vx_ev("done");
}
template <class T> static void by_promise(int how) {
  auto pf = pc::make_promise<T>();
  around(std::move(pf.second), [&] {
    pc::promise<T> p = std::move(pf.first);
    deliver(p, how, 7);
  });
}
ENTRY(by_promise) { by_promise<U>(vx_pick("outcome", 3)); }
ENTRY(by_promise_void) { by_promise<void>(vx_pick("outcome", 3)); }
ENTRY(by_promise_ref) { by_promise<R &>(vx_pick("outcome", 3)); }
ENTRY(by_old_promise) {
  pc::promise<U> p;
  auto f = p.get_future();
  int how = vx_pick("outcome", 3);
  around(std::move(f), [&] {
    pc::promise<U> q = std::move(p);
    deliver(q, how, 7);
  });
}
ENTRY(by_old_promise_late) {
  pc::promise<U> p;
  int how = vx_pick("outcome", 2);
  deliver(p, how, 7);
  auto f = p.get_future();
  around(std::move(f), [&] { pc::promise<U> q = std::move(p); });
}
ENTRY(by_canceler) {
  auto pf = pc::make_promise<U>(pc::canceler_arg, note(90));
  int how = vx_pick("outcome", 3);
  around(std::move(pf.second), [&] {
    pc::promise<U> p = std::move(pf.first);
    deliver(p, how, 7);
  });
}
ENTRY(by_allocator) {
  auto pf = pc::make_promise<U>(std::allocator<char>{});
  int how = vx_pick("outcome", 3);
  around(std::move(pf.second), [&] {
    pc::promise<U> p = std::move(pf.first);
    deliver(p, how, 7);
  });
}
ENTRY(by_task) {
  pc::packaged_task<U(long)> t{fn(80, [](long x) { return U{x}; })};
  auto f = t.get_future();
  bool drop = vx_bool("task dropped");
  around(std::move(f), [&] {
    auto q = std::move(t);
    if (!drop)
      q(7);
  });
}
ENTRY(by_task_void) {
  pc::packaged_task<void()> t{fn(80, [] {})};
  auto f = t.get_future();
  bool drop = vx_bool("task dropped");
  around(std::move(f), [&] {
    auto q = std::move(t);
    if (!drop)
      q();
  });
}
ENTRY(by_async) {
  Box box;
  box.mode = LATER;
  auto f = pc::async(Ex{&box, 5}, fn(80, [] { return U{7}; }));
  bool drop = vx_bool("work dropped");
  around(std::move(f), [&] {
    if (drop)
      box.drop_all(5);
    else
      box.run_all(5);
  });
}
ENTRY(by_async_now) {
  Box box;
  box.mode = NOW;
  around(pc::async(Ex{&box, 5}, fn(80, [] { return U{7}; })), [] {});
}
template <class Mk> static void by_chain(Mk mk) {
  auto pf = pc::make_promise<U>();
  int how = vx_pick("outcome", 3);
  around(mk(pf.second), [&] {
    pc::promise<U> p = std::move(pf.first);
    deliver(p, how, 6);
  });
}
ENTRY(by_then) {
  by_chain([](pc::future<U> &f) { return f.then(fn(80, [](pc::future<U>) { return U{7}; })); });
}
ENTRY(by_next) {
  by_chain([](pc::future<U> &f) { return f.next(fn(80, [](U) { return U{7}; })); });
}
ENTRY(by_thenx) {
  Box box;
  box.mode = NOW;
  by_chain([&](pc::future<U> &f) { return f.then(Ex{&box, 5}, fn(80, [](pc::future<U>) { return U{7}; })); });
}
ENTRY(by_ithen) {
  by_chain([](pc::future<U> &f) { return f.then(itn<U, pc::future<U>>(80, [](auto p, auto) { deliver(p, vx_pick("inner", 3), 7); })); });
}
ENTRY(by_unwrap) {
  auto in = pc::make_promise<U>();
  auto f = pc::make_ready_future(1).then(nt(80, [&](pc::future<int>) { return std::move(in.second); }));
  int how = vx_pick("outcome", 3);
  around(std::move(f), [&] {
    pc::promise<U> p = std::move(in.first);
    deliver(p, how, 7);
  });
}
ENTRY(by_unwrap_shared) {
  auto in = pc::make_promise<U>();
  auto f = pc::make_ready_future(1).then(nt(80, [&](pc::future<int>) { return in.second.share(); }));
  int how = vx_pick("outcome", 3);
  around(std::move(f), [&] {
    pc::promise<U> p = std::move(in.first);
    deliver(p, how, 7);
  });
}
static void seq_val(int, std::tuple<pc::future<U>, pc::future<U>> &) {}
namespace vx {
template <class... F> void val(int tag, const std::tuple<F...> &) { vx_ev("val", tag, 7, 0); }
template <class S> void val(int tag, const pc::when_any_result<S> &) { vx_ev("val", tag, 7, 0); }
template <class F> void val(int tag, const std::vector<F> &) { vx_ev("val", tag, 7, 0); }
} // namespace vx
ENTRY(by_when_all) {
  auto a = pc::make_promise<U>(), b = pc::make_promise<U>();
  auto f = pc::when_all(std::move(a.second), std::move(b.second));
  int how = vx_pick("outcome", 3);
  around(std::move(f), [&] {
    pc::promise<U> p = std::move(b.first), q = std::move(a.first);
    deliver(p, how, 7);
    deliver(q, VALUE, 8);
  });
}
ENTRY(by_when_any) {
  auto a = pc::make_promise<U>(), b = pc::make_promise<U>();
  auto f = pc::when_any(std::move(a.second), std::move(b.second));
  int how = vx_pick("outcome", 3);
  around(std::move(f), [&] {
    pc::promise<U> p = std::move(b.first), q = std::move(a.first);
    deliver(p, how, 7);
    deliver(q, VALUE, 8);
  });
}
ENTRY(by_when_all_empty) {
  std::vector<pc::future<U>> v;
  around(pc::when_all(v.begin(), v.end()), [] {});
}
ENTRY(by_when_all_vec0) { around(pc::when_all(std::vector<pc::future<U>>{}), [] {}); }
ENTRY(by_when_any_empty) { around(pc::when_any(std::vector<pc::future<U>>{}), [] {}); }
ENTRY(by_ready) { around(pc::make_ready_future(U{7}), [] {}); }
ENTRY(by_ready_void) { around(pc::make_ready_future(), [] {}); }
ENTRY(by_exceptional) { around(pc::make_exceptional_future<U>(Exc{7}), [] {}); }
