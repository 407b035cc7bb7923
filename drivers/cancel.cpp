// dropping futures
#include "vx.h"
using namespace vx;

enum { DELIVER, RUN, DROPX, DROPF, DETACH, STEPS };
struct Src {
  std::unique_ptr<pc::promise<U>> p;
  pc::future<U> f;
  bool done = false;
  Src() {
    auto pf = pc::make_promise<U>(pc::canceler_arg, nt(1, [] {}));
    p.reset(new pc::promise<U>(std::move(pf.first)));
    f = std::move(pf.second);
  }
  void give(int how) {
    deliver(*p, how, 7);
    p.reset();
    done = true;
  }
  void awaited() {
    if (p)
      vx_ev("awaiten", p->is_awaiten() ? 1 : 0);
  }
};

// ---------------------------------------------------------------- links
enum { T = 0, N = 1, TX = 2, NX = 3, ST = 4, SN = 5, S = 6, NONE = 9 };
template <int K> struct link;
template <> struct link<T> { static pc::future<U> make(pc::future<U> f, long id, Box &) { return f.then(nt(id, [](pc::future<U>) { return U{60}; })); } };
template <> struct link<N> { static pc::future<U> make(pc::future<U> f, long id, Box &) { return f.next(nt(id, [](U &&) { return U{60}; })); } };
template <> struct link<TX> { static pc::future<U> make(pc::future<U> f, long id, Box &b) { return f.then(Ex{&b, 5}, nt(id, [](pc::future<U>) { return U{60}; })); } };
template <> struct link<NX> { static pc::future<U> make(pc::future<U> f, long id, Box &b) { return f.next(Ex{&b, 5}, nt(id, [](U &&) { return U{60}; })); } };
template <> struct link<ST> { static pc::future<U> make(pc::future<U> f, long id, Box &) { return f.share().then(nt(id, [](pc::shared_future<U>) { return U{60}; })); } };
template <> struct link<SN> { static pc::future<U> make(pc::future<U> f, long id, Box &) { return f.share().next(nt(id, [](const U &) { return U{60}; })); } };
template <> struct link<NONE> { static pc::future<U> make(pc::future<U> f, long, Box &) { return f; } };

template <class F> static F detached(F f) { return f.detach(); }

#ifdef VX_THOROUGH
enum { LEN = 5 };
#else
enum { LEN = 4 };
#endif
template <int A, int B> static void chain() {
  Box box;
  box.mode = LATER;
  Src s;
  pc::future<U> f = link<B>::make(link<A>::make(std::move(s.f), 10, box), 11, box);
  bool dropped = false, det = false;
  vx_ev("built");
  s.awaited();
  for (int k = 0; k < LEN; ++k) {
    int st = vx_pick("step", STEPS + 1);
    if (st == STEPS)
      break;
    bool queued = false;
    for (int i = 0; i < box.n; ++i)
      queued |= !!box.slot[i];
    if ((st == DELIVER && s.done) || ((st == RUN || st == DROPX) && !queued) || (st == DROPF && dropped) || (st == DETACH && (det || dropped)))
      vx_stop();
    int how = st == DELIVER ? vx_pick("how", 3) : 0;
    vx_ev("step", st, how);
    switch (st) {
    case DELIVER: s.give(how); break;
    case RUN: box.run_all(5); break;
    case DROPX: box.drop_all(5); break;
    case DROPF: f = pc::future<U>{}; dropped = true; break;
    case DETACH: f = detached(std::move(f)); det = true; break;
    }
    vx_ev("end");
    s.awaited();
    vx_ev("fut", f.valid() ? (f.is_ready() ? 2 : 1) : 0);
  }
  obs(2, f);
  vx_ev("finish");
  if (!s.done)
    s.give(GONE);
  box.drop_all(5);
  box.drop_all(5);
}
#define CH(a, b) ENTRY(chain_##a##_##b) { chain<a, b>(); }

// ---------------------------------------------------------------- siblings of one shared_future
enum { SB_DELIVER, SB_DROP1, SB_DROP2, SB_DROPS, SB_DROPC, SB_DETACH1, SB_STEPS };
template <int K> static void siblings() {
  Src s;
  pc::shared_future<U> sh = s.f.share(), cp = sh;
  pc::future<U> c1, c2;
  if (K == 0) {
    c1 = sh.then(nt(10, [](pc::shared_future<U>) { return U{60}; }));
    c2 = cp.next(nt(11, [](const U &) { return U{60}; }));
  } else {
    c1 = sh.next(nt(10, [](const U &) { return U{60}; }));
    c2 = c1.valid() ? sh.then(nt(11, [](pc::shared_future<U>) { return U{60}; })) : pc::future<U>{};
  }
  bool gone[SB_STEPS] = {};
  for (int k = 0; k < LEN + 1; ++k) {
    int st = vx_pick("step", SB_STEPS + 1);
    if (st == SB_STEPS)
      break;
    if (gone[st] || (st == SB_DETACH1 && gone[SB_DROP1]))
      vx_stop();
    gone[st] = true;
    vx_ev("step", st, 0);
    switch (st) {
    case SB_DELIVER: s.give(VALUE); break;
    case SB_DROP1: c1 = pc::future<U>{}; break;
    case SB_DROP2: c2 = pc::future<U>{}; break;
    case SB_DROPS: sh = pc::shared_future<U>{}; break;
    case SB_DROPC: cp = pc::shared_future<U>{}; break;
    case SB_DETACH1: c1 = detached(std::move(c1)); break;
    }
    vx_ev("end");
    s.awaited();
  }
  vx_ev("finish");
}

// ---------------------------------------------------------------- async, interruptible continuation, returned future
#if CANCEL_PART == 1
ENTRY(async) {
  Box box;
  box.mode = LATER;
  auto f = pc::async(Ex{&box, 5}, nt(10, [](U &&u) { return U(std::move(u)); }), U{40});
  int how = vx_pick("order", 4);
  if (how == 0) {
    f = pc::future<U>{};
    vx_ev("dropped");
    box.run_all(5);
    vx_ev("never");
  } else if (how == 1) {
    auto g = f.detach();
    { auto x = std::move(g); }
    vx_ev("detached");
    box.run_all(5);
    vx_ev("once");
  } else if (how == 2) {
    box.run_all(5);
    f = pc::future<U>{};
    vx_ev("once");
  } else {
    f = pc::future<U>{};
    vx_ev("dropped");
    box.drop_all(5);
    vx_ev("never");
  }
}
// the future is dropped while the interruptible function runs
template <class Fut> static void ithen_inside_() {
  Src s;
  struct box_t { pc::future<U> f; } *b = new box_t;
  Fut parent(std::move(s.f));
  b->f = parent.then(itn<U, Fut>(10, [b](pc::promise<U> p, Fut) {
    vx_ev("awaiten", p.is_awaiten() ? 1 : 0);
    b->f = pc::future<U>{};
    vx_ev("awaiten2", p.is_awaiten() ? 1 : 0);
    guarded(3, [&] { p.set_value(U{60}); });
  }));
  s.give(VALUE);
  vx_ev("survived");
  delete b;
}
ENTRY(ithen_inside) { ithen_inside_<pc::future<U>>(); }
ENTRY(ithen_inside_s) { ithen_inside_<pc::shared_future<U>>(); }
ENTRY(ithen) {
  Src s;
  std::unique_ptr<pc::promise<U>> kept;
  auto f = s.f.then(itn<U, pc::future<U>>(10, [&](pc::promise<U> p, pc::future<U>) { kept.reset(new pc::promise<U>(std::move(p))); }));
  int when = vx_pick("dropped", 3);
  auto drop = [&] {
    f = pc::future<U>{};
    vx_ev("dropped");
  };
  if (when == 0)
    drop();
  s.give(VALUE);
  if (kept) {
    vx_ev("awaiten", kept->is_awaiten() ? 1 : 0);
    if (when == 1)
      drop();
    vx_ev("awaiten2", kept->is_awaiten() ? 1 : 0);
    guarded(3, [&] { deliver(*kept, vx_pick("set", 3), 60); vx_ev("set"); });
    kept.reset();
  }
  obs(2, f);
}
template <class Fut> static Fut conv(pc::future<U> f) { return Fut(std::move(f)); }
template <class Fut> static void unwrapped() {
  Src s, in;
  auto f = s.f.then(nt(10, [&](pc::future<U>) { return conv<Fut>(std::move(in.f)); }));
  s.give(VALUE);
  in.awaited();
  int how = vx_pick("order", 3);
  if (how == 0) { // dropping the outer future cancels the inner operation
    f = pc::future<U>{};
    vx_ev("dropped");
    in.awaited();
    guarded(3, [&] { in.give(VALUE); });
  } else if (how == 1) {
    auto g = f.detach();
    { auto x = std::move(g); }
    vx_ev("detached");
    in.awaited();
    guarded(3, [&] { in.give(VALUE); });
  } else {
    in.give(VALUE);
    obs(2, f);
  }
}
ENTRY(unwrap_f) { unwrapped<pc::future<U>>(); }
ENTRY(unwrap_s) { unwrapped<pc::shared_future<U>>(); }

// a started function drops the future of its own operation
template <int Kind> static void self_drop() {
  Src s;
  struct box_t { pc::future<U> f; } *b = new box_t;
  long probe = 3;
  auto body = [b, &probe](auto &&...) -> U {
    vx_ev("self-drop");
    b->f = pc::future<U>{};
    vx_ev("probe", probe);
    return U{60};
  };
  if (Kind == 0)
    b->f = s.f.then(nt(10, [body](pc::future<U>) { return body(); }));
  if (Kind == 1)
    b->f = s.f.next(nt(10, [body](U &&) { return body(); }));
  if (Kind == 2) {
    pc::packaged_task<U()> t(nt(10, body));
    b->f = t.get_future();
    s.give(VALUE);
    t();
  } else
    s.give(VALUE);
  vx_ev("survived");
  delete b;
}
ENTRY(self_then) { self_drop<0>(); }
ENTRY(self_next) { self_drop<1>(); }
ENTRY(self_task) { self_drop<2>(); }

#endif
// ---------------------------------------------------------------- dropping races with delivery and execution
struct shared_world {
  Src s;
  std::unique_ptr<pc::future<U>> f;
};
static void drop_step(void *p) {
  auto *w = static_cast<shared_world *>(p);
  vx_ev("drop");
  w->f.reset();
  vx_ev("dropped");
}
template <int How> static void give_step(void *p) {
  auto *w = static_cast<shared_world *>(p);
  vx_ev("give");
  w->s.give(How);
  vx_ev("given");
}
template <int A, int B> static void race_drop() {
  Box box;
  box.mode = NOW;
  shared_world w;
  w.f.reset(new pc::future<U>(link<B>::make(link<A>::make(std::move(w.s.f), 10, box), 11, box)));
  vx_budget(1);
  vx_rely("deliver", give_step<VALUE>, &w, AT_ANY);
  vx_ev("start");
  drop_step(&w);
  vx_rest(0);
  vx_join();
}
template <int A, int B, int How> static void race_give() {
  Box box;
  box.mode = NOW;
  shared_world w;
  w.f.reset(new pc::future<U>(link<B>::make(link<A>::make(std::move(w.s.f), 10, box), 11, box)));
  vx_budget(1);
  vx_rely("drop", drop_step, &w, AT_ANY);
  vx_ev("start");
  give_step<How>(&w);
  vx_rest(0);
  vx_join();
}
// the executor runs the kept work in its own thread
template <int A> static void race_run() {
  Box box;
  box.mode = LATER;
  shared_world w;
  w.f.reset(new pc::future<U>(link<A>::make(std::move(w.s.f), 10, box)));
  w.s.give(VALUE);
  vx_budget(1);
  vx_rely("drop", drop_step, &w, AT_ANY);
  vx_ev("start");
  if (vx_bool("run"))
    box.run_all(5);
  else
    box.drop_all(5);
  vx_rest(0);
  vx_join();
}
#if CANCEL_PART == 1
ENTRY(race_task) {
  shared_world w;
  pc::packaged_task<U()> t(nt(10, [] { return U{60}; }));
  w.f.reset(new pc::future<U>(t.get_future()));
  vx_budget(1);
  vx_rely("drop", drop_step, &w, AT_ANY);
  vx_ev("start");
  if (vx_bool("run")) {
    vx_ev("X.run", 0);
    t();
  }
  t = pc::packaged_task<U()>{};
  vx_rest(0);
  vx_join();
}
#endif
#define RC(a, b) \
  ENTRY(race_drop_##a##_##b) { race_drop<a, b>(); } \
  ENTRY(race_give_##a##_##b) { race_give<a, b, VALUE>(); } \
  ENTRY(race_gone_##a##_##b) { race_give<a, b, GONE>(); }

#if CANCEL_PART == 0
CH(T, NONE) CH(N, NONE) CH(TX, NONE) CH(NX, NONE) CH(ST, NONE) CH(SN, NONE) CH(NONE, NONE)
CH(T, T) CH(T, N) CH(T, TX) CH(T, NX) CH(N, T) CH(N, N) CH(N, TX) CH(N, NX)
#else
CH(TX, T) CH(TX, N) CH(TX, TX) CH(TX, NX) CH(NX, T) CH(NX, N) CH(NX, TX) CH(NX, NX) CH(ST, N) CH(SN, ST) CH(SN, NX)
ENTRY(sib_0) { siblings<0>(); }
ENTRY(sib_1) { siblings<1>(); }
RC(NONE, NONE) RC(T, NONE) RC(N, NONE) RC(SN, NONE) RC(N, T) RC(NX, NONE)
ENTRY(race_run_TX) { race_run<TX>(); }
ENTRY(race_run_NX) { race_run<NX>(); }
#endif
