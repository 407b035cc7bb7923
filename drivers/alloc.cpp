// promises created with a user's allocator
#include "vx.h"
using namespace vx;

template <class T> inline char type_tag;
struct Arena { long id; };
template <class T> struct Al {
  using value_type = T;
  Arena *a;
  explicit Al(Arena *x) : a(x) {}
  Al(const Al &o) : a(o.a) {}
  template <class V> Al(const Al<V> &o) : a(o.a) {}
  Al &operator=(const Al &) = default;
  ~Al() { a = reinterpret_cast<Arena *>(8); }
  T *allocate(std::size_t n) {
    if (open_oom && vx_bool("allocator is exhausted")) {
      open_oom = false;
      vx_ev("AL.full", a);
      throw std::bad_alloc();
    }
    void *p = ::operator new(n * sizeof(T));
    vx_ev("AL.alloc", p, a, &type_tag<T>, n);
    return static_cast<T *>(p);
  }
  void deallocate(T *p, std::size_t n) {
    vx_ev("AL.dealloc", p, a, &type_tag<T>, n);
    ::operator delete(p);
  }
  template <class V> bool operator==(const Al<V> &o) const { return a == o.a; }
  template <class V> bool operator!=(const Al<V> &o) const { return a != o.a; }
  static inline bool open_oom;
};

template <class F> static void obs2(F &) {}
template <class F> static void use(int what, F &f) {
  switch (what) {
  case 0: break;
  case 1: f.notify(note(10)); break;
  case 2: { auto g = f.detach(); vx_ev("detached"); } break;
  case 3: { auto g = f.detach(); f = std::move(g); } break;
  }
}
template <class F> static void finish_(int what, F &f) {
  switch (what) {
  case 0: { F g = std::move(f); } break;
  case 1: if (f.valid()) obs(1, f); break;
  case 2: if (f.valid()) { auto g = f.then(nt(11, [](auto x) { return x.is_ready() ? 1L : 0L; })); obs(2, g); } break;
  case 3: if (f.valid()) { auto s = f.share(); auto c = s; obs(1, s); obs(2, c); } break;
  case 4: if (f.valid()) { auto g = pc::when_all(std::move(f)); obs2(g); } break;
  }
}
template <class P, class F> static void history(P p, F f) {
  vx_ev("made");
  use(vx_pick("use", 4), f);
  int order = vx_bool("producer first");
  int out = vx_pick("outcome", 3), fin = vx_pick("end", 4);
  if (order) {
    { P q = std::move(p); deliver(q, out, 7); }
    finish_(fin, f);
  } else {
    if (fin == 0 || fin == 2) finish_(fin, f);
    { P q = std::move(p); deliver(q, out, 7); }
    if (fin != 0 && fin != 2) finish_(fin, f);
  }
  vx_ev("over");
}


template <class T> static void old_api() {
  Arena ar{1};
  pc::promise<T> p(std::allocator_arg, Al<char>(&ar));
  auto f = p.get_future();
  history(std::move(p), std::move(f));
}
template <class T> static void new_api() {
  Arena ar{1};
  auto pf = pc::make_promise<T>(Al<char>(&ar));
  history(std::move(pf.first), std::move(pf.second));
}
#if ALLOC_PART == 0
ENTRY(old_u) { old_api<U>(); }
ENTRY(old_v) { old_api<void>(); }
ENTRY(new_u) { new_api<U>(); }
ENTRY(new_v) { new_api<void>(); }
#elif ALLOC_PART == 1
ENTRY(old_r) { old_api<R &>(); }
ENTRY(old_p) { old_api<std::unique_ptr<U>>(); }
ENTRY(new_r) { new_api<R &>(); }
ENTRY(new_p) { new_api<std::unique_ptr<U>>(); }
#else
// a promise without future: nothing but the state is allocated
ENTRY(unused) {
  Arena ar{1};
  {
    pc::promise<U> p(std::allocator_arg, Al<char>(&ar));
    vx_ev("made");
    if (vx_bool("set"))
      p.set_value(U{7});
    pc::promise<U> q = std::move(p);
  }
  vx_ev("over");
}
// two arenas: each promise uses its own
ENTRY(two) {
  Arena a{1}, b{2};
  {
    auto x = pc::make_promise<U>(Al<char>(&a));
    auto y = pc::make_promise<U>(Al<long>(&b));
    vx_ev("made");
    x.second = x.second.detach();
    y.second = y.second.detach();
    if (vx_bool("swap")) {
      std::swap(x.first, y.first);
      std::swap(x.second, y.second);
    }
    if (vx_bool("overwrite"))
      x = std::move(y);
    else
      y.first.set_value(U{8});
    x.first.set_value(U{7});
    obs(1, x.second);
  }
  vx_ev("over");
}
// blocked reader, the result is delivered by another thread
template <class T, int How> static void blocked(bool share) {
  Arena ar{1};
  {
    auto pf = pc::make_promise<T>(Al<char>(&ar));
    vx_ev("made");
    owned<T> o(std::move(pf.first));
    vx_rely("fulfil", produce<T, How>, &o, AT_SYNC | AT_WAIT | AT_REF);
    if (share) {
      auto s = pf.second.share();
      s.wait();
      get(1, s);
    } else
      get(1, pf.second);
    vx_join();
  }
  vx_ev("over");
}
ENTRY(wait_value) { blocked<U, VALUE>(false); }
ENTRY(wait_error) { blocked<U, ERROR>(true); }
ENTRY(wait_gone) { blocked<void, GONE>(false); }
// detached operation, the last owner is the producing thread
template <int How> static void detached() {
  Arena ar{1};
  auto pf = pc::make_promise<U>(Al<char>(&ar));
  vx_ev("made");
  owned<U> o(std::move(pf.first));
  vx_rely("fulfil", produce<U, How>, &o, AT_SYNC | AT_REF | AT_EVENT);
  {
    auto f = pf.second.detach();
    vx_ev("detached");
  }
  vx_rest(0);
  vx_join();
  vx_ev("over");
}
ENTRY(detach_value) { detached<VALUE>(); }
ENTRY(detach_gone) { detached<GONE>(); }
// exhausted allocator
ENTRY(full_make) {
  Arena ar{1};
  Al<char>::open_oom = true;
  guarded(9, [&] {
    auto pf = pc::make_promise<U>(Al<char>(&ar));
    vx_ev("made");
    pf.first.set_value(U{7});
    get(1, pf.second);
  });
  vx_ev("over");
}
// sequences with the user's allocator
template <class F> static void seq(F make) {
  Arena ar{1};
  {
    auto a = pc::make_promise<U>();
    auto b = pc::make_promise<U>();
    std::vector<pc::future<U>, Al<pc::future<U>>> v(Al<pc::future<U>>{&ar});
    v.reserve(2);
    v.push_back(std::move(a.second));
    v.push_back(std::move(b.second));
    auto g = make(std::move(v));
    vx_ev("made");
    a.first.set_value(U{7});
    if (vx_bool("second"))
      b.first.set_value(U{8});
    if (g.is_ready()) {
      auto r = g.get();
      vx_ev("taken");
    }
  }
  vx_ev("over");
}
ENTRY(seq_all) { seq([](auto v) { return pc::when_all(std::move(v)); }); }
ENTRY(seq_any) { seq([](auto v) { return pc::when_any(std::move(v)); }); }
#endif
