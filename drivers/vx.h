// Environment model shared by all driver units.
//
// A driver unit includes the repository's sources and a few `e_*` entry functions.  Each entry is a
// client of the public API whose user supplied parts (values, functions, executors, exceptions) are
// opaque: their behaviour is whatever vx_bool()/vx_pick()/vx_any() leave open.  The declarations below
// have no definition anywhere; the analyser gives them their meaning.  Drivers decide nothing: they
// only report events, the rules in rules/*.py judge the event sequences of all paths.
#pragma once
#include <cstddef>
#include <exception>
#include <functional>
#include <future>
#include <memory>
#include <new>
#include <tuple>
#include <type_traits>
#include <utility>
#include <vector>

#include <portable_concurrency/execution>
#include <portable_concurrency/functional>
#include <portable_concurrency/future>
#include <portable_concurrency/latch>
#include <portable_concurrency/thread_pool>
#include <portable_concurrency/timed_waiter>

#include "model.h"

extern "C" {
long vx_any(const char *);                       // unknown integer
int vx_bool(const char *);                       // unknown bool
int vx_pick(const char *, int n);                // unknown in [0,n)
void vx_ev(const char *, ...);                   // typestate event
void vx_stop();                                  // path infeasible
void vx_end();                                   // end of interest: what follows is not analysed
void vx_oom(int n);                              // from now on up to n allocations may throw
void vx_nospurious(int);
void vx_longwaits();                             // timed waits of other threads may be long: they sleep until notified, or time out
void vx_rely(const char *, void (*)(void *), void *, int flags); // step of another thread
void vx_budget(int n);                           // other threads may interfere n times between waits
void vx_rely_off(int);
void vx_rest(int);                               // the steps of other threads that are still due happen now
void vx_join();                                  // the other threads have been joined
void vx_share(const void *);                     // atomics reachable from here are written by others
void vx_watch(const char *, const void *);       // report accesses to this object
void vx_watch_reach(const char *, const void *);
long vx_live_heap();
void vx_dump();
}

namespace pc = portable_concurrency;

namespace vx {

enum { AT_WAIT = 1, AT_SYNC = 2, AT_EVENT = 4, AT_REF = 8, AT_ANY = 15 };

// opaque user exception
struct Exc { long id; };

// opaque user value: identity is `id`, lifetime is reported
struct U {
  long id;
  explicit U(long i) : id(i) { vx_ev("U.ctor", this, id); }
  U(const U &o) : id(o.id) { vx_ev("U.copy", this, id, &o); }
  U(U &&o) noexcept : id(o.id) { vx_ev("U.move", this, id, &o); o.id = -7; }
  U &operator=(const U &o) { vx_ev("U.assign", this, o.id, &o); id = o.id; return *this; }
  U &operator=(U &&o) noexcept { vx_ev("U.assign", this, o.id, &o); id = o.id; if (&o != this) o.id = -7; return *this; }
  ~U() { vx_ev("U.dtor", this, id); id = -8; }
};

// user function object; Ret() makes the result
template <class Ret, int Pad = 0> struct Fn {
  long id;
  Ret ret;
  char pad[Pad + 1] = {};
  Fn(long i, Ret r) : id(i), ret(r) { vx_ev("F.ctor", this, id); }
  Fn(Fn &&o) noexcept : id(o.id), ret(o.ret) { vx_ev("F.move", this, id, &o); o.id = -7; }
  Fn(const Fn &) = delete;
  ~Fn() { vx_ev("F.dtor", this, id); id = -8; }
  template <class... A> auto operator()(A &&...a) -> decltype(ret(std::forward<A>(a)...)) {
    struct leave { long id; ~leave() { vx_ev("F.leave", id); } };
    vx_ev("F.call", id);
    leave l{id};
    if (vx_bool("user function throws")) {
      vx_ev("F.throw", id);
      throw Exc{id};
    }
    return ret(std::forward<A>(a)...);
  }
};
template <int Pad = 0, class R> Fn<R, Pad> fn(long id, R r) { return Fn<R, Pad>(id, r); }

// as Fn, never throws (notifications, cancellers: throwing there is outside of the contract)
template <class Ret> struct Nt {
  long id;
  Ret ret;
  Nt(long i, Ret r) : id(i), ret(r) { vx_ev("F.ctor", this, id); }
  Nt(Nt &&o) noexcept : id(o.id), ret(o.ret) { vx_ev("F.move", this, id, &o); o.id = -7; }
  Nt(const Nt &) = delete;
  ~Nt() { vx_ev("F.dtor", this, id); id = -8; }
  template <class... A> auto operator()(A &&...a) -> decltype(ret(std::forward<A>(a)...)) {
    struct leave { long id; ~leave() { vx_ev("F.leave", id); } };
    vx_ev("F.call", id);
    leave l{id};
    return ret(std::forward<A>(a)...);
  }
};
template <class R> Nt<R> nt(long id, R r) { return Nt<R>(id, r); }
// interruptible continuation: its call operator must not be a template
template <class P, class Fut, class Ret> struct In {
  Nt<Ret> f;
  void operator()(pc::promise<P> p, Fut x) { f(std::move(p), std::move(x)); }
};
template <class P, class Fut, class Ret> In<P, Fut, Ret> itn(long id, Ret r) { return {nt(id, r)}; }
struct nothing { void operator()() const {} };
inline Nt<nothing> note(long id) { return Nt<nothing>(id, nothing{}); }

// ---------------------------------------------------------------- executor
// Runs the task at once, keeps it for later, or drops it.
struct Later {
  virtual void run() = 0;
  virtual ~Later() = default;
};
template <class T> struct LaterT final : Later {
  T t;
  explicit LaterT(T &&x) : t(std::move(x)) {}
  void run() override { t(); }
};
enum { NOW = 0, DROP = 1, LATER = 2 };
struct Box {
  std::unique_ptr<Later> slot[3];
  int n = 0;
  int mode = -1; // -1: open
  void run_all(long id) {
    for (int i = 0, m = n; i < m; ++i)
      if (slot[i]) {
        vx_ev("X.run", id);
        auto l = std::move(slot[i]);
        l->run();
        vx_ev("X.done", id);
      }
  }
  void drop_all(long id) {
    for (int i = 0, m = n; i < m; ++i)
      if (slot[i]) {
        vx_ev("X.drop", id);
        slot[i].reset();
      }
  }
};
struct Ex {
  Box *box;
  long id;
};
template <class T> void post(Ex e, T &&t) {
  vx_ev("X.post", e.id);
  int m = e.box->mode >= 0 ? e.box->mode : vx_pick("executor: run/drop/keep", 3);
  if (m == NOW) {
    std::decay_t<T> x(std::forward<T>(t));
    vx_ev("X.run", e.id);
    x();
    vx_ev("X.done", e.id);
  } else if (m == DROP) {
    std::decay_t<T> x(std::forward<T>(t));
    vx_ev("X.drop", e.id);
  } else {
    std::decay_t<T> x(std::forward<T>(t));
    e.box->slot[e.box->n++].reset(new LaterT<std::decay_t<T>>(std::move(x)));
    vx_ev("X.keep", e.id);
  }
}

// ---------------------------------------------------------------- observing results
template <class T> struct show {
  static void val(int tag, T &v);
};
inline void val(int tag, const U &v) { vx_ev("val", tag, v.id, &v); }
inline void val(int tag, long v) { vx_ev("val", tag, v, 0); }
inline void val(int tag, const std::unique_ptr<U> &v) { vx_ev("val", tag, v ? v->id : -1, v.get()); }

inline void errcode(int tag, const std::future_error &e) { vx_ev("ferr", tag, *reinterpret_cast<const int *>(&e)); }

template <class F> std::enable_if_t<std::is_void<decltype(std::declval<F &>().get())>::value> get_val(int tag, F &f) {
  f.get();
  vx_ev("val", tag, 0, 0);
}
template <class F> std::enable_if_t<!std::is_void<decltype(std::declval<F &>().get())>::value> get_val(int tag, F &f) {
  auto &&v = f.get();
  val(tag, v);
}
template <class Act> void guarded(int tag, Act act) {
  try {
    act();
  } catch (Exc &e) {
    vx_ev("exc", tag, e.id);
  } catch (std::future_error &e) {
    errcode(tag, e);
  } catch (std::bad_function_call &) {
    vx_ev("badcall", tag);
  } catch (std::bad_alloc &) {
    vx_ev("nomem", tag);
  } catch (...) {
    vx_ev("otherexc", tag);
  }
}
// blocks if not ready
template <class F> void get(int tag, F &&f) {
  guarded(tag, [&] { get_val(tag, f); });
}
// never blocks
template <class F> void obs(int tag, F &&f) {
  if (!f.valid())
    vx_ev("invalid", tag);
  else if (!f.is_ready())
    vx_ev("notready", tag);
  else
    get(tag, f);
}
inline void eptr(int tag, std::exception_ptr e) {
  guarded(tag, [&] { std::rethrow_exception(e); });
}

// promise owned by another thread
template <class T> struct owned {
  std::unique_ptr<pc::promise<T>> p;
  long side = 0; // unprotected data of the producer, written before it delivers
  explicit owned(pc::promise<T> &&x) : p(new pc::promise<T>(std::move(x))) {}
};

// what the owner of a promise can do
template <class T> struct maker;
template <> struct maker<U> {
  static void set(pc::promise<U> &p, long id) { p.set_value(U{id}); }
};
template <> struct maker<void> {
  static void set(pc::promise<void> &p, long) { p.set_value(); }
};
struct R { long id; };
inline R robj{70};
inline void val(int tag, R &r) { vx_ev("val", tag, r.id, &r); }
inline void val(int tag, const R &r) { vx_ev("val", tag, r.id, &r); }
template <> struct maker<R &> {
  static void set(pc::promise<R &> &p, long) { p.set_value(robj); }
};
template <> struct maker<std::unique_ptr<U>> {
  static void set(pc::promise<std::unique_ptr<U>> &p, long id) { p.set_value(std::unique_ptr<U>(new U{id})); }
};
enum { VALUE = 0, ERROR = 1, GONE = 2 };
template <class T> void deliver(pc::promise<T> &p, int how, long id) {
  if (how == VALUE)
    maker<T>::set(p, id);
  else if (how == ERROR)
    p.set_exception(std::make_exception_ptr(Exc{id}));
}
// steps of the thread that owns the promise: deliver and let go of it
template <class T, int How, long Id = 7> void produce(void *p) {
  auto *o = static_cast<owned<T> *>(p);
  o->side = 5;
  deliver(*o->p, How, Id);
  o->p.reset();
}
template <class T> void produce_open(void *p) {
  auto *o = static_cast<owned<T> *>(p);
  int how = vx_pick("outcome", 3);
  deliver(*o->p, how, 7);
  o->p.reset();
}
// executor whose copies are user objects with a lifetime
struct ExL {
  Box *box;
  long id;
  ExL(Box *b, long i) : box(b), id(i) { vx_ev("X.ctor", this, id); }
  ExL(const ExL &o) : box(o.box), id(o.id) { vx_ev("X.copy", this, id, &o); }
  ExL(ExL &&o) noexcept : box(o.box), id(o.id) { vx_ev("X.move", this, id, &o); o.id = -7; }
  ~ExL() { vx_ev("X.dtor", this, id); id = -8; }
};
template <class T> void post(const ExL &e, T &&t) { post(Ex{e.box, e.id}, std::forward<T>(t)); }
} // namespace vx
#define ENTRY(n) extern "C" void e_##n()

namespace portable_concurrency {
template <> struct is_executor<vx::ExL> : std::true_type {};
template <> struct is_executor<vx::Ex> : std::true_type {};
} // namespace portable_concurrency

using vx::U;
