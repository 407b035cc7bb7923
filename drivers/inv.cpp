// operations on objects without a state; validity after each operation
#include "vx.h"
#include <chrono>
using namespace vx;

template <class T> struct res { static T make() { return T{60}; } };
template <> struct res<void> { static void make() {} };

enum { I_GET, I_WAIT, I_READY, I_NOTIFY, I_NOTIFYX, I_THEN, I_THENX, I_ITHEN, I_ITHENX, I_NEXT, I_NEXTX, I_DETACH, I_WAITFOR, I_WAITUNTIL, I_TIMED, I_N };
enum { V_SHARE = I_N, V_MOVE, V_ASSIGN, V_COPY, V_N };

template <class T> struct nextf; // what next() functions receive
template <class Fut> static void op(Fut &f, int o, Box &box);
template <class T> static auto nxt(pc::future<T> &) { return fn(10, [](auto &&) {}); }
static auto nxt(pc::future<void> &) { return fn(10, [] {}); }
template <class T> static auto nxt(pc::shared_future<T> &) { return fn(10, [](auto &) {}); }
static auto nxt(pc::shared_future<void> &) { return fn(10, [] {}); }
template <class Fut> static void op(Fut &f, int o, Box &box) {
  switch (o) {
  case I_GET: (void)f.get(); break;
  case I_WAIT: f.wait(); break;
  case I_READY: (void)f.is_ready(); break;
  case I_NOTIFY: f.notify(note(10)); break;
  case I_NOTIFYX: f.notify(Ex{&box, 5}, note(10)); break;
  case I_THEN: { auto r = f.then(fn(10, [](Fut) {})); break; }
  case I_THENX: { auto r = f.then(Ex{&box, 5}, fn(10, [](Fut) {})); break; }
  case I_ITHEN: { auto r = f.then(itn<U, Fut>(10, [](pc::promise<U>, Fut) {})); break; }
  case I_ITHENX: { auto r = f.then(Ex{&box, 5}, itn<U, Fut>(10, [](pc::promise<U>, Fut) {})); break; }
  case I_NEXT: { auto r = f.next(nxt(f)); break; }
  case I_NEXTX: { auto r = f.next(Ex{&box, 5}, nxt(f)); break; }
  case I_DETACH: { auto r = f.detach(); break; }
  case I_WAITFOR: (void)f.wait_for(std::chrono::milliseconds(1)); break;
  case I_WAITUNTIL: (void)f.wait_until(std::chrono::steady_clock::now()); break;
  case I_TIMED: { pc::timed_waiter w{f}; break; }
  }
}
template <class T> static pc::future<T> made() {
  auto pf = pc::make_promise<T>();
  deliver(pf.first, VALUE, 7);
  return std::move(pf.second);
}
template <class T> static void get_invalid(pc::future<T> &f, int how) {
  if (how == 0)
    return;
  f = made<T>();
  if (how == 1) { auto g = std::move(f); }
  if (how == 2) { auto g = f.share(); }
  if (how == 3) { auto g = f.then([](pc::future<T>) {}); }
  if (how == 4) (void)f.get();
  if (how == 5) { auto g = f.detach(); }
}
template <class T> static void get_invalid(pc::shared_future<T> &f, int how) {
  if (how == 0)
    return;
  f = made<T>();
  if (how == 1) { auto g = std::move(f); }
  if (how == 2) { auto g = f.detach(); }
  if (how > 2) vx_stop();
}
template <class Fut> static void invalid() {
  Box box;
  box.mode = NOW;
  Fut f;
  get_invalid(f, vx_pick("made invalid by", 6));
  int o = vx_pick("op", I_N);
  vx_ev("op", o);
  vx_ev("valid0", f.valid() ? 1 : 0);
  guarded(1, [&] { op(f, o, box); vx_ev("accepted"); });
  vx_ev("valid1", f.valid() ? 1 : 0);
}
// allowed operations
template <class T> static void allowed() {
  int how = vx_pick("op", 5);
  pc::future<T> f;
  pc::shared_future<T> s;
  if (vx_bool("moved from")) {
    f = made<T>();
    s = made<T>();
    auto g = std::move(f);
    auto h = std::move(s);
  }
  guarded(1, [&] {
    if (how == 0) { auto x = f.share(); vx_ev("result", x.valid() ? 1 : 0); }
    if (how == 1) { auto x = std::move(f); vx_ev("result", x.valid() ? 1 : 0); f = std::move(x); }
    if (how == 2) { auto x = s; vx_ev("result", x.valid() ? 1 : 0); s = x; }
    if (how == 3) { auto x = std::move(s); vx_ev("result", x.valid() ? 1 : 0); }
    if (how == 4) { pc::shared_future<T> x(std::move(f)); vx_ev("result", x.valid() ? 1 : 0); }
    vx_ev("accepted");
  });
}

static void more(pc::future<U> &f, int o) {
  if (o == V_SHARE) { auto s = f.share(); vx_ev("result", s.valid() ? 1 : 0); }
  if (o == V_MOVE) { auto s = std::move(f); vx_ev("result", s.valid() ? 1 : 0); }
  if (o == V_ASSIGN) { pc::future<U> s = made<U>(); s = std::move(f); vx_ev("result", s.valid() ? 1 : 0); }
  if (o == V_COPY) { vx_stop(); }
}
static void more(pc::shared_future<U> &f, int o) {
  if (o == V_SHARE) vx_stop();
  if (o == V_MOVE) { auto s = std::move(f); vx_ev("result", s.valid() ? 1 : 0); }
  if (o == V_ASSIGN) { pc::shared_future<U> s = made<U>(); s = std::move(f); vx_ev("result", s.valid() ? 1 : 0); }
  if (o == V_COPY) { auto s = f; vx_ev("result", s.valid() ? 1 : 0); }
}
template <class T> static void share_if(pc::future<T> &d, pc::future<T> s) { d = std::move(s); }
template <class T> static void share_if(pc::shared_future<T> &d, pc::future<T> s) { d = std::move(s); }
template <class Fut> static void validity(int ready) {
  Box box;
  box.mode = NOW;
  Fut f;
  auto pf = pc::make_promise<U>();
  if (ready)
    deliver(pf.first, VALUE, 7);
  share_if(f, std::move(pf.second));
  int o = vx_pick("op", V_N);
  if (!ready && (o == I_GET || o == I_WAIT || o == I_WAITFOR || o == I_WAITUNTIL))
    vx_stop();
  vx_ev("op", o);
  guarded(1, [&] {
    if (o < I_N)
      op(f, o, box);
    else
      more(f, o);
    vx_ev("accepted");
  });
  vx_ev("valid1", f.valid() ? 1 : 0);
  if (!ready)
    deliver(pf.first, VALUE, 7);
}

// promise and packaged_task without a state: see hist.cpp for all histories
template <class T> static void promise_nostate() {
  auto pf = pc::make_promise<T>();
  pc::promise<T> q = std::move(pf.first);
  pc::promise<T> &p = pf.first;
  int o = vx_pick("op", 5);
  vx_ev("op", o);
  guarded(1, [&] {
    if (o == 0) maker<T>::set(p, 7);
    if (o == 1) p.set_exception(std::make_exception_ptr(Exc{7}));
    if (o == 2) (void)p.get_future();
    if (o == 3) (void)p.is_awaiten();
    if (o == 4) { pc::promise<T> x(std::move(p)); vx_ev("moved"); }
    vx_ev("accepted");
  });
  vx_ev("pending", pf.second.is_ready() ? 1 : 0);
  deliver(q, VALUE, 7);
  obs(2, pf.second);
}
ENTRY(task_nostate) {
  pc::packaged_task<U(U)> t;
  if (vx_bool("moved from")) {
    t = pc::packaged_task<U(U)>(fn(11, [](U &&u) { return U(std::move(u)); }));
    auto x = std::move(t);
  }
  int o = vx_pick("op", 5);
  vx_ev("op", o);
  vx_ev("valid0", t.valid() ? 1 : 0);
  guarded(1, [&] {
    if (o == 0) t(U{1});
    if (o == 1) (void)t.get_future();
    if (o == 2) { pc::packaged_task<U(U)> x(std::move(t)); vx_ev("result", x.valid() ? 1 : 0); }
    if (o == 3) { pc::packaged_task<U(U)> x; x.swap(t); vx_ev("result", x.valid() ? 1 : 0); }
    if (o == 4) { pc::packaged_task<U(U)> x(fn(10, [](U &&u) { return U(std::move(u)); })); x.swap(t); vx_ev("result", t.valid() && !x.valid() ? 0 : 1); }
    vx_ev("accepted");
  });
}
ENTRY(inv_fu) { invalid<pc::future<U>>(); }
ENTRY(inv_fv) { invalid<pc::future<void>>(); }
ENTRY(inv_fr) { invalid<pc::future<R &>>(); }
ENTRY(inv_su) { invalid<pc::shared_future<U>>(); }
ENTRY(inv_sv) { invalid<pc::shared_future<void>>(); }
ENTRY(inv_sr) { invalid<pc::shared_future<R &>>(); }
ENTRY(allowed_u) { allowed<U>(); }
ENTRY(allowed_v) { allowed<void>(); }
ENTRY(allowed_r) { allowed<R &>(); }
ENTRY(valid_f) { validity<pc::future<U>>(1); }
ENTRY(valid_s) { validity<pc::shared_future<U>>(1); }
ENTRY(valid_f_pending) { validity<pc::future<U>>(0); }
ENTRY(valid_s_pending) { validity<pc::shared_future<U>>(0); }
ENTRY(promise_u) { promise_nostate<U>(); }
ENTRY(promise_v) { promise_nostate<void>(); }
ENTRY(promise_r) { promise_nostate<R &>(); }
