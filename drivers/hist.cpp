// promise and packaged_task: all histories of operations up to a length
#include "vx.h"
using namespace vx;

#ifdef VX_THOROUGH
enum { LEN = 4 };
#else
enum { LEN = 3 };
#endif

template <class F> static void fut(int i, F &f) { vx_ev("fut", i, f.valid() ? (f.is_ready() ? 2 : 1) : 0); }

template <class T> static void give(pc::promise<T> &p, long id) { maker<T>::set(p, id); }
template <> void give(pc::promise<U> &p, long id) {
  if (id & 1) {
    U u{id};
    p.set_value(u);
    vx_ev("kept", id, u.id);
  } else
    p.set_value(U{id});
}

// ---------------------------------------------------------------- promise
enum { SET, ERR, GETF, Q_FROM_P, P_FROM_Q, SETQ, DROPF, AWAIT, DESTROY, NOTIFY, MOVEF, PROMISE_OPS };

// Old: made by promise() and get_future(), otherwise by make_promise()
template <class T, bool Old> static void promise_history(int op0) {
  std::unique_ptr<pc::promise<T>> p, q;
  pc::future<T> f, g;
  if (Old) {
    p.reset(new pc::promise<T>);
    q.reset(new pc::promise<T>);
    g = q->get_future();
  } else {
    auto a = pc::make_promise<T>();
    auto b = pc::make_promise<T>();
    p.reset(new pc::promise<T>(std::move(a.first)));
    q.reset(new pc::promise<T>(std::move(b.first)));
    f = std::move(a.second);
    g = std::move(b.second);
  }
  for (int k = 0; k < LEN; ++k) {
    int op = k ? vx_pick("op", PROMISE_OPS) : op0;
    if (!p && op != SETQ && op != DROPF && op != NOTIFY && op != MOVEF)
      vx_stop();
    vx_ev("op", k, op);
    guarded(k, [&] {
      switch (op) {
      case SET: give(*p, 20 + k); break;
      case ERR: p->set_exception(std::make_exception_ptr(Exc{20 + k})); break;
      case GETF: { auto x = p->get_future(); f = std::move(x); break; }
      case Q_FROM_P: *q = std::move(*p); break;
      case P_FROM_Q: *p = std::move(*q); break;
      case SETQ: give(*q, 20 + k); break;
      case DROPF: f = pc::future<T>{}; break;
      case AWAIT: vx_ev("awaiten", p->is_awaiten() ? 1 : 0); break;
      case DESTROY: p.reset(); break;
      case NOTIFY: f.notify(nt(100 + k, [] {})); break;
      case MOVEF: { pc::future<T> t(std::move(f)); vx_ev("moved", f.valid() ? 1 : 0); f = std::move(t); break; }
      }
      vx_ev("ok", k);
    });
    fut(0, f);
    fut(1, g);
  }
  vx_ev("op", 50, DESTROY);
  p.reset();
  vx_ev("op", 51, 50);
  q.reset();
  fut(0, f);
  fut(1, g);
  obs(60, f);
  obs(61, g);
}

#define P1(T, n, o) \
  ENTRY(p_##n##_##o) { promise_history<T, false>(o); } \
  ENTRY(o_##n##_##o) { promise_history<T, true>(o); }
#define P11(T, n) P1(T, n, 0) P1(T, n, 1) P1(T, n, 2) P1(T, n, 3) P1(T, n, 4) P1(T, n, 5) P1(T, n, 6) P1(T, n, 7) P1(T, n, 8) P1(T, n, 9) P1(T, n, 10)

// ---------------------------------------------------------------- packaged_task
enum { T_RUN, T_GETF, U_FROM_T, T_FROM_U, T_SWAP, U_RUN, T_DROPF, T_DESTROY, T_NOTIFY, T_VALID, T_CTOR, TASK_OPS };

template <class T> struct back;
template <> struct back<U> { static U make(long id, U &&a) { U x(std::move(a)); vx_ev("argument", id, x.id); return U{id}; } };
template <> struct back<void> { static void make(long id, U &&a) { vx_ev("argument", id, a.id); } };
template <> struct back<R &> { static R &make(long id, U &&a) { vx_ev("argument", id, a.id); return robj; } };

template <class T> static void task_history(int op0) {
  auto body = [](long id) { return fn(id, [id](U &&a) -> T { return back<T>::make(id, std::move(a)); }); };
  std::unique_ptr<pc::packaged_task<T(U)>> t(new pc::packaged_task<T(U)>(body(30))), u(new pc::packaged_task<T(U)>(body(31)));
  pc::future<T> f, g = u->get_future();
  for (int k = 0; k < LEN; ++k) {
    int op = k ? vx_pick("op", TASK_OPS) : op0;
    if (!t && op != U_RUN && op != T_DROPF && op != T_NOTIFY)
      vx_stop();
    vx_ev("op", k, op);
    guarded(k, [&] {
      switch (op) {
      case T_RUN: (*t)(U{80 + k}); break;
      case T_GETF: { auto x = t->get_future(); f = std::move(x); break; }
      case U_FROM_T: *u = std::move(*t); break;
      case T_FROM_U: *t = std::move(*u); break;
      case T_SWAP: t->swap(*u); break;
      case U_RUN: (*u)(U{80 + k}); break;
      case T_DROPF: f = pc::future<T>{}; break;
      case T_DESTROY: t.reset(); break;
      case T_NOTIFY: f.notify(nt(100 + k, [] {})); break;
      case T_VALID: vx_ev("tvalid", t->valid() ? 1 : 0, u->valid() ? 1 : 0); break;
      case T_CTOR: { pc::packaged_task<T(U)> x(std::move(*t)); vx_ev("moved", t->valid() ? 1 : 0); t->swap(x); break; }
      }
      vx_ev("ok", k);
    });
    fut(0, f);
    fut(1, g);
  }
  vx_ev("op", 50, T_DESTROY);
  t.reset();
  vx_ev("op", 51, 50);
  u.reset();
  fut(0, f);
  fut(1, g);
  obs(60, f);
  obs(61, g);
}
#define T1(T, n, o) ENTRY(t_##n##_##o) { task_history<T>(o); }
#define T11(T, n) T1(T, n, 0) T1(T, n, 1) T1(T, n, 2) T1(T, n, 3) T1(T, n, 4) T1(T, n, 5) T1(T, n, 6) T1(T, n, 7) T1(T, n, 8) T1(T, n, 9) T1(T, n, 10)
// Old promises with a canceller are in cancel.cpp

#if HIST_PART == 0
P11(U, u)
#elif HIST_PART == 1
P11(void, v)
#elif HIST_PART == 2
P11(R &, r)
#elif HIST_PART == 3
T11(U, u)
#elif HIST_PART == 4
T11(void, v)
T11(R &, r)
#endif
