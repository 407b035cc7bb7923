// unique_function: histories over two objects, for each kind of callable; arguments and results
#include "vx.h"
using namespace vx;

struct M {
  long id;
  long mf() { vx_ev("F.call", 13); vx_ev("F.arg", 13, this); return 113; }
  long cmf() const noexcept { vx_ev("F.call", 14); vx_ev("F.arg", 14, this); return 114; }
};
static long free_fn(M &m) { vx_ev("F.call", 15); vx_ev("F.arg", 15, &m); return 115; }
static long free_fn2(M &m) { vx_ev("F.call", 16); vx_ev("F.arg", 16, &m); return 116; }

// functor; Nothrow move, size, copyable; moves may throw once the function has been made
static bool armed;
template <bool Nothrow, int Pad> struct C {
  long id;
  long pad[Pad + 1] = {};
  explicit C(long i) : id(i) { vx_ev("F.ctor", this, id); }
  C(C &&o) noexcept(Nothrow) : id(o.id) {
    if (!Nothrow && armed && vx_bool("move throws")) {
      vx_ev("F.throw", id);
      throw Exc{id};
    }
    vx_ev("F.move", this, id, &o);
    o.id = -7;
  }
  C(const C &o) : id(o.id) { vx_ev("F.copy", this, id, &o); }
  ~C() { vx_ev("F.dtor", this, id); id = -8; }
  long operator()(M &m) {
    vx_ev("F.call", id);
    vx_ev("F.arg", id, &m);
    if (vx_bool("user function throws")) {
      vx_ev("F.throw", id);
      throw Exc{id};
    }
    return id + 100;
  }
};
using Sig = pc::unique_function<long(M &)>;
using Small = C<true, 0>;
using Big = C<true, 7>;
using Thr = C<false, 0>;
struct alignas(32) Al {
  long id;
  explicit Al(long i) : id(i) { vx_ev("F.ctor", this, id); }
  Al(Al &&o) noexcept : id(o.id) { vx_ev("F.move", this, id, &o); o.id = -7; }
  ~Al() { vx_ev("F.dtor", this, id); id = -8; }
  long operator()(M &m) {
    vx_ev("F.call", id);
    vx_ev("F.arg", id, &m);
    return id + 100;
  }
};

enum { SMALL, BIG, THR, ALIGNED, FPTR, FREF, MF, CMF, MD, REFW, LVAL, BIGLVAL, NESTED, STDF, NULLF, NULLMF, NULLMD, EMPTYSTD, EMPTYNESTED, EMPTYBIG, KINDS };
static Small *refd;

template <int K> struct mk;
struct disarm {
  bool was = armed;
  disarm() { armed = false; }
  ~disarm() { armed = was; }
};
#define MK(K, expr) template <> struct mk<K> { static Sig make(long i) { (void)i; disarm d; return expr; } };
MK(SMALL, Sig(Small(i)))
MK(BIG, Sig(Big(i)))
MK(THR, Sig(Thr(i)))
MK(ALIGNED, Sig(Al(i)))
MK(FPTR, Sig(&free_fn))
MK(FREF, Sig(free_fn2))
MK(MF, Sig(&M::mf))
MK(CMF, Sig(&M::cmf))
MK(MD, Sig(&M::id))
MK(REFW, Sig(std::ref(*refd)))
template <> struct mk<LVAL> {
  static Sig make(long i) { Small s(i); Sig f(s); vx_ev("source", s.id == i ? 1 : 0); return f; }
};
template <> struct mk<BIGLVAL> {
  static Sig make(long i) { const Big s(i); Sig f(s); vx_ev("source", s.id == i ? 1 : 0); return f; }
};
template <> struct mk<NESTED> {
  static Sig make(long i) { pc::unique_function<int(M &)> g(Small{i}); return Sig(std::move(g)); }
};
template <> struct mk<STDF> {
  static Sig make(long i) { std::function<long(M &)> g(free_fn); return Sig(std::move(g)); }
};
MK(NULLF, Sig(static_cast<long (*)(M &)>(nullptr)))
MK(NULLMF, Sig(static_cast<long (M::*)()>(nullptr)))
MK(NULLMD, Sig(static_cast<long M::*>(nullptr)))
MK(EMPTYSTD, Sig(std::function<long(M &)>{}))
MK(EMPTYNESTED, Sig(Sig{}))
template <> struct mk<EMPTYBIG> {
  struct nullable : Big {
    bool null;
    nullable(long i, bool n) : Big(i), null(n) {}
    bool operator==(std::nullptr_t) const { return null; }
  };
  static Sig make(long i) { return Sig(nullable{i, true}); }
};

static void call(int s, Sig &f, M &m) {
  vx_ev("call", s);
  guarded(30 + s, [&] { val(30 + s, f(m)); });
  vx_ev("called", s);
}
#ifdef VX_THOROUGH
enum { LEN = 4 };
#else
enum { LEN = 3 };
#endif
// one history: starts with kind K in object 0
template <int K> static void history() {
  Small rf(12);
  refd = &rf;
  M m{77};
  vx_watch("arg", &m);
  vx_ev("M", &m);
  {
    Sig f[2] = {mk<K>::make(10), Sig(nullptr)};
    armed = true;
    vx_ev("test", 0, f[0] ? 1 : 0);
    vx_ev("test", 1, f[1] ? 1 : 0);
    bool mv[2] = {false, false}; // moved from: may only be assigned, moved or destroyed
    for (int k = 0; k < LEN; ++k) {
      int op = vx_pick("op", 12);
      int s = op & 1, t = 1 - s;
      switch (op / 2) {
      case 0: if (mv[s]) vx_stop(); call(s, f[s], m); break;
      case 1: vx_ev("assign", s); f[s] = std::move(f[t]); mv[s] = mv[t]; mv[t] = true; break;
      case 2: { vx_ev("through", s); Sig x(std::move(f[s])); vx_ev("built", s); f[s] = std::move(x); break; }
      case 3: if (s) { vx_ev("swap"); std::swap(f[0], f[1]); } else { vx_ev("swap"); using std::swap; swap(f[1], f[0]); } std::swap(mv[0], mv[1]); break;
      case 4: if (s) { vx_ev("null", 0); f[0] = Sig(nullptr); mv[0] = false; } else { vx_ev("null", 1); f[1] = Sig{}; mv[1] = false; } break;
      case 5: vx_ev("fresh", s); f[s] = s ? mk<K>::make(20 + k) : Sig(Small(20 + k)); mv[s] = false; break;
      }
      vx_ev("step");
    }
    if (vx_bool("test")) {
      vx_ev("test", 0, f[0] ? 1 : 0);
      vx_ev("test", 1, f[1] ? 1 : 0);
    }
    vx_ev("end");
  }
  vx_ev("gone");
}
#define H(n, K) ENTRY(h_##n) { history<K>(); }
#if FUNC_PART == 0
H(small, SMALL) H(big, BIG) H(thr, THR) H(aligned, ALIGNED) H(fptr, FPTR) H(fref, FREF) H(mf, MF) H(cmf, CMF) H(md, MD) H(refw, REFW)
#elif FUNC_PART == 1
H(lval, LVAL) H(biglval, BIGLVAL) H(nested, NESTED) H(stdf, STDF)
H(nullf, NULLF) H(nullmf, NULLMF) H(nullmd, NULLMD) H(emptystd, EMPTYSTD) H(emptynested, EMPTYNESTED) H(emptybig, EMPTYBIG)
#else
// ---------------------------------------------------------------- arguments and results
template <int Pad> struct args_fn {
  long pad[Pad + 1] = {};
  U *lref;
  const U *cref;
  std::unique_ptr<U> operator()(U a, const U &b, U &c, U &&d, std::unique_ptr<U> e) const {
    vx_ev("args", a.id, b.id, c.id, d.id, e->id, &c == lref && &b == cref ? 1 : 0);
    return e;
  }
};
template <int Pad> static void arguments() {
  U b{41}, c{42}, d{43}, a{44};
  args_fn<Pad> f;
  f.lref = &c;
  f.cref = &b;
  pc::unique_function<std::unique_ptr<U>(U, const U &, U &, U &&, std::unique_ptr<U>)> u(f);
  auto r = u(a, b, c, std::move(d), std::unique_ptr<U>(new U{45}));
  vx_ev("sources", a.id, b.id, c.id);
  vx_ev("res", r->id);
  auto r2 = u(U{50}, b, c, U{53}, std::unique_ptr<U>(new U{55}));
  vx_ev("res", r2->id);
}
ENTRY(args_small) { arguments<0>(); }
ENTRY(args_big) { arguments<7>(); }
// results: references denote the same object
template <class Res, class F> static void refres(F f) {
  pc::unique_function<Res()> u(std::move(f));
  auto &&r = u();
  vx_ev("same", static_cast<const void *>(&r) == static_cast<const void *>(&robj) ? 1 : 0);
  pc::unique_function<Res()> w(std::move(u));
  auto &&r2 = w();
  vx_ev("same", static_cast<const void *>(&r2) == static_cast<const void *>(&robj) ? 1 : 0);
}
template <int N> struct pad { long c[N + 1] = {}; };
ENTRY(res_small) { refres<R &>([]() -> R & { return robj; }); }
ENTRY(res_big) { pad<7> p; refres<R &>([p]() -> R & { return robj; }); }
ENTRY(res_csmall) { refres<const R &>([]() -> const R & { return robj; }); }
ENTRY(res_cbig) { pad<7> p; refres<const R &>([p]() -> const R & { return robj; }); }
ENTRY(res_conv) { pad<7> p; refres<const R &>([p]() -> R & { return robj; }); }
static R &give() { return robj; }
ENTRY(res_fptr) { refres<R &>(&give); }
template <class F> static void discarded(F f) {
  pc::unique_function<void()> u(std::move(f));
  u();
  vx_ev("returned");
}
ENTRY(void_small) { discarded([] { vx_ev("ran"); return U{9}; }); }
ENTRY(void_big) { pad<7> p; discarded([p] { vx_ev("ran"); return U{9}; }); }
// a function that destroys, replaces or re-enters its own holder
ENTRY(self) {
  auto *u = new pc::unique_function<void(int)>;
  int how = vx_pick("how", 2);
  *u = pc::unique_function<void(int)>([u, how, keep = U{7}](int depth) mutable {
    vx_ev("ran", depth);
    if (depth)
      (*u)(depth - 1);
    vx_ev("keep", keep.id);
  });
  (*u)(2);
  if (how)
    delete u;
  else {
    *u = pc::unique_function<void(int)>(nullptr);
    guarded(2, [&] { (*u)(1); });
    delete u;
  }
}
// a callable whose move or copy constructor throws leaves nothing behind
struct Bomb {
  long id;
  long pad[8] = {};
  explicit Bomb(long i) : id(i) { vx_ev("F.ctor", this, id); }
  Bomb(const Bomb &o) : id(o.id) {
    if (vx_bool("copy throws")) {
      vx_ev("F.throw", id);
      throw Exc{id};
    }
    vx_ev("F.copy", this, id, &o);
  }
  ~Bomb() { vx_ev("F.dtor", this, id); id = -8; }
  void operator()() { vx_ev("F.call", id); }
};
ENTRY(bomb) {
  pc::unique_function<void()> f(nt(11, [] {}));
  guarded(2, [&] {
    Bomb b(10);
    f = pc::unique_function<void()>(b);
    vx_ev("replaced");
  });
  f();
}
#endif
