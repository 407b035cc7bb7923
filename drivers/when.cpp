// when_all / when_any
#include "vx.h"
#include <list>
using namespace vx;

enum { NIN = 3 };
struct Inputs {
  std::unique_ptr<pc::promise<U>> p[NIN];
  pc::future<U> f[NIN];
  explicit Inputs(int n) {
    for (int i = 0; i < n; ++i) {
      auto pf = pc::make_promise<U>();
      p[i].reset(new pc::promise<U>(std::move(pf.first)));
      f[i] = std::move(pf.second);
    }
  }
  void complete(int i, int how) {
    vx_ev("complete", i, how);
    deliver(*p[i], how, 100 + i);
    p[i].reset();
    vx_ev("completed", i);
  }
};

// ---------------------------------------------------------------- reading results
template <class F> static void look(int i, F &f) {
  vx_ev("look", i);
  vx_ev("input", i, f.valid() ? (f.is_ready() ? 2 : 1) : 0);
  if (f.valid() && f.is_ready())
    get(10 + i, f);
}
template <class A> static void each(std::vector<pc::future<U>, A> &v) {
  vx_ev("size", (long)v.size());
  for (size_t i = 0; i < v.size(); ++i)
    look(i, v[i]);
}
static void each(std::vector<pc::shared_future<U>> &v) {
  vx_ev("size", (long)v.size());
  for (size_t i = 0; i < v.size(); ++i)
    look(i, v[i]);
}
template <class... F> static void each(std::tuple<F...> &t) {
  vx_ev("size", (long)sizeof...(F));
  std::apply([](auto &...x) { int i = 0; (look(i++, x), ...); }, t);
}
template <class S> static void each(pc::when_any_result<S> &r) {
  vx_ev("index", (long)r.index);
  each(r.futures);
}
template <class F> static void collect(F &f) {
  guarded(1, [&] {
    auto r = f.get();
    vx_ev("got");
    each(r);
  });
}

// ---------------------------------------------------------------- forms of the call
struct AllTuple2 { enum { n = 2 }; static auto call(Inputs &in) { return pc::when_all(std::move(in.f[0]), std::move(in.f[1])); } };
struct AllTupleMixed { enum { n = 3 }; static auto call(Inputs &in) {
  auto s = in.f[1].share();
  return pc::when_all(std::move(in.f[0]), s, in.f[2].share()); } };
struct AllTuple1 { enum { n = 1 }; static auto call(Inputs &in) { return pc::when_all(std::move(in.f[0])); } };
struct AllTuple0 { enum { n = 0 }; static auto call(Inputs &) { return pc::when_all(); } };
template <int N> static std::vector<pc::future<U>> vec(Inputs &in) {
  std::vector<pc::future<U>> v;
  v.reserve(N);
  for (int i = 0; i < N; ++i)
    v.push_back(std::move(in.f[i]));
  return v;
}
template <int N> static std::vector<pc::shared_future<U>> svec(Inputs &in) {
  std::vector<pc::shared_future<U>> v;
  v.reserve(N);
  for (int i = 0; i < N; ++i)
    v.push_back(in.f[i].share());
  return v;
}
template <int N> struct AllVec { enum { n = N }; static auto call(Inputs &in) { return pc::when_all(vec<N>(in)); } };
template <int N> struct AllSVec { enum { n = N }; static auto call(Inputs &in) { return pc::when_all(svec<N>(in)); } };
template <int N> struct AllIt { enum { n = N }; static auto call(Inputs &in) { auto v = vec<N>(in); return pc::when_all(v.begin(), v.end()); } };
template <int N> struct AllSIt { enum { n = N }; static auto call(Inputs &in) {
  auto v = svec<N>(in);
  auto r = pc::when_all(v.begin(), v.end());
  for (auto &f : v) vx_ev("source-valid", f.valid() ? 1 : 0);
  return r; } };
struct AnyTuple2 { enum { n = 2 }; static auto call(Inputs &in) { return pc::when_any(std::move(in.f[0]), std::move(in.f[1])); } };
struct AnyTupleMixed { enum { n = 3 }; static auto call(Inputs &in) {
  auto s = in.f[1].share();
  return pc::when_any(std::move(in.f[0]), s, in.f[2].share()); } };
struct AnyTuple1 { enum { n = 1 }; static auto call(Inputs &in) { return pc::when_any(std::move(in.f[0])); } };
struct AnyTuple0 { enum { n = 0 }; static auto call(Inputs &) { return pc::when_any(); } };
template <int N> struct AnyVec { enum { n = N }; static auto call(Inputs &in) { return pc::when_any(vec<N>(in)); } };
template <int N> struct AnySVec { enum { n = N }; static auto call(Inputs &in) { return pc::when_any(svec<N>(in)); } };
template <int N> struct AnyIt { enum { n = N }; static auto call(Inputs &in) { auto v = vec<N>(in); return pc::when_any(v.begin(), v.end()); } };
template <int N> struct AnySIt { enum { n = N }; static auto call(Inputs &in) {
  auto v = svec<N>(in);
  auto r = pc::when_any(v.begin(), v.end());
  for (auto &f : v) vx_ev("source-valid", f.valid() ? 1 : 0);
  return r; } };

// ---------------------------------------------------------------- one thread: any order, any outcome, the call anywhere between
template <class Form> static void seq() {
  constexpr int n = Form::n;
  Inputs in(n);
  bool done[NIN] = {};
  int before = n ? vx_pick("completed before the call", n + 1) : 0;
  auto step = [&] {
    int i = vx_pick("next", n);
    if (done[i])
      vx_stop();
    done[i] = true;
    in.complete(i, vx_pick("how", 3));
  };
  for (int k = 0; k < before; ++k)
    step();
  auto f = Form::call(in);
  vx_ev("state", f.valid() ? (f.is_ready() ? 2 : 1) : 0);
  f.notify(nt(1, [] {}));
  for (int k = before; k < n; ++k) {
    step();
    vx_ev("state", f.is_ready() ? 2 : 1);
  }
  collect(f);
}
// the result is taken as soon as it is ready, the rest completes later
template <class Form> static void first() {
  constexpr int n = Form::n;
  Inputs in(n);
  int w = vx_pick("first", n);
  auto f = Form::call(in);
  vx_ev("state", f.is_ready() ? 2 : 1);
  in.complete(w, vx_pick("how", 3));
  vx_ev("state", f.is_ready() ? 2 : 1);
  collect(f);
  for (int i = 0; i < n; ++i)
    if (i != w)
      in.complete(i, VALUE);
}

// ---------------------------------------------------------------- other threads complete the inputs
struct one {
  Inputs *in;
  int i;
  int how;
};
static void done(void *p) {
  auto *o = static_cast<one *>(p);
  o->in->complete(o->i, o->how);
}
// during the call
template <class Form> static void call_race() {
  constexpr int n = Form::n;
  Inputs in(n);
  one o[NIN];
  vx_budget(2);
  for (int i = 0; i < n; ++i) {
    o[i] = one{&in, i, i == 1 ? ERROR : VALUE};
    vx_rely("complete", done, &o[i], AT_SYNC | AT_WAIT | AT_EVENT);
  }
  vx_ev("start");
  auto f = Form::call(in);
  f.wait();
  vx_ev("waited", f.is_ready() ? 1 : 0);
  collect(f);
  vx_rest(0);
  vx_join();
}
// one completing thread is analysed, another one interferes; a third reads
template <class Form> static void complete_race() {
  constexpr int n = Form::n;
  Inputs in(n);
  auto f = Form::call(in);
  f.notify(nt(1, [&] { collect(f); }));
  one o[NIN];
  vx_budget(2);
  for (int i = 1; i < n; ++i) {
    o[i] = one{&in, i, VALUE};
    vx_rely("complete", done, &o[i], AT_SYNC | AT_EVENT);
  }
  vx_ev("start");
  in.complete(0, VALUE);
  vx_rest(0);
  vx_join();
  vx_ev("done");
}
template <class F> struct rd { F *f; };
template <class F> static void reader(void *p) {
  auto *r = static_cast<rd<F> *>(p);
  r->f->wait();
  vx_ev("waited", 1);
  collect(*r->f);
}
template <class Form> static void read_race() {
  constexpr int n = Form::n;
  Inputs in(n);
  auto f = Form::call(in);
  using F = decltype(f);
  rd<F> r{&f};
  one o[NIN];
  vx_budget(3);
  for (int i = 1; i < n; ++i) {
    o[i] = one{&in, i, VALUE};
    vx_rely("complete", done, &o[i], AT_SYNC);
  }
  vx_rely("read", reader<F>, &r, AT_SYNC);
  vx_ev("start");
  in.complete(0, VALUE);
  vx_rest(0);
  vx_join();
  vx_ev("done");
}
// the combined future is dropped
template <class Form> static void dropped() {
  constexpr int n = Form::n;
  Inputs in(n);
  int at = vx_pick("dropped after", n + 1);
  {
    auto f = Form::call(in);
    for (int i = 0; i < at; ++i)
      in.complete(i, vx_pick("how", 3));
  }
  vx_ev("dropped");
  for (int i = at; i < n; ++i)
    in.complete(i, vx_pick("how", 3));
}

#define SEQ(n, F) ENTRY(seq_##n) { seq<F>(); }
#define FIRST(n, F) ENTRY(first_##n) { first<F>(); }
#define RACES(n, F)                                                                                                                        \
  ENTRY(call_##n) { call_race<F>(); }                                                                                                       \
  ENTRY(compl_##n) { complete_race<F>(); }                                                                                                  \
  ENTRY(drop_##n) { dropped<F>(); }
#define READ(n, F) ENTRY(read_##n) { read_race<F>(); }
SEQ(all_t0, AllTuple0) SEQ(all_t1, AllTuple1) SEQ(all_t2, AllTuple2) SEQ(all_tm, AllTupleMixed)
SEQ(all_v0, AllVec<0>) SEQ(all_v2, AllVec<2>) SEQ(all_v3, AllVec<3>) SEQ(all_sv2, AllSVec<2>) SEQ(all_sv0, AllSVec<0>)
SEQ(all_i0, AllIt<0>) SEQ(all_i2, AllIt<2>) SEQ(all_si0, AllSIt<0>) SEQ(all_si2, AllSIt<2>) SEQ(all_v1, AllVec<1>)
SEQ(any_t0, AnyTuple0) SEQ(any_t1, AnyTuple1) SEQ(any_t2, AnyTuple2) SEQ(any_tm, AnyTupleMixed)
SEQ(any_v0, AnyVec<0>) SEQ(any_v2, AnyVec<2>) SEQ(any_v3, AnyVec<3>) SEQ(any_sv2, AnySVec<2>) SEQ(any_sv0, AnySVec<0>)
SEQ(any_i0, AnyIt<0>) SEQ(any_i2, AnyIt<2>) SEQ(any_si0, AnySIt<0>) SEQ(any_si2, AnySIt<2>) SEQ(any_v1, AnyVec<1>)
FIRST(any_t2, AnyTuple2) FIRST(any_tm, AnyTupleMixed) FIRST(any_v3, AnyVec<3>) FIRST(any_si2, AnySIt<2>)
RACES(all_t2, AllTuple2) RACES(all_v2, AllVec<2>) RACES(all_si2, AllSIt<2>)
RACES(any_t2, AnyTuple2) RACES(any_v2, AnyVec<2>) RACES(any_si2, AnySIt<2>)
READ(all_t2, AllTuple2) READ(any_t2, AnyTuple2)
