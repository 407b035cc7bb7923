"""Planted bugs (development aid; no check reads this or seeded/)."""
S = {}
B = "bits/"


def seed(id, prop, edits, demo, needs, what, **kw):
    S[id] = dict(property=prop, edits=[(B + f, o, n) for f, o, n in edits], demo=demo, needs=needs, what=what, **kw)


seed("wait-no-predicate", "C03",
     [("portable_concurrency.cpp", "  cv.wait(lk, [&] { return ready; });\n}", "  if (!ready)\n    cv.wait(lk);\n}")],
     r"""
// the demo's condition variables wake spuriously once, as POSIX allows
#include <portable_concurrency/future>
#include <chrono>
#include <cstdio>
#include <dlfcn.h>
#include <pthread.h>
#include <thread>
static bool once = true;
extern "C" int pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) {
  if (once) { once = false; return 0; }
  static auto real = reinterpret_cast<int (*)(pthread_cond_t *, pthread_mutex_t *)>(dlsym(RTLD_NEXT, "pthread_cond_wait"));
  return real(c, m);
}
namespace pc = portable_concurrency;
int main() {
  auto pf = pc::make_promise<int>();
  std::thread t([p = std::move(pf.first)]() mutable {
    std::this_thread::sleep_for(std::chrono::milliseconds(300));
    p.set_value(5);
  });
  pf.second.wait();
  bool ready = pf.second.is_ready();
  t.join();
  std::printf("ready after wait: %d\n", ready);
  return ready ? 0 : 1;
}
""", "a spurious wake-up of the condition variable", "wait() returns although the result is not there")

seed("wait-notify-unlocked", "C04",
     [("portable_concurrency.cpp", """    std::lock_guard<std::mutex> guard{mtx};
    ready = true;
    cv.notify_one();
  });""", """    {
      std::lock_guard<std::mutex> guard{mtx};
      ready = true;
    }
    cv.notify_one();
  });""")],
     r"""
// spurious wake-ups (legal) and a slow notifier: who notifies must not use the waiter's condition variable when it has left
#include <portable_concurrency/future>
#include <atomic>
#include <chrono>
#include <cstdio>
#include <pthread.h>
#include <thread>
#include <unistd.h>
static std::atomic<bool> left{false}, bad{false};
extern "C" int pthread_cond_wait(pthread_cond_t *, pthread_mutex_t *m) {
  pthread_mutex_unlock(m);
  usleep(5000);
  pthread_mutex_lock(m);
  return 0;
}
extern "C" int pthread_cond_signal(pthread_cond_t *) {
  usleep(200000);
  if (left) bad = true;
  return 0;
}
extern "C" int pthread_cond_broadcast(pthread_cond_t *c) { return pthread_cond_signal(c); }
namespace pc = portable_concurrency;
int main() {
  auto pf = pc::make_promise<int>();
  std::thread t([p = std::move(pf.first)]() mutable {
    usleep(50000);
    p.set_value(5);
  });
  pf.second.wait();
  left = true;
  t.join();
  std::printf("condition variable used after its waiter left: %d\n", bad.load());
  return bad ? 1 : 0;
}
""", "the waiting thread returns between the unlock and the notification", "the delivering thread notifies a condition variable on a stack frame that is gone")

seed("queue-reject-under-lock", "C16",
     [("closable_queue.hpp", "  if (closed_)\n    return;\n  queue_", "  if (closed_) {\n    // release what the rejected task owns\n    T rejected = std::move(val);\n    return;\n  }\n  queue_")],
     r"""
#include <portable_concurrency/thread_pool>
#include <portable_concurrency/functional>
#include <cstdio>
#include <unistd.h>
namespace pc = portable_concurrency;
struct again {
  pc::static_thread_pool *pool;
  explicit again(pc::static_thread_pool *p) : pool(p) {}
  again(again &&o) noexcept : pool(o.pool) { o.pool = nullptr; }
  ~again() { if (pool) post(pool->executor(), [] {}); }
  void operator()() {}
};
int main() {
  pc::static_thread_pool pool(1);
  pool.wait();
  alarm(5);
  post(pool.executor(), again{&pool});
  std::puts("ok");
}
""", "a task rejected by a closed pool whose destructor uses the same pool", "user code (a task's destructor) runs under the queue's mutex and deadlocks when it posts")

seed("latch-dtor-no-wakeup", "C17",
     [("portable_concurrency.cpp", """void latch::wait() const {
  std::unique_lock<std::mutex> lock{mutex_};
  ++waiters_;
  cv_.wait(lock, [this] { return counter_ == 0; });
  if (--waiters_ == 0)
    cv_.notify_one();
}""", """void latch::wait() const {
  std::unique_lock<std::mutex> lock{mutex_};
  ++waiters_;
  cv_.wait(lock, [this] { return counter_ == 0; });
  --waiters_;
}""")],
     r"""
#include <portable_concurrency/latch>
#include <atomic>
#include <chrono>
#include <memory>
#include <thread>
#include <unistd.h>
namespace pc = portable_concurrency;
int main() {
  alarm(30);
  for (int i = 0; i < 300; ++i) {
    auto l = std::make_unique<pc::latch>(1);
    std::thread t[3];
    for (auto &x : t) x = std::thread([&l] { l->wait(); });
    std::this_thread::sleep_for(std::chrono::milliseconds(10));
    l->count_down(1);
    l.reset(); // the destructor waits for the threads still inside
    for (auto &x : t) x.join();
  }
}
""", "the latch is destroyed right after the last count-down, while released threads are still leaving wait()", "the destructor is never woken and blocks forever")

seed("exec-reference", "C22",
     [("then.hpp", """    E exec = std::move(self->exec.get(in_place_index_t<1>{}));
    self->exec.clean();
    std::weak_ptr<cnt_state> wstate = std::exchange(self, nullptr);
    post(exec,""", """    auto &exec = self->exec.get(in_place_index_t<1>{});
    std::weak_ptr<cnt_state> wstate = std::exchange(self, nullptr);
    post(exec,""")],
     r"""
#include <portable_concurrency/execution>
#include <portable_concurrency/future>
#include <cstdio>
namespace pc = portable_concurrency;
#include <set>
static std::set<const void *> alive;
struct counting {
  int *posted;
  explicit counting(int *p) : posted(p) { alive.insert(this); }
  counting(const counting &o) : posted(o.posted) { alive.insert(this); }
  ~counting() { alive.erase(this); }
};
template <class F> void post(const counting &e, F &&f) {
  std::decay_t<F> g(std::forward<F>(f));
  g();
  if (alive.count(&e))
    ++*e.posted; // still the executor that was given
}
namespace portable_concurrency { template <> struct is_executor<counting> : std::true_type {}; }
int main() {
  int n = 0;
  auto pf = pc::make_promise<int>();
  pc::future<int> res;
  res = pf.second.next(counting{&n}, [&res](int v) { res = pc::future<int>{}; return v; });
  pf.first.set_value(1);
  std::printf("posted %d\n", n);
  return n == 1 ? 0 : 1;
}
""", "the continuation (or another thread) drops the last future while the executor is still in post", "the executor object is destroyed while its post runs", flags="-O1 -fsanitize=address,undefined -fno-sanitize=alignment")

seed("unwrap-catch-std", "C07",
     [("then.hpp", """      shared_state<R>::unwrap(
          state,
          state_of(this_ns::invoke(
              std::move(f), static_cast<cref_t<T>>(parent->value_ref()))));
    } catch (...) {""", """      shared_state<R>::unwrap(
          state,
          state_of(this_ns::invoke(
              std::move(f), static_cast<cref_t<T>>(parent->value_ref()))));
    } catch (const std::exception &) {""")],
     r"""
#include <portable_concurrency/future>
namespace pc = portable_concurrency;
struct odd {};
int main() {
  auto f = pc::make_ready_future(1).share().next([](const int &) -> pc::future<int> { throw odd{}; });
  try { f.get(); } catch (odd) { return 0; }
  return 1;
}
""", "a shared_future next() function returning a future throws a type not derived from std::exception", "the exception terminates the process instead of becoming the result")

seed("shared-next-mutable", "C25",
     [("then.hpp", """    set_state_value(state, std::move(f),
                    static_cast<cref_t<T>>(parent->value_ref()));""", """    set_state_value(state, std::move(f), parent->value_ref());""")],
     r"""
#include <portable_concurrency/future>
#include <cstdio>
#include <string>
#include <utility>
namespace pc = portable_concurrency;
struct take {
  std::string operator()(const std::string &s) const { return s; }
  std::string operator()(std::string &s) const { return std::exchange(s, ""); }
};
int main() {
  auto s = pc::make_ready_future(std::string("a rather long string value")).share();
  auto n = s.next(take{});
  n.get();
  std::printf("'%s'\n", s.get().c_str());
  return s.get() == "a rather long string value" ? 0 : 1;
}
""", "a continuation overloaded on constness, then another reader of the same shared state", "one reader of a shared_future changes the value seen by the others")

seed("assign-empty-keeps", "C14",
     [("small_unique_function.hpp", """  if (vtbl_)
    vtbl_->destroy(buffer_);
  if (rhs.vtbl_)
    rhs.vtbl_->move(rhs.buffer_, buffer_);
  vtbl_ = rhs.vtbl_;
  return *this;""", """  if (!rhs.vtbl_)
    return *this;
  if (vtbl_)
    vtbl_->destroy(buffer_);
  rhs.vtbl_->move(rhs.buffer_, buffer_);
  vtbl_ = rhs.vtbl_;
  return *this;""")],
     r"""
#include <portable_concurrency/functional>
#include <cstdio>
#include <memory>
namespace pc = portable_concurrency;
int main() {
  auto p = std::make_shared<int>(1);
  pc::unique_function<int()> f = [p] { return *p; };
  f = pc::unique_function<int()>{};
  std::printf("owners %ld\n", p.use_count());
  return p.use_count() == 1 && !f ? 0 : 1;
}
""", "assigning an empty function to one that holds a callable", "the old callable is neither destroyed nor replaced")


seed("is-consumed-relaxed", "C02",
     [("once_consumable_stack.hpp", "  return head_.load(std::memory_order_acquire) == consumed_marker();", "  return head_.load(std::memory_order_relaxed) == consumed_marker();")],
     r"""
#include <portable_concurrency/future>
#include <thread>
namespace pc = portable_concurrency;
int main() {
  for (int i = 0; i < 30; ++i) {
    auto pf = pc::make_promise<int>();
    long side = 0;
    std::thread t([&] { side = 7; pf.first.set_value(1); });
    while (!pf.second.is_ready()) {}
    long seen = side;
    t.join();
    if (seen != 7) return 2;
  }
}
""", "a thread polls is_ready() and then reads what the producer wrote before delivering (weak memory; thread sanitizer)",
     "is_ready() returning true no longer makes the producer's writes visible", flags="-O1 -fsanitize=thread", env="setarch -R env TSAN_OPTIONS=exitcode=66 ")

seed("queue-closed-unlocked", "C13",
     [("closable_queue.hpp", """  std::lock_guard<std::mutex> guard(mutex_);
  if (closed_)
    return;
  queue_""", """  if (closed_)
    return; // nobody is going to take it
  std::lock_guard<std::mutex> guard(mutex_);
  queue_""")],
     r"""
// the pool is closed while another thread is between the test and the push
#include <portable_concurrency/future>
#include <portable_concurrency/thread_pool>
#include <atomic>
#include <chrono>
#include <cstdio>
#include <dlfcn.h>
#include <pthread.h>
#include <thread>
#include <unistd.h>
static thread_local bool slow = false;
extern "C" int pthread_mutex_lock(pthread_mutex_t *m) {
  static auto real = reinterpret_cast<int (*)(pthread_mutex_t *)>(dlsym(RTLD_NEXT, "pthread_mutex_lock"));
  if (slow) usleep(300000);
  return real(m);
}
namespace pc = portable_concurrency;
int main() {
  pc::static_thread_pool pool(1);
  pc::future<int> f;
  std::thread t([&] {
    auto ex = pool.executor();
    slow = true;
    f = pc::async(ex, [] { return 1; });
    slow = false;
  });
  usleep(100000);
  pool.wait();
  t.join();
  std::printf("ready: %d\n", f.is_ready());
  return f.is_ready() ? 0 : 1;
}
""", "wait() or stop() closes the pool between the poster's test of the closed flag and its push", "a task is accepted by a closed pool: never run, and its future stays pending")


seed("all-plain-counter", "C11",
     [("when_all.h", "  std::atomic<size_t> operations_remains_;", "  size_t operations_remains_;")],
     r"""
#include <portable_concurrency/future>
#include <atomic>
#include <cstdio>
#include <thread>
#include <vector>
namespace pc = portable_concurrency;
int main() {
  for (int i = 0; i < 20000; ++i) {
    std::vector<pc::promise<void>> p;
    std::vector<pc::future<void>> v;
    for (int k = 0; k < 4; ++k) {
      auto pf = pc::make_promise<void>();
      p.push_back(std::move(pf.first));
      v.push_back(std::move(pf.second));
    }
    auto f = pc::when_all(std::move(v));
    std::atomic<int> go{0};
    auto w = [&](int a) { ++go; while (go < 2) {} p[a].set_value(); p[a + 1].set_value(); };
    std::thread x(w, 0);
    w(2);
    x.join();
    if (!f.is_ready()) { std::printf("not ready in round %d\n", i); return 1; }
  }
}
""", "two inputs complete at the same moment on different threads", "a completion is lost and the combined future never becomes ready")


seed("timeout-wins", "C21",
     [("timed_waiter.h", """    return waiter_->cv.wait_until(lk, tp, [&] { return waiter_->notified; })
               ? future_status::ready
               : future_status::timeout;""", """    while (!waiter_->notified)
      if (waiter_->cv.wait_until(lk, tp) == std::cv_status::timeout)
        return future_status::timeout;
    return future_status::ready;""")],
     """
// the result is delivered after the deadline passed and before the waiter has its mutex back
#include <portable_concurrency/future>
#include <portable_concurrency/timed_waiter>
#include <cerrno>
#include <chrono>
#include <cstdio>
#include <functional>
#include <pthread.h>
#include <time.h>
static std::function<void()> deliver;
static int late(pthread_mutex_t *m) {
  pthread_mutex_unlock(m);
  if (deliver) { auto d = std::move(deliver); deliver = nullptr; d(); }
  pthread_mutex_lock(m);
  return ETIMEDOUT;
}
extern "C" int pthread_cond_timedwait(pthread_cond_t *, pthread_mutex_t *m, const timespec *) { return late(m); }
extern "C" int pthread_cond_clockwait(pthread_cond_t *, pthread_mutex_t *m, clockid_t, const timespec *) { return late(m); }
namespace pc = portable_concurrency;
int main() {
  auto pf = pc::make_promise<int>();
  pc::timed_waiter w(pf.second);
  deliver = [&] { pf.first.set_value(1); };
  auto st = w.wait_until(std::chrono::system_clock::now());
  std::printf("delivered, wait_until says %s\\n", st == pc::future_status::ready ? "ready" : "timeout");
  return st == pc::future_status::ready ? 0 : 1;
}
""", "delivery between the expiry of the timeout and the return of the wait", "timeout is reported although the waiter has been notified")

seed("node-freed-std", "C23",
     [("once_consumable_stack.h", "typename std::allocator_traits<Alloc>::template rebind_alloc<node>;\n      node_allocator alloc{std::move(get_allocator())};", "std::allocator<node>;\n      node_allocator alloc;")],
     """
#include <portable_concurrency/future>
#include <cstdio>
#include <cstdlib>
#include <memory>
#include <thread>
static long live;
template <class T> struct al {
  using value_type = T;
  al() = default;
  template <class V> al(const al<V> &) {}
  T *allocate(std::size_t n) { ++live; return static_cast<T *>(::operator new(n * sizeof(T))); }
  void deallocate(T *p, std::size_t) { --live; ::operator delete(p); }
  template <class V> bool operator==(const al<V> &) const { return true; }
  template <class V> bool operator!=(const al<V> &) const { return false; }
};
namespace pc = portable_concurrency;
int main() {
  {
    auto pf = pc::make_promise<int>(al<char>{});
    auto f = pf.second.detach();
    pf.first.set_value(1);
    f.get();
  }
  std::printf("%ld blocks not given back\\n", live);
  return live != 0;
}
""", "a future with an allocator that is detached or waited for", "list nodes obtained from the user's allocator are given to std::allocator")

seed("detach-moves-first", "C24",
     [("future.hpp", """  auto &state_ref = *state_;
  state_ref.push([captured_state = state_] {});
  return std::move(*this);""", """  future result{std::move(*this)};
  auto &state_ref = *result.state_;
  state_ref.push([captured_state = result.state_] {});
  return result;""")],
     """
#include <portable_concurrency/future>
#include <cstdio>
#include <cstdlib>
#include <new>
static bool fail;
void *operator new(std::size_t n) { if (fail) { fail = false; throw std::bad_alloc(); } return std::malloc(n); }
void operator delete(void *p) noexcept { std::free(p); }
void operator delete(void *p, std::size_t) noexcept { std::free(p); }
namespace pc = portable_concurrency;
int main() {
  auto pf = pc::make_promise<int>();
  fail = true;
  try { auto g = pf.second.detach(); } catch (std::bad_alloc &) {}
  fail = false;
  std::printf("after the failed detach: %s\\n", pf.second.valid() ? "valid" : "lost");
  return !pf.second.valid();
}
""", "memory runs out inside detach", "the future is lost: its operation is cancelled although detaching failed")

seed("any-plain-flag", "C12",
     [("when_any.h", "    if (ready_flag_.test_and_set())\n      return;", "    if (ready_flag_)\n      return;\n    ready_flag_ = true;"),
      ("when_any.h", "  std::atomic_flag ready_flag_ = ATOMIC_FLAG_INIT;", "  std::atomic<bool> ready_flag_{false};")],
     """
#include <portable_concurrency/future>
#include <atomic>
#include <cstdio>
#include <cstdlib>
#include <thread>
namespace pc = portable_concurrency;
int main() {
  for (int i = 0; i < 20000; ++i) {
    auto a = pc::make_promise<int>(), b = pc::make_promise<int>();
    auto any = pc::when_any(std::move(a.second), std::move(b.second));
    std::atomic<int> go{0};
    std::size_t idx = 9;
    auto g = any.then([&](auto f) {
      auto r = f.get();
      idx = r.index;
      for (int k = 0; k < 50; ++k) { if (r.index != idx) std::abort(); }
      return r.index;
    });
    std::thread t([&] { ++go; while (go < 2) ; a.first.set_value(1); });
    ++go;
    while (go < 2) ;
    b.first.set_value(2);
    t.join();
    if (!g.is_ready()) { std::printf("not ready\\n"); return 1; }
  }
}
""", "two inputs that become ready at the same time", "both completions deliver the combined result: the index is written while it is read and the continuations are run by both", flags="-O1 -fsanitize=thread", timeout=200)

seed("nested-error-hidden", "C18",
     [("shared_state.h", """      operator()(std::shared_ptr<future_state<T>> &val) const {
        return val->exception();
      }""", """      operator()(std::shared_ptr<future_state<T>> &) const {
        return nullptr;
      }""")],
     """
#include <portable_concurrency/future>
#include <cstdio>
#include <stdexcept>
namespace pc = portable_concurrency;
int main() {
  auto in = pc::make_promise<int>();
  auto out = pc::make_promise<int>();
  bool ran = false;
  auto f = out.second.next([&](int) { return std::move(in.second); }).next([&](int) { ran = true; return 1; });
  out.first.set_value(1);
  in.first.set_exception(std::make_exception_ptr(std::runtime_error("inner")));
  try { f.get(); } catch (std::runtime_error &) { return ran; }
  return 1;
}
""", "next attached to a future whose result comes from a returned future that fails", "the error of the inner future is taken for a value")

seed("shared-get-mutable", "C19",
     [("shared_future.h", "std::add_lvalue_reference_t<std::add_const_t<T>>>;", "std::add_lvalue_reference_t<T>>;")],
     """
#include <portable_concurrency/future>
#include <type_traits>
namespace pc = portable_concurrency;
template <class F, class = void> struct can_write : std::false_type {};
template <class F> struct can_write<F, decltype(void(std::declval<const F &>().get() = 1))> : std::true_type {};
int main() { return can_write<pc::shared_future<int>>::value ? 1 : 0; }
""", "a program that modifies the value all readers of a shared_future share", "it is accepted by the compiler")

seed("dropped-list-leaks", "C10",
     [("once_consumable_stack.hpp", "  if (head && head != consumed_marker())\n    forward_list<T>{head};", "  if (head && head != consumed_marker() && !head->next)\n    forward_list<T>{head};")],
     """
#include <portable_concurrency/future>
#include <cstdio>
#include <memory>
namespace pc = portable_concurrency;
int main() {
  auto x = std::make_shared<int>(1);
  {
    auto pf = pc::make_promise<int>();
    pf.second.notify([x] {});
    pf.second.notify([x] {});
  }
  std::printf("%ld references left\\n", x.use_count());
  return x.use_count() != 1;
}
""", "a pending operation with two attached functions is dropped", "the attached functions are never destroyed")
