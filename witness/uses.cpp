// Documented uses: all of them instantiate in every language version.
#include "prelude.h"
#include <stdexcept>

template <class T, class V> void uses(V v) {
  auto pf = pc::make_promise<T>();
  pc::promise<T> p = std::move(pf.first);
  pc::future<T> f = std::move(pf.second);
  v(p);
  (void)p.is_awaiten();
  p.set_exception(std::make_exception_ptr(1));
  f.notify([] {});
  f.notify(Exec{}, [] {});
  pc::timed_waiter t(f);
  (void)t.wait_for(std::chrono::milliseconds(1));
  (void)t.wait_until(std::chrono::steady_clock::now());
  pc::timed_waiter t2 = t;
  t2 = t;
  f.wait();
  (void)f.is_ready();
  pc::shared_future<T> s = f.share();
  pc::timed_waiter t3(s);
  s.notify([] {});
  s.notify(Exec{}, [] {});
  s.wait();
  s.get();
  pc::shared_future<T> c = s;
  c = c.detach();
  (void)c.then([](pc::shared_future<T> x) { return x.is_ready(); });
  (void)c.then(Exec{}, [](pc::shared_future<T> x) { return x; });
  (void)c.then([](pc::promise<int> q, pc::shared_future<T>) { q.set_value(1); });
  (void)c.then(Exec{}, [](pc::promise<int> q, pc::shared_future<T>) { q.set_value(1); });
  pc::future<T> e = pc::make_exceptional_future<T>(std::runtime_error("x"));
  pc::future<T> g = pc::make_exceptional_future<T>(std::current_exception());
  (void)e.then([](pc::future<T> x) { return x; });
  (void)g.detach().then(Exec{}, [](pc::future<T> x) { return x.share(); });
  (void)pc::make_exceptional_future<T>(1).then([](pc::promise<int> q, pc::future<T>) { q.set_value(1); });
  (void)pc::make_exceptional_future<T>(1).then(Exec{}, [](pc::promise<int> q, pc::future<T>) { q.set_value(1); });
  (void)pc::when_all(pc::make_exceptional_future<T>(1), s);
  (void)pc::when_any(pc::make_exceptional_future<T>(1), s);
  std::vector<pc::future<T>> fs;
  std::vector<pc::shared_future<T>> ss;
  (void)pc::when_all(fs.begin(), fs.end());
  (void)pc::when_any(fs.begin(), fs.end());
  (void)pc::when_all(ss.begin(), ss.end());
  (void)pc::when_any(ss.begin(), ss.end());
  (void)pc::when_all(std::move(fs));
  (void)pc::when_any(ss);
  pc::promise<T> pa(std::allocator_arg, std::allocator<char>{});
  pc::promise<T> pcn(pc::canceler_arg, [] {});
  auto pf2 = pc::make_promise<T>(std::allocator<char>{});
  auto pf3 = pc::make_promise<T>(pc::canceler_arg, [p = Ptr()] {});
  (void)pc::async(pc::inplace_executor, [] { return pc::make_exceptional_future<T>(1); }).share();
  pc::static_thread_pool pool(2);
  (void)pc::async(pool.executor(), [] { return pc::make_exceptional_future<T>(1).share(); });
  pc::packaged_task<pc::future<T>(int, Ptr)> task([](int, Ptr) { return pc::make_exceptional_future<T>(1); });
  (void)task.get_future();
  task(1, Ptr());
  pc::packaged_task<pc::future<T>(int, Ptr)> other;
  task.swap(other);
  pc::unique_function<void()> uf([q = pc::promise<T>()] {});
  uf = pc::unique_function<void()>(std::move(uf));
#if !defined(PC_NO_DEPRECATED)
  (void)s.wait_for(std::chrono::seconds(1));
  (void)s.wait_until(std::chrono::system_clock::now());
  (void)f.wait_for(std::chrono::seconds(1));
  (void)f.wait_until(std::chrono::system_clock::now());
  (void)pa.get_future();
#endif
}
static int global;
void all() {
  uses<int>([](pc::promise<int> &p) { p.set_value(1); });
  uses<Ptr>([](pc::promise<Ptr> &p) { p.set_value(Ptr()); });
  uses<void>([](pc::promise<void> &p) { p.set_value(); });
  uses<int &>([](pc::promise<int &> &p) { p.set_value(global); });
  uses<const std::string>([](pc::promise<const std::string> &p) { p.set_value("x"); });
}
