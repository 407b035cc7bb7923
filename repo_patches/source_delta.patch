From b60ca668f5891915e94e1b026e8e7142cd79e10c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:15:37 +0000
Subject: [PATCH 01/13] fix: latch::count_down must not touch the latch after
 releasing its mutex

A waiter which sees the counter reach zero may return and destroy the latch
before count_down notifies the condition variable.
---
 .../bits/portable_concurrency.cpp                 | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/portable_concurrency/bits/portable_concurrency.cpp b/portable_concurrency/bits/portable_concurrency.cpp
index 7d12602..193113c 100644
--- a/portable_concurrency/bits/portable_concurrency.cpp
+++ b/portable_concurrency/bits/portable_concurrency.cpp
@@ -117,14 +117,13 @@ void latch::count_down_and_wait() {
 }
 
 void latch::count_down(ptrdiff_t n) {
-  {
-    std::lock_guard<std::mutex> lock{mutex_};
-    assert(counter_ >= n);
-    assert(n >= 0);
-    counter_ -= n;
-    if (counter_ > 0)
-      return;
-  }
+  std::lock_guard<std::mutex> lock{mutex_};
+  assert(counter_ >= n);
+  assert(n >= 0);
+  counter_ -= n;
+  if (counter_ > 0)
+    return;
+  // A released waiter may destroy the latch as soon as the mutex is unlocked.
   cv_.notify_all();
 }
 
-- 
2.43.0


From 541b43ac63b06d92ebde1f968724f5378eb9a511 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:15:37 +0000
Subject: [PATCH 02/13] fix: thread pool destroys a task as soon as it is
 executed

The executed task was kept alive until the next one was popped (so a promise
captured by it was not abandoned while the pool was idle) and destroyed under
the lock of the queue (so posting from its destructor deadlocked).
---
 portable_concurrency/bits/portable_concurrency.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/portable_concurrency/bits/portable_concurrency.cpp b/portable_concurrency/bits/portable_concurrency.cpp
index 193113c..842ea96 100644
--- a/portable_concurrency/bits/portable_concurrency.cpp
+++ b/portable_concurrency/bits/portable_concurrency.cpp
@@ -89,8 +89,12 @@ void process_queue(
   const std::atomic<bool> &stopped
 ) noexcept {
   unique_function<void()> task;
-  while (!stopped.load(std::memory_order_relaxed) && queue.pop(task))
+  while (!stopped.load(std::memory_order_relaxed) && queue.pop(task)) {
     task();
+    // Release everything owned by the executed task before waiting for the next
+    // one and not under the lock of the queue.
+    task = unique_function<void()>{};
+  }
 }
 
 } // namespace
-- 
2.43.0


From 2b09a73b791dd74fa60291570782984954768e98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:15:37 +0000
Subject: [PATCH 03/13] fix: unique_function returns reference results of large
 callables as is

The heap stored callable was invoked via lambda returning by value, so
unique_function<const T&()> returned a reference to a dead temporary.
---
 portable_concurrency/bits/unique_function.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/portable_concurrency/bits/unique_function.hpp b/portable_concurrency/bits/unique_function.hpp
index 9933172..df98fdd 100644
--- a/portable_concurrency/bits/unique_function.hpp
+++ b/portable_concurrency/bits/unique_function.hpp
@@ -33,7 +33,9 @@ unique_function<R(A...)>::unique_function(F &&f, std::false_type) {
   if (detail::is_null(f))
     return;
   func_ = [func = std::make_unique<std::decay_t<F>>(std::forward<F>(f))](
-              A... a) { return detail::invoke(*func, std::forward<A>(a)...); };
+              A... a) -> decltype(auto) {
+    return detail::invoke(*func, std::forward<A>(a)...);
+  };
 }
 
 template <typename R, typename... A>
-- 
2.43.0


From 58b7870a2a56b84049c813796c93eb34837f9a6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:15:37 +0000
Subject: [PATCH 04/13] fix: interruptible shared_future::then keeps the
 shared_future valid

As for the other continuation functions of the shared_future the object can be
used to attach more continuations or to get the result.
---
 portable_concurrency/bits/shared_future.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/portable_concurrency/bits/shared_future.hpp b/portable_concurrency/bits/shared_future.hpp
index 069745d..0fe53ff 100644
--- a/portable_concurrency/bits/shared_future.hpp
+++ b/portable_concurrency/bits/shared_future.hpp
@@ -191,7 +191,7 @@ shared_future<T>::then(E &&exec, F &&f) {
   detail::continuations_stack &subscriptions = state_->continuations();
   return detail::make_then_state<result_type>(
       subscriptions, std::forward<E>(exec),
-      [f = std::forward<F>(f), parent = std::move(state_)](
+      [f = std::forward<F>(f), parent = state_](
           std::shared_ptr<detail::shared_state<result_type>>
               state) mutable noexcept {
         promise<result_type> p{std::exchange(state, nullptr)};
-- 
2.43.0


From 599935439436376187a9487315dbbd606037660f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:34:06 +0000
Subject: [PATCH 05/13] fix: async keeps the reference returned by the function

The task wrapper used by async decayed the result of the function, so async with
a function returning a reference did not compile although it is documented to
return future<std::result_of_t<F(A...)>>.
---
 portable_concurrency/bits/async.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/portable_concurrency/bits/async.h b/portable_concurrency/bits/async.h
index 1097b4c..27d9736 100644
--- a/portable_concurrency/bits/async.h
+++ b/portable_concurrency/bits/async.h
@@ -24,10 +24,12 @@ public:
   task(F &&f, A &&...a)
       : func_(std::forward<F>(f)), args_(std::forward<A>(a)...) {}
 
-  auto operator()() { return run(std::make_index_sequence<sizeof...(A)>()); }
+  decltype(auto) operator()() {
+    return run(std::make_index_sequence<sizeof...(A)>());
+  }
 
 private:
-  template <size_t... I> auto run(std::index_sequence<I...>) {
+  template <size_t... I> decltype(auto) run(std::index_sequence<I...>) {
     return this_ns::invoke(std::move(func_), std::move(std::get<I>(args_))...);
   }
 
-- 
2.43.0


From 8510cd70deb76dda70f1dbb484d4ca5a54896d03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:34:35 +0000
Subject: [PATCH 06/13] fix: packaged_task does not move from an object its
 function returns by reference

A task with signature T() running a function which returns T& moved the value
out of the referenced object instead of copying it.
---
 portable_concurrency/bits/shared_state.h | 6 ++++++
 portable_concurrency/bits/utils.h        | 2 +-
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/portable_concurrency/bits/shared_state.h b/portable_concurrency/bits/shared_state.h
index 78707eb..dbeb048 100644
--- a/portable_concurrency/bits/shared_state.h
+++ b/portable_concurrency/bits/shared_state.h
@@ -115,8 +115,14 @@ public:
     unwrap(self, state_of(std::move(val)));
   }
 
+  static void unwrap(std::shared_ptr<shared_state> &self,
+                     const shared_future<T> &val) {
+    unwrap(self, shared_future<T>{val});
+  }
+
   template <typename U>
   static std::enable_if_t<
+      !is_future<std::decay_t<U>>::value &&
       !std::is_same<std::decay_t<U>, std::shared_ptr<future_state<T>>>::value>
   unwrap(std::shared_ptr<shared_state> &self, U &&val) {
     self->emplace(std::forward<U>(val));
diff --git a/portable_concurrency/bits/utils.h b/portable_concurrency/bits/utils.h
index 6df231f..daa9e48 100644
--- a/portable_concurrency/bits/utils.h
+++ b/portable_concurrency/bits/utils.h
@@ -17,7 +17,7 @@ void set_state_value(std::shared_ptr<shared_state<R>> &state, F &&f, A &&...a) {
     auto &&res = ::portable_concurrency::cxx14_v1::detail::invoke(
         std::forward<F>(f), std::forward<A>(a)...);
     executed = true;
-    shared_state<R>::unwrap(state, std::move(res));
+    shared_state<R>::unwrap(state, std::forward<decltype(res)>(res));
   } catch (...) {
     if (executed)
       throw;
-- 
2.43.0


From 4ce2ee91e89d20966ec047f805721ef56f3c1582 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:11:03 +0000
Subject: [PATCH 07/13] fix: thread pool waits for threads attached by the user

---
 portable_concurrency/bits/portable_concurrency.cpp | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/portable_concurrency/bits/portable_concurrency.cpp b/portable_concurrency/bits/portable_concurrency.cpp
index 842ea96..cac00ff 100644
--- a/portable_concurrency/bits/portable_concurrency.cpp
+++ b/portable_concurrency/bits/portable_concurrency.cpp
@@ -190,12 +190,10 @@ void static_thread_pool::attach() {
     ++attached_threads_;
   }
   process_queue(queue_, stopped_);
-  {
-    std::unique_lock<std::mutex> lock{mutex_};
-    --attached_threads_;
-    cv_.wait(lock, [&] { return attached_threads_ == 0; });
-  }
-  cv_.notify_all();
+  // The pool may be destroyed as soon as the mutex is unlocked.
+  std::lock_guard<std::mutex> lock{mutex_};
+  if (--attached_threads_ == 0)
+    cv_.notify_all();
 }
 
 void static_thread_pool::stop() { 
@@ -210,6 +208,9 @@ void static_thread_pool::wait() {
       thread.join();
   }
   threads_.clear();
+  // Threads attached by the user are not joined but still use the pool.
+  std::unique_lock<std::mutex> lock{mutex_};
+  cv_.wait(lock, [this] { return attached_threads_ == 0; });
 }
 
 } // namespace cxx14_v1
-- 
2.43.0


From d52975d21e8b47f9504563ff5d0327a10cc948ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:01:30 +0000
Subject: [PATCH 08/13] fix: a continuation task replaced by move assignment is
 abandoned

---
 portable_concurrency/bits/then.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/portable_concurrency/bits/then.hpp b/portable_concurrency/bits/then.hpp
index bca2740..99097fd 100644
--- a/portable_concurrency/bits/then.hpp
+++ b/portable_concurrency/bits/then.hpp
@@ -184,6 +184,7 @@ template <typename CntState> struct cnt_action {
   cnt_action(std::weak_ptr<CntState> wdata) : wdata(std::move(wdata)) {}
   cnt_action(cnt_action &&rhs) noexcept : wdata(std::move(rhs.wdata)) {}
   cnt_action &operator=(cnt_action &&rhs) noexcept {
+    cnt_action replaced{std::move(*this)}; // abandoned at the end of the scope
     wdata = std::move(rhs.wdata);
     return *this;
   }
-- 
2.43.0


From d2a6be8a894b443ee1e9fa653c1d1107ed2692ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:20:58 +0000
Subject: [PATCH 09/13] fix: make_exceptional_future does not use the removable
 deprecated API

---
 portable_concurrency/bits/make_future.h | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/portable_concurrency/bits/make_future.h b/portable_concurrency/bits/make_future.h
index 3ec644e..64a8c45 100644
--- a/portable_concurrency/bits/make_future.h
+++ b/portable_concurrency/bits/make_future.h
@@ -31,15 +31,15 @@ future<void> make_ready_future();
 
 template <typename T>
 future<T> make_exceptional_future(std::exception_ptr error) {
-  promise<T> promise;
-  promise.set_exception(error);
-  return promise.get_future();
+  auto promise_and_future = make_promise<T>();
+  promise_and_future.first.set_exception(error);
+  return std::move(promise_and_future.second);
 }
 
 template <typename T, typename E> future<T> make_exceptional_future(E error) {
-  promise<T> promise;
-  promise.set_exception(std::make_exception_ptr(error));
-  return promise.get_future();
+  auto promise_and_future = make_promise<T>();
+  promise_and_future.first.set_exception(std::make_exception_ptr(error));
+  return std::move(promise_and_future.second);
 }
 
 } // namespace cxx14_v1
-- 
2.43.0


From 7d0af3f23debdf4e617c9e5ee6270062ab82486c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:10:44 +0000
Subject: [PATCH 10/13] fix: failed subscription to the unwrapped future leaves
 the state fulfillable

---
 portable_concurrency/bits/shared_state.h | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/portable_concurrency/bits/shared_state.h b/portable_concurrency/bits/shared_state.h
index dbeb048..18df187 100644
--- a/portable_concurrency/bits/shared_state.h
+++ b/portable_concurrency/bits/shared_state.h
@@ -100,10 +100,17 @@ public:
       return;
     }
     self->storage_.emplace(in_place_index_t<2>{}, val);
-    val->continuations().push([wself = std::weak_ptr<shared_state>(self)] {
-      if (auto self = wself.lock())
-        self->continuations().execute();
-    });
+    try {
+      val->continuations().push([wself = std::weak_ptr<shared_state>(self)] {
+        if (auto self = wself.lock())
+          self->continuations().execute();
+      });
+    } catch (...) {
+      // Nothing is going to fulfill this state, let the caller report the error
+      if (!self->continuations().executed())
+        self->storage_.clean();
+      throw;
+    }
   }
 
   static void unwrap(std::shared_ptr<shared_state> &self, future<T> &&val) {
-- 
2.43.0


From c233efe1530a2644f3295bed81190acaead4e07e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:10:44 +0000
Subject: [PATCH 11/13] fix: join started threads if static_thread_pool
 constructor fails

---
 portable_concurrency/bits/portable_concurrency.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/portable_concurrency/bits/portable_concurrency.cpp b/portable_concurrency/bits/portable_concurrency.cpp
index cac00ff..7313f05 100644
--- a/portable_concurrency/bits/portable_concurrency.cpp
+++ b/portable_concurrency/bits/portable_concurrency.cpp
@@ -175,8 +175,15 @@ future<when_any_result<std::tuple<>>> when_any() {
 
 static_thread_pool::static_thread_pool(std::size_t num_threads) {
   threads_.reserve(num_threads);
-  while (num_threads-- > 0)
-    threads_.push_back(std::thread{&static_thread_pool::attach, this});
+  try {
+    while (num_threads-- > 0)
+      threads_.push_back(std::thread{&static_thread_pool::attach, this});
+  } catch (...) {
+    // Threads which are already started must be joined before this object dies.
+    stop();
+    wait();
+    throw;
+  }
 }
 
 static_thread_pool::~static_thread_pool() {
-- 
2.43.0


From 72f451608f4a4e4c53ca217f10f60dcde155bc2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:11:39 +0000
Subject: [PATCH 12/13] fix: continuation failed to be scheduled doesn't
 prevent others from running

---
 .../bits/portable_concurrency.cpp                 | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/portable_concurrency/bits/portable_concurrency.cpp b/portable_concurrency/bits/portable_concurrency.cpp
index 7313f05..bfdf470 100644
--- a/portable_concurrency/bits/portable_concurrency.cpp
+++ b/portable_concurrency/bits/portable_concurrency.cpp
@@ -34,8 +34,19 @@ void continuations_stack::push(continuation &&cnt) {
 
 void continuations_stack::execute() {
   auto continuations = stack_.consume();
-  for (auto &cnt : continuations)
-    cnt();
+  // Failure of a single continuation (for example if executor is unable to
+  // accept it) must not affect the others.
+  std::exception_ptr error;
+  for (auto &cnt : continuations) {
+    try {
+      cnt();
+    } catch (...) {
+      if (!error)
+        error = std::current_exception();
+    }
+  }
+  if (error)
+    std::rethrow_exception(error);
 }
 
 bool continuations_stack::executed() const { return stack_.is_consumed(); }
-- 
2.43.0


From abfce0c720d4a2ee7bd0352ebe17a47f5b27032a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:58:48 +0000
Subject: [PATCH 13/13] fix: store the exception thrown while the result of a
 function is moved into the state

The result of a function run by then, next, async or packaged_task is moved
into the shared state. When that move throws the exception was rethrown as if
a continuation had failed: std::terminate from a continuation or async, an
escaping exception and broken_promise from packaged_task.
---
 portable_concurrency/bits/utils.h | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/portable_concurrency/bits/utils.h b/portable_concurrency/bits/utils.h
index daa9e48..af3a430 100644
--- a/portable_concurrency/bits/utils.h
+++ b/portable_concurrency/bits/utils.h
@@ -12,14 +12,13 @@ namespace detail {
 template <typename R, typename F, typename... A>
 void set_state_value(std::shared_ptr<shared_state<R>> &state, F &&f, A &&...a) {
   assert(state);
-  bool executed = false;
   try {
     auto &&res = ::portable_concurrency::cxx14_v1::detail::invoke(
         std::forward<F>(f), std::forward<A>(a)...);
-    executed = true;
     shared_state<R>::unwrap(state, std::forward<decltype(res)>(res));
   } catch (...) {
-    if (executed)
+    // Failure to store the result is a result as well
+    if (state->continuations().executed())
       throw;
     state->set_exception(std::current_exception());
   }
-- 
2.43.0

