"""Rewritings of the library which keep its behaviour: id -> [(file below portable_concurrency/bits, old, new)].
All checks have to stay quiet on each of them (tools/refac.py)."""
R = {}
C = "portable_concurrency.cpp"

R["stack-mutex"] = [  # the lock free stack becomes a list protected by a mutex
    ("once_consumable_stack.h", "std::atomic<forward_list_node<T> *> head_{nullptr};", "mutable std::mutex mutex_;\n  forward_list_node<T> *head_ = nullptr;\n  bool consumed_ = false;"),
    ("once_consumable_stack.h", "#include <atomic>", "#include <atomic>\n#include <mutex>"),
    ("once_consumable_stack.hpp", """  auto *head = head_.load(std::memory_order_relaxed);
  if (head && head != consumed_marker())
    forward_list<T>{head};""", "  forward_list<T>{head_};"),
    ("once_consumable_stack.hpp", """  auto *curr_head = head_.load(std::memory_order_acquire);
  if (curr_head == consumed_marker())
    return false;
  node->next = curr_head;
  while (!head_.compare_exchange_strong(node->next, node.get(),
                                        std::memory_order_acq_rel)) {
    if (node->next == consumed_marker()) {
      node->next = nullptr;
      return false;
    }
  }
  node.release();
  return true;""", """  std::lock_guard<std::mutex> lock{mutex_};
  if (consumed_)
    return false;
  node->next = head_;
  head_ = node.release();
  return true;"""),
    ("once_consumable_stack.hpp", "  return head_.load(std::memory_order_acquire) == consumed_marker();", "  std::lock_guard<std::mutex> lock{mutex_};\n  return consumed_;"),
    ("once_consumable_stack.hpp", """  auto *curr_head =
      head_.exchange(consumed_marker(), std::memory_order_acq_rel);
  if (curr_head == consumed_marker())
    return {nullptr, forward_list_deleter<T>{}};
  return forward_list<T>{curr_head, forward_list_deleter<T>{}};""", """  std::lock_guard<std::mutex> lock{mutex_};
  forward_list_node<T> *res = head_;
  head_ = nullptr;
  consumed_ = true;
  return forward_list<T>{res, forward_list_deleter<T>{}};"""),
]
R["push-loop"] = [
    ("once_consumable_stack.hpp", """  node->next = curr_head;
  while (!head_.compare_exchange_strong(node->next, node.get(),
                                        std::memory_order_acq_rel)) {
    if (node->next == consumed_marker()) {
      node->next = nullptr;
      return false;
    }
  }
  node.release();
  return true;""", """  auto *raw = node.get();
  do {
    if (curr_head == consumed_marker()) {
      raw->next = nullptr;
      return false;
    }
    raw->next = curr_head;
  } while (!head_.compare_exchange_weak(curr_head, raw, std::memory_order_release, std::memory_order_acquire));
  (void)node.release();
  return true;"""),
    ("once_consumable_stack.hpp", """  for (auto *p = head; p != nullptr;) {
    auto *to_delete = p;
    p = p->next;
    to_delete->deallocate_self();
  }""", """  while (head) {
    auto *next = head->next;
    head->deallocate_self();
    head = next;
  }"""),
]
R["execute-helper"] = [
    (C, """void continuations_stack::execute() {
  auto continuations = stack_.consume();""", """namespace {
void run_one(continuation &cnt, std::exception_ptr &error) noexcept {
  try {
    cnt();
  } catch (...) {
    if (error == nullptr)
      error = std::current_exception();
  }
}
} // namespace

void continuations_stack::execute() {
  auto continuations = stack_.consume();"""),
    (C, """  for (auto &cnt : continuations) {
    try {
      cnt();
    } catch (...) {
      if (!error)
        error = std::current_exception();
    }
  }""", """  for (auto it = begin(continuations), last = end(continuations); it != last; ++it)
    run_one(*it, error);"""),
]
R["execute-free-early"] = [  # every node is released right after it ran
    (C, """  for (auto &cnt : continuations) {
    try {
      cnt();
    } catch (...) {
      if (!error)
        error = std::current_exception();
    }
  }""", """  while (continuations) {
    forward_list<continuation> rest{std::exchange(continuations->next, nullptr)};
    try {
      continuations->val();
    } catch (...) {
      if (!error)
        error = std::current_exception();
    }
    continuations = std::move(rest);
  }"""),
]
R["queue-deque"] = [
    ("closable_queue.h", "#include <queue>", "#include <deque>\n#include <queue>"),
    ("closable_queue.h", "std::queue<T> queue_;", "std::deque<T> items_;"),
    ("closable_queue.hpp", """  cv_.wait(lock, [this]() { return closed_ || !queue_.empty(); });
  if (closed_ && queue_.empty())
    return false;
  std::swap(dest, queue_.front());
  queue_.pop();
  return true;""", """  while (items_.empty()) {
    if (closed_)
      return false;
    cv_.wait(lock);
  }
  dest = std::move(items_.front());
  items_.pop_front();
  return true;"""),
    ("closable_queue.hpp", """  std::lock_guard<std::mutex> guard(mutex_);
  if (closed_)
    return;
  queue_.emplace(std::move(val));
  cv_.notify_one();""", """  std::unique_lock<std::mutex> guard(mutex_);
  if (!closed_) {
    items_.push_back(std::move(val));
    cv_.notify_one();
  }"""),
]
R["queue-list"] = [
    ("closable_queue.h", "#include <queue>", "#include <list>\n#include <queue>"),
    ("closable_queue.h", "std::queue<T> queue_;", "std::list<T> items_;"),
    ("closable_queue.hpp", """  cv_.wait(lock, [this]() { return closed_ || !queue_.empty(); });
  if (closed_ && queue_.empty())
    return false;
  std::swap(dest, queue_.front());
  queue_.pop();
  return true;""", """  cv_.wait(lock, [this]() { return closed_ || !items_.empty(); });
  if (items_.empty())
    return false;
  std::list<T> taken;
  taken.splice(taken.begin(), items_, items_.begin());
  lock.unlock();
  dest = std::move(taken.front());
  return true;"""),
    ("closable_queue.hpp", """  std::lock_guard<std::mutex> guard(mutex_);
  if (closed_)
    return;
  queue_.emplace(std::move(val));
  cv_.notify_one();""", """  std::list<T> fresh;
  fresh.push_back(std::move(val));
  std::lock_guard<std::mutex> guard(mutex_);
  if (closed_)
    return;
  items_.splice(items_.end(), fresh);
  cv_.notify_one();"""),
]
R["queue-notify-all"] = [("closable_queue.hpp", "  cv_.notify_one();", "  cv_.notify_all();")]
R["latch-loops"] = [
    (C, """  std::unique_lock<std::mutex> lock{mutex_};
  ++waiters_;
  assert(counter_ > 0);
  if (--counter_ == 0) {
    --waiters_;
    cv_.notify_all();
    return;
  }
  cv_.wait(lock, [this] { return counter_ == 0; });
  if (--waiters_ == 0)
    cv_.notify_one();
}""", """  std::unique_lock<std::mutex> lock{mutex_};
  assert(counter_ > 0);
  counter_ -= 1;
  if (counter_ == 0) {
    cv_.notify_all();
  } else {
    waiters_ += 1;
    while (counter_ != 0)
      cv_.wait(lock);
    waiters_ -= 1;
    if (waiters_ == 0)
      cv_.notify_all();
  }
}"""),
    (C, """  counter_ -= n;
  if (counter_ > 0)
    return;
  // A released waiter may destroy the latch as soon as the mutex is unlocked.
  cv_.notify_all();""", """  counter_ -= n;
  if (counter_ == 0)
    cv_.notify_all();"""),
    (C, """  std::unique_lock<std::mutex> lock{mutex_};
  cv_.wait(lock, [this] { return waiters_ == 0; });
}""", """  std::unique_lock<std::mutex> lock{mutex_};
  while (waiters_ > 0)
    cv_.wait(lock);
}"""),
]
R["latch-atomic"] = [
    ("latch.h", "#include <condition_variable>", "#include <atomic>\n#include <condition_variable>"),
    ("latch.h", "  ptrdiff_t counter_;", "  std::atomic<ptrdiff_t> counter_;"),
    (C, """  std::lock_guard<std::mutex> lock{mutex_};
  return counter_ == 0;""", "  return counter_.load(std::memory_order_acquire) == 0;"),
]
R["latch-two-cvs"] = [
    ("latch.h", "  mutable std::condition_variable cv_;", "  mutable std::condition_variable cv_;\n  mutable std::condition_variable idle_;"),
    (C, "  cv_.wait(lock, [this] { return waiters_ == 0; });", "  idle_.wait(lock, [this] { return waiters_ == 0; });"),
    (C, """  if (--waiters_ == 0)
    cv_.notify_one();
}

void latch::count_down(""", """  if (--waiters_ == 0)
    idle_.notify_all();
}

void latch::count_down("""),
    (C, """  cv_.wait(lock, [this] { return counter_ == 0; });
  if (--waiters_ == 0)
    cv_.notify_one();
}

template <> void""", """  cv_.wait(lock, [this] { return counter_ == 0; });
  if (--waiters_ == 0)
    idle_.notify_all();
}

template <> void"""),
]
R["wait-latch"] = [(C, """  std::mutex mtx;
  std::condition_variable cv;
  bool ready = false;
  state.push([&] {
    std::lock_guard<std::mutex> guard{mtx};
    ready = true;
    cv.notify_one();
  });

  std::unique_lock<std::mutex> lk{mtx};
  cv.wait(lk, [&] { return ready; });""", """  if (state.continuations().executed())
    return;
  latch done{1};
  state.push([&done] { done.count_down(); });
  done.wait();""")]
R["wait-heap"] = [(C, """  std::mutex mtx;
  std::condition_variable cv;
  bool ready = false;
  state.push([&] {
    std::lock_guard<std::mutex> guard{mtx};
    ready = true;
    cv.notify_one();
  });

  std::unique_lock<std::mutex> lk{mtx};
  cv.wait(lk, [&] { return ready; });""", """  struct waiter {
    std::mutex mtx;
    std::condition_variable cv;
    bool ready = false;
  };
  auto w = std::make_shared<waiter>();
  state.push([w] {
    std::unique_lock<std::mutex> guard{w->mtx};
    w->ready = true;
    guard.unlock();
    w->cv.notify_all();
  });
  std::unique_lock<std::mutex> lk{w->mtx};
  while (!w->ready)
    w->cv.wait(lk);""")]
R["state-switch"] = [
    ("shared_state.h", """    struct {
      std::exception_ptr operator()(state_storage_t<T> &) const {
        return nullptr;
      }
      std::exception_ptr
      operator()(std::shared_ptr<future_state<T>> &val) const {
        return val->exception();
      }
      std::exception_ptr operator()(std::exception_ptr &err) const {
        return err;
      }
      std::exception_ptr operator()(monostate) {
        assert(false);
        throw std::logic_error{
            "Attempt to access shared_state storage while it's empty"};
      }
    } visitor;
    return storage_.visit(visitor);""", """    switch (storage_.state()) {
    case 1:
      return {};
    case 2:
      return storage_.get(in_place_index_t<2>{})->exception();
    case 3:
      return storage_.get(in_place_index_t<3>{});
    }
    throw std::logic_error{"Attempt to access shared_state storage while it's empty"};"""),
    ("shared_state.h", """    struct {
      state_storage_t<T> &operator()(state_storage_t<T> &val) const {
        return val;
      }
      state_storage_t<T> &
      operator()(std::shared_ptr<future_state<T>> &val) const {
        return val->value_ref();
      }
      state_storage_t<T> &operator()(std::exception_ptr &err) const {
        std::rethrow_exception(err);
      }
      state_storage_t<T> &operator()(monostate) {
        assert(false);
        throw std::logic_error{
            "Attempt to access shared_state storage while it's empty"};
      }
    } visitor;
    return storage_.visit(visitor);""", """    if (storage_.state() == 2)
      return storage_.get(in_place_index_t<2>{})->value_ref();
    if (auto err = exception())
      std::rethrow_exception(std::move(err));
    return storage_.get(in_place_index_t<1>{});"""),
    ("shared_state.h", """    if (!storage_.empty())
      throw_already_satisfied();
    storage_.emplace(in_place_index_t<1>{}, std::forward<U>(u)...);
    this->continuations().execute();""", """    fulfill(in_place_index_t<1>{}, std::forward<U>(u)...);"""),
    ("shared_state.h", """    if (!storage_.empty())
      throw_already_satisfied();
    storage_.emplace(in_place_index_t<3>{}, error);
    this->continuations().execute();""", """    fulfill(in_place_index_t<3>{}, std::move(error));"""),
    ("shared_state.h", """private:
  either<monostate, state_storage_t<T>, std::shared""", """private:
  template <std::size_t I, typename... A> void fulfill(in_place_index_t<I> tag, A &&...a) {
    if (storage_.empty()) {
      storage_.emplace(tag, std::forward<A>(a)...);
      continuations_.execute();
    } else
      throw_already_satisfied();
  }

  either<monostate, state_storage_t<T>, std::shared"""),
]
R["any-exchange"] = [
    ("when_any.h", "if (ready_flag_.test_and_set())\n      return;\n    result_.index = pos;\n    continuations_.execute();",
     "if (!ready_flag_.exchange(true, std::memory_order_acq_rel)) {\n      result_.index = pos;\n      continuations_.execute();\n    }"),
    ("when_any.h", "std::atomic_flag ready_flag_ = ATOMIC_FLAG_INIT;", "std::atomic<bool> ready_flag_{false};"),
    ("when_any.h", """    std::size_t idx = 0;
    sequence_traits<Sequence>::for_each(
        state->result_.futures, [state, &idx](auto &f) mutable {
          state_of(f)->continuations().push(
              [state, pos = idx++] { state->notify(pos); });
        });
    if (idx == 0)
      state->continuations_.execute();
    return state;""", """    if (sequence_traits<Sequence>::size(state->result_.futures) == 0) {
      state->continuations_.execute();
      return state;
    }
    std::size_t next = 0;
    auto subscribe = [&](auto &f) {
      const std::size_t pos = next;
      ++next;
      state_of(f)->continuations().push([state, pos] { state->notify(pos); });
    };
    sequence_traits<Sequence>::for_each(state->result_.futures, subscribe);
    return state;"""),
]
R["all-fetch-sub"] = [
    ("when_all.h", "if (--operations_remains_ != 0)\n      return;\n    continuations_.execute();",
     "if (operations_remains_.fetch_sub(1, std::memory_order_acq_rel) == 1)\n      continuations_.execute();"),
    ("when_all.h", """    sequence_traits<Sequence>::for_each(state->futures_, [state](auto &f) {
      state_of(f)->continuations().push([state] { state->notify(); });
    });""", """    const auto subscribe = [&state](auto &f) {
      auto &input = *state_of(f);
      input.continuations().push([self = state] { self->notify(); });
    };
    sequence_traits<Sequence>::for_each(state->futures_, subscribe);"""),
]
R["all-mutex"] = [
    ("when_all.h", "#include <atomic>", "#include <atomic>\n#include <mutex>"),
    ("when_all.h", "if (--operations_remains_ != 0)\n      return;\n    continuations_.execute();",
     "bool last;\n    {\n      std::lock_guard<std::mutex> lock{mutex_};\n      last = --operations_remains_ == 0;\n    }\n    if (last)\n      continuations_.execute();"),
    ("when_all.h", "std::atomic<size_t> operations_remains_;", "size_t operations_remains_;\n  std::mutex mutex_;"),
]
R["seq-reverse"] = [("future_sequence.h", "    for (auto &f : seq)\n      func(f);", "    for (std::size_t i = 0, n = seq.size(); i != n; ++i)\n      func(seq[i]);")]
R["cnt-unique-ptr"] = [  # the function and the executor of a continuation live on the heap
    ("then.hpp", "    state.abandon();\n    action.clean();", "    state.abandon();\n    action.reset();"),
    ("then.hpp", """    F func = std::move(self->action.get(in_place_index_t<1>{}));
    self->action.clean();
    shared_state<R> *state = &self->state;
    std::shared_ptr<shared_state<R>> state_sp{std::exchange(self, nullptr),
                                              state};
    func(std::move(state_sp));""", """    std::unique_ptr<F> func = std::move(self->action);
    shared_state<R> *const state = std::addressof(self->state);
    std::shared_ptr<shared_state<R>> sp{std::exchange(self, nullptr), state};
    (*func)(std::move(sp));"""),
    ("then.hpp", """    E exec = std::move(self->exec.get(in_place_index_t<1>{}));
    self->exec.clean();""", """    E exec = std::move(*self->exec);
    self->exec.reset();"""),
    ("then.hpp", "  either<detail::monostate, E> exec;\n  either<detail::monostate, F> action;", "  std::unique_ptr<E> exec;\n  std::unique_ptr<F> action;"),
    ("then.hpp", """  data->exec.emplace(in_place_index_t<1>{}, std::forward<E>(exec));
  data->action.emplace(in_place_index_t<1>{}, std::forward<F>(f));""", """  data->exec = std::make_unique<std::decay_t<E>>(std::forward<E>(exec));
  data->action = std::make_unique<std::decay_t<F>>(std::forward<F>(f));"""),
]
R["decorate-helper"] = [
    ("then.hpp", """template <typename R, typename T, typename F>
auto decorate_unique_next(DirectContinuation<F, T> &&f,""", """template <typename R, typename P>
bool forward_error(const std::shared_ptr<shared_state<R>> &state, P &parent) {
  std::exception_ptr error = parent.exception();
  if (error == nullptr)
    return false;
  state->set_exception(error);
  return true;
}

template <typename R, typename T, typename F>
auto decorate_unique_next(DirectContinuation<F, T> &&f,"""),
    ("then.hpp", "    if (auto error = parent->exception()) {\n      state->set_exception(std::move(error));\n      return;\n    }", "    if (forward_error(state, *parent))\n      return;"),
]
R["then-order"] = [  # attaching: statements reordered
    ("then.hpp", """  data->exec.emplace(in_place_index_t<1>{}, std::forward<E>(exec));
  data->action.emplace(in_place_index_t<1>{}, std::forward<F>(f));
  subscriptions.push([wdata = std::weak_ptr<cnt_data_t>{data}] {
    cnt_data_t::schedule(wdata);
  });
  return std::shared_ptr<future_state<R>>{data, &data->state};""", """  std::shared_ptr<future_state<R>> result{data, &data->state};
  data->action.emplace(in_place_index_t<1>{}, std::forward<F>(f));
  data->exec.emplace(in_place_index_t<1>{}, std::forward<E>(exec));
  std::weak_ptr<cnt_data_t> weak = data;
  subscriptions.push([weak = std::move(weak)] { cnt_data_t::schedule(weak); });
  return result;"""),
]
R["promise-two-ptrs"] = [
    ("promise.h", """    struct {
      std::shared_ptr<shared_state<T>>
      operator()(const std::shared_ptr<shared_state<T>> &val) const {
        return val;
      }
      std::shared_ptr<shared_state<T>>
      operator()(const std::weak_ptr<shared_state<T>> &val) const {
        return val.lock();
      }
      std::shared_ptr<shared_state<T>> operator()(monostate) {
        throw_no_state();
      }
    } visitor;
    return state_.visit(visitor);""", """    if (state_.empty())
      throw_no_state();
    return state_.state() == 1 ? state_.get(in_place_index_t<1>{}) : state_.get(in_place_index_t<2>{}).lock();"""),
    ("promise.h", """    struct {
      void operator()(const std::weak_ptr<shared_state<T>> &wstate) {
        if (auto state = wstate.lock())
          state->abandon();
      }
      void operator()(const std::shared_ptr<shared_state<T>> &) {}
      void operator()(monostate) {}
    } visitor;
    state_.visit(visitor);""", """    if (state_.state() != 2)
      return;
    auto locked = state_.get(in_place_index_t<2>{}).lock();
    if (locked != nullptr)
      locked->abandon();"""),
    ("promise.h", """    auto state = get_state();
    if (state)
      state->set_exception(error);""", """    if (const auto locked = get_state())
      locked->set_exception(std::move(error));"""),
]
R["make-promise-helper"] = [
    ("promise.h", """template <typename T>
PC_NODISCARD std::pair<promise<T>, future<T>> make_promise() {
  auto state = std::make_shared<detail::shared_state<T>>();
  auto state_weak = std::weak_ptr<detail::shared_state<T>>(state);
  return {promise<T>(std::move(state_weak)), future<T>(std::move(state))};
}""", """namespace detail {
template <typename T, typename S> std::pair<promise<T>, future<T>> split(std::shared_ptr<S> state) {
  promise<T> p{std::weak_ptr<shared_state<T>>{state}};
  future<T> f{std::move(state)};
  return std::make_pair(std::move(p), std::move(f));
}
} // namespace detail

template <typename T>
PC_NODISCARD std::pair<promise<T>, future<T>> make_promise() {
  return detail::split<T>(std::make_shared<detail::shared_state<T>>());
}"""),
    ("promise.h", """  auto state = std::allocate_shared<detail::allocated_state<T, Alloc>>(
      allocator, allocator);
  auto state_weak = std::weak_ptr<detail::shared_state<T>>(state);
  return {promise<T>(std::move(state_weak)), future<T>(std::move(state))};""", """  return detail::split<T>(std::allocate_shared<detail::allocated_state<T, Alloc>>(allocator, allocator));"""),
    ("promise.h", """  auto state = std::make_shared<detail::cancellable_state<T, std::decay_t<F>>>(
      std::forward<F>(f));
  auto state_weak = std::weak_ptr<detail::shared_state<T>>(state);
  return {promise<T>(std::move(state_weak)), future<T>(std::move(state))};""", """  using state_t = detail::cancellable_state<T, std::decay_t<F>>;
  return detail::split<T>(std::make_shared<state_t>(std::forward<F>(f)));"""),
]
R["task-plain"] = [
    ("packaged_task.h", """    struct {
      std::shared_ptr<detail::packaged_task_state<result_type, A...>>
      operator()(detail::monostate) {
        if (throw_no_state)
          detail::throw_no_state();
        return nullptr;
      }
      std::shared_ptr<detail::packaged_task_state<result_type, A...>>
      operator()(
          const std::shared_ptr<detail::packaged_task_state<result_type, A...>>
              &state) {
        return state;
      }
      std::shared_ptr<detail::packaged_task_state<result_type, A...>>
      operator()(
          const std::weak_ptr<detail::packaged_task_state<result_type, A...>>
              &state) {
        return state.lock();
      }

      bool throw_no_state;
    } visitor{throw_no_state};
    return state_.visit(visitor);""", """    switch (state_.state()) {
    case 1:
      return state_.get(detail::in_place_index_t<1>{});
    case 2:
      return state_.get(detail::in_place_index_t<2>{}).lock();
    default:
      break;
    }
    if (throw_no_state)
      detail::throw_no_state();
    return {};"""),
    ("packaged_task.h", """    if (func.state() == 0)
      throw_already_satisfied();
    scope_either_cleaner<decltype(func)> claner{func};
    ::portable_concurrency::cxx14_v1::detail::set_state_value(
        state_ptr, func.get(detail::in_place_index_t<1>{}),
        std::forward<A>(a)...);""", """    if (func.empty())
      throw_already_satisfied();
    struct on_exit {
      task_state *self;
      ~on_exit() { self->func.clean(); }
    } guard{this};
    ::portable_concurrency::cxx14_v1::detail::set_state_value(
        state_ptr, func.get(detail::in_place_index_t<1>{}),
        std::forward<A>(a)...);"""),
    ("packaged_task.h", """    if (auto state = get_state()) {
      std::shared_ptr<detail::shared_state<result_type>> state_ptr{
          state, state->get_promise_state()};
      state->run(state_ptr, std::forward<A>(a)...);
    }""", """    const auto task = get_state(true);
    if (!task)
      return;
    auto *promise_state = task->get_promise_state();
    std::shared_ptr<detail::shared_state<result_type>> target{task, promise_state};
    task->run(target, std::forward<A>(a)...);"""),
]
R["waiter-helper"] = [
    ("timed_waiter.h", """    fut.notify([waiter = waiter_] {
      {
        std::lock_guard<std::mutex> lock{waiter->mutex};
        waiter->notified = true;
      }
      waiter->cv.notify_all();
    });""", """    subscribe(fut);"""),
    ("timed_waiter.h", """private:
  std::shared_ptr<waiter> waiter_;""", """private:
  template <typename Fut> void subscribe(Fut &fut) {
    fut.notify([w = waiter_]() {
      std::unique_lock<std::mutex> lock{w->mutex};
      w->notified = true;
      w->cv.notify_all();
    });
  }

  std::shared_ptr<waiter> waiter_;"""),
    ("timed_waiter.h", """    return waiter_->cv.wait_until(lk, tp, [&] { return waiter_->notified; })
               ? future_status::ready
               : future_status::timeout;""", """    while (!waiter_->notified) {
      if (waiter_->cv.wait_until(lk, tp) == std::cv_status::timeout)
        return waiter_->notified ? future_status::ready : future_status::timeout;
    }
    return future_status::ready;"""),
    ("timed_waiter.h", """    std::unique_lock<std::mutex> lk{waiter_->mutex};
    return waiter_->cv.wait_for(lk, dur, [&] { return waiter_->notified; })
               ? future_status::ready
               : future_status::timeout;""", """    return wait_until(std::chrono::steady_clock::now() + std::chrono::ceil_duration(dur));"""),
]
R["waiter-helper"] = R["waiter-helper"][:3]
R["pool-loops"] = [
    (C, """  unique_function<void()> task;
  while (!stopped.load(std::memory_order_relaxed) && queue.pop(task)) {
    task();
    // Release everything owned by the executed task before waiting for the next
    // one and not under the lock of the queue.
    task = unique_function<void()>{};
  }""", """  for (;;) {
    if (stopped.load())
      break;
    unique_function<void()> task;
    if (!queue.pop(task))
      return;
    task();
  }"""),
    (C, """    while (num_threads-- > 0)
      threads_.push_back(std::thread{&static_thread_pool::attach, this});""", """    for (std::size_t i = 0; i < num_threads; ++i)
      threads_.emplace_back([this] { attach(); });"""),
    (C, """  for (auto &thread : threads_) {
    if (thread.joinable())
      thread.join();
  }
  threads_.clear();""", """  for (; !threads_.empty(); threads_.pop_back())
    threads_.back().join();"""),
    (C, "  stopped_.store(true, std::memory_order_relaxed);", "  stopped_ = true;"),
]
R["pool-guard"] = [
    (C, """  {
    std::lock_guard<std::mutex> lock{mutex_};
    ++attached_threads_;
  }
  process_queue(queue_, stopped_);
  // The pool may be destroyed as soon as the mutex is unlocked.
  std::lock_guard<std::mutex> lock{mutex_};
  if (--attached_threads_ == 0)
    cv_.notify_all();""", """  struct registration {
    static_thread_pool &pool;
    explicit registration(static_thread_pool &p) : pool(p) {
      std::lock_guard<std::mutex> lock{pool.mutex_};
      pool.attached_threads_ += 1;
    }
    ~registration() {
      std::lock_guard<std::mutex> lock{pool.mutex_};
      pool.attached_threads_ -= 1;
      if (pool.attached_threads_ == 0)
        pool.cv_.notify_all();
    }
  } self{*this};
  process_queue(queue_, stopped_);"""),
]
R["func-assign"] = [
    ("small_unique_function.hpp", """  if (vtbl_)
    vtbl_->destroy(buffer_);
  if (rhs.vtbl_)
    rhs.vtbl_->move(rhs.buffer_, buffer_);
  vtbl_ = rhs.vtbl_;
  return *this;""", """  if (this != &rhs) {
    this->~small_unique_function();
    ::new (static_cast<void *>(this)) small_unique_function(std::move(rhs));
  }
  return *this;"""),
    ("unique_function.hpp", """  func_ = [func = std::make_unique<std::decay_t<F>>(std::forward<F>(f))](
              A... a) -> decltype(auto) {
    return detail::invoke(*func, std::forward<A>(a)...);
  };""", """  struct holder {
    std::unique_ptr<std::decay_t<F>> func;
    decltype(auto) operator()(A... a) const { return detail::invoke(*func, std::forward<A>(a)...); }
  };
  detail::small_unique_function<R(A...)> stored{holder{std::unique_ptr<std::decay_t<F>>{new std::decay_t<F>(std::forward<F>(f))}}};
  func_ = std::move(stored);"""),
]
R["func-virtual"] = [  # the table of functions gets its own named functions
    ("small_unique_function.hpp", "      [](small_buffer &buf) { reinterpret_cast<F &>(buf).~F(); },", "      &destroy_stored<F>,"),
    ("small_unique_function.hpp", """      [](small_buffer &src, small_buffer &dst) {
        new (&dst) F{std::move(reinterpret_cast<F &>(src))};
      },""", "      &move_stored<F>,"),
    ("small_unique_function.hpp", "template <typename F, typename R, typename... A>\nconst callable_vtbl<R, A...> &get_callable_vtbl() {", """template <typename F> void destroy_stored(small_buffer &buf) { reinterpret_cast<F *>(&buf)->~F(); }
template <typename F> void move_stored(small_buffer &src, small_buffer &dst) {
  F *from = reinterpret_cast<F *>(&src);
  ::new (static_cast<void *>(&dst)) F{std::move(*from)};
}

template <typename F, typename R, typename... A>
const callable_vtbl<R, A...> &get_callable_vtbl() {"""),
]
R["get-helper"] = [
    ("future.hpp", """  if (!state_)
    detail::throw_no_state();
  wait();
  auto state = std::move(state_);
  return std::move(state->value_ref());""", """  wait();
  const std::shared_ptr<detail::future_state<T>> state = std::exchange(state_, nullptr);
  auto &stored = state->value_ref();
  return std::move(stored);"""),
    ("future.hpp", """  if (!state_)
    detail::throw_no_state();
  return state_->continuations().executed();""", """  if (state_ == nullptr)
    detail::throw_no_state();
  const auto &subscriptions = state_->continuations();
  return subscriptions.executed();"""),
    (C, """  if (!state_)
    throw std::future_error(std::future_errc::no_state);
  wait();
  auto state = std::move(state_);
  state->value_ref();""", """  wait();
  auto keep = std::move(state_);
  (void)keep->value_ref();"""),
]
R["async-lambda"] = [
    ("async.h", """  packaged_task<R()> task{
      detail::make_task(std::forward<F>(func), std::forward<A>(a)...)};
  detail::add_future_t<R> f = task.get_future();
  post(exec, std::move(task));
  return f;""", """  auto bound = detail::make_task(std::forward<F>(func), std::forward<A>(a)...);
  packaged_task<R()> job{std::move(bound)};
  auto result = job.get_future();
  post(exec, std::move(job));
  return result;"""),
]
R["either-table"] = [
    ("either.h", "    visit(destroy{});\n    state_ = empty_state;", "    if (state_ != empty_state) {\n      visit(destroy{});\n      state_ = empty_state;\n    }"),
    ("either.h", """    clean();
    move_from(std::move(rhs), std::make_index_sequence<sizeof...(T)>{});
    return *this;""", """    if (&rhs != this) {
      this->~either();
      ::new (static_cast<void *>(this)) either(std::move(rhs));
    }
    return *this;"""),
]
R["value-or-throw"] = [
    ("utils.h", """  bool executed = false;
  try {
    auto &&res = ::portable_concurrency::cxx14_v1::detail::invoke(
        std::forward<F>(f), std::forward<A>(a)...);
    executed = true;
    shared_state<R>::unwrap(state, std::forward<decltype(res)>(res));
  } catch (...) {
    if (executed)
      throw;
    state->set_exception(std::current_exception());
  }""", """  bool finished = false;
  try {
    auto &&res = ::portable_concurrency::cxx14_v1::detail::invoke(
        std::forward<F>(f), std::forward<A>(a)...);
    finished = true;
    shared_state<R>::unwrap(state, std::forward<decltype(res)>(res));
  } catch (...) {
    if (!finished) {
      auto error = std::current_exception();
      state->set_exception(std::move(error));
    } else {
      throw;
    }
  }"""),
]
R["unwrap-lambda"] = [
    ("shared_state.h", """    self->storage_.emplace(in_place_index_t<2>{}, val);
    try {
      val->continuations().push([wself = std::weak_ptr<shared_state>(self)] {
        if (auto self = wself.lock())
          self->continuations().execute();
      });
    } catch (...) {""", """    std::weak_ptr<shared_state> weak = self;
    auto &target = *self;
    target.storage_.emplace(in_place_index_t<2>{}, val);
    try {
      auto notify = [weak] {
        const auto locked = weak.lock();
        if (!locked)
          return;
        locked->continuations_.execute();
      };
      val->continuations().push(notify);
    } catch (...) {"""),
]
R["detach-deleter"] = [
    ("shared_future.hpp", """  auto &state_ref = *state_;
  state_ref.push([captured_state = state_] {});
  return std::move(*this);""", """  std::shared_ptr<detail::future_state<T>> keep = state_;
  keep->push([keep] { (void)keep; });
  shared_future<T> res{std::move(*this)};
  return res;"""),
]
