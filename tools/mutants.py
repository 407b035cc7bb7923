S = "once_consumable_stack.hpp"
M = []
def m(name, props, *edits):
    M.append((name, list(edits), props.split()))
m("push-load-relaxed", "C02", (S, "auto *curr_head = head_.load(std::memory_order_acquire);", "auto *curr_head = head_.load(std::memory_order_relaxed);"))
m("cas-release", "C02", (S, "std::memory_order_acq_rel)) {", "std::memory_order_release, std::memory_order_relaxed)) {"))
m("cas-acquire", "C02", (S, "std::memory_order_acq_rel)) {", "std::memory_order_acquire)) {"))
m("xchg-acquire", "C02", (S, "consumed_marker(), std::memory_order_acq_rel", "consumed_marker(), std::memory_order_acquire"))
m("xchg-release", "C02", (S, "consumed_marker(), std::memory_order_acq_rel", "consumed_marker(), std::memory_order_release"))
m("isconsumed-relaxed", "C02", (S, "return head_.load(std::memory_order_acquire) == consumed_marker()", "return head_.load(std::memory_order_relaxed) == consumed_marker()"))
m("no-recheck", "C01", (S, "    if (node->next == consumed_marker()) {\n      node->next = nullptr;\n      return false;\n    }\n", ""))
m("no-inline", "C01", ("portable_concurrency.cpp", "if (!stack_.push(cnt))\n    cnt();", "stack_.push(cnt);"))
PC = "portable_concurrency.cpp"
m("wait-notify-unlocked", "C04", (PC, "    std::lock_guard<std::mutex> guard{mtx};\n    ready = true;\n    cv.notify_one();", "    {\n    std::lock_guard<std::mutex> guard{mtx};\n    ready = true;\n    }\n    cv.notify_one();"))
m("wait-nopred", "C03", (PC, "  cv.wait(lk, [&] { return ready; });", "  if (!ready) cv.wait(lk);"))
m("wait-nolock-ready", "C03 C02", (PC, "    std::lock_guard<std::mutex> guard{mtx};\n    ready = true;\n    cv.notify_one();", "    ready = true;\n    std::lock_guard<std::mutex> guard{mtx};\n    cv.notify_one();"))
m("wait-ready-fast", "C04 C03", (PC, "  std::unique_lock<std::mutex> lk{mtx};\n  cv.wait(lk, [&] { return ready; });", "  if (state.continuations().executed())\n    return;\n  std::unique_lock<std::mutex> lk{mtx};\n  cv.wait(lk, [&] { return ready; });"))
m("wait-nonotify", "C03", (PC, "    ready = true;\n    cv.notify_one();", "    ready = true;"))
m("get-nowait-shared", "C03", ("shared_future.hpp", "    detail::throw_no_state();\n  wait();\n  return state_->value_ref();", "    detail::throw_no_state();\n  if (!state_->continuations().executed()) wait();\n  return state_->value_ref();"))
m("get-void-nowait", "C03", (PC, "template <> void future<void>::get() {\n  if (!state_)\n    throw std::future_error(std::future_errc::no_state);\n  wait();", "template <> void future<void>::get() {\n  if (!state_)\n    throw std::future_error(std::future_errc::no_state);\n"))
m("pushes-lifo-reset", "C01", (S, "  node->next = curr_head;\n  while", "  node->next = nullptr;\n  while"))
m("abandon-no-exec", "C03 C06", ("shared_state.h", "    if (!continuations().executed() && storage_.state() != 2)\n      set_exception(make_broken_promise());", "    if (!continuations().executed() && storage_.state() != 2)\n      storage_.emplace(in_place_index_t<3>{}, make_broken_promise());"))
m("latch-unfix", "C17 C04", (PC, "  std::lock_guard<std::mutex> lock{mutex_};\n  assert(counter_ >= n);\n  assert(n >= 0);\n  counter_ -= n;\n  if (counter_ > 0)\n    return;", "  { std::lock_guard<std::mutex> lock{mutex_};\n  counter_ -= n;\n  if (counter_ > 0)\n    return; }"))
m("latch-notify-one", "C17", (PC, "may destroy the latch as soon as the mutex is unlocked.\n  cv_.notify_all();", "may\n  cv_.notify_one();"))
m("latch-dnw-notify-one", "C17", (PC, "    --waiters_;\n    cv_.notify_all();", "    --waiters_;\n    cv_.notify_one();"))
m("latch-dtor-nowait", "C17", (PC, "  cv_.wait(lock, [this] { return waiters_ == 0; });", ""))
m("latch-wait-nonotify", "C17", (PC, "  cv_.wait(lock, [this] { return counter_ == 0; });\n  if (--waiters_ == 0)\n    cv_.notify_one();\n}\n\ntemplate <> void future", "  cv_.wait(lock, [this] { return counter_ == 0; });\n  --waiters_;\n}\n\ntemplate <> void future"))
m("latch-dnw-wait-nonotify", "C17", (PC, "  cv_.wait(lock, [this] { return counter_ == 0; });\n  if (--waiters_ == 0)\n    cv_.notify_one();\n}\n\nvoid latch::count_down(", "  cv_.wait(lock, [this] { return counter_ == 0; });\n  --waiters_;\n}\n\nvoid latch::count_down("))
m("latch-wait-waiters-late", "C17", (PC, "  ++waiters_;\n  cv_.wait(lock, [this] { return counter_ == 0; });\n", "  cv_.wait(lock, [this] { return counter_ == 0; });\n  ++waiters_;\n"))
m("latch-isready-nolock", "C17 C02", (PC, "bool latch::is_ready() const noexcept {\n  std::lock_guard<std::mutex> lock{mutex_};", "bool latch::is_ready() const noexcept {"))
m("latch-nopred", "C17", (PC, "  ++waiters_;\n  cv_.wait(lock, [this] { return counter_ == 0; });", "  ++waiters_;\n  if (counter_ != 0) cv_.wait(lock);"))
m("latch-le1", "C17", (PC, "  if (counter_ > 0)\n    return;", "  if (counter_ > 1)\n    return;"))
m("latch-waiters-pred", "C17", (PC, "  if (--counter_ == 0) {\n    --waiters_;", "  if (--counter_ == 0) {"))
WA, WN = "when_all.h", "when_any.h"
m("wa-relaxed", "C11 C02", (WA, "if (--operations_remains_ != 0)", "if (operations_remains_.fetch_sub(1, std::memory_order_relaxed) != 1)"))
m("wa-release", "C02", (WA, "if (--operations_remains_ != 0)", "if (operations_remains_.fetch_sub(1, std::memory_order_release) != 1)"))
m("wa-nonatomic", "C11 C02", (WA, "if (--operations_remains_ != 0)", "auto r = operations_remains_.load() - 1; operations_remains_.store(r);\n    if (r != 0)"))
m("wa-split", "C11", (WA, "    if (--operations_remains_ != 0)\n      return;", "    --operations_remains_;\n    if (operations_remains_ != 0)\n      return;"))
m("wa-noplus", "C11", (WA, "::size(futures_) + 1)", "::size(futures_))"), (WA, "    state->notify();\n    return state;", "    return state;"))
m("wa-move-shared", "C11", (WA, "make(Sequence{first, last})};", "make(Sequence{std::make_move_iterator(first), std::make_move_iterator(last)})};"))
m("wn-noflag", "C12", (WN, "    if (ready_flag_.test_and_set())\n      return;\n", "    if (continuations_.executed())\n      return;\n"))
m("wn-relaxed", "C12 C02", (WN, "test_and_set()", "test_and_set(std::memory_order_relaxed)"))
m("wn-index-late", "C12 C02", (WN, "    result_.index = pos;\n    continuations_.execute();", "    continuations_.execute();\n    result_.index = pos;"))
m("wn-index-first", "C12 C02", (WN, "    if (ready_flag_.test_and_set())\n      return;\n    result_.index = pos;", "    result_.index = pos;\n    if (ready_flag_.test_and_set())\n      return;"))
m("wn-pos", "C12", (WN, "pos = idx++", "pos = idx"), (WN, "if (idx == 0)", "if (sequence_traits<Sequence>::size(state->result_.futures) == 0)"))
m("wn-empty", "C12", (WN, "    if (idx == 0)\n      state->continuations_.execute();\n", ""))
SS, PT, PR = "shared_state.h", "packaged_task.h", "promise.h"
m("h-emplace-overwrite", "C05", (SS, "    if (!storage_.empty())\n      throw_already_satisfied();\n    storage_.emplace(in_place_index_t<1>{}", "    if (storage_.state() == 1)\n      throw_already_satisfied();\n    storage_.emplace(in_place_index_t<1>{}"))
m("h-setexc-overwrite", "C05", (SS, "    if (!storage_.empty())\n      throw_already_satisfied();\n    storage_.emplace(in_place_index_t<3>{}", "    if (storage_.state() == 3)\n      throw_already_satisfied();\n    storage_.emplace(in_place_index_t<3>{}"))
m("h-task-rerun", "C05", (PT, "    if (func.state() == 0)\n      throw_already_satisfied();\n    scope_either_cleaner<decltype(func)> claner{func};", ""))
m("h-task-clean-early", "C10", (PT, "    func.clean();\n    state.abandon();", "    state.abandon();"))
m("h-promise-assign-noabandon", "C06", (PR, "    abandon();\n    state_ = std::move(rhs.state_);", "    state_ = std::move(rhs.state_);"))
m("h-task-assign-noabandon", "C06", (PT, "    if (auto state = get_state(false))\n      state->abandon();\n    state_ = std::move(rhs.state_);", "    state_ = std::move(rhs.state_);"))
m("h-getfuture-order", "C05 C15", (PR, "    if (state_.state() == 2u)\n      throw_already_retrieved();\n    auto state = get_state();", "    auto state = get_state();\n    if (!state)\n      throw_already_retrieved();"))
m("h-task-getfuture-after", "C05", (PT, "    if (state_.state() == 2u)\n      detail::throw_already_retrieved();", "    if (state_.state() == 2u && get_state())\n      detail::throw_already_retrieved();"))
m("h-awaiten", "C09", (PR, "return !val.expired();", "return true;"))
m("h-abandon-set", "C06", (SS, "if (!continuations().executed() && storage_.state() != 2)", "if (storage_.state() != 2 && storage_.state() != 1)"))
m("h-task-strong", "C09", (PT, "    state_.emplace(detail::in_place_index_t<2>{}, state);\n", ""))
m("h-either-moved", "C15", ("either.h", "                 : false)...};\n    src.clean();", "                 : false)...};"))
TH, FH, SH = "then.hpp", "future.hpp", "shared_future.hpp"
m("c-strong-cont", "C09", (TH, "subscriptions.push([wdata = std::weak_ptr<cnt_data_t>{data}] {", "subscriptions.push([wdata = data] {"))
m("c-strong-post", "C09", (TH, "    std::weak_ptr<cnt_state> wstate = std::exchange(self, nullptr);\n    post(exec, cnt_action<cnt_state>{std::move(wstate)});", "    std::weak_ptr<cnt_state> wstate = self;\n    post(exec, cnt_action<cnt_state>{std::move(wstate)});"))
m("c-strong-unwrap", "C09 C18 C10", (SS, "[wself = std::weak_ptr<shared_state>(self)] {\n      if (auto self = wself.lock())\n        self->", "[wself = self] {\n        wself->"))
m("c-detach-noop", "C09", (FH, "  state_ref.push([captured_state = state_] {});\n", ""))
m("c-detach-noop-s", "C09", (SH, "  state_ref.push([captured_state = state_] {});\n", ""))
m("c-detach-weak", "C09", (FH, "captured_state = state_]", "captured_state = std::weak_ptr<detail::future_state<T>>(state_)]"))
m("c-canceler-always", "C09", (PR, "    if (!this->continuations().executed())\n      cancel_action();", "    cancel_action();"))
m("c-canceler-never", "C09", (PR, "    if (!this->continuations().executed())\n      cancel_action();", "    if (this->continuations().executed())\n      cancel_action();"))
m("c-abandon-noclean", "C10 C09", (TH, "    state.abandon();\n    action.clean();", "    state.abandon();"))
m("c-abandon-order", "C10 C09 C06", (TH, "    state.abandon();\n    action.clean();", "    action.clean();\n    state.abandon();"))
m("c-run-noclean", "C10", (TH, "    F func = std::move(self->action.get(in_place_index_t<1>{}));\n    self->action.clean();\n", "    F func = std::move(self->action.get(in_place_index_t<1>{}));\n"))
m("c-run-ref", "C10 C09", (TH, "    F func = std::move(self->action.get(in_place_index_t<1>{}));\n    self->action.clean();\n    shared_state<R> *state = &self->state;\n    std::shared_ptr<shared_state<R>> state_sp{std::exchange(self, nullptr),", "    F &func = self->action.get(in_place_index_t<1>{});\n    shared_state<R> *state = &self->state;\n    std::shared_ptr<shared_state<R>> state_sp{self,"))
m("c-exec-noclean", "C10 C22", (TH, "    self->exec.clean();\n", ""))
m("c-exec-ref", "C10 C22", (TH, "    E exec = std::move(self->exec.get(in_place_index_t<1>{}));\n    self->exec.clean();\n", "    E &exec = self->exec.get(in_place_index_t<1>{});\n"))
m("c-action-dtor", "C06", (TH, "  ~cnt_action() {\n    if (auto data = wdata.lock())\n      data->abandon();\n  }", "  ~cnt_action() = default;"))
m("c-action-noexchange", "C06", (TH, "CntState::run(std::exchange(wdata, {}));", "CntState::run(wdata);"))
m("c-ithen-strong", "C09", (FH, "promise<result_type> p{std::exchange(state, nullptr)};", "promise<result_type> p{std::weak_ptr<detail::shared_state<result_type>>(state)};"))
PC, CQ = "portable_concurrency.cpp", "closable_queue.hpp"
m("p-close-one", "C13", (CQ, "  closed_ = true;\n  cv_.notify_all();", "  closed_ = true;\n  cv_.notify_one();"))
m("p-push-nonotify", "C13", (CQ, "  queue_.emplace(std::move(val));\n  cv_.notify_one();", "  queue_.emplace(std::move(val));\n  if (queue_.size() == 1)\n    cv_.notify_one();"))
m("p-push-closed", "C13", (CQ, "  if (closed_)\n    return;\n  queue_", "  queue_"))
m("p-pop-nopred", "C13", (CQ, "cv_.wait(lock, [this]() { return closed_ || !queue_.empty(); });\n  if (closed_ && queue_.empty())", "if (!closed_ && queue_.empty())\n    cv_.wait(lock);\n  if (queue_.empty())"))
m("p-pop-closed", "C13", (CQ, "  if (closed_ && queue_.empty())", "  if (closed_)"))
m("p-task-kept", "C13 C10", (PC, "    task = unique_function<void()>{};\n", ""))
m("p-wait-noclose", "C13", (PC, "void static_thread_pool::wait() {\n  queue_.close();\n", "void static_thread_pool::wait() {\n"))
m("p-wait-noattached", "C13 C10", (PC, "  cv_.wait(lock, [this] { return attached_threads_ == 0; });\n}\n\n} // namespace cxx14", "}\n\n} // namespace cxx14"))
m("p-stop-noflag", "C13", (PC, "  stopped_.store(true, std::memory_order_relaxed);\n", ""))
m("p-dtor-nostop", "C13", (PC, "  stop();\n  wait();\n}", "  wait();\n}"))
m("p-unlock-notify", "C13 C10", (PC, "  std::lock_guard<std::mutex> lock{mutex_};\n  if (--attached_threads_ == 0)\n    cv_.notify_all();", "  bool last;\n  {\n  std::lock_guard<std::mutex> lock{mutex_};\n  last = --attached_threads_ == 0;\n  }\n  if (last)\n    cv_.notify_all();"))
m("p-push-unlocked", "C13 C02", (CQ, "  std::lock_guard<std::mutex> guard(mutex_);\n  if (closed_)\n    return;\n  queue_", "  if (closed_)\n    return;\n  std::lock_guard<std::mutex> guard(mutex_);\n  queue_"))
m("p-pop-swap-nopop", "C13", (CQ, "  std::swap(dest, queue_.front());\n  queue_.pop();", "  dest = std::move(queue_.front());\n  queue_.pop();"))
m("p-process-all", "C13", (PC, "  while (!stopped.load(std::memory_order_relaxed) && queue.pop(task)) {", "  while (queue.pop(task)) {"))
m("p-process-once", "C13", (PC, "  while (!stopped.load(std::memory_order_relaxed) && queue.pop(task)) {\n    task();", "  while (queue.pop(task)) {\n    if (stopped.load()) break;\n    task();"))
m("p-closed-late", "C13", (CQ, "  if (closed_)\n    return;\n  queue_.emplace(std::move(val));\n  cv_.notify_one();", "  if (closed_ && queue_.empty())\n    return;\n  queue_.emplace(std::move(val));\n  cv_.notify_one();"))
m("v-snext-mutable", "C25", (TH, "    set_state_value(state, std::move(f),\n                    static_cast<cref_t<T>>(parent->value_ref()));", "    set_state_value(state, std::move(f),\n                    static_cast<std::add_lvalue_reference_t<T>>(parent->value_ref()));"))
SF, UF = "small_unique_function.hpp", "unique_function.hpp"
m("f-assign-nodestroy", "C14", (SF, "  if (vtbl_)\n    vtbl_->destroy(buffer_);\n  if (rhs.vtbl_)\n    rhs.vtbl_->move(rhs.buffer_, buffer_);\n  vtbl_ = rhs.vtbl_;\n  return *this;", "  if (rhs.vtbl_)\n    rhs.vtbl_->move(rhs.buffer_, buffer_);\n  vtbl_ = rhs.vtbl_;\n  return *this;"))
m("f-move-clear", "C14", (SF, "    rhs.vtbl_->move(rhs.buffer_, buffer_);\n  vtbl_ = rhs.vtbl_;\n}", "    rhs.vtbl_->move(rhs.buffer_, buffer_);\n  vtbl_ = rhs.vtbl_;\n  rhs.vtbl_ = nullptr;\n}"))
m("f-null-big", "C14", (UF, "  if (detail::is_null(f))\n    return;\n  func_", "  func_"))
m("f-null-small", "C14", (SF, "  if (detail::is_null(f))\n    return;\n", ""))
m("f-nothrow", "C14", (SF, " &&\n              std::is_nothrow_move_constructible<F>::value>", ">"))
m("f-align", "C14", (SF, "alignof(is_storable_helper<F>) <= small_buffer_align &&\n              ", ""))
m("f-nocheck", "C14", (SF, "  if (!vtbl_)\n    throw_bad_func_call();\n", ""))
m("f-byval", "C14", (SF, "func_ptr_t<R, small_buffer &, A...> call;", "func_ptr_t<R, small_buffer &, A...> call; /**/"))
m("f-fwd-lvalue", "C14", (UF, "    return detail::invoke(*func, std::forward<A>(a)...);", "    return detail::invoke(*func, static_cast<A>(a)...);"))
m("f-auto", "C14", (UF, "A... a) -> decltype(auto) {", "A... a) -> auto {"))
m("f-copy-assign", "C14", (SF, "new (&dst) F{std::move(reinterpret_cast<F &>(src))};", "new (&dst) F{reinterpret_cast<F &>(src)};"))
TW = "timed_waiter.h"
m("tw-nopred", "C21", (TW, "    return waiter_->cv.wait_for(lk, dur, [&] { return waiter_->notified; })\n               ? future_status::ready\n               : future_status::timeout;", "    if (!waiter_->notified && waiter_->cv.wait_for(lk, dur) == std::cv_status::timeout)\n      return future_status::timeout;\n    return future_status::ready;"))
m("tw-stale", "C21", (TW, "    return waiter_->cv.wait_until(lk, tp, [&] { return waiter_->notified; })\n               ? future_status::ready\n               : future_status::timeout;", "    while (!waiter_->notified)\n      if (waiter_->cv.wait_until(lk, tp) == std::cv_status::timeout)\n        return future_status::timeout;\n    return future_status::ready;"))
m("tw-once", "C21", (TW, "    return waiter_->cv.wait_for(lk, dur, [&] { return waiter_->notified; })\n               ? future_status::ready", "    return waiter_->cv.wait_for(lk, dur, [&] { return std::exchange(waiter_->notified, false); })\n               ? future_status::ready"))
m("tw-nolock", "C21 C02", (TW, "      {\n        std::lock_guard<std::mutex> lock{waiter->mutex};\n        waiter->notified = true;\n      }", "      waiter->notified = true;"))
m("tw-nonotify", "C21", (TW, "      waiter->cv.notify_all();", ""))
m("tw-notify-one", "C21", (TW, "      waiter->cv.notify_all();", "      waiter->cv.notify_one();"))
m("tw-raw", "C21 C04", (TW, "fut.notify([waiter = waiter_] {", "fut.notify([waiter = waiter_.get()] {"))
m("tw-weak", "C21 C04", (TW, "    fut.notify([waiter = waiter_] {\n      {", "    fut.notify([w = std::weak_ptr<struct waiter>(waiter_)] {\n      auto waiter = w.lock();\n      if (!waiter) return;\n      {"))
m("tw-shared-isready", "C21", ("shared_future.hpp", "  return waiter.wait_until(abs_time);", "  return waiter.wait_until(abs_time) == future_status::ready || is_ready() ? future_status::ready : future_status::timeout;"))
FH = "future.h"
m("cf-nested", "C19", (FH, "  static_assert(\n      !detail::is_future<T>::value,\n      \"future<future<T>> and future<shared_future<T>> are not allowed\");", ""))
m("cf-copy", "C19", ("unique_function.h", "  unique_function(const unique_function &) = delete;", "  unique_function(const unique_function &o) noexcept : unique_function(std::move(const_cast<unique_function &>(o))) {}"))
m("cf-exec", "C19", ("future.hpp", "  static_assert(is_executor<std::decay_t<E>>::value, \"E must be an executor\");\n  if (!state_)\n    detail::throw_no_state();\n  detail::future_state<T> &", "  if (!state_)\n    detail::throw_no_state();\n  detail::future_state<T> &"))
m("cf-noexcept", "C19", (FH, "  shared_future<T> share() noexcept;", "  shared_future<T> share();"), ("future.hpp", "share() noexcept", "share()"))
m("cf-explicit", "C19", ("latch.h", "explicit latch", "latch"))
m("cf-nodiscard", "C19", (FH, "  template <typename E, typename F>\n  PC_NODISCARD detail::cnt_future_t<F, T> next", "  template <typename E, typename F>\n  detail::cnt_future_t<F, T> next"))
m("cf-async", "C19", ("async.h", "is_executor<std::decay_t<E>>::value,", "true,"))
m("cf-sharedget", "C19", ("shared_future.h", "std::add_lvalue_reference_t<std::add_const_t<T>>>;", "std::add_lvalue_reference_t<T>>;"))

OS = "once_consumable_stack.h"
m("al-dealloc-std", "C23", (OS, "      node_allocator alloc{std::move(get_allocator())};\n", "      std::allocator<node> alloc;\n      using node_allocator2 = std::allocator<node>;\n"), (OS, "std::allocator_traits<node_allocator>::destroy(alloc, this);\n      std::allocator_traits<node_allocator>::deallocate(alloc, this, 1);", "std::allocator_traits<node_allocator2>::destroy(alloc, this);\n      std::allocator_traits<node_allocator2>::deallocate(alloc, this, 1);"))
m("al-dealloc-late", "C23", (OS, "      node_allocator alloc{std::move(get_allocator())};\n      std::allocator_traits<node_allocator>::destroy(alloc, this);\n", "      this->~node();\n      node_allocator alloc{std::move(get_allocator())};\n"))
m("al-makeshared", "C23", ("promise.h", "std::allocate_shared<allocated_state<T, Alloc>>(allocator,\n                                                               allocator)", "std::make_shared<allocated_state<T, Alloc>>(allocator)"))
m("al-makeshared2", "C23", ("promise.h", "  auto state = std::allocate_shared<detail::allocated_state<T, Alloc>>(\n      allocator, allocator);", "  auto state = std::make_shared<detail::allocated_state<T, Alloc>>(allocator);"))
m("al-push-std", "C23", ("shared_state.h", "    static_cast<shared_state<T> *>(this)->continuations().push(std::move(cnt),\n                                                               get_allocator());", "    static_cast<shared_state<T> *>(this)->continuations().push(std::move(cnt));"))
m("al-dealloc-base", "C23", (OS, "typename std::allocator_traits<Alloc>::template rebind_alloc<node>;\n      node_allocator alloc{std::move(get_allocator())};\n      std::allocator_traits<node_allocator>::destroy(alloc, this);\n      std::allocator_traits<node_allocator>::deallocate(alloc, this, 1);", "typename std::allocator_traits<Alloc>::template rebind_alloc<char>;\n      node_allocator alloc{std::move(get_allocator())};\n      this->~node();\n      std::allocator_traits<node_allocator>::deallocate(alloc, (char*)this, sizeof(node));"))
m("al-any-moveit", "C23", ("when_any.h", "    -> std::enable_if_t<detail::is_future<Future>::value,\n                        future<when_any_result<std::vector<Future, Alloc>>>> {\n", "    -> std::enable_if_t<detail::is_future<Future>::value,\n                        future<when_any_result<std::vector<Future, Alloc>>>> {  /**/\n"))
FPP, SPP, PH = "future.hpp", "shared_future.hpp", "promise.h"
AR = "template <typename T> bool future<T>::await_ready() const noexcept {\n  return is_ready();"
PU = "  state_->push(std::move(handle));"
m("co-ready-true", "C20", (FPP, AR, AR.replace("is_ready()", "valid()")))
m("co-ready-false", "C20", (FPP, AR, AR.replace("is_ready()", "false")))   # equivalent
m("co-double", "C20", (FPP, PU, PU.replace("std::move(handle)", "handle") + "\n" + PU))
m("co-skip-ready", "C20", (FPP, PU, "  if (!is_ready())\n    state_->push(std::move(handle));"))
m("co-touch", "C20", (FPP, PU, PU + "\n  if (!state_) detail::throw_no_state();"))
m("co-touch2", "C20", (SPP, PU, PU + "\n  (void)state_->continuations().executed();"))
m("co-strong", "C20", (FPP, PU, "  auto keep = state_;\n  keep->push(std::move(handle));"))   # equivalent
m("co-cycle", "C20", (FPP, PU, "  state_->push([h = handle, s = state_, d = true]() mutable { h.resume(); });"))   # equivalent
m("co-final", "C20", (PH, "  detail::suspend_never final_suspend() const noexcept { return {}; }", "  std::suspend_always final_suspend() const noexcept { return {}; }"))
m("co-initial", "C20", (PH, "  detail::suspend_never initial_suspend() const noexcept { return {}; }", "  std::suspend_always initial_suspend() const noexcept { return {}; }"))
m("co-swallow", "C20", (PH, "  void unhandled_exception() { set_exception(std::current_exception()); }", "  void unhandled_exception() {}"))
m("co-throw", "C20", (PH, "  void unhandled_exception() { set_exception(std::current_exception()); }", "  void unhandled_exception() { throw; }"))
m("co-noreturn", "C20", (PH, "  void return_void() { set_value(); }", "  void return_void() {}"))
m("co-sresume", "C20", (SPP, "shared_future<T>::await_resume() const {\n  return get();", "shared_future<T>::await_resume() const {\n  return std::move(state_->value_ref());"))
m("co-resume-nothrow", "C20", (FPP, "template <typename T> T future<T>::await_resume() { return get(); }", "template <typename T> T future<T>::await_resume() { auto s = std::move(state_); return std::move(s->value_ref()); }"))   # equivalent
m("co-resume-keep", "C20", (FPP, "template <typename T> T future<T>::await_resume() { return get(); }", "template <typename T> T future<T>::await_resume() noexcept { return get(); }"), ("future.h", "  T await_resume();", "  T await_resume() noexcept;"))
m("oo-unwrap", "C24", ("shared_state.h", "      if (!self->continuations().executed())\n        self->storage_.clean();\n", ""))
m("oo-pool", "C24", (PC, "    // Threads which are already started must be joined before this object dies.\n    stop();\n    wait();\n", ""))
m("oo-exec", "C24 C03", (PC, "    try {\n      cnt();\n    } catch (...) {\n      if (!error)\n        error = std::current_exception();\n    }", "    cnt();"))
m("oo-node-leak", "C24", ("once_consumable_stack.h", "  node_allocator nalloc{alloc};\n", "  node_allocator nalloc{alloc};\n  T tmp(std::move(val));\n"))
m("oo-push-after-store", "C24", (FPP, "  auto &state_ref = *state_;\n  state_ref.push([captured_state = state_] {});\n  return std::move(*this);", "  future res{std::move(*this)};\n  res.state_->push([captured_state = res.state_] {});\n  return res;"))
m("oo-uf-clear", "C24", ("unique_function.hpp", "  if (detail::is_null(f))\n    return;\n  func_ = [func", "  if (detail::is_null(f))\n    return;\n  func_ = [func"))
m("oo-make-noexcept", "C24", ("then.hpp", "auto make_then_state(continuations_stack &subscriptions, E &&exec, F &&f) {", "auto make_then_state(continuations_stack &subscriptions, E &&exec, F &&f) noexcept {"))
m("oo-wait-swallow", "C24 C03", (PC, "  std::unique_lock<std::mutex> lk{mtx};\n  cv.wait(lk, [&] { return ready; });", "  std::unique_lock<std::mutex> lk{mtx};\n  cv.wait(lk, [&] { return ready; });"))
m("oo-queue-lock", "C24", ("closable_queue.hpp", "  std::lock_guard<std::mutex> guard(mutex_);\n  if (closed_)\n    return;\n  queue_.emplace(std::move(val));", "  mutex_.lock();\n  if (closed_) {\n    mutex_.unlock();\n    return;\n  }\n  queue_.emplace(std::move(val));\n  mutex_.unlock();"))
m("oo-any-early", "C24", ("when_any.h", "    auto state = std::make_shared<when_any_state<Sequence>>(std::move(seq));", "    std::shared_ptr<when_any_state<Sequence>> state(new when_any_state<Sequence>(std::move(seq)), [](auto *p) { delete p; });"))
