// common part of the witness programs of C19
#pragma once
#include <portable_concurrency/execution>
#include <portable_concurrency/functional>
#include <portable_concurrency/future>
#include <portable_concurrency/latch>
#include <portable_concurrency/thread_pool>
#include <portable_concurrency/timed_waiter>

#include <functional>
#include <list>
#include <memory>
#include <string>
#include <tuple>
#include <type_traits>
#include <vector>

struct Exec {};  // declared an executor
struct Other {}; // has post, but is not declared an executor
namespace portable_concurrency {
template <> struct is_executor<Exec> : std::true_type {};
template <> struct is_executor<Exec *> : std::true_type {};
} // namespace portable_concurrency
template <class T> void post(Exec, T &&t) { std::forward<T>(t)(); }
template <class T> void post(Exec *, T &&t) { std::forward<T>(t)(); }
template <class T> void post(Other, T &&t) { std::forward<T>(t)(); }
inline void post(pc::inplace_executor_t, Other) {}

struct Abstract { virtual ~Abstract() = default; virtual void f() = 0; };
struct MoveOnly {
  MoveOnly() = default;
  MoveOnly(MoveOnly &&) = default;
  MoveOnly &operator=(MoveOnly &&) = default;
};
using Ptr = std::unique_ptr<int>;
template <class T> T &lv();
