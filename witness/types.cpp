// Documented types, restrictions that take part in overload resolution, and exception specifications.
#include "prelude.h"

template <class A, class B> constexpr bool same = std::is_same<A, B>::value;
#define TYPE(expr, ...) static_assert(same<decltype(expr), __VA_ARGS__>, "type of " #expr)
#define IS(...) static_assert(__VA_ARGS__, #__VA_ARGS__)
#define NOT(...) static_assert(!(__VA_ARGS__), "not " #__VA_ARGS__)
template <class...> using void_t_ = void;
#define DETECT(name, expr)                                                                                                                          \
  template <class D, class... A> struct name##_impl : std::false_type {};                                                                           \
  template <class... A> struct name##_impl<void_t_<decltype(expr)>, A...> : std::true_type {};                                                      \
  template <class... A> constexpr bool name = name##_impl<void, A...>::value
// note: the expression must depend on the pack A
DETECT(can_async, pc::async(std::declval<A>()...));
DETECT(can_when_all, pc::when_all(std::declval<A>()...));
DETECT(can_when_any, pc::when_any(std::declval<A>()...));
template <class F, class = void, class... A> struct then_impl : std::false_type {};
template <class F, class... A> struct then_impl<F, void_t_<decltype(std::declval<F>().then(std::declval<A>()...))>, A...> : std::true_type {};
template <class F, class... A> constexpr bool can_then = then_impl<F, void, A...>::value;
template <class F, class = void, class... A> struct next_impl : std::false_type {};
template <class F, class... A> struct next_impl<F, void_t_<decltype(std::declval<F>().next(std::declval<A>()...))>, A...> : std::true_type {};
template <class F, class... A> constexpr bool can_next = next_impl<F, void, A...>::value;
template <class P, class = void, class... A> struct set_impl : std::false_type {};
template <class P, class... A> struct set_impl<P, void_t_<decltype(std::declval<P &>().set_value(std::declval<A>()...))>, A...> : std::true_type {};
template <class P, class... A> constexpr bool can_set = set_impl<P, void, A...>::value;
template <class F, class = void, class... A> struct call_impl : std::false_type {};
template <class F, class... A> struct call_impl<F, void_t_<decltype(std::declval<F>()(std::declval<A>()...))>, A...> : std::true_type {};
template <class F, class... A> constexpr bool can_call = call_impl<F, void, A...>::value;

struct nop { void operator()() const {} };
// ------------------------------------------------------------ copying, moving, exceptions
template <class T> constexpr bool unique = !std::is_copy_constructible<T>::value && !std::is_copy_assignable<T>::value &&
    !std::is_constructible<T, T &>::value && !std::is_assignable<T &, T &>::value && !std::is_constructible<T, const T>::value;
template <class T> constexpr bool movable = std::is_nothrow_move_constructible<T>::value && std::is_nothrow_move_assignable<T>::value;
template <class T> constexpr bool pinned = unique<T> && !std::is_move_constructible<T>::value && !std::is_move_assignable<T>::value;
#define FOR(T)                                                                                                                                      \
  IS(unique<pc::future<T>>); IS(movable<pc::future<T>>); IS(std::is_nothrow_default_constructible<pc::future<T>>::value);                           \
  IS(unique<pc::promise<T>>); IS(movable<pc::promise<T>>); IS(std::is_default_constructible<pc::promise<T>>::value);                                \
  IS(std::is_nothrow_copy_constructible<pc::shared_future<T>>::value); IS(std::is_nothrow_copy_assignable<pc::shared_future<T>>::value);            \
  IS(movable<pc::shared_future<T>>); IS(std::is_nothrow_default_constructible<pc::shared_future<T>>::value);                                        \
  IS(std::is_nothrow_constructible<pc::shared_future<T>, pc::future<T>>::value);                                                                    \
  NOT(std::is_constructible<pc::shared_future<T>, pc::future<T> &>::value); NOT(std::is_constructible<pc::shared_future<T>, const pc::future<T> &>::value); \
  NOT(std::is_constructible<pc::future<T>, pc::shared_future<T>>::value); NOT(std::is_assignable<pc::future<T> &, pc::shared_future<T>>::value);    \
  NOT(std::is_assignable<pc::shared_future<T> &, pc::future<T> &>::value); IS(std::is_assignable<pc::shared_future<T> &, pc::future<T>>::value);    \
  IS(noexcept(std::declval<const pc::future<T> &>().valid())); IS(noexcept(std::declval<const pc::shared_future<T> &>().valid()));                  \
  IS(noexcept(std::declval<pc::future<T> &>().share()));                                                                                            \
  NOT(std::is_copy_constructible<pc::packaged_task<T()>>::value); NOT(std::is_copy_assignable<pc::packaged_task<T()>>::value);  IS(movable<pc::packaged_task<T()>>); IS(std::is_nothrow_default_constructible<pc::packaged_task<T()>>::value);\
  IS(noexcept(std::declval<const pc::packaged_task<T()> &>().valid()));                                                                             \
  IS(noexcept(std::declval<pc::packaged_task<T()> &>().swap(std::declval<pc::packaged_task<T()> &>())));                                            \
  IS(unique<pc::unique_function<T()>>); IS(movable<pc::unique_function<T()>>); IS(std::is_nothrow_default_constructible<pc::unique_function<T()>>::value); \
  IS(std::is_nothrow_constructible<pc::unique_function<T()>, std::nullptr_t>::value);                                                               \
  IS(std::is_nothrow_destructible<pc::future<T>>::value); IS(std::is_nothrow_destructible<pc::promise<T>>::value);                                  \
  NOT(std::is_convertible<pc::unique_function<T()>, bool>::value);                                                                                  \
  TYPE(std::declval<pc::future<T> &>().share(), pc::shared_future<T>);                                                                              \
  TYPE(std::declval<pc::future<T> &>().detach(), pc::future<T>); TYPE(std::declval<pc::shared_future<T> &>().detach(), pc::shared_future<T>);       \
  TYPE(std::declval<const pc::future<T> &>().wait(), void); TYPE(std::declval<const pc::future<T> &>().is_ready(), bool);                           \
  TYPE(std::declval<pc::future<T> &>().get(), T);                                                                                                   \
  TYPE(std::declval<pc::packaged_task<T()> &>().get_future(), pc::future<T>);                                                                       \
  TYPE(std::declval<pc::packaged_task<pc::future<T>()> &>().get_future(), pc::future<T>);                                                           \
  TYPE(std::declval<pc::packaged_task<pc::shared_future<T>()> &>().get_future(), pc::shared_future<T>);                                             \
  TYPE(pc::make_promise<T>(), std::pair<pc::promise<T>, pc::future<T>>);                                                                            \
  TYPE(pc::make_promise<T>(std::allocator<char>{}), std::pair<pc::promise<T>, pc::future<T>>);                                                      \
  TYPE(pc::make_promise<T>(pc::canceler_arg, nop{}), std::pair<pc::promise<T>, pc::future<T>>);                                                     \
  TYPE(pc::make_exceptional_future<T>(std::exception_ptr{}), pc::future<T>); TYPE(pc::make_exceptional_future<T>(1), pc::future<T>);                \
  IS(same<pc::future<T>::value_type, T>); IS(same<pc::shared_future<T>::value_type, T>);
FOR(int)
FOR(void)
FOR(int &)
FOR(const std::string &)
FOR(Ptr)
FOR(std::vector<MoveOnly>)
IS(pinned<pc::latch>);
IS(pinned<pc::static_thread_pool>);
NOT(std::is_convertible<std::ptrdiff_t, pc::latch>::value);
NOT(std::is_convertible<std::size_t, pc::static_thread_pool>::value);
IS(noexcept(std::declval<const pc::latch &>().is_ready()));
IS(noexcept(std::declval<pc::static_thread_pool &>().executor()));
IS(std::is_nothrow_default_constructible<pc::timed_waiter>::value);
IS(std::is_constructible<pc::timed_waiter, pc::future<int> &>::value);
IS(std::is_constructible<pc::timed_waiter, pc::shared_future<int> &>::value);
NOT(std::is_constructible<pc::timed_waiter, pc::future<int>>::value);
NOT(std::is_convertible<pc::future<int> &, pc::timed_waiter>::value);
NOT(std::is_convertible<pc::shared_future<int> &, pc::timed_waiter>::value);
NOT(std::is_constructible<pc::future<long>, pc::future<int>>::value);
NOT(std::is_constructible<pc::future<void>, pc::future<int>>::value);
NOT(std::is_constructible<pc::shared_future<long>, pc::future<int>>::value);
NOT(std::is_constructible<pc::shared_future<long>, pc::shared_future<int>>::value);
NOT(std::is_constructible<pc::promise<long>, pc::promise<int>>::value);
NOT(std::is_convertible<void (*)(), pc::packaged_task<void()>>::value);
NOT(std::is_constructible<pc::future<int>, int>::value);
NOT(std::is_constructible<pc::shared_future<int>, int>::value);

// ------------------------------------------------------------ results
TYPE(std::declval<const pc::shared_future<int> &>().get(), const int &);
TYPE(std::declval<const pc::shared_future<Ptr> &>().get(), const Ptr &);
TYPE(std::declval<const pc::shared_future<int &> &>().get(), int &);
TYPE(std::declval<const pc::shared_future<const int &> &>().get(), const int &);
TYPE(std::declval<const pc::shared_future<void> &>().get(), void);
TYPE(std::declval<const pc::shared_future<int> &>().is_ready(), bool);
TYPE(pc::make_ready_future(), pc::future<void>);
TYPE(pc::make_ready_future(1), pc::future<int>);
TYPE(pc::make_ready_future(std::declval<const std::string &>()), pc::future<std::string>);
TYPE(pc::make_ready_future("abc"), pc::future<const char *>);
TYPE(pc::make_ready_future(std::declval<Ptr>()), pc::future<Ptr>);
TYPE(pc::make_ready_future(std::declval<std::reference_wrapper<int>>()), pc::future<int &>);
TYPE(pc::make_ready_future(std::declval<std::reference_wrapper<const int>>()), pc::future<const int &>);
template <class S> using fn = S *;
template <class S> fn<S> f_();
using SF = pc::shared_future<int>;
using UF = pc::future<int>;
#define THEN(F, EXPECT, ...)                                                                                                                        \
  TYPE(std::declval<F>().then(f_<__VA_ARGS__>()), EXPECT);                                                                                          \
  TYPE(std::declval<F>().then(std::declval<Exec>(), f_<__VA_ARGS__>()), EXPECT);                                                                    \
  TYPE(std::declval<F>().then(std::declval<Exec *>(), f_<__VA_ARGS__>()), EXPECT);                                                                  \
  TYPE(std::declval<F>().then(std::declval<const Exec &>(), f_<__VA_ARGS__>()), EXPECT)
#define NEXT(F, EXPECT, ...)                                                                                                                        \
  TYPE(std::declval<F>().next(f_<__VA_ARGS__>()), EXPECT);                                                                                          \
  TYPE(std::declval<F>().next(std::declval<Exec>(), f_<__VA_ARGS__>()), EXPECT);                                                                    \
  TYPE(std::declval<F>().next(std::declval<Exec *>(), f_<__VA_ARGS__>()), EXPECT);                                                                  \
  TYPE(std::declval<F>().next(std::declval<const Exec &>(), f_<__VA_ARGS__>()), EXPECT)
THEN(UF &, pc::future<long>, long(UF));
THEN(UF &, pc::future<void>, void(UF));
THEN(UF &, pc::future<long &>, long &(UF));
THEN(UF, pc::future<Ptr>, Ptr(UF));
THEN(UF &, pc::future<long>, pc::future<long>(UF));
THEN(UF &, pc::shared_future<long>, pc::shared_future<long>(UF));
THEN(UF &, pc::future<void>, pc::future<void>(UF));
THEN(UF &, pc::future<long &>, pc::future<long &>(UF));
THEN(pc::future<void> &, pc::future<int>, int(pc::future<void>));
THEN(pc::future<int &> &, pc::future<int>, int(pc::future<int &>));
THEN(SF &, pc::future<long>, long(SF));
THEN(const SF &, pc::future<long>, long(SF));
THEN(const SF &, pc::future<long>, long(const SF &));
THEN(const SF &, pc::future<void>, void(SF));
THEN(const SF &, pc::future<long &>, long &(SF));
THEN(const SF &, pc::future<long>, pc::future<long>(SF));
THEN(const SF &, pc::shared_future<long>, pc::shared_future<long>(SF));
THEN(const pc::shared_future<void> &, pc::future<int>, int(pc::shared_future<void>));
THEN(UF &, pc::future<long>, void(pc::promise<long>, UF));
THEN(UF &, pc::future<void>, void(pc::promise<void>, UF));
THEN(UF &, pc::future<long &>, void(pc::promise<long &>, UF));
THEN(SF &, pc::future<long>, void(pc::promise<long>, SF));
THEN(SF &, pc::future<void>, void(pc::promise<void>, SF));
NEXT(UF &, pc::future<long>, long(int));
NEXT(UF &, pc::future<void>, void(int &&));
NEXT(UF &, pc::future<void>, void(const int &));
NEXT(UF &, pc::future<long &>, long &(int));
NEXT(UF &, pc::future<long>, pc::future<long>(int));
NEXT(UF &, pc::shared_future<long>, pc::shared_future<long>(int));
NEXT(pc::future<Ptr> &, pc::future<Ptr>, Ptr(Ptr));
NEXT(pc::future<void> &, pc::future<int>, int());
NEXT(pc::future<void> &, pc::future<void>, void());
NEXT(pc::future<void> &, pc::future<int>, pc::future<int>());
NEXT(pc::future<int &> &, pc::future<int &>, int &(int &));
NEXT(SF &, pc::future<long>, long(int));
NEXT(const SF &, pc::future<long>, long(const int &));
NEXT(const SF &, pc::future<void>, void(const int &));
NEXT(const SF &, pc::future<long>, pc::future<long>(const int &));
NEXT(const SF &, pc::shared_future<long>, pc::shared_future<long>(const int &));
NEXT(const pc::shared_future<void> &, pc::future<int>, int());
NEXT(const pc::shared_future<int &> &, pc::future<int &>, int &(int &));
#define ASYNC(EXPECT, ...)                                                                                                                          \
  TYPE(pc::async(std::declval<Exec>(), __VA_ARGS__), EXPECT);                                                                                       \
  TYPE(pc::async(std::declval<Exec &>(), __VA_ARGS__), EXPECT);                                                                                     \
  TYPE(pc::async(std::declval<const Exec &>(), __VA_ARGS__), EXPECT);                                                                               \
  TYPE(pc::async(std::declval<Exec *>(), __VA_ARGS__), EXPECT);                                                                                     \
  TYPE(pc::async(pc::inplace_executor, __VA_ARGS__), EXPECT);                                                                                       \
  TYPE(pc::async(std::declval<pc::static_thread_pool &>().executor(), __VA_ARGS__), EXPECT)
ASYNC(pc::future<int>, f_<int()>());
ASYNC(pc::future<void>, f_<void(int, Ptr)>(), 1, Ptr{});
ASYNC(pc::future<int &>, f_<int &()>());
ASYNC(pc::future<int>, f_<pc::future<int>()>());
ASYNC(pc::shared_future<int>, f_<pc::shared_future<int>()>());
ASYNC(pc::future<void>, f_<pc::future<void>(const std::string &)>(), "text");
struct Obj { int m(); int x; };
ASYNC(pc::future<int>, &Obj::m, std::declval<Obj *>());
TYPE(pc::when_all(), pc::future<std::tuple<>>);
TYPE(pc::when_all(std::declval<UF>(), std::declval<SF>(), std::declval<const SF &>(), std::declval<pc::future<void>>()),
     pc::future<std::tuple<UF, SF, SF, pc::future<void>>>);
TYPE(pc::when_all(std::declval<std::vector<UF>>()), pc::future<std::vector<UF>>);
TYPE(pc::when_all(std::declval<std::vector<SF> &>()), pc::future<std::vector<SF>>);
TYPE(pc::when_all(std::declval<UF *>(), std::declval<UF *>()), pc::future<std::vector<UF>>);
TYPE(pc::when_all(std::declval<std::list<SF>::iterator>(), std::declval<std::list<SF>::iterator>()), pc::future<std::vector<SF>>);
TYPE(pc::when_all(std::declval<std::list<SF>::const_iterator>(), std::declval<std::list<SF>::const_iterator>()), pc::future<std::vector<SF>>);
TYPE(pc::when_any(), pc::future<pc::when_any_result<std::tuple<>>>);
TYPE(pc::when_any(std::declval<UF>(), std::declval<SF>(), std::declval<const SF &>()), pc::future<pc::when_any_result<std::tuple<UF, SF, SF>>>);
TYPE(pc::when_any(std::declval<std::vector<UF>>()), pc::future<pc::when_any_result<std::vector<UF>>>);
TYPE(pc::when_any(std::declval<std::vector<SF> &>()), pc::future<pc::when_any_result<std::vector<SF>>>);
TYPE(pc::when_any(std::declval<UF *>(), std::declval<UF *>()), pc::future<pc::when_any_result<std::vector<UF>>>);
TYPE(pc::when_any(std::declval<std::list<SF>::iterator>(), std::declval<std::list<SF>::iterator>()), pc::future<pc::when_any_result<std::vector<SF>>>);
TYPE(std::declval<pc::when_any_result<std::tuple<>>>().index, std::size_t);
TYPE(std::declval<pc::timed_waiter &>().wait_for(std::chrono::seconds(1)), pc::future_status);
TYPE(std::declval<pc::timed_waiter &>().wait_until(std::chrono::system_clock::now()), pc::future_status);
TYPE(std::declval<const pc::promise<int> &>().is_awaiten(), bool);
TYPE(std::declval<const pc::unique_function<int(Ptr)> &>()(Ptr{}), int);
TYPE(std::declval<const pc::unique_function<int &()> &>()(), int &);
TYPE(std::declval<const pc::unique_function<void()> &>() == nullptr, bool);

// ------------------------------------------------------------ overload resolution
IS(can_async<Exec, fn<int()>>);
NOT(can_async<Other, fn<int()>>);
NOT(can_async<fn<int()>>);
NOT(can_async<fn<int(int)>, int>);
NOT(can_async<int, fn<int()>>);
NOT(can_async<Exec, fn<int(int)>>);
NOT(can_async<Exec, fn<int(int)>, std::string>);
NOT(can_async<Exec, fn<int()>, int>);
IS(can_when_all<UF, SF &, const SF &>);
NOT(can_when_all<UF, int>);
NOT(can_when_all<int, UF>);
NOT(can_when_all<int>);
NOT(can_when_all<std::vector<int>>);
NOT(can_when_all<int *, int *>);
IS(can_when_any<UF, SF &, const SF &>);
NOT(can_when_any<UF, int>);
NOT(can_when_any<int, UF>);
NOT(can_when_any<int>);
NOT(can_when_any<std::vector<int>>);
NOT(can_when_any<int *, int *>);
IS(can_then<UF &, fn<int(UF)>>);
NOT(can_then<UF &, fn<int(int)>>);
NOT(can_then<UF &, fn<int()>>);
NOT(can_then<UF &, fn<int(pc::future<std::string>)>>);
NOT(can_then<UF &, fn<int(UF &)>>);
NOT(can_then<const UF &, fn<int(UF)>>);
NOT(can_then<UF &, fn<int(UF, int)>>);
NOT(can_then<UF &, fn<void(pc::promise<int>, pc::future<long>)>>);
IS(can_then<const SF &, fn<int(SF)>>);
NOT(can_then<const SF &, fn<int(int)>>);
NOT(can_then<const SF &, fn<int(UF)>>);
NOT(can_then<const SF &, fn<int(SF &)>>);
IS(can_next<UF &, fn<int(int)>>);
NOT(can_next<UF &, fn<int(int &)>>);
NOT(can_next<UF &, fn<int()>>);
NOT(can_next<UF &, fn<int(std::string)>>);
NOT(can_next<UF &, fn<int(int, int)>>);
NOT(can_next<UF &, fn<int(UF)>>);
NOT(can_next<const UF &, fn<int(int)>>);
NOT(can_next<pc::future<void> &, fn<int(int)>>);
IS(can_next<const SF &, fn<int(int)>>);
NOT(can_next<const SF &, fn<int(int &)>>);
NOT(can_next<const SF &, fn<int(int &&)>>);
NOT(can_next<const SF &, fn<int()>>);
NOT(can_next<const pc::shared_future<Ptr> &, fn<int(Ptr)>>);
NOT(can_next<const pc::shared_future<void> &, fn<int(int)>>);
IS(can_set<pc::promise<Ptr>, Ptr>);
NOT(can_set<pc::promise<int>, std::string>);
NOT(can_set<pc::promise<int>>);
NOT(can_set<pc::promise<int &>, int>);
NOT(can_set<pc::promise<int &>, const int &>);
IS(can_set<pc::promise<int &>, int &>);
NOT(can_set<pc::promise<void>, int>);
IS(can_set<pc::promise<void>>);
IS(can_call<pc::packaged_task<int(int)> &, int>);
NOT(can_call<pc::packaged_task<int(int)> &>);
NOT(can_call<pc::packaged_task<int(int)> &, std::string>);
NOT(can_call<const pc::packaged_task<int(int)> &, int>);
IS(can_call<const pc::unique_function<int(int)> &, int>);
NOT(can_call<const pc::unique_function<int(int)> &>);
NOT(can_call<const pc::unique_function<int(int)> &, std::string>);
NOT(can_call<const pc::unique_function<int(Ptr)> &, Ptr &>);
IS(pc::is_executor<Exec>::value);
IS(pc::is_executor<pc::inplace_executor_t>::value);
IS(pc::is_executor<pc::static_thread_pool::executor_type>::value);
NOT(pc::is_executor<Other>::value);
NOT(pc::is_executor<int>::value);
NOT(pc::is_executor<pc::static_thread_pool>::value);
