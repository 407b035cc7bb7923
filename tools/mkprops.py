import json
P=[]
def prop(id,title,statement,over,text,why,files,mech,state=(),observe=()):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=["portable_concurrency/bits/"+f for f in files],mechanism=[dict(name=n,where=w) for n,w in mech],
                   state=[dict(name=n,meaning=m,where=w) for n,m,w in state],observe_at=list(observe),hook_needed=None)))
prop("C01","Every attached continuation runs exactly once",
 "A function attached to a valid future or shared_future (notify, then, next, with or without an executor) is started exactly once when the result becomes available, or at once if it already is: it is never lost and never started twice, whichever way attaching is interleaved with fulfilment and with other threads attaching to the same state, and however many functions are attached. This holds for a value, an exception and an abandoned producer alike, for every kind of producer (promise, packaged_task, async, continuation, when_all, when_any), and also when the function is attached from inside another continuation.",
 ["schedules","histories"],"all interleavings of attaching with fulfilment and with other attachments; all producers; any number of attached functions",
 "The tests attach before or after fulfilment on one thread and sample a few real races; the loss or duplication window is a handful of instructions inside the attach operation.",
 ["once_consumable_stack.hpp","once_consumable_stack.h","portable_concurrency.cpp","continuations_stack.h","then.hpp","future.hpp","shared_future.hpp"],
 [("compare-exchange loop that re-checks for the consumed marker","once_consumable_stack::push"),("single exchange that takes the whole list","once_consumable_stack::consume"),("run inline when push fails","continuations_stack::push")],
 [("head_","list of attached functions, or the consumed marker","once_consumable_stack")],["F.call events of user functions"])
prop("C02","Fulfilment and consumption are free of data races",
 "Whatever a producer wrote before fulfilling (the result included) is visible to every thread that learns about readiness through the library: is_ready() returning true, get/wait returning, a notification or continuation starting, a combined future becoming ready. No two threads using different handles (promise, future, shared_future copies, executor, packaged_task) of one asynchronous operation ever access the same memory without a happens-before order, unless both accesses are atomic.",
 ["schedules","configurations"],"all orders of the handles' operations, on every architecture the C++ memory model admits",
 "x86 hides most ordering errors, and the tests run without a race detector; a weakened memory order passes every test.",
 ["once_consumable_stack.hpp","when_all.h","when_any.h","shared_state.h","portable_concurrency.cpp","timed_waiter.h"],
 [("acquire/release orders on the list head","once_consumable_stack"),("value stored before continuations are executed","shared_state::emplace"),("atomic counter / flag","when_all_state, when_any_state"),("mutexes of the wait objects","detail::wait, timed_waiter, latch, closable_queue")],
 [("storage_","result","shared_state")],["happens-before order of all memory accesses on each path"])
prop("C03","No waiter misses its wake-up",
 "A thread blocked in future/shared_future wait() or get() resumes once the producer delivers a value, an exception or is destroyed, no matter at which instruction of the waiting call the delivery happens and whether the condition variable wakes spuriously. It never resumes before that: get() returns only with the delivered result.",
 ["schedules"],"all interleavings of the waiting call with the delivery, including spurious wake-ups",
 "A lost wake-up needs the delivery to fall between two particular instructions of the waiter; the tests' sleeps never place it there.",
 ["portable_concurrency.cpp","future.hpp","shared_future.hpp"],
 [("flag written and condition variable notified under the waiter's mutex, waits use the predicate form","detail::wait")],
 [("ready","flag of one blocked thread","detail::wait")],["outcome of every path through get/wait"])
prop("C04","Wake-ups never touch an object the woken thread may destroy",
 "As soon as a delivery, count-down or notification allows another thread to return from its wait and destroy the object it waited on (the future, its wait block, a latch, a timed_waiter), the delivering thread performs no further access to that object or to anything owned by the waiter.",
 ["schedules"],"all points at which the waiter may resume and destroy",
 "The bad window is a few instructions after the waiter became runnable; the tests never destroy at once and run without a sanitizer.",
 ["portable_concurrency.cpp","latch.h","timed_waiter.h"],
 [("notify while the mutex is held","detail::wait, latch"),("shared ownership of the wait block","timed_waiter")],
 [],["end-of-lifetime versus last access of the other thread"])
prop("C05","A result is set at most once and its future is taken at most once",
 "The first value or exception given to a promise or produced by a packaged_task is the one every reader sees; any later set_value, set_exception or second invocation reports promise_already_satisfied and changes nothing, and runs no function. A second get_future on a promise or packaged_task reports future_already_retrieved, before or after fulfilment.",
 ["histories","inputs"],"all sequences of operations on one promise / packaged_task, all result types",
 "Tests try the double calls for some types in the simplest order only.",
 ["shared_state.h","promise.h","packaged_task.h"],
 [("emptiness test before storing","shared_state::emplace, set_exception"),("state index test","promise_common::get_future, packaged_task::get_future"),("cleared function slot","task_state::run")],
 [("storage_","empty / value / unwrapped / error","shared_state")],["observed results and error codes"])
prop("C06","An abandoned operation reports broken_promise",
 "If a promise, a packaged_task that was not run, or a task or continuation handed to an executor is destroyed (or overwritten by move assignment) before it delivers a result, every future of that operation becomes ready with broken_promise and its continuations run. A promise or task that already delivered, or that delivered a still pending future, is not turned into broken_promise by its destruction, and moving handles around never abandons anything.",
 ["histories","fault_sequences"],"all points at which the producer side may be dropped, all result types, all drop forms",
 "Tests drop promises in a few positions; executors that drop work, drops of moved-from handles and drops while a returned future is pending are not combined.",
 ["promise.h","packaged_task.h","shared_state.h","then.hpp","either.h"],
 [("abandon on destruction and move assignment","promise_common, packaged_task, cnt_action"),("ready / unwrapped test","shared_state::abandon")],
 [],["observed results after the drop"])
prop("C07","User exceptions become the result and never escape",
 "An exception thrown by a user function run by then, next, packaged_task or async, or while its result is moved into the future, is stored as the result of the future returned for it, unchanged, for every result type (value, void, reference, returned future), and neither propagates into the thread that triggered the run nor terminates the process nor leaves the future pending.",
 ["inputs","fault_sequences"],"every entry point that runs a user function, every result kind, throw or return",
 "The tests throw from some of the instantiations; each result kind has its own code path.",
 ["utils.h","then.hpp","packaged_task.h","async.h"],
 [("try/catch storing current_exception","set_state_value overloads, decorate_* unwrap lambdas")],[],["observed results, escape and terminate outcomes"])
prop("C08","next() runs on values only and propagates errors",
 "A function attached with next() is called only if the parent delivers a value, and receives exactly that value; if the parent delivers an exception (or broken_promise), the function is never called, is destroyed, and the returned future delivers that same exception. A function attached with then() is always called and receives a ready parent holding the parent's result.",
 ["inputs","histories"],"every future kind, result kind and parent outcome",
 "Tests sample combinations; sibling overloads for unique, shared, void and unwrapping continuations are separate code.",
 ["then.hpp","future.hpp","shared_future.hpp"],
 [("parent's exception is tested first","decorate_unique_next, decorate_shared_next, decorate_void_next")],[],["F.call events and observed results"])
prop("C09","Only dropping the future cancels, and it does so completely",
 "Once the last future of a pending continuation, task or cancellable promise is destroyed, the continuation or task function is never started, everything it captured is released, the canceller runs exactly once, and is_awaiten() becomes false; setting the result of a dropped promise is a harmless no-op. Conversely a live or detached future (or a continuation attached to it that is itself live or detached) keeps the operation alive until it completes, a started function is never affected, and a canceller never runs once the result is set.",
 ["schedules","histories"],"all moments of dropping relative to scheduling, execution and fulfilment; chains of continuations",
 "Tests drop at one or two points of simple chains; dropping concurrently with fulfilment or while the executor holds the task is not reached.",
 ["then.hpp","promise.h","packaged_task.h","future.hpp","shared_future.hpp"],
 [("weak references from producers and executors, locked before use","cnt_state, cnt_action, promise_common, packaged_task"),("self capture","detach"),("destructor test","cancellable_state")],[],["F.call / F.dtor events, leaks, is_awaiten results"])
prop("C10","User objects are invoked at most once and destroyed exactly once",
 "Every function object, value, executor and argument handed to the library is moved or copied into it, invoked at most once (functions), destroyed exactly once, never used after it was moved from or destroyed, and no memory is leaked or released twice; this holds on every path, including dropped, failed and cancelled operations. A function that has run is destroyed by the time its operation is complete and nobody refers to it, it is not kept alive by a finished chain; one that will never run is released as well.",
 ["histories","fault_sequences"],"all operations and all their outcomes",
 "Tests check a few counts; leaks and stale uses on rare paths stay silent.",
 ["then.hpp","packaged_task.h","async.h","small_unique_function.hpp","unique_function.hpp","either.h","once_consumable_stack.hpp"],
 [("slots cleared after the function was moved out","cnt_state::run, schedule, task_state::run"),("single owner of list nodes","forward_list")],[],["constructor/destructor event balance, leaks"])
prop("C11","when_all becomes ready exactly when all inputs are ready",
 "The future returned by when_all becomes ready when, and not before, every input future is ready, whatever the order or concurrency of their completions and whatever mix of values, errors and abandoned producers they hold; it delivers the inputs, all valid and in the original order, and never an error of its own. Empty input yields a ready future, and its continuations run once.",
 ["schedules","inputs"],"any number and kind of inputs, all completion orders and interleavings with the call itself",
 "Tests complete two or three inputs in a few orders on one thread.",
 ["when_all.h","future_sequence.h"],
 [("counter initialised to inputs + 1, atomic decrement result decides","when_all_state::notify, make")],[("operations_remains_","inputs not yet ready","when_all_state")],["readiness and content of the result after each completion"])
prop("C12","when_any becomes ready with the first ready input",
 "The future returned by when_any becomes ready as soon as any input is ready and not before, exactly once, with index naming an input that is ready, and delivers all inputs valid and in the original order. Later completions change nothing; empty input yields a ready result with index -1.",
 ["schedules","inputs"],"any number and kind of inputs, all completion orders and interleavings with the call itself",
 "Tests complete inputs in a few orders on one thread.",
 ["when_any.h","future_sequence.h"],
 [("test-and-set winner writes the index before publishing","when_any_state::notify")],[("ready_flag_","somebody has won","when_any_state")],["readiness, index and content of the result"])
prop("C13","The thread pool runs every accepted task exactly once",
 "A task posted to a static_thread_pool executor before wait() or stop() closes the pool is run exactly once by one of the pool's threads or, after stop(), at most once; a task posted after closing is destroyed without running, so its future reports broken_promise. An accepted task is started as soon as a pool thread is free. wait() returns only after all accepted tasks have run and all pool threads ended; stop() lets running tasks finish and discards the rest; destruction does both, for any number of threads including attached ones.",
 ["schedules","histories"],"all interleavings of posting, worker steps, wait, stop and destruction; any number of workers",
 "Tests run a few tasks on lucky schedules; the windows between the queue's check and sleep, or between closing and draining, are not reached.",
 ["portable_concurrency.cpp","thread_pool.h","closable_queue.hpp","closable_queue.h"],
 [("predicate waits on a queue guarded by one mutex, close notifies all","closable_queue"),("join of every thread","static_thread_pool::wait")],[("closed_","no more tasks are accepted","closable_queue")],["task run/destroy events, thread joins, blocked outcomes"])
prop("C14","Type erased functions behave like the function they hold",
 "unique_function and the containers built on it call exactly the stored callable with the given arguments and return its result (references stay references), for any callable kind, size and alignment; moving transfers it (the source may then only be assigned, moved or destroyed), move assignment and destruction destroy the old callable exactly once, swapping is safe. Calling an empty function throws bad_function_call, and null function pointers, null member pointers and empty wrappers make an empty function.",
 ["inputs","histories"],"every callable kind (small, large, throwing move, function and member pointers), every sequence of construct/move/assign/call/destroy",
 "Tests cover several kinds, not each kind through each operation; lifetime mistakes need not crash.",
 ["small_unique_function.hpp","unique_function.hpp","small_unique_function.h","invoke.h","either.h"],
 [("operation table per callable type","get_callable_vtbl"),("heap indirection for large callables","unique_function(F&&, false_type)")],[],["construct/move/destroy events and results"])
prop("C15","Invalid objects are reported, and validity follows the documentation",
 "Every operation on a future, shared_future, promise or packaged_task without a state, except those documented as allowed, reports no_state instead of touching memory. After an operation the validity of the objects involved is as documented: get, then, next, share, detach and moves invalidate a unique future; shared_future operations other than moves and detach leave it valid; a moved-from promise or task has no state and its destruction has no effect.",
 ["inputs","histories"],"every operation of every class on an empty, moved-from or consumed object",
 "Tests check some operations on some classes.",
 ["future.hpp","shared_future.hpp","promise.h","packaged_task.h"],
 [("state test before use","future, shared_future"),("monostate branch","promise_common::get_state, packaged_task::get_state")],[],["error codes and valid() results"])
prop("C16","User code never runs inside a library lock",
 "No user supplied code (continuation, notification, task, canceller, or a destructor of anything handed to the library) is called while the calling thread holds a mutex of the library, so such code may itself use the same futures, executors and pools without deadlock.",
 ["schedules","programs"],"every path on which the library calls or destroys user objects",
 "A deadlock needs user code that re-enters the library at that point; the tests' user code does not.",
 ["closable_queue.hpp","portable_concurrency.cpp","timed_waiter.h"],
 [("tasks are moved out of the queue before they are run or destroyed","closable_queue::pop, process_queue")],[],["locks held at each user call or destructor"])
prop("C17","A latch releases exactly when its count reaches zero",
 "latch::wait and count_down_and_wait return exactly when the counter reached zero, for any number of waiting threads, all of which are released; is_ready tells whether the counter is zero. Count-downs that do not reach zero release nobody, and the latch may be destroyed as soon as the waits have returned, since its destructor waits for threads still inside.",
 ["schedules"],"all interleavings of waits, count-downs and destruction, any counts",
 "Tests use few threads and cannot place a count-down between a waiter's test and its sleep.",
 ["portable_concurrency.cpp","latch.h"],
 [("counter and waiter count under one mutex, notify_all on zero, predicate waits","latch")],[("counter_","remaining count-downs","latch"),("waiters_","threads inside wait","latch")],["blocked outcomes, happens-before of destruction"])
prop("C18","A returned future is unwrapped",
 "If a continuation, packaged_task or async function returns a future or shared_future, the future handed out for it becomes ready exactly when the inner one does and delivers the inner result (value, error or reference), with no nesting visible to the user; an invalid inner future is reported as broken_promise. The inner operation is kept alive by the outer future alone, and dropping the outer future releases it.",
 ["histories","inputs"],"ready, pending, failing, abandoned and invalid inner futures; every result kind and outer kind",
 "Tests unwrap for some kinds; pending inner futures combined with drops and errors are sampled only.",
 ["shared_state.h","then.hpp","utils.h","packaged_task.h","async.h"],
 [("inner state stored, outer continuations run from an inner continuation","shared_state::unwrap")],[],["readiness and result of the outer future after each inner step"])
prop("C19","Misuse is rejected at compile time",
 "Programs that break the library's usage rules do not compile: copying or copy-assigning futures, promises, packaged_task, unique_function, latch and pools; nested futures; posting, notifying or continuing through a type not declared an executor; continuations whose argument does not match; converting a callable of the wrong signature. The documented result types of then, next, async, get, share, when_all and when_any are exactly the deduced ones, operations documented as not throwing (moves, valid, share) are declared so, discarding a returned future (which would cancel its operation) is diagnosed, and all documented uses compile in C++14 to C++20, with or without the deprecated API.",
 ["programs"],"every program using the public API",
 "A test that does not compile cannot be in the suite, so nothing notices when the restriction disappears.",
 ["future.h","shared_future.h","promise.h","packaged_task.h","concurrency_type_traits.h","execution.h","unique_function.h","async.h","when_all.h","when_any.h","latch.h","thread_pool.h"],
 [("deleted members, static_assert, SFINAE constraints","class definitions")],[],["compiler verdict on witness programs"])
prop("C20","Coroutine support follows the same delivery rules",
 "A coroutine returning future<T> delivers its returned value or its unhandled exception through that future; awaiting a future resumes the coroutine exactly once when the result is available, at once or later, and yields the value or rethrows the error. No coroutine frame is resumed twice, leaked or destroyed while it is still needed.",
 ["schedules","configurations"],"ready and pending awaited futures, all result kinds, C++20 builds",
 "The test build uses C++14/17, so none of the coroutine members is even compiled.",
 ["coro.h","future.hpp","shared_future.hpp","promise.h"],
 [("await_suspend pushes the handle as a continuation","future, shared_future"),("promise_type members","promise")],[],["resume events and observed results"])
prop("C21","Timed waits report the truth",
 "timed_waiter (and the deprecated wait_for/wait_until) returns ready if and only if the result is available when it returns ready, and returns timeout only if the result had not been delivered to the waiter when it gave up; a delivery at any moment wakes it, repeated waits keep reporting ready, and the waiter may outlive the future or be destroyed before the result without harm.",
 ["schedules"],"all moments of delivery, timeout, spurious wake-up and destruction",
 "Tests use generous timeouts with one delivery moment.",
 ["timed_waiter.h","future.hpp","shared_future.hpp"],
 [("flag under mutex, predicate form of the timed wait","timed_waiter"),("wait block shared with the notification","timed_waiter")],[("notified","result delivered","timed_waiter::waiter")],["returned status versus delivery"])
prop("C22","Work given to an executor runs only through that executor",
 "notify, then, next and async called with an executor hand the function to that executor's post exactly once, only when the parent result is available (async: at once), and never run the function in any other way; the executor given is the one used, copied or moved at the call. Without an executor the function runs in place, in the thread that makes the result available or attaches.",
 ["histories","schedules"],"all executors (running at once, later, elsewhere or never), all parent outcomes",
 "Tests use one well-behaved executor.",
 ["then.hpp","future.hpp","shared_future.hpp","async.h","execution.h"],
 [("schedule posts the action","cnt_state::schedule"),("notify wraps post","future::notify")],[],["post events and thread/stack of user calls"])
prop("C23","Custom allocators are used consistently",
 "The shared state of a promise created with an allocator, and what waiting for or detaching its future needs, is obtained from that allocator (a rebound copy of it); each block is given back to an equal allocator with the type and number it was obtained with, exactly once, by the time all handles of the operation are gone, whatever its outcome; memory not obtained from the allocator is never given to it. Vectors with a user's allocator given to when_all or when_any are handled alike.",
 ["histories","configurations"],"all outcomes of operations on allocator-created promises",
 "Tests count allocations in two scenarios.",
 ["promise.h","shared_state.h","once_consumable_stack.h"],
 [("allocate_shared and per-node allocator copy","promise_common, allocate_list_node")],[],["allocate/deallocate events"])
prop("C24","Allocation failure leaves nothing broken",
 "If memory (or, for the pool, a thread) cannot be obtained inside any library operation, the operation throws bad_alloc (the pool's constructor: the error of the thread creation), or reports it through the resulting future if it happens while the future returned by a user function is taken over. Nothing is leaked, run twice or left half attached, all objects stay destructible, no future stays pending forever, the program is not terminated, and every other handle stays usable: promises still deliver, previously attached functions still run exactly once, also when an executor runs out of memory while it is handed one of several attached functions. A future that the failing operation takes over (then, next, when_all, when_any) counts as dropped. Only an executor failing while it is handed a function from a destructor or from inside another continuation is outside of this.",
 ["fault_sequences"],"failure of each single allocation of each operation",
 "Tests never fail an allocation.",
 ["once_consumable_stack.h","then.hpp","promise.h","portable_concurrency.cpp","packaged_task.h","unique_function.hpp","when_all.h","when_any.h"],
 [("allocation before any visible change","push, make_then_state"),("RAII ownership throughout","all")],[],["leaks, outcomes, later behaviour of other handles"])
prop("C25","Delivered values arrive intact",
 "get() yields exactly the value, reference or exception the producer delivered: a unique future hands it over by move without extra copies, a reference result denotes the same object, a shared_future hands every reader a reference to one stored object that stays unchanged and alive as long as any copy exists, whatever the other readers, continuations and copies do. make_ready_future and make_exceptional_future give ready futures with exactly that content, arguments of async and packaged_task reach the function as given.",
 ["inputs","histories"],"all result kinds, all numbers and orders of readers",
 "Tests read once or twice; a reader that steals or alters the shared value is only visible to later readers in certain orders.",
 ["shared_state.h","future.hpp","shared_future.hpp","then.hpp","make_future.h","async.h","utils.h","algo_adapters.h"],
 [("value_ref plus move only in unique paths","future::get, decorate_*"),("const reference for shared","shared_future::get")],[],["identity and copy/move events of values"])
prop("C26","Timed waits end near their deadline and work is served fairly",
 "A timed wait returns not before its timeout elapsed and soon after it, and tasks in a pool are neither delayed nor starved without bound.",
 ["schedules","configurations"],"all clocks, loads and schedulers",
 "Depends on clock and scheduler behaviour.",
 ["timed_waiter.h","closable_queue.hpp"],[("standard library timed wait","timed_waiter")])
with open('/verif/properties.jsonl','w') as f:
    for p in P: f.write(json.dumps(p)+'\n')
print(len(P), [len(p['title']) for p in P if len(p['title'])>80])
