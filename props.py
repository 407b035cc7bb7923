"""What the check of each property decides (text for the evidence) and extra deciding steps."""
PROPS = {}


def P(id, rule, **kw):
    PROPS[id] = dict(rule=rule, **kw)


ENG = "path-sensitive typestate analysis of the compiled IR of all clients below: "
P("C01", ENG + "on every abstract path each attached function has exactly one start event between attachment (or readiness) and the end of "
  "the operation, with steps of the fulfilling thread and of other attaching threads placed at every synchronisation operation of the attach code.")
P("C02", "vector clock happens-before analysis of every abstract path of every client of all areas: each pair of conflicting accesses of two threads, "
  "and each end of lifetime against the other threads' accesses, must be ordered by the memory orders and locks written in the source.")
P("C03", ENG + "no path through wait/get ends blocked after the delivery, and none returns before it, with the delivery and spurious wake-ups at every point of the waiting code.")
P("C04", "lifetime analysis: after the wake-up the waiting side destroys what it waited on at once; no access of the waking side may touch it afterwards or be unordered with its end of life.")
P("C05", ENG + "the observed results and error codes of every history of promise and packaged_task operations equal those of a reference automaton.")
P("C06", ENG + "after the producer is dropped at any point every future observes broken_promise, and no other drop changes a result.")
P("C07", ENG + "a user function that throws leads to exactly that exception in the returned future; escape and terminate outcomes are violations.")
P("C08", ENG + "next functions start on value outcomes only and errors reach the result unchanged; then functions always start with the parent's result.")
P("C09", ENG + "started/destroyed/cancelled events after the last future is dropped at any point, and survival of live and detached operations.")
P("C10", "ownership typestate of every user object and heap allocation on every abstract path of every client of all areas: constructed once, not used "
  "outside of its lifetime or after it was moved from, called at most once, destroyed exactly once, nothing leaked.")
P("C11", ENG + "the combined future is ready after the last completion and not before, with the completions placed at every point of the call; content, order and continuations are compared.")
P("C12", ENG + "the combined future is ready with the first completion and not before, once, with an index of a ready input; content and order are compared.")
P("C13", ENG + "each accepted task has exactly one start (at most one after stop), finished before wait returns; rejected tasks are destroyed unrun; pool threads never stay blocked; "
  "the worker threads are analysed through all switches at synchronisation operations within the budget.")
P("C14", ENG + "for every callable kind and operation history the callee, arguments, result and emptiness equal those of a reference automaton.")
P("C15", ENG + "every operation on an object without state reports no_state, and valid() after each operation is as documented.")
P("C16", "lock-set analysis of every abstract path of every client of all areas: no user call, post or destructor of a user object while a library mutex is held.")
P("C17", ENG + "waits return exactly when the counted-down sum reaches the initial value, every waiter returns, and destruction right after is ordered and safe.")
P("C18", ENG + "the outer future is ready exactly when the inner one is, with its result; drops release the inner operation.")
P("C19", "compile-fail witnesses and static assertions judged by the compiler's type checker against the current headers: each misuse program must be rejected while its nearly equal correct twin is accepted, each documented type, noexcept and overload constraint is a static_assert, and all documented uses instantiate in C++14/17/20 with and without the deprecated API.", extra=lambda *a: __import__("witness").decide(*a))
P("C20", ENG + "IR of C++20 coroutines over the library: results, resume events, frame ownership and leaks.")
P("C21", ENG + "the returned status is compared with the delivery, with delivery, time-out and spurious wake-up at every point.")
P("C22", ENG + "each function given with an executor has exactly one post to that executor at the right moment and only runs inside of the posted task.")
P("C23", ENG + "allocate/deallocate events of the user's allocator balance with equal type, size and resource on every path.")
P("C24", ENG + "each allocation of each operation may fail; nothing leaks, terminates or is attached half, other handles keep working.")
P("C25", ENG + "identity and copy/move events of each value from producer to every reader.")
