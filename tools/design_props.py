SEED_HEAD = """
Each is a change to the library that compiles, passes the 98 tests and breaks the named property in a
situation that needs something special; `demo.sh` shows it. They were written from the property text, without
looking at the harness; the ones first missed led to the extension that is named. `tools/mutate/` holds the
mutation operators used for a broader campaign (see the end)."""
MISSED_FIRST = {
 "c05_result_after_resume": "resumption through a dispatcher on another thread was only explored for the resume location, not for results; now all histories of C01, C02, C05, C06 also run with inline, deferred and threaded dispatchers",
 "c12_prepend_double_check": "all scenarios started with two handlers; now also with none and one",
 "c14_clock_truncate": "deadlines were multiples of 10 ms on the steady clock; now sub-millisecond units and all clocks",
 "c14_coalesce": "deadlines were far apart; now nanoseconds apart",
 "c14_order_ms": "deadlines were far apart; now nanoseconds apart",
 "c18_scope_launch_lvalue": "only the free launch() was used with lvalues",
 "c21_increment_consumer": "one coroutine requested all the values; now each may be requested by a different one",
 "c22_nested_current": "no fiber resumed another one and looked at its own state afterwards",
 "c14_wait_cv": "a cycle of reads through the clock was taken for a spin without progress",
 "c23_dangling_flag": "accesses to dead stack frames were not reported by the engine",
 "c04_narrow_count": "latch counts were small; now also counts that do not fit narrower types",
 "c19_count_late": "the count was only looked at between operations; now also inside of the launched callables",
 "c07_timed_no_pred": "waiters with a timeout were never late; now one arrives late and its waiting time is checked",
 "c28_simple_push_manual_lock": "the deque of the dispatcher never had to allocate a new chunk in the push under test; containers are now aged so that it does",
 "c26_select_on_copy": "no allocator with an own copy rule for containers",
}
MISSED_FIRST.update({
 "c14_pop_unlocked": "the timer's queue never had its two ends next to each other; now also one that has been used before (`push_aged`)",
 "c15_pop_unlocked": "the dispatcher's queue never had its two ends next to each other; now also one that has been used before (`aged`)",
    "c02_reset_in_assert": "everything was only explored with assertions compiled in; now cheap scenarios also run in a release build",
})
D = {}
D["C01"] = """
*Specified*: sequential specification of set/reset/await/is_set/is_awaited; every recorded history (begin/end of each
operation, resumption of each await) must be linearizable (`harness/lin.h`: exhaustive search with memoisation).
*Enumerated*: all operation sequences to depth 6/7 on one thread (also with coroutines resumed inside or after a
dispatcher's push, and operations issued by the resumed coroutine while set() is still running); 2-4 threads with up to
3 operations each, all schedules up to 2-5 deviations; stale loads for publication (`*_publish`, `*_handover`);
coroutine owning the event (`*_owned`); CAS failures. *Tests cannot*: the windows between await_ready, await_suspend and set()
are a few instructions wide.
`single_long`/`multi_long` start with longer prefixes (an event that has been through several set/reset rounds)."""
D["C02"] = """
As C01 with the auto-reset specification (a set() consumes all waiters of that moment or is remembered once), plus
`merge` scenarios: two producers and one consumer, no signal may be lost between the two cases.
`single_long`/`multi_long` go through several set/reset rounds first."""
D["C03"] = """
Linearizability against a FIFO mutex (lock/try_lock/unlock), mutual exclusion by a plain counter that is race checked,
so missing publication is a data race. *Enumerated*: 2-4 threads, lock/scoped lock/lock object/try_lock mixes, CAS failures, stale
loads; FIFO order with programs; all sequences (depth 5/6) of operations on two lock objects and two mutexes against a model of
ownership; the last holder destroying the mutex (`owned*`)."""
D["C04"] = """
Released iff the decrements sum up to the initial count; each waiter exactly once; per-decrementer plain data written before
the decrement is read by the waiters (race checked). All splits of the count sequentially; up to 3 decrementing and 2 waiting threads;
waiter that owns the latch (`owned*`)."""
D["C05"] = """
Linearizability against a rendezvous specification with FIFO queues of readers and writers and close(); values are tracked objects, so
a lost or duplicated one shows as leak. All sequences to depth 6/7, programs of coroutines continuing with another operation, dispatchers,
2-4 threads; stale reads of the closed flag; data published with the value; destruction by a resumed coroutine."""
D["C06"] = """
Linearizability against a bounded FIFO with suspended producers/consumers for maximum sizes 0, 1, 2, unbounded; clear, move
construction and move assignment between two queues, sequentially (depth 5-7) and concurrently; throwing item constructors; resume location; destruction
by a resumed coroutine.
The items of the concurrent scenarios are in a container all of whose operations touch one location, so that any unlocked use is a data race."""
D["C07"] = """
Reference: the first settling call decides. Observers: callbacks on success/failure/settle, awaits (coroutines), blocking and timed
gets, registered before, during and after settlement from several threads (2-4), spurious wakeups; timed gets with virtual time around
the deadline and all kinds of durations; publication; release of the shared state with copies; value construction that throws; observers
that register others, settle again or destroy the promise.
`timeouts_forever`: durations up to `duration::max()` never expire."""
D["C08"] = """
The settling calls and the creation of the combinator are recorded as intervals in a global order; the oracle accepts exactly the winners
permitted by some linearization. All orders and outcomes for up to 3-4 inputs sequentially; 2-3 inputs settled by different threads while the combinator is
created. `void`, converting and empty inputs.
Up to 4 (quick) / 5 (thorough) inputs."""
D["C09"] = """
All sequences (depth 4/5) of handle operations on a graph of objects holding handles themselves, against a model of reference counts: alive
iff referenced, destroyed once. Threads: 2-4 threads copying and dropping (all schedules for two), with plain data written through the handle and read by
the destructor (race checked), stale loads."""
D["C10"] = """
Linearizability against an atomic pointer with reference counting; every handed out object is dereferenced, all counts are compared at the
end. 2-3 threads x 1-2 operations of all kinds, stale loads (a wrong order on the lock bit is a data race); refused pointers.
Cells are also the source of copies and moves."""
D["C11"] = """
Reference model: per signal the list of connected handlers, and the frozen set of those connected before each (nested) invocation. All programs of
operations from outside and from inside handlers, nested to depth 2, on two signals/a manager, for both traits. Every handler checks that it is not destroyed while it
runs. Handle validity, size, empty, ownership after every step; move; scoped handles; destructors of handlers using the signal.
Handles: construction of another owner from a moved one, assignment of scoped handles over live ones and over themselves, all comparisons."""
D["C12"] = """
2-3 threads with append/prepend/disconnect/remove/query/invoke starting with 0, 1 or 2 handlers; recorded intervals decide which handlers must, may and must not be
called by each invocation; linearizability of the queries; handlers that operate on the signal concurrently; signal manager including creation of the
first handler of an event; stale loads."""
D["C13"] = """
Each callable is tracked: executed exactly once on a thread of its pool, destroyed once, before destruction/shrinking to zero returns; all picks of the random queue
are enumerated; resize in both directions, from outside and from tasks, several resizers, cross pool pushes, tasks waiting for other tasks (stealing needed:
deadlock otherwise), refused pushes, stale loads.
`aged` uses a pool whose queues have wrapped around in their memory."""
D["C14"] = """
Virtual time. Each callback is checked for thread, time (not before its deadline), result (true/false exactly as specified) and count; order among due
callbacks of one kind; cancellation before/during/after scheduling, from callbacks, concurrently with expiry and destruction, at every schedule up to the bound;
pushed callables; all overloads, clocks and units; awaiting; slow callbacks; destructors of callables that use the timer.
`cancel_one_of_*` cancels one of 2/3 entries with equal and different deadlines; `forever` uses deadlines at and beyond the end of the clock; `push_aged` a queue that has been used before."""
D["C15"] = """
FIFO against the order of push calls (intervals across threads), thread identity, current(); stop at every point including before run(), concurrently and twice;
termination of run() in all schedules (a missed wakeup is a deadlock); spurious wakeups; exceptions; nesting.
`aged` uses a queue that has been used before."""
D["C16"] = """
One adapter per way to suspend; all combinations of selection x dispatcher current when suspending x dispatcher current when waking x fallback x configured default x way to
wake x number of waiters; deferral programs; nested loops; races of suspending and waking; real dispatchers (simple dispatcher, pool, timer)."""
D["C17"] = """
An interpreter of nondeterministic programs (tasks awaiting tasks, suspending, throwing, returning) is compared step by step with a synchronous call tree; all programs up to the budget,
destroyed at every suspension point; values (move only, void, convertible, throwing); completion on other threads while the starter is still returning;
stack growth measured over chains of 400 tasks (`c17_task_stack`, compiled with tail calls)."""
D["C18"] = """
All sequences (depth 5/6) of operations on three handles of two coroutines against a model of "must be alive/may be alive"; bodies handling their own handles; all
combinations of exception policies; completion, start and drop from 1-3 threads with stale loads; launch with all value categories, free and on a scope."""
D["C19"] = """
Programs of launches (all three ways), nested launches, completions, joins and join futures against counters; concurrent completion vs join vs destruction/reuse of the scope
on 2-4 threads; two joins at once; launches during a join."""
D["C20"] = """
All kinds of awaitables and outcomes sequentially; completion on other threads against the blocking get; values crossing threads twice; dropped futures; the pool; async_main
with its dispatcher and its exit code.
Awaitables passed as lvalues may not be moved from."""
D["C21"] = """
The body is a nondeterministic program of yields of all value categories, ends and throws; the consumer advances, moves, swaps or abandons at every step; identity, laziness,
order, exceptions, destruction of locals; fmap; asynchronous generators suspend at gates or events set by other threads, and values are requested by varying coroutines.
fmap is checked with all value categories of functor arguments and results, and with member pointers."""
D["C22"] = """
Fibers run natively on their own stacks under the engine (their switches are tracked). Programs of awaits of all kinds (ready, inline resumption, thread, before suspension
returned) with a value that depends on callee saved registers, a stack buffer and locals; destruction at every suspension; nesting; floating point control words;
allocation failure; every scenario for the assembly and the ucontext implementation.
`destroyed_returning`: fibers destroyed while their function returns.
`units_*`: fibers created, awaited and suspended in different translation units, also in shared object compatibility mode (`so_*`); all units have to agree on the current dispatcher.
`sg_*`: the scenarios without threads compiled with a stack protector value per fiber, -fstack-protector-all and without assertions."""
D["C23"] = """
All sequences of operations on sources, tokens and callbacks against a model of [thread.stoptoken]; 2-3 threads: requests, registrations, destructions (own callback, other's callback,
while running), last source; publication with stale loads; a callback that throws terminates."""
D["C24"] = """
Linearizability of programs on two queues: push, emplace, pop, copies, moves and assignments (each transfer is one atomic step of the
specification, as it is in the code); all sequences to depth 4/5 for two containers, throwing items, move only items, 2-3 threads.
The concurrent scenarios use a container all of whose operations touch one location, so that any unlocked use is a data race."""
D["C25"] = """
Pure functions, so the state space is the input space: for each alignment all tags x pointers with every single address bit (and null, all ones) x const x number or enumerator x all pairs of
types. Enumerated by the engine; no schedules involved.
`ptr_get_tag` with 3 and 4 types of different alignment in every order; tags that do not fit are refused."""
D["C26"] = """
Every coroutine type x outcome (completes, throws, dropped) x allocator (stateless, always equal, reference, 1 byte, tracked objects of several sizes and alignments, with an own container copy
rule) x failing allocation; resources check size, owner, single release and alignment, allocator objects check their own lifetime; two frames released in all orders and on other threads.
`task<void>`, generators and async generators of `T&` and `T&&` too."""
D["C27"] = """
All sequences of engage/disengage/query to depth 6, all ways to leave the scope; nested guards, guards changed by actions, throwing construction. Sequential by nature."""

D["C28"] = """
*Fault enumeration*: the operation under test runs with its n-th allocation, thread creation, or copy/move of a value failing, for
every n up to a number above what the operations use (the runtime lets `operator new` and `pthread_create` fail, the value types of
the harness throw). Channel and queue: all initial states with up to 3 waiting consumers or producers × every operation × every
failure; all sequences of operations with a failure in each; the same with other threads operating on or closing the object
meanwhile. A ledger of everything the operations reported is the oracle: after serving everyone nobody is left suspended, what was
accepted was received exactly once and in order, what failed was never received; only a consumer that itself got the exception may go
without its item (a move out of the container may fail after the removal, which the code is free to do). When the item of a waiting
producer cannot be stored during a pop, the producer may stay suspended while others find space. Promise: failing observers and
settlement, alone and against another thread settling. Signals: failing connects and throwing handlers. Thread pool: creation, growth
(alone and while tasks are pushed), push. Timer, simple dispatcher: push, schedule, waits, creation. Every coroutine type: frame and
parameters. Launch scope, as_promise, fiber, make_ref, stop_source, stop_callback, defer to a dispatcher that refuses.
*Outside*: dispatchers that throw when a finished operation resumes someone else through them, functions declared noexcept that run out of
memory (they terminate)."""
