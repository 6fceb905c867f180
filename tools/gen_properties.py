#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a generator so that the JSON lines stay consistent)."""
import json, os
H = "include/asyncpp/"
P = []
def prop(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    a = {"files": [H + f for f in files],
         "mechanism": [{"name": n, "where": H + w} for n, w in mech], "hook_needed": None}
    if observe: a["observe_at"] = observe
    if state: a["state"] = [{"name": n, "meaning": m, "where": H + w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

S, I, HI, C, PR, F = "schedules", "inputs", "histories", "configurations", "programs", "fault_sequences"

prop("C01", "Manual-reset events: no lost wakeup, exactly-once resume, publication",
 "For the manual-reset events (single and multiple consumer), every coroutine that awaits the event continues exactly once if the event is set before, during or after the await, and never while the event has stayed unset since construction or its last reset. Whatever the setting thread did before setting is visible to the resumed coroutine, and set() reports true exactly when it resumed at least one waiter. A set event stays set (awaits do not suspend) until it is reset, and reset never drops a suspended waiter.",
 [S, HI], "all interleavings of set/reset/await/is_set calls from a few threads, with any memory-order-permitted visibility",
 "Tests call set() and co_await from one thread in a fixed order; the lost-wakeup windows lie between the readiness check and the suspension.",
 ["event.h"], [("single_consumer_event::set / awaiter::await_suspend", "event.h:73-160"), ("multi_consumer_event::set / awaiter::await_suspend", "event.h:357-460")],
 ["co_await event", "set() return value", "is_set()/is_awaited()"],
 [("m_state", "null = unset, this = set, otherwise head of the waiter list", "event.h")])
prop("C02", "Auto-reset events: each signal releases waiters exactly once, none is lost",
 "For the auto-reset events, a set() that finds suspended waiters resumes exactly the waiters suspended at that moment and leaves the event unset, while a set() that finds none is remembered and lets exactly one later await continue without suspending. No concurrent set() is lost between those two cases, no waiter is resumed twice, and whatever the setting thread did before set() is visible to the coroutine it lets continue.",
 [S, HI], "all interleavings of set/reset/await calls from a few threads, with any memory-order-permitted visibility",
 "Tests are single threaded; races between two concurrent sets or between a set and an await that is just consuming the signal are never produced.",
 ["event.h"], [("single_consumer_auto_reset_event::set / await_suspend", "event.h:205-300"), ("multi_consumer_auto_reset_event::set / await_ready / await_suspend", "event.h:500-620")],
 ["co_await event", "set() return value", "is_set()"])
prop("C03", "Async mutex: mutual exclusion, FIFO hand-off, no lost waiter",
 "At any time at most one party holds the coroutine mutex, and everything done while holding it is visible to the next holder. Every awaited lock eventually acquires the mutex once previous holders unlock, waiters acquire in the order they queued, and try_lock succeeds exactly when the mutex is free, never suspending. A scoped lock object unlocks exactly once when it is destroyed, assigned over or unlocked, wherever it was moved to.",
 [S, HI], "all interleavings of lock/try_lock/unlock by several coroutines on several threads",
 "Tests lock and unlock on one thread; contention between the state word and the private waiter list needs specific interleavings of three parties.",
 ["mutex.h"], [("mutex::unlock", "mutex.h:229"), ("lock_awaiter::await_suspend", "mutex.h:95"), ("mutex_lock", "mutex.h:125-210")],
 ["lock()/lock_scoped()/try_lock()/unlock()/is_locked()"])
prop("C04", "Latch: opens exactly when the count reaches zero and releases all waiters",
 "Every coroutine waiting on a latch continues exactly once, and does so if and only if the decrements add up to the initial count (a latch constructed with zero is open from the start). Everything the decrementing threads did before their decrement is visible to the released coroutines, and once open the latch stays open.",
 [S, I], "all initial counts and splits into decrements up to a bound, all interleavings of decrements and awaits",
 "The single test uses one thread and one decrement order.",
 ["latch.h", "event.h"], [("latch::decrement", "latch.h:40"), ("multi_consumer_event", "event.h:310")],
 ["co_await latch", "is_ready()"])
prop("C05", "Channel: exactly-once FIFO rendezvous, close releases everyone",
 "Every value for which a write reports success is received by exactly one read, no read receives a value whose write reported failure, and values are delivered in the order the writers queued, readers being served in the order they queued. Closing the channel resumes every suspended reader with no value and every suspended writer with failure, and no operation issued before, during or after the close stays suspended forever. The non-blocking variants succeed exactly when a matching counterpart is suspended and the channel is open, and never suspend.",
 [S, HI], "all interleavings of read/write/try_read/try_write/close from several coroutines and threads, all short sequential histories",
 "Tests drive the channel from one thread; races of read or write with close or with each other are never scheduled.",
 ["channel.h"], [("read_awaiter::await_suspend", "channel.h:236"), ("write_awaiter::await_suspend", "channel.h:284"), ("channel::close", "channel.h:190")],
 ["results of read()/write()/try_*", "resumption of coroutines"])
prop("C06", "Bounded queue: linearizable FIFO with capacity and suspension semantics",
 "Concurrent use of the async queue is equivalent to some sequential order in which items are popped in push order, each exactly once; pushes suspend exactly while the stored items have reached the maximum size, pops suspend exactly while there is nothing to pop, and nobody stays suspended once its operation could proceed, for every maximum size including zero. Clearing drops all items and resumes every suspended producer with failure, assigning over a queue fails the operations suspended on it, and moving from a queue carries its items and suspended operations along. size() counts stored items plus suspended producers and empty() tells whether a pop would suspend.",
 [S, HI, C], "all interleavings of push/pop/try_*/clear by several threads, all short operation sequences for maximum sizes 0..3 against a reference model",
 "Tests cover a handful of single-threaded sequences; wakeups of suspended producers/consumers under concurrency and uncommon capacities are not reached.",
 ["queue.h"], [("push_awaiter/pop_awaiter", "queue.h:300-420"), ("try_push/try_pop/clear", "queue.h:205-290")],
 ["results of push/pop/try_push/try_emplace/try_pop", "size()/empty()"])
prop("C07", "Promise settles exactly once and notifies every observer exactly once",
 "Of all concurrent attempts to fulfill or reject a promise exactly one succeeds, its value or exception is what every observer sees from then on, and the others report failure without changing the outcome. Every registered settle, success or failure callback that matches the outcome runs exactly once, and every suspended coroutine and blocked thread continues, no matter whether it registered before, during or after settlement. A timed get returns null only if the promise was still pending when the timeout had elapsed, and rethrows the stored exception if rejected.",
 [S, HI], "all interleavings of settling, registering callbacks, awaiting and blocking gets from several threads",
 "Tests settle before or after registration on one thread; the window between the pending check and registration is never exercised.",
 ["promise.h"], [("promise_state::try_fulfill/try_reject/then/on_settle", "promise.h:33-105"), ("promise::get/try_get/operator co_await", "promise.h:225-330")],
 ["try_fulfill/try_reject results", "callbacks", "get()/try_get()/co_await"])
prop("C08", "Promise combinators pick the documented winner",
 "first-of settles with the outcome of an input that settled no later than all others, first-successful is fulfilled with the value of a first fulfilled input whenever at least one input is fulfilled and is otherwise rejected with the exception of the last input to fail, and all-of is fulfilled exactly when every input has settled. Each settles exactly once, not before it must and not later than the settlement that decides it returns, for every order and interleaving in which the inputs settle; inputs that settled before or while the combinator was created count as settled at the end of its creation, in any order among themselves.",
 [S, HI], "all settlement orders, outcomes and interleavings of up to three inputs, including inputs settled before the call",
 "Tests settle inputs sequentially in one or two orders.",
 ["promise.h"], [("promise_first", "promise.h:455"), ("promise_first_successful", "promise.h:488"), ("promise_all", "promise.h:515")],
 ["state of the combined promise after each settlement"])
prop("C09", "Reference handles: object lives exactly as long as it is referenced",
 "For every sequence of constructing, copying, moving, assigning (including to itself or from a handle stored inside the managed object), resetting, releasing, adopting and casting reference handles, the managed object is destroyed exactly once, when its last reference goes away, and never earlier. With the thread safe policy this also holds when handles to the same object are copied and dropped from several threads, and everything done to the object through a handle happens before its destruction. Handles compare and hash like the pointers they hold.",
 [HI, S], "all handle operation sequences up to a depth over a small set of handles and objects; all interleavings of copy/drop from several threads including weak memory effects",
 "Tests check some operations one by one; self-referential assignments, cast combinations and the last-reference race are not enumerated.",
 ["ref.h"], [("ref<T>", "ref.h:115-215"), ("intrusive_refcount", "ref.h:50-110"), ("ref casts", "ref.h:455-490")],
 ["destructor calls", "use_count", "get()"])
prop("C10", "Atomic reference handle behaves like an atomic shared reference",
 "Concurrent loads, stores, exchanges, resets and releases on one atomic reference handle behave as if executed in some sequential order: a load returns an object that was stored at that moment and is kept alive by the returned handle, and each stored reference is handed back or dropped exactly once. No interleaving leaks an object, destroys it while referenced, hands out a dangling or corrupted pointer, or blocks forever, and an object published through the handle is fully visible to the thread that loads it; comparisons and hashes of the handle are those of the object stored at that moment.",
 [S, HI], "all interleavings of load/store/exchange/reset/release/compare from several threads on one or two handles",
 "The tests use the atomic handle from a single thread.",
 ["ref.h"], [("atomic_ref::lock/unlock_with", "ref.h:285-315"), ("atomic_ref::load/exchange", "ref.h:365-415")],
 ["returned handles", "destructor calls"])
prop("C11", "Signal: invocation order, removal and re-entrancy follow the documentation",
 "Invoking a signal calls, in list order (prepended before appended), every handler that was connected before the invocation started and has not been removed or disconnected by the time its turn comes, exactly once each, and no other handler; the number of calls is returned. This holds when handlers themselves add, remove or disconnect any handler (themselves included) or re-invoke the signal, and size, empty, ownership and handle validity always agree with the set of connected handlers. Moving a signal carries its handlers along, a scoped handle disconnects its handler exactly when it is destroyed, assigned over or told to, and a signal manager behaves as an independent signal per event key.",
 [HI, PR], "all sequences of append/prepend/remove/disconnect/invoke/move operations up to a depth, including re-entrant operations performed by handlers, against a reference model",
 "Tests check a few fixed re-entrant scripts; double removal, removal of neighbours during invocation and appends during invocation are not enumerated.",
 ["signal.h"], [("signal::operator()", "signal.h:375"), ("signal::free_node/remove", "signal.h:180-190,350"), ("signal_manager", "signal.h:200-290")],
 ["handler call log", "size()/empty()/owns_handle()/valid()"])
prop("C12", "Signal is safe under concurrent connect, disconnect and invocation",
 "When several threads concurrently connect, disconnect, remove, query and invoke on one multi-threaded signal (or signal manager), a handler connected before an invocation starts and not removed is called exactly once by it, a handler whose removal completed before an invocation starts is never called by it, and every handler object stays alive while it runs and is destroyed exactly once. No interleaving corrupts the handler list, deadlocks or races on memory.",
 [S], "all interleavings of invoke/append/prepend/remove/disconnect from two or three threads",
 "One test uses a second thread at a single fixed point.",
 ["signal.h"], [("signal mutex + node refcount", "signal.h:130-190"), ("signal::operator()", "signal.h:375"), ("signal_manager::m_mutex", "signal.h:262")],
 ["handler call log", "handler destruction"])
prop("C13", "Thread pool runs every accepted task exactly once, through resize and shutdown",
 "Every callable accepted by a pool is executed exactly once on a thread of that pool, whether pushed from outside, from one of its own threads or from another pool's thread, and regardless of concurrent growing, shrinking, stealing or destruction of the pool. Destruction and shrinking to zero only return after all accepted tasks have been executed, the pool keeps making progress while it has at least one thread, a push into a pool without threads is refused with an exception, and what the pusher did before the push is visible to the task.",
 [S, HI], "all interleavings of push, nested push, steal, resize and destruction with up to three pool threads, within a preemption bound",
 "Tests push a batch and wait; the windows between choosing a queue, resizing and draining are never hit reliably.",
 ["thread_pool.h"], [("thread_pool::push", "thread_pool.h:42"), ("thread_pool::resize", "thread_pool.h:62"), ("thread_state::run/try_steal_task", "thread_pool.h:120-190")],
 ["task executions", "dispatcher::current() inside tasks", "resize()/destructor return"])
prop("C14", "Timer: not early, exactly once, correct outcome, cancellable, clean shutdown",
 "Every scheduled callback is invoked exactly once on the timer's thread: with true not before its deadline, or with false if it was cancelled before expiry or was still outstanding when the timer is destroyed; callbacks of one kind that are due run in deadline order, and pushed callables run exactly once. A cancellation requested before, during or after scheduling, or concurrently with expiry or destruction, neither deadlocks nor corrupts the timer nor yields a second call, and neither a cancelled callback nor one whose deadline has passed waits for a later deadline or event.",
 [S, HI], "all interleavings of schedule, push, stop request, expiry and destruction with virtual time, within a preemption bound",
 "Tests use real sleeps and single-threaded cancellation; races of cancellation with expiry, scheduling and destruction are not produced.",
 ["timer.h", "stop_token.h"], [("timer::schedule", "timer.h:130-200"), ("cancel_callback", "timer.h:42-80"), ("timer::run", "timer.h:305-375")],
 ["callback argument, time and count", "co_await timer.wait()"])
prop("C15", "Simple dispatcher: FIFO execution on the running thread, stop always ends run",
 "Callables pushed to a simple dispatcher are executed at most once, one at a time, on the thread inside run(), in the order they were pushed, and every one that was pushed is executed as long as the dispatcher keeps running. run() returns after a stop request from any thread, at any time and at the latest after the callable being executed, and it reports itself as current dispatcher while running and restores the previous one afterwards.",
 [S, HI], "all interleavings of push, stop and run from several threads",
 "Tests stop from a pushed task or another thread once; the window between the stop check and the wait is not scheduled.",
 ["simple_dispatcher.h", "dispatcher.h"], [("simple_dispatcher::run/stop/push", "simple_dispatcher.h:25-58"), ("dispatcher::current", "dispatcher.h:25-45")],
 ["execution log", "return of run()"])
prop("C16", "Coroutines resume where they asked to",
 "A coroutine that suspends on an event, latch, channel, queue or deferral resumes through the dispatcher it selected explicitly, else through the documented default (the dispatcher current when it suspended, or the one configured for the operation, or inline in the waking call when there is none), and runs there exactly once. While a task runs on a dispatcher, that dispatcher is reported as the current one on that thread, nested dispatcher loops restore the outer one, and deferring to no dispatcher does not suspend.",
 [C, PR, S], "all combinations of primitive, explicit/implicit/absent dispatcher at await and wake-up time, and both wake-up orders",
 "Tests cover a few combinations for events; most primitives' dispatcher selection is untested.",
 ["event.h", "channel.h", "queue.h", "latch.h", "defer.h", "dispatcher.h", "timer.h", "thread_pool.h", "simple_dispatcher.h"],
 [("awaiters' dispatcher member", "event.h, channel.h, queue.h"), ("defer::await_suspend", "defer.h:40"), ("dispatcher::current", "dispatcher.h:35")],
 ["dispatcher::current() after resumption", "push() calls seen by a recording dispatcher"])
prop("C17", "Task: lazy, runs once, delivers its value or exception to the awaiter",
 "A task does not start before it is awaited (or joined), then runs exactly once and hands exactly its result value or exception to the awaiter, which continues after the task body and its locals are finished. Chains of tasks resume in strict caller order without growing the stack, results may be move-only or void, and a task dropped before, or destroyed after, its execution frees its frame and its parameters exactly once.",
 [PR, HI], "all nesting shapes, result kinds, suspension points and drop points up to a bound",
 "Tests check single shapes; exceptions and drops at every suspension point of nested tasks are not enumerated.",
 ["task.h", "sync_wait.h"], [("task_promise_base", "task.h:17-60"), ("task::operator co_await", "task.h:90-140")],
 ["results, exceptions, destructor log"])
prop("C18", "Fire-and-forget and launch: start rules, lifetime and exception policy",
 "An eager detached coroutine starts immediately, a lazy one starts only when started and at most once however many copies of its handle exist; each runs to completion independently of its handles and its frame is destroyed exactly once, after both completion and the last handle are gone, or, if never started, when the last handle is dropped. An exception leaving the body is handled exactly as the selected policy says (terminate by default, ignored, or passed to the handler), and launching copies or moves the awaitable into the launched coroutine so it outlives the caller.",
 [S, HI, PR], "all orders and interleavings of start, completion, copies and handle drops",
 "Tests drop the handle before or after completion on one thread; the race of completion with the last handle drop and multiple copies are not covered.",
 ["fire_and_forget.h", "launch.h", "policy.h"], [("fire_and_forget_task_impl", "fire_and_forget.h:22-125"), ("exception_policy", "policy.h"), ("launch", "launch.h:45")],
 ["body executions", "frame destruction", "terminate"])
prop("C19", "Launch scope: join waits for all children, and returns exactly once",
 "Awaiting a launch scope continues exactly once, and only when all tasks launched on the scope have finished; everything those tasks did is visible afterwards, and the scope may then be destroyed or reused even though the last task finished on another thread. The count of active tasks equals the number of launched tasks that have not finished, the join future becomes ready under the same condition, a second concurrent join is refused without disturbing the first, and a callable invoked on a scope is stored in the task together with its captures.",
 [S, HI], "all interleavings of child completions, launches and joins on several threads",
 "Tests complete the children on the joining thread; the window between the last completion and the join's suspension is not scheduled.",
 ["launch.h"], [("async_launch_scope::launch/invoke", "launch.h:78-150"), ("async_launch_scope::join", "launch.h:158")],
 ["resumption of the joiner", "inflight_coroutines()/all_done()"])
prop("C20", "Bridging coroutines to threads delivers the result exactly once",
 "Waiting synchronously for an awaitable (as_promise, the blocking get of its future) starts it, blocks exactly until it finishes on whatever thread, and returns its value or rethrows its exception exactly once, with everything the coroutine did visible to the waiting thread. No interleaving of completion and waiting hangs, and all resources of the coroutine are released.",
 [S, PR], "all interleavings of completion and waiting for value, void and exception results",
 "Tests complete synchronously or use one sleep-based order.",
 ["sync_wait.h"], [("as_promise", "sync_wait.h:20-60")],
 ["std::future result"])
prop("C21", "Generators yield exactly the values produced, lazily and in order",
 "Iterating a synchronous or asynchronous generator observes exactly the yielded values, in order and by the same identity, computing each only when requested, and ends exactly when the body ends; an exception leaving the body reaches the consumer at the step that raised it, after all earlier values. Abandoning or moving a generator at any point destroys the locals of its body exactly once, and an asynchronous generator may suspend anywhere, also across threads, without losing or duplicating values.",
 [PR, HI, S], "all generator bodies (yield/await/throw patterns) and consumer scripts up to a bound; interleavings of asynchronous production",
 "Tests iterate fixed sequences; throws and abandonment at every point are not enumerated.",
 ["generator.h", "async_generator.h"], [("generator", "generator.h:20-160"), ("async_generator", "async_generator.h:20-225")],
 ["consumer log", "destructor log"])
prop("C22", "Fibers: stackful coroutines suspend, resume and finish correctly",
 "A fiber runs its function exactly once on its own stack, may await any awaiter (inline-ready, resumed inline, resumed from another thread or before suspension has returned) and continues exactly once per await with its locals, floating point environment and the awaited result or exception intact. Whoever awaits the fiber continues exactly once with its result. Destroying a suspended fiber unwinds its stack without resuming its awaiter, and stack, locals and callable are released exactly once. Both context switching implementations (assembly and ucontext) behave alike.",
 [S, PR], "all programs of up to four awaits of every awaiter kind, nesting of fibers and coroutines, destruction at every suspension point; all interleavings of suspension, resumption from another thread and completion",
 "Tests resume fibers in a fixed order or with sleeps; resumption racing with the suspending switch is not covered.",
 ["fiber.h"], [("fiber_handle_base::resume_cb / resume_fiber", "fiber.h:560-760"), ("stack_context switch", "fiber.h:60-420")],
 ["fiber results", "execution log"])
prop("C23", "Stop tokens match the standard's semantics",
 "The library's stop source/token/callback (used where the standard one is unavailable) behave like the C++ standard ones: exactly one stop request succeeds, every callback registered before it and not destroyed runs exactly once on the requesting thread, a callback registered after it runs immediately in its constructor, and destroying a callback either prevents its execution or waits for it unless it runs on the destroying thread. stop_requested and stop_possible report the standard's values, and no interleaving leaks, deadlocks or touches a destroyed callback.",
 [S, HI], "all interleavings of request_stop, registration and deregistration from several threads; all short operation sequences compared with std::stop_token",
 "The test-suite builds against the standard's stop_token, so this code is exercised only in trivial ways.",
 ["stop_token.h"], [("stop_state", "stop_token.h:30-230"), ("stop_callback/stop_source/stop_token", "stop_token.h:240-400")],
 ["callback log", "stop_requested()/stop_possible()"])
prop("C24", "Threadsafe queue is a linearizable FIFO",
 "Concurrent push, emplace and pop calls on the threadsafe queue behave as if executed one after the other: every item pushed is popped at most once and in push order, pop returns nothing only when the queue is empty at that moment, and nothing is lost or duplicated. Copying, moving and assigning (including to itself) transfer exactly the contents the source held at one moment, also while other threads use the source or target.",
 [S, HI], "all interleavings of two or three threads with up to three operations each, all short sequential histories",
 "The class has only single-threaded tests.",
 ["threadsafe_queue.h"], [("threadsafe_queue", "threadsafe_queue.h:15-80")],
 ["operation results against a FIFO reference"])
prop("C25", "Pointer tagging round-trips every pointer and tag",
 "For every suitably aligned object and every tag value that fits in the alignment bits, packing a pointer with a tag and unpacking it gives back exactly the same pointer and tag, null and pointers to const included, whether the tag is a number or an enumerator. The tag of a pointer that may be one of several types is read correctly for every tag that fits the smallest of their alignments.",
 [I], "all alignments up to 64, all tag values that fit, all addresses of a bounded set of aligned slots, all pairs of candidate types",
 "Tests check a few values of one alignment.",
 ["ptr_tag.h"], [("ptr_tag", "ptr_tag.h:20-66"), ("ptr_untag", "ptr_tag.h:74-118"), ("min_alignof / ptr_get_tag", "ptr_tag.h:124-145")],
 ["results of ptr_tag/ptr_untag/ptr_get_tag"])
prop("C26", "Coroutine frames use the caller's allocator, consistently",
 "For every coroutine type that accepts an allocator, the frame is allocated once from the allocator the caller passed and returned to that same allocator with the same size, exactly once, whether the coroutine completes, throws or is dropped; frame memory is suitably aligned. The allocator outlives the frame's use of it, stateful and stateless allocators alike, and an allocation failure is reported to the caller without leaking.",
 [PR, C, F], "all coroutine types × allocator kinds (stateless, stateful of different sizes) × completion modes × allocation failure",
 "Tests use one stateful allocator whose size happens to be convenient.",
 ["detail/promise_allocator_base.h", "task.h", "generator.h", "async_generator.h", "fire_and_forget.h", "launch.h", "sync_wait.h"],
 [("promise_allocator_base::operator new/delete", "detail/promise_allocator_base.h:20-50")],
 ["allocator call log", "frame address alignment"])
prop("C27", "Scope guard runs its action exactly once unless disengaged",
 "A scope guard executes its action exactly once, at the end of its scope, on normal exit and during exception propagation, if and only if it is engaged at that moment; engaging and disengaging any number of times has no other effect.",
 [HI, F], "all engage/disengage sequences up to a depth, with normal and exceptional exit",
 "Tests check a few sequences.",
 ["scope_guard.h"], [("scope_guard", "scope_guard.h:10-45")], ["action count"])
prop("C28", "A failing operation leaves everyone else as they were",
 "When an operation fails with an exception, because memory or a thread cannot be obtained or because constructing, copying, moving or reference counting the user's value or callable throws, everything else stays as it was: coroutines suspended on the channel or queue stay registered and are served by the next matching operation, stored items, registered handlers, observers and scheduled callbacks stay in place, nothing of the failed operation is called or received later, no lock stays held and nothing leaks, and the operation succeeds when it is repeated. At most the consumer that got the exception itself goes without its item. A thread pool that cannot start a thread keeps its old size and keeps working; a signal whose handler throws stays usable; a coroutine whose suspension fails gets the exception instead of being lost.",
 [F, HI, S], "every allocation, thread creation and use of a value as the point of failure, in all bounded sequences of operations and initial states, and with another thread interfering",
 "Tests never let an allocation, a thread or a move fail.",
 ["channel.h", "queue.h", "threadsafe_queue.h", "promise.h", "signal.h", "thread_pool.h", "simple_dispatcher.h", "timer.h", "launch.h", "sync_wait.h", "fiber.h", "stop_token.h", "ref.h", "detail/promise_allocator_base.h"],
 [("channel try_read/try_write/await_suspend", "channel.h:140-300"), ("queue try_push/try_emplace/try_pop/await_ready", "queue.h:230-420"), ("promise_state::try_fulfill/then", "promise.h:35-120"), ("thread_pool::resize/push", "thread_pool.h:45-110"), ("timer::schedule", "timer.h:110-170"), ("signal::append/operator()", "signal.h:360-430")],
 ["results and exceptions of all operations", "values received", "live objects"])
out = os.path.join(os.path.dirname(__file__), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P), "properties")
