SCHED = ("stateless model checking of the implementation: exhaustive exploration of thread schedules (preemption bounded, with happens-before "
         "state caching) and of permitted stale atomic reads of the real headers under a controlled scheduler; %s; race, lifetime, deadlock and leak detection on every execution")
SEQ = ("explicit enumeration on the implementation: every operation sequence / program up to the stated depth is executed on the real headers and compared with a reference "
       "model after every step%s; lifetime, termination and leak detection on every execution")
LIN = "oracle: every history is checked for linearizability against a sequential specification"
TECH = {"default": SCHED % "oracle: assertions of the harness on every terminal and intermediate state",
 "C01": SCHED % LIN, "C02": SCHED % LIN, "C03": SCHED % "oracle: holder monitor, FIFO monitor and a reference model of the lock objects",
 "C05": SCHED % LIN, "C06": SCHED % LIN, "C07": SCHED % LIN,
 "C08": SCHED % "oracle: the set of admissible winners computed from the settlement order of every execution",
 "C09": SEQ % "; plus exhaustive schedule and stale-read exploration of concurrent copying and dropping",
 "C28": SEQ % "; every allocation, thread creation and value operation is enumerated as the one that fails; plus schedule exploration with interfering threads; oracle: a ledger of everything the operations reported",
 "C10": SCHED % LIN, "C11": SEQ % " (handlers are small programs, enumerated as well)",
 "C12": SCHED % "oracle: per handler interval monitor (must be called / must not be called / at most once)",
 "C13": SCHED % "oracle: exactly-once monitor with the thread each task ran on",
 "C14": SCHED % "oracle: virtual clock, deadlines and a per-callback exactly-once monitor",
 "C16": SCHED % "oracle: the dispatcher each continuation was pushed to, compared with the documented selection rule",
 "C17": SEQ % "; plus schedule exploration of tasks finishing on other threads",
 "C21": SEQ % "; plus schedule exploration of asynchronous generators resumed by other threads",
 "C22": SEQ % " for both context switching implementations; plus schedule exploration of resumption by other threads",
 "C23": SCHED % "oracle: reference model of the standard's semantics",
 "C24": SCHED % LIN,
 "C25": "explicit enumeration: every combination of type (alignment 1 to 1024), constness, address pattern and every tag that fits is executed and compared",
 "C26": SEQ % " including every point of allocation failure",
 "C27": SEQ % "",
}
B = " Deadlock, livelock, data race, use-after-free, leak, assertion and termination checks run on every execution. The evidence lists per scenario the bound, whether it was exhausted, executions, states and transitions."
CONC = "Exhaustive within bounds: %s; schedules up to the deviation bound of the scenario (preemptions, early timeouts, spurious wakeups, spurious CAS failures), scenarios marked EXH cover all schedules; weak memory as stale loads up to the stated number per execution." + B
SQ = "Exhaustive within bounds: %s." + B
NOTE = {"default": CONC % "threads and operations per scenario as listed in DESIGN.md",
 "C01": CONC % "up to 4 threads (3 waiters, setters, resetters) and 3 operations each",
 "C02": CONC % "up to 4 threads and 3 operations each",
 "C03": CONC % "up to 4 threads, 3 lock rounds each; all sequences of lock object operations of length 4",
 "C04": CONC % "up to 3 decrementing threads and 2 waiters, all initial counts up to 3 plus extreme ones",
 "C05": CONC % "up to 4 threads, all sequential operation sequences up to depth 6",
 "C06": CONC % "up to 4 threads, maximum sizes 0 to 2, all sequential operation sequences up to depth 6",
 "C07": CONC % "up to 3 settling threads and 2 observers of every kind",
 "C08": CONC % "1 to 3 inputs, every outcome, order and interleaving, inputs settled before, during and after creation",
 "C09": SQ % "all programs of handle operations up to depth 4 over 3 handles and linked objects; concurrent part up to 3 threads",
 "C11": SQ % "all programs up to the stated depth over signals with up to 4 handlers whose bodies are programs themselves",
 "C13": CONC % "pools of 0 to 3 threads, a few tasks each pushed from outside, inside or another pool, every choice of the random target thread",
 "C14": CONC % "up to 3 callbacks, cancellation from another thread, time as an explored choice",
 "C25": SQ % "alignments 1 to 1024 and every tag; nothing is sampled",
 "C26": SQ % "every coroutine type with an allocator parameter, stateless and stateful allocators, complete / throw / drop, every allocation failing",
 "C28": CONC % "every allocation, thread creation, copy and move up to the stated number as the failing one; channel and queue: all operation sequences up to depth 4 with a failure in each operation, up to 2 interfering threads",
 "C27": SQ % "all sequences of engage, disengage and queries up to the depth in the evidence, normal exit and unwinding",
}
