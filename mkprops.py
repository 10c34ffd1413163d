#!/usr/bin/env python3
"""Writes properties.jsonl (kept as code so that the long statements stay reviewable)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mechanism, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": mechanism, "where": ", ".join(files)}]}
    if state: a["state"] = state
    if observe: a["observe_at"] = observe
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=qtext), why_tests_cant=why, anchors=a))

p("M01", "A barrier wakes its waiter exactly once, when the count reaches zero",
  "A coroutine that waits on a barrier is resumed exactly once, and only when every announced arrival has been made; it never stays suspended after the last arrival and never resumes while arrivals are outstanding. Everything done before an arrival is visible to the resumed waiter, and once an arrival may have released the waiter the arriving thread does not touch the barrier again.",
  ["schedules"], "every interleaving of one waiter with any number of increments and decrements on any number of threads, for every initial count",
  "The tests drive the barrier through a handful of single-threaded or lucky schedules; a lost or early wake-up, a missing release/acquire or a touch after hand-off needs a particular interleaving.",
  ["macoro/barrier.h"], "counter word changed by atomic read-modify-write; the party whose decrement reaches zero takes the stored continuation; the waiter holds one count itself while it registers")

p("M02", "Awaiting all of several operations resumes once, after every one has finished",
  "A coroutine that awaits a set of operations started together is resumed exactly once and only after each of them has completed, with every result or exception of every operation retrievable, in the order the operations were given; each operation is the given one (a named one by reference, a temporary one kept alive) and is awaited exactly once. This holds for a fixed list and for a vector (including the empty one), also when some operations finish synchronously while others finish on other threads, and the results written by the operations are visible to the resumed coroutine.",
  ["schedules", "inputs"], "every number of operations, every subset completing synchronously or throwing, every completion order and thread",
  "Tests use a few operations that complete in one order; a wrong count or a weak ordering only shows for particular completion orders on several threads.",
  ["macoro/when_all.h", "macoro/detail/when_all_awaitable.h", "macoro/detail/when_all_counter.h", "macoro/detail/when_all_task.h"],
  "counter initialised to number of tasks plus one, decremented by each task at its final suspension and by the awaiter, whoever reaches zero resumes")

p("M03", "A lazy task runs only when awaited and hands back its result exactly once",
  "The body of a lazy task does not start before the task is awaited; when it finishes, by value, reference, void or exception, the awaiting coroutine is resumed exactly once, after the result was stored, and gets that result or that exception. Awaiting or asking for the result of an empty task reports a broken promise instead of touching memory; moving from a task empties it, and the coroutine frame is destroyed exactly once, by the last owner. A task made from an awaitable (`make_task`) awaits exactly that awaitable, once, and its outcome is the task's.",
  ["programs", "histories"], "every task body (all result kinds, throwing or not) and every history of moves, assignments, awaits and destructions of task objects",
  "Tests run a few bodies; ownership errors (a double or missing destroy on one assignment path) and a swallowed exception only show on particular histories.",
  ["macoro/task.h"], "promise final suspension transfers control to the stored continuation; task object owns the frame, moves null the source; result slots for value/exception")

p("M04", "An eager task's completion and its awaiter meet exactly once",
  "An eagerly started task runs concurrently with its owner; whichever of completion and await comes second (and only that one) makes the awaiting coroutine continue, exactly once, with everything the task did visible to it. The party that comes first never touches the shared state again after announcing itself, and asking whether the task is ready never inspects the frame of a coroutine that may still be running. An eager task made from an awaitable (`make_eager`) awaits exactly that awaitable, once, and its outcome is the task's.",
  ["schedules"], "every interleaving of the task's completion with readiness queries and an await from another thread",
  "The window between the two atomic announcements is a few instructions wide; the repository's own tests for it are flaky.",
  ["macoro/task.h"], "one atomic exchanged by both sides (completion and await) with acquire-release ordering")

p("M05", "Joining an async scope waits for every task started in it and reports failures",
  "A scope's join completes exactly once and only after every task added to the scope has finished, whether the task is kept, awaited, dropped or detached and whether it returns or throws: each start is matched by exactly one finish on every path. An exception of a task that nobody awaits is never lost: it is recorded under mutual exclusion and reported by the join. What is started is exactly the operation that was added (a named one by reference, a temporary one kept alive), awaited once, and its outcome is the scoped task's.",
  ["schedules", "histories", "inputs"], "every set of added tasks, every drop or await history, every completion order and thread, tasks that return and that throw",
  "Tests add a few tasks and join on one thread; miscounting on the drop or exception path shows only for particular histories.",
  ["macoro/async_scope.h", "macoro/detail/scoped_task_promise.h", "macoro/when_all_scope.h"],
  "barrier count incremented when the task's frame is created and decremented after completion; exception list guarded by a mutex")

p("M06", "A scoped task's frame is destroyed exactly once by whichever side is last",
  "The coroutine frame behind a scoped task is destroyed exactly once: by the handle if the task has already finished or is awaited, and by the task itself if the handle was dropped first; never both, never neither. Between dropping and completion only the side that comes second touches the frame afterwards, and an awaiting coroutine is resumed exactly once when the task completes after the await began, and not at all by the task if it completed earlier.",
  ["schedules", "histories"], "every interleaving of completion with await, drop, move and move-assignment of the handle",
  "The race between drop and completion is a few instructions wide; tests only run single-threaded orders.",
  ["macoro/detail/scoped_task_promise.h", "macoro/async_scope.h"],
  "atomic state word in the promise on which both sides announce themselves; the second one acts")

p("M07", "An async manual-reset event wakes every waiter exactly once and loses none",
  "Setting the event resumes every coroutine waiting at that moment exactly once, and a coroutine that starts waiting while the event is set does not suspend; no waiter that registers concurrently with the set is ever lost. After the event hands control to a waiter it no longer reads that waiter's record, writes made before the set are visible to the resumed coroutines, and resetting an event never discards registered waiters.",
  ["schedules"], "every interleaving of set, reset, readiness queries and any number of waits",
  "A lost waiter or a read of a freed record needs a wait racing with set; tests do not race them.",
  ["macoro/manual_reset_event.h"], "one atomic word: set marker, or head of a lock-free list of waiters; set exchanges, wait compare-and-swaps")

p("M08", "A sequence barrier never releases a waiter early and never forgets one",
  "Waiting for a sequence number on a sequence barrier completes only once a number at or after it (in wrap-around order) was published, and always completes once it was: a wait that registers concurrently with a publish is never lost. Each waiter is resumed exactly once according to its own target, the published data is visible to it, and waiters whose target has not been reached stay registered.",
  ["schedules", "inputs"], "every interleaving of one publisher with any number of waiters with arbitrary targets, and every sequence number including wrap-around",
  "The lost-wake-up window (store then load on both sides) and the re-queue of unsatisfied waiters need specific schedules with several waiters.",
  ["macoro/sequence_barrier.h", "macoro/sequence_traits.h"],
  "sequentially consistent publish-then-look and register-then-look pairs, intrusive list of waiters re-added while unsatisfied, two-phase resume handshake per waiter")

p("M09", "A multi-producer sequencer hands out every slot once and in publication order",
  "Each claim of slots from a multi-producer sequencer yields numbers no other claim gets, and completes only when those slots have been released by the consumer (no more than the buffer size ahead). A consumer's wait completes only when its number and every earlier one were published, whatever order the producers publish in; no waiter is resumed before its own target is available and none is left suspended after it is.",
  ["schedules", "inputs"], "every interleaving of any number of producers and a consumer, every claim size, buffer size and waiter target, including wrap-around",
  "The tests run a few producers for a short while; early or lost wake-ups depend on waiters with different targets and on out-of-order publication.",
  ["macoro/sequence_mpsc.h", "macoro/sequence_range.h", "macoro/sequence_traits.h"],
  "atomic fetch-add claims, per-slot published table, seq_cst publish-then-look and register-then-look pairs, list of waiters partitioned by their own target")

p("M10", "A single-producer sequencer claims only released slots and publishes in order",
  "A claim on a single-producer sequencer completes only when the claimed slots lie within the buffer size of what the consumers have released, successive claims are contiguous and disjoint and advance by exactly the number of slots handed out, and publishing a claimed number makes all numbers up to it visible to waiters.",
  ["inputs", "schedules"], "every buffer size, claim size and consumer progress, including wrap-around",
  "Tests use one buffer size and small ranges; an off-by-one in the claim window overwrites unread slots only when the buffer is exactly full.",
  ["macoro/sequence_spsc.h", "macoro/sequence_range.h", "macoro/sequence_traits.h"],
  "next-to-claim counter compared with consumer barrier's published number plus the buffer size")

p("M11", "A channel delivers every pushed item once, or reports that it is closed",
  "In a channel an item's slot is completely written before it is announced to the receiver, and completely read and cleared before it is given back to the senders, on every path; a slot that was claimed is always announced, so one sender can never block the others. After closing, waiting and later receives report the closed state once earlier items were taken, and closing is announced like an item; a channel capacity that is not a power of two is rejected before any storage is touched.",
  ["schedules", "inputs"], "every interleaving of senders, receiver and close, every capacity",
  "Tests push and pop a fixed number of integers; publishing before writing, or forgetting a slot on an exception path, needs a schedule or a throwing value type.",
  ["macoro/channel.h", "macoro/channel_spsc.h", "macoro/sequence_mpsc.h", "macoro/sequence_spsc.h", "macoro/sequence_barrier.h"],
  "slot optional written then sequence published; receiver resets slot then publishes consumer barrier; closed is a published empty slot")

p("M12", "The thread pool's queues are only touched under its lock and no work is lost",
  "All shared bookkeeping of the thread pool (queued operations, delayed operations, outstanding-work count, thread list) is read and written only while holding its mutex, and no coroutine is ever resumed while that mutex is held. Everything that can let a worker proceed (a new operation, an earlier deadline, cancelled operation, the last unit of work ending) wakes a worker, every queued operation is resumed exactly once and after those queued before it, and a worker leaves only when no work remains and nothing is queued.",
  ["schedules"], "every interleaving of posting, delayed posting, cancelling, work tokens, workers and joining on any number of threads",
  "Races on the queues and missed notifications depend on the schedule; the tests run a short happy path.",
  ["macoro/thread_pool.h", "macoro/thread_pool.cpp", "macoro/transfer_to.h", "macoro/start_on.h"],
  "mutex plus condition variable guarding a deque, a heap and a work counter")

p("M13", "A delayed operation is resumed exactly once, by its deadline or by cancellation",
  "A coroutine that schedules itself after a delay is resumed exactly once, either because its deadline passed or because its stop token was triggered, never both and never neither; stop callbacks are not run while the pool's lock is held and refer only to live objects. Registering for cancellation, running the timer and being cancelled may happen in any order on any threads.",
  ["schedules"], "every interleaving of registration, timer expiry, stop request and coroutine resumption",
  "Tests cancel from one thread with comfortable timing; the registration race is a few instructions wide.",
  ["macoro/thread_pool.h", "macoro/stop.h"],
  "the operation leaves the heap exactly once under the lock; whoever removed it resumes it")

p("M14", "Stop tokens and sources share their state safely and free it exactly once",
  "The state shared by stop sources, tokens and callbacks stays alive as long as any of them refers to it and is freed exactly once when the last one goes, for every sequence of copies, moves, assignments (including self-assignment) and swaps on any threads. A token reports that stop can be requested exactly while a source exists or stop was requested, and a stop request is permanent, visible to all and acted on by exactly one requester.",
  ["histories", "schedules"], "every history of copy, move, assign, swap and destroy over sources, tokens and callbacks, in any interleaving",
  "Reference count errors on one assignment path leak or free early without failing any test.",
  ["macoro/detail/stop_source.h", "macoro/detail/stop_source.cpp", "macoro/detail/stop_token.h", "macoro/detail/stop_token.cpp", "macoro/detail/stop_state.h", "macoro/detail/stop_state.cpp"],
  "one atomic word with two bit flags and two reference counts; the release that drops the last reference deletes the state")

p("M15", "A stop callback runs exactly once iff stop is requested while it is registered",
  "A stop callback registered before or during a stop request is run exactly once, on the requesting or the registering thread, and one created after the request runs immediately in its constructor; a callback destroyed before the request never runs. Destroying a callback that is running on another thread waits until it has finished, destroying it from within itself does not deadlock, and no callback object is touched after it was destroyed.",
  ["schedules"], "every interleaving of registration, deregistration, stop request and callback execution",
  "The windows between registration, notification and deregistration are a few instructions wide.",
  ["macoro/detail/stop_state.cpp", "macoro/detail/stop_state.h", "macoro/detail/stop_callback.h"],
  "entries in a lock-free table exchanged out by the notifier; deregistration compare-and-swaps its entry and otherwise waits for the notification to finish")

p("M16", "Blocking on an awaitable returns only after completion, with its outcome",
  "Synchronously waiting for an awaitable blocks until it has really completed and then returns its value or reference, or throws its exception; the completion flag is changed and announced under the mutex the waiter uses, so the wake-up is never lost, and only when the driving coroutine is suspended for good, so the waiter may destroy it. The awaitable is started exactly once and the waiter never returns early.",
  ["schedules", "inputs"], "every awaitable (any result kind, throwing or not, completing on any thread at any time)",
  "Tests complete mostly on the same thread; a lost notification or early destruction needs a race with the completing thread.",
  ["macoro/sync_wait.h", "macoro/blocking.h"], "flag plus condition variable set from the final suspension of a driver coroutine")

p("M17", "A result is either its value or its error, and access never confuses the two",
  "A result object holds exactly one alternative; asking for the one it does not hold throws (the stored exception, or a bad-access error), asking for the one it holds yields it, for const, non-const and rvalue access alike, and every accessor terminates. Constructing, copying, moving, assigning and comparing results preserve and respect the alternative and contents, and building a result from an lvalue copies it instead of moving it away.",
  ["inputs", "programs"], "every value and error type (copyable, move-only, reference-like) and every accessor overload and value category",
  "Template overloads that no test instantiates are not even compiled; an overload that recurses or steals its argument is invisible until used.",
  ["macoro/result.h", "macoro/variant.h"], "variant of wrapped value and error; index checked before access")

p("M18", "Wrapping an awaitable turns every outcome into a result",
  "Awaiting a wrapped operation never throws on account of the operation: whatever it returns becomes the value of a result and whatever it throws becomes its error, for value, reference and void operations, without consuming the operation's own stored value when it is only referred to. Suspension decisions of the wrapped operation are passed through unchanged.",
  ["programs", "inputs"], "every awaitable kind (ready, suspending by void, bool or handle; result kinds) and every outcome",
  "Tests wrap a handful of tasks; a path outside the try block or a dropped error only shows for the awaitables not tried.",
  ["macoro/wrap.h", "macoro/result.h"], "await_resume of the underlying awaiter called inside a try block that converts to a result")

p("M19", "Coroutine handles reach the right frame whichever backend made it",
  "Resuming, destroying or querying a coroutine through a type-erased or typed handle acts on exactly the coroutine it was made from, whether the compiler or the macro backend created it; conversions between handle types, promise and address preserve identity. Null and no-op handles are recognisable, and resuming, destroying or querying a no-op handle is harmless.",
  ["programs"], "every mix of compiler-generated and macro coroutines and every conversion between handle types",
  "Tests use mostly one backend; a wrong tag bit or missed special case corrupts memory only on particular combinations.",
  ["macoro/coroutine_handle.h", "macoro/coro_frame.h", "macoro/awaiter.h"],
  "low address bit tags the macro backend; handles mask the tag before dispatch; a dedicated no-op frame address")

p("M20", "Macro coroutines manage frame objects like compiler coroutines do",
  "In a coroutine written with the macros, the operand, awaitable and awaiter of every await and the value given by every yield live across the suspension and are destroyed exactly once afterwards, in reverse order of construction, also when resuming it throws or the coroutine is destroyed while suspended. Operand, await_transform, operator co_await, await_ready, await_suspend and await_resume happen once each and in that order; nothing of the coroutine is touched after await_suspend has let it go, and control goes where await_suspend said. Exceptions escaping the body reach the promise's handler with the await's objects gone, those before the body begins reach the caller, final suspension happens exactly once, and the frame and promise are destroyed exactly once.",
  ["programs", "inputs"], "every awaitable kind and result category and every place an exception can be thrown or the frame can be destroyed",
  "Tests check lifetimes for a few awaitables; leaks and double destruction on an exceptional path need that path for that awaitable kind.",
  ["macoro/coro_frame.h", "macoro/macros.h", "macoro/awaiter.h"],
  "manual-lifetime awaiter storage in the frame with construct/destroy pairing around await_ready/suspend/resume")

p("M21", "An exception thrown in a coroutine body always reaches whoever collects it",
  "For every coroutine type of the library an exception escaping the body is captured in full (never dropped, never allowed to escape into the thread that happened to resume it) and rethrown, as the same exception, to the party that asks for the outcome, each time it is asked for; an outcome that is looked at without being taken stays what it was. Obtaining an outcome never reads a value that was not produced, and values that were produced are destroyed exactly once with the coroutine.",
  ["programs", "inputs"], "every coroutine type of the library, every result kind and every exception",
  "Tests throw in a few of the coroutine types only, and never check destruction counts of the stored outcome.",
  ["macoro/task.h", "macoro/detail/when_all_task.h", "macoro/detail/scoped_task_promise.h", "macoro/async_scope.h", "macoro/when_all_scope.h", "macoro/sync_wait.h", "macoro/blocking.h"],
  "unhandled_exception stores the current exception; outcome accessors rethrow it; destructors release the active alternative")

p("M22", "Taking values until stop, and timeouts, stop and join their helper on every exit",
  "Racing an operation against another one always requests stop of the loser and waits for it to end before the combined await returns, whether the winner returned or threw, and the operation's own outcome is what the caller gets. A timeout requests stop through its own stop source exactly when its timer has ended, however it ended; asking it to stop, or stopping the outer token it was given, ends the timer early, and awaiting the timeout joins the timer without an exception.",
  ["schedules", "inputs"], "every order of completion of the two operations, values and exceptions on both sides",
  "Tests let one side win in a few timings; a missing stop request on the exception path hangs only when that path is taken.",
  ["macoro/take_until.h", "macoro/timeout.h", "macoro/start_on.h"], "stop source requested on every exit path, helper task awaited before returning")

p("M23", "Moving a coroutine to a scheduler always goes through that scheduler",
  "Starting an operation on a scheduler first moves to that scheduler and only then awaits the operation, whose outcome it hands over; transferring to a scheduler is exactly one scheduling operation of that scheduler. A temporary operation is kept alive for this, a named one is used in place; the scheduler is used exactly once on every path. The inline scheduler continues immediately without suspending, and a pool's scheduling awaiter suspends and queues the caller unless it already runs on that pool where the operation allows staying.",
  ["programs", "schedules"], "every scheduler and awaitable type, every outcome of the operation",
  "Only one test uses a scheduler adaptor; a skipped hop does not change any result value.",
  ["macoro/start_on.h", "macoro/transfer_to.h", "macoro/inline_scheduler.h", "macoro/thread_pool.h"], "co_await of the scheduler's schedule operation before/after the wrapped awaitable")

p("M24", "Public headers can be used alone, in either configuration, for every interface",
  "Each public header compiles on its own in a program that includes nothing else first, in any order and more than once, with either stop-token configuration, and two translation units that include it can be linked. Every advertised operation of the public class templates can be instantiated for the types they claim to support, and objects that own a coroutine or a registration cannot be copied.",
  ["configurations", "programs"], "every public header, include order pair, configuration and public member function",
  "The tests include headers in one order in one program and call a fraction of the members, so the rest is never compiled.",
  ["macoro/blocking.h", "macoro/result.h", "macoro/task.h", "macoro/when_all.h", "macoro/channel.h", "macoro/timeout.h", "macoro/inline_scheduler.h", "macoro/type_traits.h"],
  "include structure, inline/ODR discipline, template bodies, deleted copy operations")

p("M25", "Sequence numbers compare and subtract correctly across wrap-around",
  "Ordering and distance of sequence numbers are defined by the signed difference of the two numbers, for every integer type and every pair less than half the range apart, so that a number is before its successor even when the counter wraps; ranges of numbers derived from them have exactly the size, front and back that were asked for and trimming returns a prefix. All waiting and claiming decisions of the sequencers use this ordering rather than plain comparison.",
  ["inputs"], "every pair of sequence numbers of every integer type, every range size",
  "Tests never get near the wrap-around point.",
  ["macoro/sequence_traits.h", "macoro/sequence_range.h", "macoro/sequence_barrier.h", "macoro/sequence_mpsc.h", "macoro/sequence_spsc.h"],
  "difference cast to signed; precedes tests its sign; ranges are begin/end pairs")

p("M26", "Throughput and latency bounds of the scheduler and timers",
  "A delayed operation is resumed no earlier than its deadline and within a bounded delay after it while a worker is idle, and workers share queued work fairly.",
  ["schedules"], "every load, number of workers and clock behaviour",
  "Quantifies over wall-clock time and operating-system scheduling.",
  ["macoro/thread_pool.h"], "timed wait on a condition variable up to the earliest deadline")

p("M27", "Items received from a channel form a linearizable history of the sends",
  "For every concurrent history the items a receiver obtains are the ones sent, each sender's items in its sending order, and the whole history has a sequential explanation as a bounded queue.",
  ["histories", "schedules"], "every concurrent history of sends, receives and close",
  "Needs all histories; tests check sums over a few runs.",
  ["macoro/channel.h", "macoro/sequence_mpsc.h", "macoro/sequence_spsc.h"], "claim order equals slot order equals publication order")

p("M28", "A trace lists the awaits that lead to where it was taken",
  "A trace taken in a task with `co_await get_trace{}` lists the place where it was taken, then the place where the taking task is awaited, then where its awaiting coroutine is awaited, and so on outward through lazy tasks, `when_all_ready`, scopes and blocking waits, innermost first and each once; it ends at the first coroutine that nobody awaits or that keeps no trace. Each link is set before the awaited side goes on, for both kinds of handles and every way a promise can be traced, so a trace never follows a missing or stale link.",
  ["programs"], "every chain of awaiting coroutines, every way a promise can be traced, both handle kinds",
  "No test looks at a trace; a wrong or late link only shows in a particular chain of awaits, as a wrong listing or a crash.",
  ["macoro/trace.h", "macoro/task.h", "macoro/detail/when_all_awaitable.h", "macoro/detail/when_all_task.h", "macoro/async_scope.h", "macoro/when_all_scope.h", "macoro/detail/scoped_task_promise.h", "macoro/sync_wait.h"],
  "set_parent(traceable of the awaiting coroutine, place) before resuming; get_call_stack follows m_parent")

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "properties.jsonl"), "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
print(len(P))
