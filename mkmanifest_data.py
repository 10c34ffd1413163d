FLOW = 'path-sensitive typestate dataflow over compiler IR'
BASE = 'Decides the per-operation obligations on every path of the code compiled from the working tree in both configurations; that these obligations together give the property is a hand argument (DESIGN.md). Trusts clang 18, LLVM passes, the C++ memory model and that distinct symbolic addresses do not alias. '
TECH = {
 'M01': (FLOW, BASE + 'Assumes one waiter at a time and no underflow of the count, as documented.'),
 'M02': (FLOW, BASE + 'Assumes each operation is awaited through the library, once.'),
 'M03': (FLOW, BASE + 'Task bodies are the compiler\'s: only the operations the compiler calls on promise, awaiters and owner are decided.'),
 'M04': ('enumeration of shared-word states with ' + FLOW, BASE + 'Assumes one awaiter and that the owner outlives the running coroutine, as documented.'),
 'M05': ('enumeration of shared-word states with ' + FLOW, BASE + 'Assumes handles are dropped before the scope goes away and one join at a time, as documented.'),
 'M07': (FLOW + ' with list-shape rules', BASE + 'Assumes one await per awaiter object and that the event outlives its waiters, as documented.'),
 'M08': (FLOW + ' with list-shape rules and opaque sequence traits', BASE + 'Assumes one publisher publishing increasing numbers, as documented, and that the traits\' two comparisons agree (M25 decides that for the library\'s own).'),
 'M09': (FLOW + ' with list-shape rules and opaque sequence traits', BASE + 'Assumes every claimed number is published once, by its claimant, that a consumer barrier only advances (M08) and that the numbers in flight stay within one buffer, as claims guarantee.'),
 'M10': ('symbolic value numbering over compiler IR', BASE + 'Assumes one producer with one claim in flight, as documented, and that at least one slot is asked for; publishing and waiting on a barrier are decided under M08.'),
 'M11': ('path enumeration with values named by origin over compiler IR', BASE + 'One receiver holding one popped item at a time; pushes and waits are awaited to their end; the sequencer keeps its protocol (M08, M09, M10); items do not touch their channel.'),
 'M12': (FLOW + ' with container and critical-section rules', BASE + 'Standard mutex, condition variable, containers and threads are taken at their specification; the pool outlives calls made on it.'),
 'M13': (FLOW + ' with container and critical-section rules', BASE + 'Standard containers, heap algorithms and stop callbacks are taken at their specification; time itself (how late a deadline fires) is out of reach.'),
 'M14': (FLOW + ' with reference balances and word classes', BASE + 'Fewer than 2^24 sources, tokens and callbacks share one state; where the standard library has stop tokens these are used and not decided.'),
 'M15': (FLOW + ' with loop index expectations', BASE + 'Callbacks do not destroy the state they run for; a callback is destroyed once, after its constructor returned. Where the standard library has stop tokens these are used and not decided, except for awaiting one.'),
 'M16': (FLOW + ' of coroutine bodies before splitting, with lock rules', BASE + 'Awaitables are opaque and keep the awaiter protocol; std::mutex and std::condition_variable are taken at their specification.'),
 'M17': (FLOW + ' per alternative held, with simulated items', BASE + 'Takes std::variant, std::optional and std::exception_ptr as compiled from their headers; items do not touch the result they are in and their destructors do not throw.'),
 'M18': (FLOW + ' with simulated items, over opaque operations of every shape', BASE + 'Operations keep the awaiter protocol; values have destructors that do not throw.'),
 'M19': ('path analysis of compiler IR per kind of address', BASE + 'Takes the compiler\'s coroutine intrinsics for std::coroutine_handle; frames are at even addresses and never where the no-op handle points.'),
 'M20': (FLOW + ' over known memory, interprocedural, from suspension to suspension, against automata of what can be observed', BASE + 'Operands, awaitables, awaiters and promises are opaque: their members may throw, except destructors, the final awaiter and unhandled_exception; references they return are not null. Temporaries inside an operand expression live as the macros evaluate it.'),
 'M21': (FLOW + ' over whole promise lives, with simulated items', BASE + 'Takes std::exception_ptr and std::mutex at their specification and the compiler\'s order of promise calls as the language has it; destructors of values do not throw. Result coroutines are decided under M17, the exception list of scopes under M05 and M06.'),
 'M22': (FLOW + ' of coroutine bodies before splitting', BASE + 'Awaitables and schedulers are opaque and keep the awaiter protocol; a timeout is awaited before it is destroyed.'),
 'M23': (FLOW + ' of coroutine bodies before splitting', BASE + 'Awaitables and schedulers are opaque and keep the awaiter protocol; what a pool does with queued operations is M12.'),
 'M24': ('compile-time witnesses (type checker) and symbol tables of the compiled headers', 'Decides instantiability for the listed types and configurations only (value, reference, void, move-only, no default; five integer widths); clang 18 and gcc 13, C++20. Windows headers are out of scope.'),
 'M25': ('symbolic value numbering of compiler IR over linear forms, and a units analysis of every comparison', BASE + 'Compared numbers are less than half the range apart.'),
 'M28': (FLOW + ', for each kind of promise and handle', BASE + 'Takes std::vector and the compiler\'s defaulted source_location at their specification; decides that links are set and followed right, not that a link outlives what it points to (that is the awaiting discipline of M02-M06).'),
 'M06': ('enumeration of shared-word states with ' + FLOW, BASE + 'Assumes handles are dropped before the scope goes away, and that a created awaiter is awaited.'),
}
NA = {
 'M26': 'Quantifies over wall-clock time, operating-system scheduling and fairness; nothing in the source bounds these, so no static argument can decide it (the order of deadlines and the notifications are covered by M12/M13).',
 'M27': 'Linearizability of whole histories is a global property of the product of all threads; a sound static argument would need a full concurrency proof. Its local ingredients (claim, write-before-publish, read-before-release, claimed slots always published) are decided under M09-M11.',
}
