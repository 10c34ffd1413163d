// Every advertised operation, instantiated for the types it claims to support.
// Nothing here is run: that it compiles is the point.
#include "macoro/async_scope.h"
#include "macoro/awaiter.h"
#include "macoro/barrier.h"
#include "macoro/blocking.h"
#include "macoro/channel.h"
#include "macoro/channel_spsc.h"
#include "macoro/coroutine_handle.h"
#include "macoro/inline_scheduler.h"
#include "macoro/manual_reset_event.h"
#include "macoro/result.h"
#include "macoro/sequence_barrier.h"
#include "macoro/sequence_mpsc.h"
#include "macoro/sequence_range.h"
#include "macoro/sequence_spsc.h"
#include "macoro/sequence_traits.h"
#include "macoro/start_on.h"
#include "macoro/stop.h"
#include "macoro/sync_wait.h"
#include "macoro/take_until.h"
#include "macoro/task.h"
#include "macoro/thread_pool.h"
#include "macoro/timeout.h"
#include "macoro/trace.h"
#include "macoro/transfer_to.h"
#include "macoro/when_all.h"
#include "macoro/when_all_scope.h"
#include "macoro/wrap.h"
#include <memory>
#include <string>
#include <type_traits>
#include <utility>
#include <vector>
using namespace macoro;
template<typename T> constexpr bool owns = !std::is_copy_constructible_v<T> && !std::is_copy_assignable_v<T>;
template<typename T> constexpr bool moves = std::is_move_constructible_v<T> && std::is_move_assignable_v<T>;

// ---- objects that own a coroutine or a registration cannot be copied
static_assert(owns<task<int>> && owns<task<void>> && owns<task<int&>>, "task can be copied");
static_assert(owns<eager_task<int>> && owns<eager_task<void>> && owns<eager_task<int&>>, "eager_task can be copied");
static_assert(owns<scoped_task<int>> && owns<scoped_task<void>>, "scoped_task can be copied");
static_assert(owns<blocking_task<task<int>&&>>, "blocking_task can be copied");
static_assert(owns<detail::when_all_task<int>> && owns<detail::when_all_task<void>>, "when_all_task can be copied");
static_assert(owns<async_scope>, "async_scope can be copied");
static_assert(owns<when_all_scope>, "when_all_scope can be copied");
static_assert(owns<timeout>, "timeout can be copied");
static_assert(owns<thread_pool> && owns<thread_pool::work>, "a thread pool or its work can be copied");
static_assert(owns<sequence_barrier<>> && owns<sequence_mpsc<>> && owns<sequence_spsc<>>, "a sequencer can be copied");
static_assert(owns<spsc::channel_sender<int>> && owns<spsc::channel_receiver<int>> && owns<mpsc::channel_receiver<int>>, "a single-user end of a channel can be copied");
static_assert(std::is_copy_constructible_v<mpsc::channel_sender<int>>, "the sender of a multi-producer channel can be shared");
static_assert(owns<mpsc::channel<int>::push_wrapper> && owns<mpsc::channel<int>::pop_wrapper>, "a claimed slot can be copied");
static_assert(!std::is_copy_constructible_v<async_manual_reset_event>, "an event with waiters can be copied");
static_assert(moves<task<int>> && moves<task<void>> && moves<eager_task<int>> && moves<eager_task<void>>, "tasks can be moved");
static_assert(moves<scoped_task<int>> && moves<when_all_scope> && moves<timeout> && moves<thread_pool> && moves<thread_pool::work>, "owners can be moved");
static_assert(moves<mpsc::channel<int>::push_wrapper> && moves<mpsc::channel<int>::pop_wrapper>);
static_assert(!std::is_copy_constructible_v<stop_callback>, "a registration can be copied");
static_assert(std::is_copy_constructible_v<stop_token> && std::is_copy_assignable_v<stop_token> && moves<stop_token>);
static_assert(std::is_copy_constructible_v<stop_source> && std::is_copy_assignable_v<stop_source> && moves<stop_source>);

struct NoDef { NoDef() = delete; explicit NoDef(int); NoDef(NoDef&&); NoDef(const NoDef&) = delete; };
using Uptr = std::unique_ptr<int>;
extern int gi;
template<typename T> task<T> mk() { if constexpr (std::is_void_v<T>) co_return; else if constexpr (std::is_reference_v<T>) co_return gi; else if constexpr (std::is_same_v<T, NoDef>) co_return NoDef(1); else co_return T{}; }
template<typename T> eager_task<T> mke() { if constexpr (std::is_void_v<T>) co_return; else if constexpr (std::is_reference_v<T>) co_return gi; else if constexpr (std::is_same_v<T, NoDef>) co_return NoDef(1); else co_return T{}; }

template<typename T, typename F> struct same_value {
    static_assert(std::is_same_v<std::remove_cvref_t<T>, std::remove_cvref_t<F>>, "an operation yields its own type");
    static_assert(!std::is_lvalue_reference_v<T> || std::is_lvalue_reference_v<F>, "a reference stays a reference");
    static constexpr bool ok = true;
};
template<typename T> task<int> all_of(thread_pool& p, inline_scheduler& i, async_scope& s, stop_token tk) {
    // tasks, named and temporary
    static_assert(same_value<T, decltype(sync_wait(mk<T>()))>::ok && same_value<T, decltype(sync_wait(mke<T>()))>::ok);
    auto t = mk<T>(); co_await t; co_await std::move(t); co_await mk<T>();
    auto e = mke<T>(); e.is_ready(); co_await e; co_await mke<T>();
    auto r = mk<T>(); co_await r.when_ready(); r.is_ready();
    auto er = mke<T>(); co_await er.when_ready();
    // blocking
    sync_wait(mk<T>()); auto t2 = mk<T>(); sync_wait(t2); sync_wait(mke<T>()); mk<T>() | sync_wait();
    blocking_get(mk<T>()); auto t3 = mk<T>(); blocking_get(t3);
    auto bt = make_blocking(mk<T>()); bt.get(); auto bt2 = mk<T>() | make_blocking(); bt2.get(); bt = std::move(bt2);
    // wrapping
    auto w1 = co_await wrap(mk<T>()); auto w2 = co_await (mk<T>() | wrap());
    auto t5 = wrap(mke<T>()); co_await std::move(t5);
    // several at once
    auto [x, y] = co_await when_all_ready(mk<T>(), mk<int>()); 
    std::vector<task<T>> v; v.push_back(mk<T>()); auto vs = co_await when_all_ready(std::move(v)); for (auto& q : vs) q.result();
    auto named = when_all_ready(mk<T>(), mk<void>()); co_await named; 
    std::move(x).result(); y.result();
    // scopes
    scoped_task<T> st = s.add(mk<T>()); co_await std::move(st); auto tl = mk<T>(); auto sl = s.add(tl); co_await std::move(sl);
    co_await s.join();
    // schedulers
    co_await start_on(p, mk<T>()); auto t6 = mk<T>(); co_await start_on(p, t6); co_await (mk<T>() | start_on(p)); co_await start_on(i, mk<T>()); 
    co_await transfer_to(p); co_await transfer_to(i); co_await p.schedule(); co_await p.post(); co_await p.dispatch(); co_await i.schedule();
    co_await p.schedule_after(std::chrono::milliseconds(1), tk); co_await p.schedule_after(std::chrono::seconds(1));
    // until
    co_await take_until(mk<T>(), timeout(p, std::chrono::milliseconds(1), tk)); 
    timeout to; to.reset(p, std::chrono::seconds(1)); to.get_token(); to.get_source(); to.request_stop(); co_await to;
    co_return 1;
}
template task<int> all_of<void>(thread_pool&, inline_scheduler&, async_scope&, stop_token);
template task<int> all_of<int>(thread_pool&, inline_scheduler&, async_scope&, stop_token);
template task<int> all_of<int&>(thread_pool&, inline_scheduler&, async_scope&, stop_token);
template task<int> all_of<Uptr>(thread_pool&, inline_scheduler&, async_scope&, stop_token);
template task<int> all_of<std::string>(thread_pool&, inline_scheduler&, async_scope&, stop_token);

// a type that can only be moved and has no default
task<int> nodef(async_scope& s) { co_await mk<NoDef>(); auto t = mk<NoDef>(); co_await t; co_await mke<NoDef>(); sync_wait(mk<NoDef>()); auto [x] = co_await when_all_ready(mk<NoDef>()); std::move(x).result(); scoped_task<NoDef> st = s.add(mk<NoDef>()); co_await std::move(st); co_await wrap(mk<NoDef>()); co_return 1; }

// named operations
template<typename T> task<int> named() {
    auto t = mk<T>(), u = mk<T>();
    auto w = wrap(t); co_await w; co_await wrap(t); auto w2 = wrap(mk<T>()); co_await w2; co_await std::move(w2); co_await (t | wrap());
    // several at once, some of them named or referred to
    auto [x, y, z] = co_await when_all_ready(t, mk<T>(), std::ref(u)); x.result(); y.result(); z.result();
    const auto cu = std::ref(u); auto [p, q] = co_await when_all_ready(cu, std::move(t)); p.result(); q.result();
    std::vector<std::reference_wrapper<task<T>>> v; v.push_back(u); auto vs = co_await when_all_ready(std::move(v)); for (auto& k : vs) k.result();
    co_return 1;
}
template task<int> named<void>(); template task<int> named<int>(); template task<int> named<int&>(); template task<int> named<std::string>();

// scopes as coroutines
when_all_scope wscope() { scoped_task<int> a = co_await scoped(mk<int>()); scoped_task<void> b = co_await (mk<void>() | scoped()); auto t = mk<int>(); auto c = co_await scoped(t); co_await std::move(a); co_await std::move(b); co_await std::move(c); co_await mk<int>(); }
task<int> outer() { co_await wscope(); try {} catch (async_scope_exception& e) { static_cast<std::exception&>(e).what(); for (auto& x : e.exceptions()) std::rethrow_exception(x); } co_return 1; }

// barriers and events
task<void> prim(barrier& b, async_manual_reset_event& e) { b.increment(); b.decrement(); co_await b; e.set(); e.reset(); e.is_set(); co_await e; co_return; }

// results
template<typename T, typename E> void res(T t, E err) {
    static_assert(std::is_copy_constructible_v<result<T, E>> == (std::is_copy_constructible_v<T> && std::is_copy_constructible_v<E>));
    result<T, E> r = Ok(std::move(t)), q = Err(std::move(err)); const result<T, E>& c = r; static_assert(moves<result<T, E>>);
    r.has_value(); r.has_error(); bool b = bool(r); c.has_value(); c.has_error(); r.value(); c.value(); *r; *c; r.error(); c.error(); std::move(r).value(); std::move(r).error(); (void)b;
    r = Ok(T{}); r = Err(E{}); r = std::move(q);
    if constexpr (std::is_copy_constructible_v<T>) { const T ct{}; result<T, E> a = Ok(t), d = Ok(ct); a = Ok(t); a = Ok(ct); a = d; r.value_or(T{}); r.value_or(t); c.value_or(ct); (void)(a == Ok(t)); (void)(a != Ok(t)); (void)(a == Ok(T{})); (void)(a != Ok(T{})); }
    if constexpr (std::is_copy_constructible_v<E>) { const E ce{}; result<T, E> a = Err(err), d = Err(ce); a = Err(err); a = Err(ce); r.error_or(E{}); r.error_or(err); c.error_or(ce); (void)(a == Err(err)); (void)(a != Err(err)); (void)(a == Err(E{})); (void)(a != Err(E{})); (void)d; }
}
template void res(int, int); template void res(std::string, int); template void res(Uptr, int); template void res(int, std::string); template void res(std::string, std::exception_ptr);
template<typename E> void resv(E err) {
    result<void, E> r = Ok(), q = Err(std::move(err)); const result<void, E>& c = r; r.value(); c.value(); *r; *c; r.error(); c.error(); r.has_value(); c.has_error(); bool b = bool(r); (void)b; r = Ok(); r = Err(E{}); r = q;
    const E ce{}; r = Err(ce); r = Err(err); r.error_or(E{}); r.error_or(err); c.error_or(ce); (void)(r == Ok()); (void)(r != Ok()); (void)(r == Err(err)); (void)(r != Err(err)); (void)(r != Err(E{}));
}
template void resv(int); template void resv(std::exception_ptr);
result<int> rco(bool x) { result<int> a = Ok(1); int v = co_await a; v += co_await rco(!x); if (x) throw 1; co_return Ok(v); }
result<std::string> rco2() { result<void> a = Ok(); co_await a; result<int> b = Ok(2); co_await std::move(b); co_return Ok(std::string()); }

// sequences over every integer type
template<typename S> task<void> seq() {
    using TR = sequence_traits<S>; TR::precedes(S{}, S{}); TR::difference(S{}, S{}); S i = TR::initial_sequence; (void)i;
    sequence_barrier<S> b; sequence_barrier<S> b2(S{}); b.publish(S{}); b.last_published(); co_await b.wait_until_published(S{}); 
    sequence_mpsc<S> m(b, 8); m.buffer_size(); m.any_available(); m.last_published_after(S{}); S s1 = co_await m.claim_one(); m.publish(s1); auto r1 = co_await m.claim_up_to(3); m.publish(r1); co_await m.wait_until_published(S{}, S{});
    sequence_spsc<S> p(b, 8); S s2 = co_await p.claim_one(); p.publish(s2); auto r2 = co_await p.claim_up_to(3); p.publish(r2); p.last_published(); co_await p.wait_until_published(S{}); co_await p.wait_until_published(S{}, S{});
    sequence_range<S> r(S{}, S{}); r.size(); r.empty(); r.first(1); r.skip(1); for (S x : r) (void)x; r.begin() == r.end(); if (!r.empty()) { r.front(); r.back(); r[0]; }
    co_return;
}
template task<void> seq<std::uint64_t>(); template task<void> seq<std::uint32_t>(); template task<void> seq<std::uint16_t>(); template task<void> seq<std::uint8_t>();

// channels
template<typename C, typename T> task<void> chan(C& c, T t) {
    co_await c.push(std::move(t)); auto w = co_await c.push(); w = T{}; w.publish(); T& ref = w; (void)ref; auto& f = co_await c.front(); (void)f; auto p = co_await c.pop(); T x = *p; (void)x; p.operator->(); p.publish(); co_await c.close();
    auto w2 = co_await c.push(); w2 = std::move(w); 
}
template<typename T> task<void> ends() {
    auto [s, r] = mpsc::make_channel<T>(4); auto s2 = s; auto w = co_await s2.push(); w = T{}; co_await s.close(); co_await r.front(); T y = *(co_await r.pop()); (void)y;
    auto [a, b] = spsc::make_channel<T>(4); auto a2 = std::move(a); auto w2 = co_await a2.push(); w2 = T{}; co_await a2.close(); co_await b.front(); T z = *(co_await b.pop()); (void)z;
}
template task<void> chan(mpsc::channel<int>&, int); template task<void> chan(spsc::channel<int>&, int); template task<void> chan(mpsc::channel<std::string>&, std::string); template task<void> chan(spsc::channel<Uptr>&, Uptr);
template task<void> ends<int>(); template task<void> ends<std::string>(); template task<void> ends<Uptr>();

// handles
void handles(task<int>& t, coroutine_handle<> h, std::coroutine_handle<> s) {
    coroutine_handle<> a, b(nullptr), c(s), d(h); std::coroutine_handle<> e = h.std_cast(); a = c; b = nullptr; a = nullptr; (void)bool(a); (void)a.done(); a.resume(); a.destroy(); a.address(); coroutine_handle<>::from_address(nullptr); (void)(a == b); (void)(a != b); (void)e; noop_coroutine().resume(); a = noop_coroutine(); (void)d;
}
// stop
void stops() {
    stop_source s, s2(s), s3(std::move(s2)); s = s3; s3 = std::move(s); stop_token t = s3.get_token(), t2(t), t3; t2 = t; t3 = std::move(t2); t.stop_requested(); t.stop_possible(); s3.stop_requested(); s3.stop_possible(); s3.request_stop(); t.swap(t3);
    stop_callback c(t, [] {}); optional_stop_callback o; o.emplace(t, [] {}); o.reset();
}
void pool() { thread_pool p; thread_pool q(std::move(p)); p = std::move(q); auto w = p.make_work(); thread_pool z(2, w); auto w2 = std::move(w); w2.reset(); p.create_thread(); p.create_threads(3); p.post(coroutine_handle<>{}); p.schedule(coroutine_handle<>{}); p.dispatch(coroutine_handle<>{}); p.join(); p.run(); }
