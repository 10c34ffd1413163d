// Every way to be awaitable, given to every interface that takes an awaitable. Nothing here is run.
#include "macoro/thread_pool.h"
#include "macoro/when_all.h"
#include "macoro/task.h"
#include "macoro/sync_wait.h"
#include "macoro/blocking.h"
#include "macoro/wrap.h"
#include "macoro/start_on.h"
#include "macoro/async_scope.h"
#include "macoro/when_all_scope.h"
#include "macoro/take_until.h"
#include "macoro/timeout.h"
#include "macoro/inline_scheduler.h"
#include "macoro/macros.h"
using namespace macoro;
struct raw { bool await_ready() { return true; } void await_suspend(std::coroutine_handle<>) {} int await_resume() { return 1; } };
struct raw_bool { bool await_ready() { return true; } bool await_suspend(std::coroutine_handle<>) { return false; } int await_resume() { return 1; } };
struct raw_hand { bool await_ready() { return true; } std::coroutine_handle<> await_suspend(std::coroutine_handle<> h) { return h; } int await_resume() { return 1; } };
struct raw_both { bool await_ready() { return true; } template<class P> coroutine_handle<> await_suspend(coroutine_handle<P> h) { return h; } template<class P> std::coroutine_handle<> await_suspend(std::coroutine_handle<P> h) { return h; } int await_resume() { return 1; } };
struct raw_void { bool await_ready() const noexcept { return true; } void await_suspend(std::coroutine_handle<>) const noexcept {} void await_resume() const noexcept {} };
struct mem { raw operator co_await() { return {}; } };
struct mem_own { mem_own() = default; mem_own(mem_own&&) = default; raw operator co_await() && { return {}; } };
struct mem_const { raw operator co_await() const& { return {}; } };
struct mem_ref { raw_both r; raw_both& operator co_await() { return r; } };
struct fre {}; raw operator co_await(fre) { return {}; }
struct fre_own { fre_own() = default; fre_own(fre_own&&) = default; }; raw operator co_await(fre_own&&) { return {}; }
struct fre_const {}; raw_both operator co_await(const fre_const&) { return {}; }
struct mac_only { bool await_ready() { return true; } coroutine_handle<> await_suspend(coroutine_handle<> h) { return h; } int await_resume() { return 1; } };
template<class A> task<int> temporary(async_scope& s, thread_pool& p, inline_scheduler& i) {
    static_assert(is_awaitable<A>::value && std::is_same_v<remove_cvref_t<awaitable_result_t<A>>, remove_cvref_t<decltype(sync_wait(A{}))>>);
    co_await A{}; sync_wait(A{}); blocking_get(A{}); auto b = make_blocking(A{}); b.get();
    auto r = co_await wrap(A{}); auto r2 = co_await (A{} | wrap()); r.has_error();
    auto [x] = co_await when_all_ready(A{}); x.result(); std::vector<A> v(2); auto q = co_await when_all_ready(std::move(v)); for (auto& k : q) k.result();
    auto st = s.add(A{}); co_await std::move(st);
    co_await start_on(p, A{}); co_await (A{} | start_on(i));
    co_await take_until(A{}, timeout(p, std::chrono::seconds(1)));
    co_return 1;
}
template<class A> task<int> named(async_scope& s, thread_pool& p, inline_scheduler& i) {
    A a, b; co_await a; sync_wait(a); blocking_get(a); auto r = co_await wrap(a); auto r2 = co_await (b | wrap()); r2.has_error();
    auto [x, y] = co_await when_all_ready(a, std::ref(b)); x.result(); y.result();
    auto st = s.add(a); co_await std::move(st);
    co_await start_on(p, a); co_await (a | start_on(i));
    co_return 1;
}
template<class A> task<int> macros() { MC_BEGIN(task<int>); MC_AWAIT(A{}); MC_RETURN(1); MC_END(); }
template<class A> when_all_scope scope() { co_await A{}; co_await scoped(A{}); co_await (A{} | scoped()); }
#define EVERY(A) template task<int> temporary<A>(async_scope&, thread_pool&, inline_scheduler&); template task<int> macros<A>(); template when_all_scope scope<A>();
#define NAMED(A) EVERY(A) template task<int> named<A>(async_scope&, thread_pool&, inline_scheduler&);
NAMED(raw) NAMED(raw_bool) NAMED(raw_hand) NAMED(raw_both) NAMED(raw_void) NAMED(mem) EVERY(mem_own) NAMED(mem_const) NAMED(mem_ref) NAMED(fre) EVERY(fre_own) NAMED(fre_const)
template task<int> macros<mac_only>();
