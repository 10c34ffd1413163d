// handles: every operation on typed, erased, null and no-op handles
#include "macoro/coroutine_handle.h"
#include "macoro/coro_frame.h"
#include "macoro/macros.h"
#include "macoro/task.h"
#include "macoro/result.h"
#include "macoro/sync_wait.h"
#include "macoro/when_all.h"
#include "macoro/async_scope.h"
#include "macoro/when_all_scope.h"
#include "vf.h"
using namespace macoro;
using HV = coroutine_handle<>; using HT = coroutine_handle<VP>; using NH = noop_coroutine_handle;
// a coroutine the macros made
struct MP;
struct MT { void* x; using promise_type = MP; };
struct MP { void* x; MP(); ~MP(); MT macoro_get_return_object(); MT get_return_object(); suspend_always initial_suspend() noexcept; suspend_always final_suspend() noexcept; void unhandled_exception() noexcept; void return_void() noexcept; };
struct Arg { void* x; Arg(Arg&&); ~Arg(); void f(); };
extern "C" {
void w_resume_v(void* a) { HV::from_address(a).resume(); }
void w_resume_t(void* a) { HT::from_address(a).resume(); }
void w_call_v(void* a) { HV::from_address(a)(); }
void w_call_t(void* a) { HT::from_address(a)(); }
bool w_done_v(void* a) { return HV::from_address(a).done(); }
bool w_done_t(void* a) { return HT::from_address(a).done(); }
void w_destroy_v(void* a) { HV::from_address(a).destroy(); }
void w_destroy_t(void* a) { HT::from_address(a).destroy(); }
void* w_cast_v(void* a) { return HV::from_address(a).std_cast().address(); }
void* w_cast_t(void* a) { return HT::from_address(a).std_cast().address(); }
void* w_cast_vo(void* a) { return ((std::coroutine_handle<>)HV::from_address(a)).address(); }
void* w_cast_to(void* a) { return ((std::coroutine_handle<>)HT::from_address(a)).address(); }
bool w_isstd(void* a) { return HV::from_address(a).is_std(); }
void* w_promise(void* a) { return &HT::from_address(a).promise(); }
void* w_from_s(VP& p) { return HT::from_promise(p, coroutine_handle_type::std).address(); }
void* w_from_m(VP& p) { return HT::from_promise(p, coroutine_handle_type::macoro).address(); }
// the address is kept by everything that does not act
void* w_id_v(void* a) { return HV::from_address(a).address(); }
void* w_id_t(void* a) { return HT::from_address(a).address(); }
void* w_id_tv(void* a) { HV h = HT::from_address(a); return h.address(); }
void* w_id_copy(void* a) { HV h = HV::from_address(a); HV g; g = h; return HV(g).address(); }
void* w_id_sv(void* a) { return HV(std::coroutine_handle<>::from_address(a)).address(); }
void* w_id_stv(void* a) { return HV(std::coroutine_handle<VP>::from_address(a)).address(); }
void* w_id_st(void* a) { return HT(std::coroutine_handle<VP>::from_address(a)).address(); }
void* w_id_lsv(void* a) { auto h = std::coroutine_handle<>::from_address(a); return HV(h).address(); }
void* w_id_lst(void* a) { auto h = std::coroutine_handle<VP>::from_address(a); return HT(h).address(); }
bool w_bool_v(void* a) { return (bool)HV::from_address(a); }
bool w_bool_t(void* a) { return (bool)HT::from_address(a); }
bool w_eq(void* a, void* b) { return HV::from_address(a) == HV::from_address(b); }
bool w_ne(void* a, void* b) { return HV::from_address(a) != HV::from_address(b); }
bool w_eq_t(void* a, void* b) { return HT::from_address(a) == HV::from_address(b); }
void* w_null_v() { return HV().address(); }
void* w_null_t() { return HT().address(); }
void* w_null_n() { return HV(nullptr).address(); }
void* w_null_a(void* a) { auto h = HV::from_address(a); h = nullptr; return h.address(); }
void* w_null_at(void* a) { auto h = HT::from_address(a); h = nullptr; return h.address(); }
// the no-op handle, itself and erased
void* w_noop() { return noop_coroutine().address(); }
void* w_noop_v() { HV h = noop_coroutine(); return h.address(); }
void w_n_resume() { noop_coroutine().resume(); noop_coroutine()(); }
void w_n_destroy() { noop_coroutine().destroy(); }
bool w_n_done() { return noop_coroutine().done(); }
bool w_n_bool() { return (bool)noop_coroutine(); }
void w_nv_resume() { HV h = noop_coroutine(); h.resume(); h(); }
void w_nv_destroy() { HV h = noop_coroutine(); h.destroy(); }
bool w_nv_done() { HV h = noop_coroutine(); return h.done(); }
bool w_nv_bool() { HV h = noop_coroutine(); return (bool)h; }
void* w_nv_cast() { HV h = noop_coroutine(); return h.std_cast().address(); }
void* w_n_cast() { return noop_coroutine().std_cast().address(); }
bool w_nv_eq() { HV h = noop_coroutine(); return h == noop_coroutine(); }
bool w_nv_is(void* a) { return HV::from_address(a) == noop_coroutine(); }
}
// every promise of the library hands out a handle of itself, of the right backend
#define OFF(n, ...) size_t w_off_##n() { return (size_t)&reinterpret_cast<char const volatile&>(((FrameBase<__VA_ARGS__>*)0)->promise); }
#define GROS(n, ...) void w_gros_##n(void* o, __VA_ARGS__& p) { using R = decltype(p.get_return_object()); new (o) R(p.get_return_object()); }
#define GROM(n, ...) OFF(n, __VA_ARGS__) void w_grom_##n(void* o, __VA_ARGS__& p) { using R = decltype(p.macoro_get_return_object()); new (o) R(p.macoro_get_return_object()); }
#define GRO(n, ...) GROS(n, __VA_ARGS__) GROM(n, __VA_ARGS__)
#define WA(n, ...) GRO(n, __VA_ARGS__) void w_was_##n(__VA_ARGS__& p, Any& c) { p.get_return_object(); p.start(c); } void w_wam_##n(__VA_ARGS__& p, Any& c) { p.macoro_get_return_object(); p.start(c); }
struct Any { void* x; template<class T> operator T&() const; };
struct Aw { void* x; bool await_ready(); void await_suspend(std::coroutine_handle<>); int await_resume(); };
extern "C" {
GRO(task_i, detail::task_promise<int, true>)
GRO(task_v, detail::task_promise<void, true>)
GRO(task_r, detail::task_promise<int&, true>)
GRO(eager_i, detail::task_promise<int, false>)
GRO(eager_v, detail::task_promise<void, false>)
GRO(eager_r, detail::task_promise<int&, false>)
GRO(result_i, detail::result_promise<int, std::exception_ptr>)
GRO(block, detail::blocking_promise<Aw>)
GRO(block_r, detail::blocking_promise<Aw&>)
GROS(scoped_i, detail::scoped_task_promise<int>)
GROS(scoped_v, detail::scoped_task_promise<void>)
GROS(wscope, when_all_scope::promise_type)
WA(all_i, detail::when_all_task_promise<int>)
WA(all_v, detail::when_all_task_promise<void>)
}
MT w_coro(Arg arg) { MC_BEGIN(MT, arg = std::move(arg)); arg.f(); MC_END(); }
