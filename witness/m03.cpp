// lazy task<T>: every awaiter, promise and owner operation as an entry point
#include "macoro/task.h"
#include "vf.h"
using namespace macoro;
#ifndef LAZY
#define LAZY true
#endif
using TI = task<int, LAZY>; using TV = task<void, LAZY>; using TR = task<int&, LAZY>; using TT = task<VT, LAZY>;
template<class T> using PR = typename T::promise_type;
template<class T> using LA = decltype(std::declval<T&>().operator co_await());
template<class T> using RA = decltype(std::declval<T&&>().operator co_await());
template<class T> using WA = decltype(std::declval<T&>().when_ready());
static_assert(!std::is_copy_constructible_v<TI> && !std::is_copy_assignable_v<TI> && std::is_nothrow_move_constructible_v<TI> && std::is_nothrow_move_assignable_v<TI>);
static_assert(std::is_same_v<decltype(std::declval<RA<TI>>().await_resume()), int> || std::is_same_v<decltype(std::declval<RA<TI>>().await_resume()), int&&>);
static_assert(std::is_same_v<decltype(std::declval<LA<TI>>().await_resume()), int&>);
static_assert(std::is_void_v<decltype(std::declval<LA<TV>>().await_resume())> && std::is_void_v<decltype(std::declval<RA<TV>>().await_resume())>);
static_assert(std::is_same_v<decltype(std::declval<LA<TR>>().await_resume()), int&> && std::is_same_v<decltype(std::declval<RA<TR>>().await_resume()), int&>);
extern "C" {
#define COMMON(N, T) \
void w_ctor_##N(void* p) { new (p) PR<T>(); } \
void w_dtor_##N(PR<T>& p) { p.~PR<T>(); } \
void w_unh_##N(PR<T>& p) { p.unhandled_exception(); } \
bool w_init_##N(PR<T>& p) { auto a = p.initial_suspend(); return a.await_ready(); } \
bool w_fready_##N(PR<T>& p) { auto a = p.final_suspend(); return a.await_ready(); } \
void w_fin_##N(PR<T>& p, std::coroutine_handle<PR<T>> h) { auto a = p.final_suspend(); vf_mark(1); vf::susp(a, h); } \
void w_finm_##N(PR<T>& p, coroutine_handle<PR<T>> h) { auto a = p.final_suspend(); vf_mark(1); vf::susp(a, h); } \
void w_get_##N(void* o, PR<T>& p) { new (o) T(p.get_return_object()); } \
void w_getm_##N(void* o, PR<T>& p) { new (o) T(p.macoro_get_return_object()); } \
void w_tdtor_##N(T& t) { t.~T(); } \
void w_tmove_##N(void* o, T& t) { new (o) T(std::move(t)); } \
void w_tassign_##N(T& a, T& b) { a = std::move(b); } \
void w_tself_##N(T& a) { a = std::move(a); } \
void w_tnew_##N(void* o) { new (o) T(); } \
bool w_isready_##N(T& t) { return t.is_ready(); } \
void w_lsusp_##N(T& t, SH h) { auto a = t.operator co_await(); vf::susp(a, h); } \
void w_rsusp_##N(T& t, SH h) { auto a = std::move(t).operator co_await(); vf::susp(a, h); } \
void w_wsusp_##N(T& t, SH h) { auto a = t.when_ready(); vf::susp(a, h); } \
void w_lsuspm_##N(T& t, VH h) { auto a = t.operator co_await(); vf::susp(a, h); } \
void w_rsuspm_##N(T& t, VH h) { auto a = std::move(t).operator co_await(); vf::susp(a, h); } \
void w_wsuspm_##N(T& t, VH h) { auto a = t.when_ready(); vf::susp(a, h); } \
bool w_lready_##N(T& t) { auto a = t.operator co_await(); return a.await_ready(); } \
bool w_rready_##N(T& t) { auto a = std::move(t).operator co_await(); return a.await_ready(); } \
bool w_wready_##N(T& t) { auto a = t.when_ready(); return a.await_ready(); } \
void w_wres_##N(T& t) { auto a = t.when_ready(); a.await_resume(); }
COMMON(i, TI) COMMON(v, TV) COMMON(r, TR) COMMON(t, TT)
void w_ret_i(PR<TI>& p, int& v) { p.return_value(v); }
void w_ret_r(PR<TR>& p, int& v) { p.return_value(v); }
void w_ret_v(PR<TV>& p) { p.return_void(); }
void w_ret_t(PR<TT>& p, VT& v) { p.return_value(std::move(v)); }
void w_retl_t(PR<TT>& p, VT& v) { p.return_value(v); }
int* w_lres_i(TI& t) { auto a = t.operator co_await(); return &a.await_resume(); }
int w_rres_i(TI& t) { auto a = std::move(t).operator co_await(); return a.await_resume(); }
void w_lres_v(TV& t) { auto a = t.operator co_await(); a.await_resume(); }
void w_rres_v(TV& t) { auto a = std::move(t).operator co_await(); a.await_resume(); }
int* w_lres_r(TR& t) { auto a = t.operator co_await(); return &a.await_resume(); }
int* w_rres_r(TR& t) { auto a = std::move(t).operator co_await(); return &a.await_resume(); }
VT* w_lres_t(TT& t) { auto a = t.operator co_await(); return &a.await_resume(); }
void w_rres_t(void* o, TT& t) { auto a = std::move(t).operator co_await(); new (o) VT(a.await_resume()); }
}
