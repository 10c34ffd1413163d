// async scope: the frame behind a scoped task, its handle, its awaiter, the join
#include <vector>
#include <sstream>
#include <mutex>
#include <string>
#include "macoro/task.h"
#include "macoro/async_scope.h"
#include "macoro/when_all_scope.h"
#include "vf.h"
using namespace macoro;
using TI = scoped_task<int>; using TV = scoped_task<void>; using TR = scoped_task<int&>; using TT = scoped_task<VT>;
template<class T> using PR = typename T::promise_type;
template<class T> using AW = decltype(std::declval<T&&>().operator co_await());
static_assert(!std::is_copy_constructible_v<TI> && !std::is_copy_assignable_v<TI> && !std::is_copy_constructible_v<AW<TI>> && !std::is_copy_assignable_v<AW<TI>>);
static_assert(!std::is_copy_constructible_v<when_all_scope> && !std::is_copy_assignable_v<when_all_scope> && !std::is_copy_constructible_v<async_scope>);
static_assert(std::is_same_v<decltype(std::declval<async_scope&>().add(std::declval<task<int>>())), TI>);
static_assert(std::is_same_v<decltype(std::declval<async_scope&>().add(std::declval<task<int>&>())), TR>);
extern "C" {
#define COMMON(N, T) \
void w_ctor_##N(void* p, async_scope& s, VT& a, std::source_location& l) { new (p) PR<T>(s, a, l); } \
void w_dtor_##N(PR<T>& p) { p.~PR<T>(); } \
void w_unh_##N(PR<T>& p) { p.unhandled_exception(); } \
bool w_init_##N(PR<T>& p) { auto a = p.initial_suspend(); return a.await_ready(); } \
void w_fin_##N(PR<T>& p, std::coroutine_handle<PR<T>> h) { auto a = p.final_suspend(); if (a.await_ready()) vf_continued(); else { vf_mark(1); vf::susp(a, h); } } \
void w_finm_##N(PR<T>& p, coroutine_handle<PR<T>> h) { auto a = p.final_suspend(); if (a.await_ready()) vf_continued(); else { vf_mark(1); vf::susp(a, h); } } \
void w_get_##N(void* o, PR<T>& p) { new (o) T(p.get_return_object()); } \
void w_drop_##N(T& t) { t.~T(); } \
void w_tmove_##N(void* o, T& t) { new (o) T(std::move(t)); } \
void w_tassign_##N(T& a, T& b) { a = std::move(b); } \
void w_tself_##N(T& a) { a = std::move(a); } \
void w_tnew_##N(void* o) { new (o) T(); } \
bool w_isready_##N(T& t) { return t.is_ready(); } \
void w_take_##N(void* o, T& t) { new (o) AW<T>(std::move(t).operator co_await()); } \
bool w_aready_##N(AW<T>& a) { return a.await_ready(); } \
void w_asusp_##N(AW<T>& a, SH h) { vf::susp(a, h); } \
void w_asuspm_##N(AW<T>& a, VH h) { vf::susp(a, h); } \
void w_adtor_##N(AW<T>& a) { a.~AW<T>(); }
COMMON(i, TI) COMMON(v, TV) COMMON(r, TR) COMMON(t, TT)
void w_ret_i(PR<TI>& p, int& v) { p.return_value(v); }
void w_ret_r(PR<TR>& p, int& v) { p.return_value(v); }
void w_ret_v(PR<TV>& p) { p.return_void(); }
void w_ret_t(PR<TT>& p, VT& v) { p.return_value(std::move(v)); }
int w_ares_i(AW<TI>& a) { return a.await_resume(); }
void w_ares_v(AW<TV>& a) { a.await_resume(); }
int* w_ares_r(AW<TR>& a) { return &a.await_resume(); }
void w_ares_t(void* o, AW<TT>& a) { new (o) VT(a.await_resume()); }
// join
using J = decltype(std::declval<async_scope&>().join());
static_assert(std::is_same_v<J, decltype(std::declval<async_scope&>().operator co_await())>);
void w_join(void* o, async_scope& s) { new (o) J(s.join()); }
void w_joinc(void* o, async_scope& s) { new (o) J(s.operator co_await()); }
bool w_jready(J& j) { return j.await_ready(); }
void w_jsusp(J& j, SH h) { vf::susp(j, h); }
void w_jsuspm(J& j, VH h) { vf::susp(j, h); }
void w_jres(J& j) { j.await_resume(); }
// when_all_scope
using WS = when_all_scope; using WP = when_all_scope::promise_type; using WA = decltype(std::declval<WS&>().operator co_await());
void w_wctor(void* p) { new (p) WP(); }
bool w_winit(WP& p) { return p.initial_suspend().await_ready(); }
void w_wfin(WP& p, std::coroutine_handle<WP> h) { auto a = p.final_suspend(); if (a.await_ready()) vf_continued(); else { vf_mark(1); vf::susp(a, h); } }
void w_wunh(WP& p) { p.unhandled_exception(); }
void w_wget(void* o, WP& p) { new (o) WS(p.get_return_object()); }
void w_wdtor(WS& s) { s.~WS(); }
void w_wmove(void* o, WS& t) { new (o) WS(std::move(t)); }
void w_wassign(WS& a, WS& b) { a = std::move(b); }
void w_wself(WS& a) { a = std::move(a); }
void w_waw(void* o, WS& s) { new (o) WA(s.operator co_await()); }
bool w_wready(WA& a) { return a.await_ready(); }
void w_wsusp(WA& a, SH h) { vf::susp(a, h); }
void w_wres(WA& a) { a.await_resume(); }
}
