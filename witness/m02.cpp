#include <vector>
#include "macoro/task.h"
#include "macoro/when_all.h"
#include "vf.h"
using namespace macoro;
using TI = task<int>; using TV = task<void>; using TR = task<int&>;
using W3 = decltype(when_all_ready(std::declval<TI>(), std::declval<TV>(), std::declval<TR>()));
using WV = decltype(when_all_ready(std::declval<std::vector<TI>>()));
using W0 = decltype(when_all_ready());
template<class W> using RA = decltype(std::declval<W&&>().operator co_await());
template<class W> using LA = decltype(std::declval<W&>().operator co_await());
using R3 = std::remove_reference_t<decltype(std::declval<RA<W3>>().await_resume())>;
using K0 = std::tuple_element_t<0, R3>; using K1 = std::tuple_element_t<1, R3>; using K2 = std::tuple_element_t<2, R3>;
using P0 = K0::promise_type; using P1 = K1::promise_type; using P2 = K2::promise_type;
// results come back in the order the operations were given
static_assert(std::tuple_size_v<R3> == 3);
static_assert(std::is_same_v<decltype(std::declval<K0>().result()), int&&>);
static_assert(std::is_same_v<decltype(std::declval<K0&>().result()), int&>);
static_assert(std::is_void_v<decltype(std::declval<K1&>().result())>);
static_assert(std::is_same_v<decltype(std::declval<K2&>().result()), int&>);
static_assert(!std::is_copy_constructible_v<W3> && !std::is_copy_assignable_v<W3> && !std::is_copy_constructible_v<K0>);
extern "C" {
// awaiting: S = start and suspend decision
bool w_await_t_r(RA<W3>& a, SH h) { return a.await_suspend(h); }
bool w_await_t_l(LA<W3>& a, SH h) { return a.await_suspend(h); }
bool w_await_t_rm(RA<W3>& a, VH h) { return a.await_suspend(h); }
bool w_await_t_lm(LA<W3>& a, VH h) { return a.await_suspend(h); }
bool w_awaitv_r(RA<WV>& a, SH h) { return a.await_suspend(h); }
bool w_awaitv_l(LA<WV>& a, SH h) { return a.await_suspend(h); }
bool w_ready_t_r(RA<W3>& a) { return a.await_ready(); }
bool w_ready_t_l(LA<W3>& a) { return a.await_ready(); }
bool w_ready_v_r(RA<WV>& a) { return a.await_ready(); }
bool w_ready_0() { W0 w; return w.await_ready(); }
// completion of one operation
#define NOTIFY(I) \
void w_fin_##I(P##I& p, std::coroutine_handle<P##I> h) { auto a = p.final_suspend(); if (!a.await_ready()) { vf_mark(1); a.await_suspend(h); } } \
void w_finm_##I(P##I& p, coroutine_handle<P##I> h) { auto a = p.final_suspend(); if (!a.await_ready()) { vf_mark(1); a.await_suspend(h); } } \
void w_uncaught_##I(P##I& p) { p.unhandled_exception(); }
NOTIFY(0) NOTIFY(1) NOTIFY(2)
void w_yield_0(P0& p, int& v, std::coroutine_handle<P0> h) { auto a = p.yield_value(std::move(v)); if (!a.await_ready()) { vf_mark(1); a.await_suspend(h); } }
void w_yield_2(P2& p, int& v, std::coroutine_handle<P2> h) { auto a = p.yield_value(v); if (!a.await_ready()) { vf_mark(1); a.await_suspend(h); } }
// outcomes
int* w_res_0(K0& k) { return &k.result(); }
int* w_resr_0(K0& k) { auto&& r = std::move(k).result(); return &r; }
void w_res_1(K1& k) { k.result(); }
int* w_res_2(K2& k) { return &k.result(); }
// construction and moves
void w_move_t(void* p, W3& o) { new (p) W3(std::move(o)); }
void w_move_v(void* p, WV& o) { new (p) WV(std::move(o)); }
void w_make_t(void* p, TI& a, TV& b, TR& c) { new (p) W3(when_all_ready(std::move(a), std::move(b), std::move(c))); }
using KV = std::remove_reference_t<decltype(std::declval<RA<WV>>().await_resume())>;
void w_make_v(void* p, KV& v) { new (p) WV(std::move(v)); }
void w_kdtor(K0& k) { k.~K0(); }
void w_kmove(void* p, K0& k) { new (p) K0(std::move(k)); }
}
