// traces: who awaits whom, and how a trace follows that
#include "macoro/trace.h"
#include "macoro/task.h"
#include "macoro/when_all.h"
#include "macoro/async_scope.h"
#include "macoro/when_all_scope.h"
#include "macoro/sync_wait.h"
#include "vf.h"
using namespace macoro;
using SL = std::source_location;
struct PI { void* x; basic_traceable* y; };
struct PB : PI, basic_traceable { };
struct PF { void* x; traceable* get_traceable(); };
struct PM { void* x; basic_traceable m_trace; };
struct PP { void* x; traceable* m_trace; };
struct PN { void* x; };
using PT = task<int>::promise_type; using PE = eager_task<int>::promise_type; using PS = scoped_task<int>::promise_type; using PW = when_all_scope::promise_type;
using WA = decltype(when_all_ready(std::declval<task<int>>()));
using PA = std::tuple_element_t<0, std::remove_reference_t<decltype(std::declval<WA&>().operator co_await().await_resume())>>::promise_type;
using LT = decltype(std::declval<task<int>&>().operator co_await()); using RT = decltype(std::declval<task<int>&&>().operator co_await());
using LV = decltype(std::declval<task<void>&>().operator co_await()); using LR = decltype(std::declval<task<int&>&>().operator co_await());
using LA = decltype(std::declval<WA&>().operator co_await()); using RA = decltype(std::declval<WA&&>().operator co_await());
using SA = decltype(std::declval<when_all_scope&>().operator co_await());
struct AwI { void* x; AwI(AwI&&); ~AwI(); bool await_ready(); void await_suspend(std::coroutine_handle<>); int await_resume(); };
#define S(N, A, P) void w_susp_##N##_##P##_s(A& a, std::coroutine_handle<P> h, SL l) { a.await_suspend(h, l); }
#define M(N, A, P) void w_susp_##N##_##P##_m(A& a, coroutine_handle<P> h, SL l) { a.await_suspend(h, l); }
#define ALLP(F, N, A) F(N, A, PB) F(N, A, PF) F(N, A, PM) F(N, A, PP) F(N, A, PN) F(N, A, PT) F(N, A, PE) F(N, A, PS) F(N, A, PW) F(N, A, PA) F(N, A, void)
extern "C" {
// what is linked to for each kind of awaiting coroutine
traceable* w_link_PB_s(void*, std::coroutine_handle<PB> h) { return &h.promise(); } 
traceable* w_link_PF_s(void*, std::coroutine_handle<PF> h) { return h.promise().get_traceable(); } 
traceable* w_link_PM_s(void*, std::coroutine_handle<PM> h) { return &h.promise().m_trace; } 
traceable* w_link_PP_s(void*, std::coroutine_handle<PP> h) { return h.promise().m_trace; } 
traceable* w_link_PT_s(void*, std::coroutine_handle<PT> h) { return &h.promise(); } 
traceable* w_link_PE_s(void*, std::coroutine_handle<PE> h) { return &h.promise(); } 
traceable* w_link_PS_s(void*, std::coroutine_handle<PS> h) { return &h.promise(); } 
traceable* w_link_PW_s(void*, std::coroutine_handle<PW> h) { return h.promise().get_traceable(); } 
traceable* w_link_PA_s(void*, std::coroutine_handle<PA> h) { return h.promise().get_traceable(); } 
traceable* w_link_PB_m(void*, coroutine_handle<PB> h) { return &h.promise(); } 
traceable* w_link_PF_m(void*, coroutine_handle<PF> h) { return h.promise().get_traceable(); } 
traceable* w_link_PM_m(void*, coroutine_handle<PM> h) { return &h.promise().m_trace; } 
traceable* w_link_PP_m(void*, coroutine_handle<PP> h) { return h.promise().m_trace; } 
traceable* w_link_PT_m(void*, coroutine_handle<PT> h) { return &h.promise(); } 
traceable* w_link_PE_m(void*, coroutine_handle<PE> h) { return &h.promise(); } 
traceable* w_link_PS_m(void*, coroutine_handle<PS> h) { return &h.promise(); } 
traceable* w_link_PW_m(void*, coroutine_handle<PW> h) { return h.promise().get_traceable(); } 
traceable* w_link_PA_m(void*, coroutine_handle<PA> h) { return h.promise().get_traceable(); } 
traceable* w_up_wa(WA& a) { return &a; } 
traceable* w_up_scope(async_scope& a) { return &a; } 
traceable* w_up_ps(PS& p) { return &p; } 
traceable* w_own_scope(PW& p) { return p.get_traceable(); } 
traceable* w_own_when(PA& p) { return p.get_traceable(); } 
ALLP(S, lt, LT) 
ALLP(M, lt, LT) 
ALLP(S, rt, RT) 
ALLP(M, rt, RT) 
ALLP(S, lv, LV) 
ALLP(S, lr, LR) 
ALLP(S, la, LA) 
ALLP(M, la, LA) 
ALLP(S, ra, RA) 
ALLP(M, ra, RA) 
ALLP(S, sa, SA) 
void w_add(void* r, async_scope& s, AwI& a, SL l) { new (r) auto(s.add(std::move(a), l)); } 
void w_addr(void* r, async_scope& s, AwI& a, SL l) { new (r) auto(s.add(a, l)); } 
int w_block(AwI& a, SL l) { return sync_wait(std::move(a), l); } 
// the links and the way along them
void w_set(traceable& t, traceable* p, SL l) { t.set_parent(p, l); } 
void w_walk(traceable& t, std::vector<SL>& v) { t.traceable::get_call_stack(v); } 
void w_walkb(basic_traceable& t, std::vector<SL>& v) { t.basic_traceable::get_call_stack(v); } 
void w_walks(async_scope& t, std::vector<SL>& v) { t.async_scope::get_call_stack(v); } 
void w_walkw(WA& t, std::vector<SL>& v) { t.WA::get_call_stack(v); } 
void w_trace(void* r, SL l, traceable& c) { new (r) trace(l, c); } 
void w_get_i(void* r, task<int>::promise_type& p, get_trace& t) { new (r) auto(p.await_transform(std::move(t))); } 
void w_get_v(void* r, task<void>::promise_type& p, get_trace& t) { new (r) auto(p.await_transform(std::move(t))); } 
void w_get_r(void* r, task<int&>::promise_type& p, get_trace& t) { new (r) auto(p.await_transform(std::move(t))); } 
void w_get_e(void* r, eager_task<int>::promise_type& p, get_trace& t) { new (r) auto(p.await_transform(std::move(t))); } 
bool w_got_ready(get_trace::awaitable& a) { return a.await_ready(); } 
void w_got(void* r, get_trace::awaitable& a) { new (r) trace(a.await_resume()); } 
void w_new_t(void* p) { new (p) task<int>::promise_type(); } 
void w_new_e(void* p) { new (p) eager_task<int>::promise_type(); } 
void w_where(void* p, SL l) { new (p) get_trace(l); } 
}
