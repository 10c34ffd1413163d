// The lives of promises: a coroutine body that may throw at any point, then asking for the outcome, then the end.
#include "macoro/task.h"
#include "macoro/async_scope.h"
#include "macoro/when_all_scope.h"
#include "macoro/when_all.h"
#include "macoro/sync_wait.h"
#include "vf.h"
struct VD : VT { ~VD(); void* q; };                          // converts to VT
struct Body { static void run(); }; struct Locals { static void end(); };
struct AV { VT await_resume(); bool await_ready(); void await_suspend(std::coroutine_handle<>); };
struct AL { VT& await_resume(); bool await_ready(); void await_suspend(std::coroutine_handle<>); };
struct A0 { void await_resume(); bool await_ready(); void await_suspend(std::coroutine_handle<>); };
extern "C" void vf_got() noexcept;
namespace vf {
template<class P> struct Life {
    alignas(P) unsigned char b[sizeof(P)]; P* p;
    template<class... A> Life(A&&... a) { p = new (b) P(static_cast<A&&>(a)...); }
    ~Life() { p->~P(); }
};
template<class T> void* at(T&& t) { return const_cast<void*>(static_cast<const void*>(&t)); }
template<class T> T&& mv(T& t) { return static_cast<T&&>(t); }
}
using namespace macoro; using vf::mv;
template<class T> using ST = detail::scoped_task_promise<T>;
template<class T> using WT = detail::when_all_task_promise<T>;
template<class T> using LT = detail::task_promise<T, true>;
template<class T> using ET = detail::task_promise<T, false>;
template<class A> using BP = detail::blocking_promise<A>;
struct Aw {}; extern "C" { extern async_scope g_scope; extern std::source_location g_loc; extern Aw g_aw; }
#define SC (g_scope, g_aw, g_loc)
#define NONE
// n: name, P: promise, I: its arguments, OUT: how the body ends, C: asking for the outcome
#define LIFE(n, P, I, V, OUT, C) LIFEX(n, P, I, V, , OUT, C)
#define LIFEX(n, P, I, V, PRE, OUT, C) void w_##n(void* o, V& v) { using Q = P; vf::Life<Q> f I; Q& p = *f.p; PRE; \
    /* what a coroutine does with its promise */ try { Body::run(); OUT; Locals::end(); } catch (...) { p.unhandled_exception(); } C; }
#define VALUES(n, P, I) \
    LIFE(n##_copy_l, P<VT>, I, VT, p.return_value(v), vf_use(&p.result())) \
    LIFE(n##_move_l, P<VT>, I, VT, p.return_value(mv(v)), vf_use(&p.result())) \
    LIFE(n##_const_l, P<VT>, I, VT, p.return_value(static_cast<const VT&>(v)), vf_use(&p.result())) \
    LIFE(n##_derived_l, P<VT>, I, VD, p.return_value(v), vf_use(&p.result())) \
    LIFE(n##_copy_m, P<VT>, I, VT, p.return_value(v), new (o) VT(mv(p).result())) \
    LIFE(n##_move_m, P<VT>, I, VT, p.return_value(mv(v)), new (o) VT(mv(p).result()))
#define OTHERS(n, P, I) \
    LIFE(n##_void, P<void>, I, VT, p.return_void(), (p.result(), vf_got())) \
    LIFE(n##_ref, P<VT&>, I, VT, p.return_value(v), vf_use(&p.result())) \
    LIFE(n##_cref, P<const VT&>, I, VT, p.return_value(v), vf_use(vf::at(p.result())))
// asking for the outcome without taking it, and asking again
#define AGAIN(n, P, I, V, OUT, C) LIFE(n##_twice, P, I, V, OUT, try { C; } catch (...) {} C)
#define REPEATED(n, P, I) AGAIN(n##_copy, P<VT>, I, VT, p.return_value(v), vf_use(&p.result())) AGAIN(n##_void, P<void>, I, VT, p.return_void(), (p.result(), vf_got())) AGAIN(n##_ref, P<VT&>, I, VT, p.return_value(v), vf_use(&p.result()))
#define UNUSED(n, P, I) LIFE(n##_void_never, P<void>, I, VT, p.return_void(), ) LIFE(n##_copy_never, P<VT>, I, VT, p.return_value(v), ) LIFE(n##_ref_never, P<VT&>, I, VT, p.return_value(v), ) \
    void w_##n##_void_unborn() { vf::Life<P<void>> f I; } void w_##n##_copy_unborn() { vf::Life<P<VT>> f I; } void w_##n##_ref_unborn() { vf::Life<P<VT&>> f I; }
extern "C" {
VALUES(lazy, LT, ) OTHERS(lazy, LT, ) UNUSED(lazy, LT, )
VALUES(eager, ET, ) OTHERS(eager, ET, ) UNUSED(eager, ET, )
VALUES(scoped, ST, SC) OTHERS(scoped, ST, SC) UNUSED(scoped, ST, SC)
LIFE(scoped_rref, ST<VT&&>, SC, VT, p.return_value(mv(v)), vf_use(vf::at(p.result())))
REPEATED(lazy, LT, ) REPEATED(eager, ET, )
AGAIN(all_value, WT<VT>, , VT, (p.yield_value(mv(v)), vf_got()), vf_use(&p.result())) AGAIN(all_ref, WT<VT&>, , VT, (p.yield_value(v), vf_got()), vf_use(&p.result())) AGAIN(all_void, WT<void>, , VT, p.return_void(), (p.result(), vf_got()))
// somebody waits already, or has let go
#define TAKEN(n, P, I) LIFEX(n##_copy_taken_m, P<VT>, I, VT, p.try_set_continuation(macoro::noop_coroutine()), p.return_value(v), new (o) VT(mv(p).result())) \
    LIFEX(n##_void_taken, P<void>, I, VT, p.try_set_continuation(macoro::noop_coroutine()), p.return_void(), (p.result(), vf_got())) \
    LIFEX(n##_ref_taken, P<VT&>, I, VT, p.try_set_continuation(macoro::noop_coroutine()), p.return_value(v), vf_use(&p.result()))
TAKEN(eager, ET, ) TAKEN(scoped, ST, SC)
// an operation of when_all ends its body by handing out what it awaited
LIFE(all_value_l, WT<VT>, , VT, (p.yield_value(mv(v)), vf_got()), vf_use(&p.result()))
LIFE(all_value_m, WT<VT>, , VT, (p.yield_value(mv(v)), vf_got()), vf_use(vf::at(mv(p).result())))
LIFE(all_ref_l, WT<VT&>, , VT, (p.yield_value(v), vf_got()), vf_use(&p.result()))
LIFE(all_ref_m, WT<VT&>, , VT, (p.yield_value(v), vf_got()), vf_use(&mv(p).result()))
LIFE(all_rref_l, WT<VT&&>, , VT, (p.yield_value(mv(v)), vf_got()), vf_use(&p.result()))
LIFE(all_rref_m, WT<VT&&>, , VT, (p.yield_value(mv(v)), vf_got()), vf_use(vf::at(mv(p).result())))
LIFE(all_void, WT<void>, , VT, p.return_void(), (p.result(), vf_got()))
void w_all_value_unborn() { vf::Life<WT<VT>> f; } void w_all_ref_unborn() { vf::Life<WT<VT&>> f; } void w_all_void_unborn() { vf::Life<WT<void>> f; }
// waiting for an operation hands out what the operation's awaiter yields
LIFE(wait_value, BP<AV&>, (v, g_loc), AV, p.return_void(), (p.set(), new (o) VT(p.value())))
LIFE(wait_ref, BP<AL&>, (v, g_loc), AL, p.return_void(), (p.set(), vf_use(&p.value())))
LIFE(wait_void, BP<A0&>, (v, g_loc), A0, p.return_void(), (p.set(), p.value(), vf_got()))
// owners of nothing
#define EMPTY(n, T, F) void w_empty_##n() { T t; auto&& a = F.MACORO_OPERATOR_COAWAIT(); if (!a.await_ready()) vf_got(); else a.await_resume(); }
EMPTY(lazy_l, task<VT>, t) EMPTY(lazy_m, task<VT>, mv(t)) EMPTY(lazy_void_l, task<void>, t) EMPTY(lazy_void_m, task<void>, mv(t)) EMPTY(lazy_ref_l, task<VT&>, t) EMPTY(lazy_ref_m, task<VT&>, mv(t))
EMPTY(eager_l, eager_task<VT>, t) EMPTY(eager_m, eager_task<VT>, mv(t)) EMPTY(eager_void_l, eager_task<void>, t) EMPTY(eager_void_m, eager_task<void>, mv(t))
EMPTY(scoped_m, scoped_task<VT>, mv(t)) EMPTY(scoped_void_m, scoped_task<void>, mv(t)) EMPTY(scoped_ref_m, scoped_task<VT&>, mv(t))
}
