// Coroutines written with the macros, over operands, awaitables and awaiters nothing is known about.
#include "macoro/coroutine_handle.h"
#include "macoro/coro_frame.h"
#include "macoro/macros.h"
#include "macoro/result.h"
#include "macoro/optional.h"
#include "vf.h"
using namespace macoro;
template<class V> struct MP;
template<class V> struct MT { void* x; using promise_type = MP<V>; };
enum { VOID, BOOL, MHANDLE, SVOID, SBOOL, SHANDLE };
// an awaiter: S says what its await_suspend gives, R what await_resume does, I tells them apart
template<int S> struct SRes; 
template<> struct SRes<VOID> { using type = void; using H = coroutine_handle<>; }; template<> struct SRes<BOOL> { using type = bool; using H = coroutine_handle<>; };
template<> struct SRes<MHANDLE> { using type = coroutine_handle<>; using H = coroutine_handle<>; }; 
template<> struct SRes<SVOID> { using type = void; using H = std::coroutine_handle<>; }; template<> struct SRes<SBOOL> { using type = bool; using H = std::coroutine_handle<>; }; template<> struct SRes<SHANDLE> { using type = std::coroutine_handle<>; using H = std::coroutine_handle<>; };
template<int S, class R> struct Aw { Aw(Aw&&); Aw(const Aw&); ~Aw(); bool await_ready(); typename SRes<S>::type await_suspend(typename SRes<S>::H); R await_resume(); void* x; };
// operands: awaited as they are, through a member operator, through a free one, through the promise
struct OpM { OpM(OpM&&); ~OpM(); Aw<VOID, void> operator co_await() &&; Aw<BOOL, VT&> operator co_await() &; void* x; };
struct OpR { OpR(OpR&&); ~OpR(); Aw<MHANDLE, VT>& operator co_await() &&; void* x; };
struct OpF { OpF(OpF&&); ~OpF(); void* x; };
Aw<MHANDLE, void> operator co_await(OpF&&);
struct OpT { OpT(OpT&&); ~OpT(); void* x; };               // the promise makes an OpM of it
struct OpU { OpU(OpU&&); ~OpU(); void* x; };               // the promise makes an awaiter of it
struct OpV { OpV(OpV&&); ~OpV(); void* x; };               // the promise refers to an awaiter for it
struct Ini { ~Ini(); bool await_ready(); void await_suspend(coroutine_handle<>); void await_resume(); void* x; };
struct Fin { ~Fin(); bool await_ready() noexcept; void await_suspend(coroutine_handle<>) noexcept; void await_resume() noexcept; void* x; };
struct Yie { ~Yie(); bool await_ready(); void await_suspend(coroutine_handle<>); VT& await_resume(); void* x; };
template<class V> struct Ret { void return_value(const VT&); void return_value(VT&&); }; template<> struct Ret<void> { void return_void(); };
template<class V> struct MP : Ret<V> {
    MP(); ~MP(); void* x; MT<V> macoro_get_return_object() noexcept; Ini initial_suspend(); Fin final_suspend() noexcept; void unhandled_exception() noexcept; Yie yield_value(VT&&); Yie yield_value(VT&);
    OpM await_transform(OpT&&); Aw<VOID, void> await_transform(OpU&&); Aw<VOID, void>& await_transform(OpV&&); template<class A> A&& await_transform(A&& a) { return static_cast<A&&>(a); }
};
template<class T> T make(); template<class T> T& named(); template<class T> T&& mv(T& t) { return static_cast<T&&>(t); }
struct Here { static void a(); static void b(); };         // the program in between
struct Sink { static void take(VT&&); static void take(VT&); }; bool more();
struct Cap { Cap(Cap&&); ~Cap(); void* x; void use(); };
using A0 = Aw<VOID, void>;
#define BODY(n, V, ...) MT<V> w_##n(Cap& c) { MC_BEGIN(MT<V>, c = mv(c)); __VA_ARGS__; MC_END(); }
BODY(none, void, Here::a())
BODY(value, void, Here::a(); MC_AWAIT(make<A0>()); Here::b())
BODY(lvalue, void, MC_AWAIT(named<A0>()); Here::b())
BODY(xvalue, void, MC_AWAIT(mv(named<A0>())); Here::b())
BODY(bool, void, MC_AWAIT((make<Aw<BOOL, void>>())); Here::b())
BODY(handle, void, MC_AWAIT((make<Aw<MHANDLE, void>>())); Here::b())
BODY(svoid, void, MC_AWAIT((make<Aw<SVOID, void>>())); Here::b())
BODY(sbool, void, MC_AWAIT((make<Aw<SBOOL, void>>())); Here::b())
BODY(shandle, void, MC_AWAIT((make<Aw<SHANDLE, void>>())); Here::b())
BODY(opm, void, MC_AWAIT(make<OpM>()); Here::b())
BODY(opml, void, MC_AWAIT(named<OpM>()); Here::b())
BODY(opr, void, MC_AWAIT(make<OpR>()); Here::b())
BODY(opf, void, MC_AWAIT(make<OpF>()); Here::b())
BODY(opt, void, MC_AWAIT(make<OpT>()); Here::b())
BODY(opu, void, MC_AWAIT(make<OpU>()); Here::b())
BODY(opv, void, MC_AWAIT(make<OpV>()); Here::b())
BODY(set, void, MC_AWAIT_SET(named<VT>(), (make<Aw<VOID, VT>>())); Here::b())
BODY(ref, void, MC_AWAIT_FN(Sink::take, (make<Aw<VOID, VT&>>())); Here::b())
BODY(try, void, MC_AWAIT_TRY(named<result<VT>>(), (make<Aw<VOID, VT>>())); Here::b())
BODY(fn, void, MC_AWAIT_FN(Sink::take, (make<Aw<VOID, VT>>())); Here::b())
BODY(await_await, void, MC_AWAIT_AWAIT((make<Aw<VOID, A0>>())); Here::b())
BODY(yield, void, MC_YIELD(named<VT>()); Here::b())
BODY(yield_set, void, MC_YIELD_SET(named<VT>(), named<VT>()); Here::b())
BODY(yield_await, void, MC_YIELD_AWAIT((make<Aw<VOID, VT>>())); Here::b())
BODY(two, void, MC_AWAIT(make<A0>()); Here::a(); MC_AWAIT(make<OpT>()); Here::b())
BODY(loop, void, while (more()) { MC_AWAIT(make<OpM>()); Here::b(); })
BODY(early, void, if (more()) MC_RETURN_VOID(); MC_AWAIT(make<A0>()); Here::b())
BODY(ret, VT, MC_RETURN(named<VT>()))
BODY(ret_move, VT, MC_AWAIT(make<A0>()); MC_RETURN(make<VT>()))
BODY(ret_await, VT, MC_RETURN_AWAIT((make<Aw<VOID, VT>>())))
BODY(ret_yield, VT, MC_RETURN_YIELD(named<VT>()))
BODY(yield_temp, void, MC_YIELD(make<VT>()); Here::b())
void x_resume(coroutine_handle<> h) { h.resume(); }
void x_destroy(coroutine_handle<> h) { h.destroy(); }
