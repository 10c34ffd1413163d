// Wrapped operations of every shape, over awaiters nothing is known about.
#include "macoro/wrap.h"
#include "vf.h"
using macoro::wrap; using macoro::wrapped_awaitable; using macoro::result;
#define AWAITER(N, R, S, EXTRA) struct N { N(N&&); N(const N&) = delete; ~N(); bool await_ready(); S await_suspend(std::coroutine_handle<>); S await_suspend(macoro::coroutine_handle<>); R await_resume(); EXTRA };
AWAITER(AwV, VT, void, ) AWAITER(AwL, VT&, bool, ) AWAITER(AwC, const VT&, void, ) AWAITER(AwX, VT&&, bool, ) AWAITER(Aw0, void, bool, ) AWAITER(AwI, int, bool, )
AWAITER(AwS, void, std::coroutine_handle<>, ) AWAITER(AwM, void, macoro::coroutine_handle<>, )
struct AwW { AwW(AwW&&); ~AwW(); bool await_ready(std::source_location = std::source_location::current()); std::coroutine_handle<> await_suspend(std::coroutine_handle<>, std::source_location = std::source_location::current()); void await_resume(); };
struct AwK { AwK(AwK&&); ~AwK(); bool await_ready() noexcept; void await_suspend(std::coroutine_handle<>) noexcept; void await_suspend(macoro::coroutine_handle<>) noexcept; VT await_resume() const; };
// an operation whose awaiter depends on how it is named
struct OpB { OpB(OpB&&); ~OpB(); AwL operator co_await() &; AwV operator co_await() &&; };
struct OpF { OpF(OpF&&); ~OpF(); }; Aw0 operator co_await(OpF&); AwI operator co_await(OpF&&);
struct MO { MO(MO&&); MO& operator=(MO&&); ~MO(); }; AWAITER(AwO, MO, void, )
template<class A> using W = typename wrapped_awaitable<A>::awaiter;
template<class A> using Out = decltype(std::declval<W<A>&>().await_resume());
static_assert(noexcept(std::declval<W<AwV&>&>().await_resume()) && noexcept(std::declval<W<Aw0&>&>().await_resume()));
static_assert(std::is_same_v<Out<Aw0>, result<void>> && std::is_same_v<Out<AwV>, result<VT>> && std::is_same_v<Out<AwI>, result<int>>);
static_assert(std::is_same_v<Out<AwL>::value_type, VT> && std::is_same_v<Out<AwX>::value_type, VT> && std::is_same_v<Out<AwO>, result<MO>>);
namespace vf { template<class T> T&& mv(T& t) { return static_cast<T&&>(t); } }
using vf::mv;
extern "C" {
unsigned long w_index(const result<VT>& r) { return vf::var(r).index(); }
unsigned long w_iindex(const result<int>& r) { return vf::var(r).index(); }
bool w_vindex(const result<void>& r) { return vf::var(r).has_value(); }
#define READY(N) bool w_ready_##N(W<N&>& w) { return w.await_ready(); } bool w_readyv_##N(W<N>& w) { return w.await_ready(); }
#define SUSP(N, H, k) auto w_susp##k##_##N(W<N&>& w, H h) { return w.await_suspend(h); }
#define SUSPH(N, H, k) void* w_susp##k##_##N(W<N&>& w, H h) { return w.await_suspend(h).address(); }
#define RES(N) void w_res_##N(void* o, W<N&>& w) { new (o) Out<N&>(w.await_resume()); } void w_resv_##N(void* o, W<N>& w) { new (o) Out<N>(w.await_resume()); }
#define ASK(N) READY(N) SUSP(N, SH, s) SUSP(N, VH, m)
ASK(AwV)
RES(AwV)
ASK(AwL)
RES(AwL)
ASK(AwC)
RES(AwC)
ASK(AwX)
RES(AwX)
ASK(Aw0)
RES(Aw0)
ASK(AwI)
RES(AwI)
ASK(AwK)
RES(AwK)
READY(AwS) SUSPH(AwS, SH, s) SUSPH(AwS, VH, m)
RES(AwS)
READY(AwM) SUSPH(AwM, SH, s) SUSPH(AwM, VH, m)
RES(AwM)
READY(AwW) SUSPH(AwW, SH, s)
RES(AwW)
void w_res_AwO(void* o, W<AwO&>& w) { new (o) result<MO>(w.await_resume()); }
// which awaiter of which operation
void w_get_lv(void* o, OpB& a) { new (o) W<OpB&>(wrap(a).operator co_await()); }
void w_get_rv(void* o, OpB& a) { new (o) W<OpB>(wrap(mv(a)).operator co_await()); }
void w_get_named_lv(void* o, wrapped_awaitable<OpB&>& w) { new (o) W<OpB&>(w.operator co_await()); }
void w_get_named_rv(void* o, wrapped_awaitable<OpB>& w) { new (o) W<OpB&>(w.operator co_await()); }
void w_get_moved(void* o, wrapped_awaitable<OpB>& w) { new (o) W<OpB>(mv(w).operator co_await()); }
void w_get_pipe_lv(void* o, OpB& a) { new (o) W<OpB&>((a | wrap()).operator co_await()); }
void w_get_pipe_rv(void* o, OpB& a) { new (o) W<OpB>((mv(a) | wrap()).operator co_await()); }
void w_get_free_lv(void* o, OpF& a) { new (o) W<OpF&>(wrap(a).operator co_await()); }
void w_get_free_rv(void* o, OpF& a) { new (o) W<OpF>(wrap(mv(a)).operator co_await()); }
void w_get_self_lv(void* o, AwV& a) { new (o) W<AwV&>(wrap(a).operator co_await()); }
void w_get_self_named(void* o, wrapped_awaitable<AwV>& w) { new (o) W<AwV&>(w.operator co_await()); }
void w_get_self_moved(void* o, wrapped_awaitable<AwV>& w) { new (o) W<AwV>(mv(w).operator co_await()); }
}
