// Channels over a sequencer nothing is known about: everything it does is an event.
#include "macoro/channel.h"
#include "vf.h"
template<bool B> struct Op {
    Op(Op&&) noexcept; ~Op();
    bool await_ready() noexcept;
    std::conditional_t<B, bool, macoro::coroutine_handle<>> await_suspend(macoro::coroutine_handle<>) noexcept;
    std::size_t await_resume() noexcept;
    void* p;
};
struct VClaim { Op<true> MACORO_OPERATOR_COAWAIT() noexcept; void* p; };
struct VSeq {
    static constexpr bool multi_sender = true;
    VSeq(macoro::sequence_barrier<>& b, std::size_t n); ~VSeq();
    VClaim claim_one() noexcept;
    Op<false> wait_until_published(std::size_t target, std::size_t last) noexcept;
    void publish(std::size_t) noexcept;
    void* p;
};
using CH = macoro::channel<VT, VSeq>;
using TX = macoro::channel_sender<CH>;
using RX = macoro::channel_receiver<CH>;
using PUSH = decltype(std::declval<CH&>().push(std::declval<VT>()));
using CLAIM = decltype(std::declval<CH&>().push());
using CLOSE = decltype(std::declval<CH&>().close());
using FRONT = decltype(std::declval<CH&>().front());
using POP = decltype(std::declval<CH&>().pop());
using PW = CH::push_wrapper;
using QW = CH::pop_wrapper;
using O = macoro::optional<VT>;
static_assert(!std::is_copy_constructible_v<PW> && !std::is_copy_constructible_v<QW>);
static_assert(std::is_same_v<decltype(std::declval<FRONT&>().await_resume()), VT&>);
static_assert(!std::is_copy_constructible_v<RX> && !std::is_copy_assignable_v<RX>);
static_assert(!std::is_copy_constructible_v<macoro::spsc::channel_sender<int>> && !std::is_copy_assignable_v<macoro::spsc::channel_sender<int>>);
static_assert(std::is_copy_constructible_v<macoro::mpsc::channel_sender<int>>);
// the library's sequencers do not throw either
template<class S> constexpr bool quiet = noexcept(std::declval<S&>().claim_one()) && noexcept(std::declval<S&>().claim_one().MACORO_OPERATOR_COAWAIT()) && noexcept(std::declval<S&>().wait_until_published(0, 0)) && noexcept(std::declval<S&>().publish(0))
    && noexcept(std::declval<S&>().claim_one().MACORO_OPERATOR_COAWAIT().await_ready()) && noexcept(std::declval<S&>().claim_one().MACORO_OPERATOR_COAWAIT().await_resume()) && noexcept(std::declval<S&>().claim_one().MACORO_OPERATOR_COAWAIT().await_suspend(macoro::coroutine_handle<>{}))
    && noexcept(std::declval<S&>().wait_until_published(0, 0).await_ready()) && noexcept(std::declval<S&>().wait_until_published(0, 0).await_resume()) && noexcept(std::declval<S&>().wait_until_published(0, 0).await_suspend(macoro::coroutine_handle<>{}));
static_assert(quiet<macoro::sequence_spsc<>> && quiet<macoro::sequence_mpsc<>>);
extern "C" {
bool w_has(O& o) { return o.has_value(); }
VT* w_val(O& o) { return &*o; }
unsigned long w_size() { return sizeof(O); }
void w_ctor(void* p, unsigned long n) { new (p) CH(n); }
void w_push(void* out, CH& c, VT& t) { new (out) PUSH(c.push(std::move(t))); }
void w_claim(void* out, CH& c) { new (out) CLAIM(c.push()); }
void w_close(void* out, CH& c) { new (out) CLOSE(c.close()); }
void w_front(void* out, CH& c) { new (out) FRONT(c.front()); }
void w_pop(void* out, CH& c) { new (out) POP(c.pop()); }
void w_tx_claim(void* out, TX& c) { new (out) CLAIM(c.push()); }
void w_tx_close(void* out, TX& c) { new (out) CLOSE(c.close()); }
void w_rx_front(void* out, RX& c) { new (out) FRONT(c.front()); }
void w_rx_pop(void* out, RX& c) { new (out) POP(c.pop()); }
void w_push_r(PUSH& a) { a.await_resume(); }
void w_claim_r(void* out, CLAIM& a) { new (out) PW(a.await_resume()); }
void w_close_r(CLOSE& a) { a.await_resume(); }
VT* w_front_r(FRONT& a) { return &a.await_resume(); }
void w_pop_r(void* out, POP& a) { new (out) QW(a.await_resume()); }
#define AW(n, A) bool w_##n##_ready(A& a) { return a.await_ready(); } \
    void w_##n##_susp_m(A& a, macoro::coroutine_handle<> h) { vf::susp(a, h); } \
    void w_##n##_susp_s(A& a, std::coroutine_handle<> h) { vf::susp(a, h); }
AW(push, PUSH) AW(claim, CLAIM) AW(close, CLOSE) AW(front, FRONT) AW(pop, POP)
#define WR(n, W) void w_##n##_def(void* o) { new (o) W(); } void w_##n##_move(void* o, W& s) { new (o) W(std::move(s)); } \
    void w_##n##_assign(W& d, W& s) { d = std::move(s); } void w_##n##_dtor(W& d) { d.~W(); } void w_##n##_publish(W& d) { d.publish(); } \
    void w_##n##_make(void* o, CH* c, unsigned long i) { new (o) W(c, i); }
WR(pw, PW) WR(qw, QW)
VT* w_pw_set(PW& d, VT& v) { return &(d = std::move(v)); }
VT* w_pw_copy(PW& d, const VT& v) { return &(d = v); }
VT* w_pw_get(PW& d) { return &d.operator VT&(); }
VT* w_qw_get(QW& d) { VT&& v = static_cast<VT&&>(d); return &v; }
VT* w_qw_star(QW& d) { VT&& v = *d; return &v; }
VT* w_qw_arrow(QW& d) { return d.operator->(); }
void w_mpsc(void* o, unsigned long n) { using P = decltype(macoro::mpsc::make_channel<VT>(n)); new (o) P(macoro::mpsc::make_channel<VT>(n)); }
void w_spsc(void* o, unsigned long n) { using P = decltype(macoro::spsc::make_channel<VT>(n)); new (o) P(macoro::spsc::make_channel<VT>(n)); }
}
