#include "macoro/sequence_spsc.h"
#include "vf.h"
#include "seq.h"
using B = macoro::sequence_barrier<unsigned long, VTr>;
using Q = macoro::sequence_spsc<unsigned long, VTr>;
using RG = macoro::sequence_range<unsigned long, VTr>;
using BW = decltype(std::declval<const B&>().wait_until_published(0ul));
using AW = decltype(std::declval<const Q&>().wait_until_published(0ul));
using C1 = decltype(std::declval<Q&>().claim_one());
using CN = decltype(std::declval<Q&>().claim_up_to(0));
using A1 = decltype(std::declval<C1&>().MACORO_OPERATOR_COAWAIT());
static_assert(!std::is_copy_constructible_v<Q> && !std::is_copy_assignable_v<Q>);
// the same over a narrow number, where arithmetic promotes
using N = unsigned char;
using Q8 = macoro::sequence_spsc<N>;
using RG8 = macoro::sequence_range<N>;
using BW8 = decltype(std::declval<const macoro::sequence_barrier<N>&>().wait_until_published(N(0)));
using C18 = decltype(std::declval<Q8&>().claim_one());
using CN8 = decltype(std::declval<Q8&>().claim_up_to(0));
using A18 = decltype(std::declval<C18&>().MACORO_OPERATOR_COAWAIT());
extern "C" {
void w_bctor(void* p, unsigned long s) { new (p) B(s); }
void w_bwait(void* out, const B& b, unsigned long t) { new (out) BW(b, t); }
unsigned long w_bval(BW& b) { return b.await_resume(); }
void w_ctor(void* p, const B& b, std::size_t n, unsigned long s) { new (p) Q(b, n, s); }
void w_a1(void* out, Q& q) { C1 c = q.claim_one(); new (out) A1(c.MACORO_OPERATOR_COAWAIT()); }
void w_an(void* out, Q& q, std::size_t n) { new (out) CN(q.claim_up_to(n)); }
bool w_r1(A1& a) { return a.await_ready(); }
bool w_rn(CN& a) { return a.await_ready(); }
void w_s1_e(A1& a, macoro::coroutine_handle<> h) { vf::susp(a, h); }
void w_sn_e(CN& a, macoro::coroutine_handle<> h) { vf::susp(a, h); }
void w_s1_s(A1& a, SH h) { vf::susp(a, h); }
void w_sn_s(CN& a, SH h) { vf::susp(a, h); }
unsigned long w_v1(A1& a) { return a.await_resume(); }
void w_vn(void* out, CN& a) { new (out) RG(a.await_resume()); }
void w_pub(Q& q, unsigned long s) { q.publish(s); }
void w_pubr(Q& q, const RG& r) { q.publish(r); }
unsigned long w_last(Q& q) { return q.last_published(); }
void w_wait(void* out, Q& q, unsigned long t) { new (out) AW(q.wait_until_published(t)); }
void w_wait2(void* out, Q& q, unsigned long t, unsigned long k) { new (out) AW(q.wait_until_published(t, k)); }
void w_8bctor(void* p, N s) { new (p) macoro::sequence_barrier<N>(s); }
void w_8bwait(void* out, const macoro::sequence_barrier<N>& b, N t) { new (out) BW8(b, t); }
N w_8bval(BW8& b) { return b.await_resume(); }
void w_8ctor(void* p, const macoro::sequence_barrier<N>& b, std::size_t n, N s) { new (p) Q8(b, n, s); }
void w_8a1(void* out, Q8& q) { C18 c = q.claim_one(); new (out) A18(c.MACORO_OPERATOR_COAWAIT()); }
void w_8an(void* out, Q8& q, std::size_t n) { new (out) CN8(q.claim_up_to(n)); }
N w_8v1(A18& a) { return a.await_resume(); }
void w_8vn(void* out, CN8& a) { new (out) RG8(a.await_resume()); }
void w_8pub(Q8& q, N s) { q.publish(s); }
void w_8pubr(Q8& q, const RG8& r) { q.publish(r); }
}
