#include "macoro/sequence_mpsc.h"
#include "vf.h"
#include "seq.h"
using B = macoro::sequence_barrier<unsigned long, VTr>;
using Q = macoro::sequence_mpsc<unsigned long, VTr>;
using R0 = macoro::sequence_range<unsigned long, VTr>;
using AW = decltype(std::declval<const Q&>().wait_until_published(0ul, 0ul));
using BW = decltype(std::declval<const B&>().wait_until_published(0ul));
using C1 = decltype(std::declval<Q&>().claim_one());
using CN = decltype(std::declval<Q&>().claim_up_to(0));
using A1 = decltype(std::declval<C1&>().MACORO_OPERATOR_COAWAIT());
using AN = decltype(std::declval<CN&>().MACORO_OPERATOR_COAWAIT());
using RG = decltype(std::declval<AN&>().await_resume());
static_assert(!std::is_copy_constructible_v<Q> && !std::is_copy_assignable_v<Q>);
extern "C" {
void w_ctor(void* p, const B& b, std::size_t n, unsigned long s) { new (p) Q(b, n, s); }
std::size_t w_size(Q& q) { return q.buffer_size(); }
unsigned long w_after(Q& q, unsigned long s) { return q.last_published_after(s); }
void w_publish(Q& q, unsigned long s) { q.publish(s); }
void w_publish_range(Q& q, const R0& r) { q.publish(r); }
void w_wait(void* out, Q& q, unsigned long t, unsigned long k) { new (out) AW(q.wait_until_published(t, k)); }
void w_copy(void* out, AW& a) { new (out) AW(a); }
bool w_ready(AW& a) { return a.await_ready(); }
void w_susp_e(AW& a, macoro::coroutine_handle<> h) { vf::susp(a, h); }
void w_susp_m(AW& a, VH h) { vf::susp(a, h); }
void w_susp_s(AW& a, SH h) { vf::susp(a, h); }
unsigned long w_resume(AW& a) { return a.await_resume(); }
// claims
void w_bwait(void* out, const B& b, unsigned long t) { new (out) BW(b, t); }
void w_c1(void* out, Q& q) { new (out) C1(q.claim_one()); }
void w_cn(void* out, Q& q, std::size_t n) { new (out) CN(q.claim_up_to(n)); }
void w_a1(void* out, C1& c) { new (out) A1(c.MACORO_OPERATOR_COAWAIT()); }
void w_an(void* out, CN& c) { new (out) AN(c.MACORO_OPERATOR_COAWAIT()); }
bool w_r1(A1& a) { return a.await_ready(); }
bool w_rn(AN& a) { return a.await_ready(); }
void w_s1_e(A1& a, macoro::coroutine_handle<> h) { vf::susp(a, h); }
void w_sn_e(AN& a, macoro::coroutine_handle<> h) { vf::susp(a, h); }
void w_s1_s(A1& a, SH h) { vf::susp(a, h); }
void w_sn_s(AN& a, SH h) { vf::susp(a, h); }
unsigned long w_v1(A1& a) { return a.await_resume(); }
void w_vn(void* out, AN& a) { new (out) RG(a.await_resume()); }
bool w_any(Q& q) { return q.any_available(); }
unsigned long w_front(const R0& r) { return r.front(); }
unsigned long w_back(const R0& r) { return r.back(); }
}
