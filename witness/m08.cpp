#include "macoro/sequence_barrier.h"
#include "vf.h"
#include "seq.h"
using B = macoro::sequence_barrier<unsigned long, VTr>;
using AW = decltype(std::declval<const B&>().wait_until_published(0ul));
static_assert(!std::is_copy_constructible_v<B> && !std::is_copy_assignable_v<B> && !std::is_copy_assignable_v<AW>);
extern "C" {
void w_ctor(void* p, unsigned long s) { new (p) B(s); }
void w_publish(B& b, unsigned long s) { b.publish(s); }
unsigned long w_last(B& b) { return b.last_published(); }
void w_wait(void* out, B& b, unsigned long t) { new (out) AW(b.wait_until_published(t)); }
void w_copy(void* out, AW& a) { new (out) AW(a); }
bool w_ready(AW& a) { return a.await_ready(); }
void w_susp_e(AW& a, macoro::coroutine_handle<> h) { vf::susp(a, h); }
void w_susp_m(AW& a, VH h) { vf::susp(a, h); }
void w_susp_s(AW& a, SH h) { vf::susp(a, h); }
unsigned long w_resume(AW& a) { return a.await_resume(); }
}
