#include "macoro/barrier.h"
#include "vf.h"
using AW = decltype(std::declval<macoro::barrier&>().operator co_await());
extern "C" {
void w_ctor(void* p, size_t n) { new (p) macoro::barrier(n); }
size_t w_add(macoro::barrier& b, size_t n) { return b.add(n); }
size_t w_inc(macoro::barrier& b) { return b.increment(); }
size_t w_count(macoro::barrier& b) { return b.count(); }
size_t w_dec(macoro::barrier& b) { return b.decrement(); }
bool w_ready(AW& a) { return a.await_ready(); }
void w_susp_m(AW& a, VH h) { vf::susp(a, h); }
void w_susp_s(AW& a, SH h) { vf::susp(a, h); }
void w_susp_e(AW& a, macoro::coroutine_handle<> h) { vf::susp(a, h); }
void w_coawait(macoro::barrier& b, void* out) { new (out) AW(b.operator co_await()); }
}
