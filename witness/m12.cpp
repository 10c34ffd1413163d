#include "macoro/thread_pool.h"
#include "vf.h"
using namespace macoro;
using S = detail::thread_pool_state;
using TP = detail::thread_pool_time_point;
using OP = detail::thread_pool_delay_op;
using W = thread_pool::work;
extern "C" {
void w_post(S& s, coroutine_handle<> h) { s.post(h); }
bool w_try(S& s, coroutine_handle<> h) { return s.try_dispatch(h); }
void w_after(S& s, coroutine_handle<> h, TP d, stop_token& t, optional_stop_callback& r) { s.post_after(h, d, std::move(t), r); }
void w_cancel(S& s, std::size_t i) { s.cancel_delay_op(i); }
bool w_less(const OP& a, const OP& b) { return a < b; }
void w_op(void* p, std::size_t i, coroutine_handle<> h, TP d) { new (p) OP(i, h, d); }
void w_wctor(void* p, S& s) { new (p) W(&s); }
void w_wnew(void* p) { new (p) W; }
void w_wreset(W& w) { w.reset(); }
void w_wdtor(W& w) { w.~W(); }
void w_wmove(void* p, W& w) { new (p) W(std::move(w)); }
void w_wassign(W& a, W& b) { a = std::move(b); }
// the pool
void w_ppost(thread_pool& p, coroutine_handle<> h) { p.post(h); }
void w_psched(thread_pool& p, coroutine_handle<> h) { p.schedule(h); }
void w_pdisp(thread_pool& p, coroutine_handle<> h) { vf_suspended(p.dispatch(h).address()); }
void w_pwork(void* o, thread_pool& p) { new (o) W(p.make_work()); }
void w_create(thread_pool& p, std::size_t n) { p.create_threads(n); }
void w_join(thread_pool& p) { p.join(); }
void w_pdtor(thread_pool& p) { p.~thread_pool(); }
void w_passign(thread_pool& a, thread_pool& b) { a = std::move(b); }
void w_run(thread_pool& p) { p.run(); }
// the awaiters
void w_sched(void* o, thread_pool& p) { new (o) detail::thread_pool_post(p.schedule()); }
void w_apost(void* o, thread_pool& p) { new (o) detail::thread_pool_post(p.post()); }
void w_adisp(void* o, thread_pool& p) { new (o) detail::thread_pool_dispatch(p.dispatch()); }
void w_aafter(void* o, thread_pool& p, std::chrono::nanoseconds d, stop_token& t) { new (o) detail::thread_pool_post_after(p.schedule_after(d, std::move(t))); }
bool w_rpost(detail::thread_pool_post& a) { return a.await_ready(); }
bool w_rdisp(detail::thread_pool_dispatch& a) { return a.await_ready(); }
bool w_rafter(detail::thread_pool_post_after& a) { return a.await_ready(); }
void w_spost_m(detail::thread_pool_post& a, coroutine_handle<> h) { vf::susp(a, h); }
void w_spost_s(detail::thread_pool_post& a, SH h) { vf::susp(a, h); }
void w_sdisp_m(detail::thread_pool_dispatch& a, coroutine_handle<> h) { vf::susp(a, h); }
void w_sdisp_s(detail::thread_pool_dispatch& a, SH h) { vf::susp(a, h); }
void w_safter_m(detail::thread_pool_post_after& a, coroutine_handle<> h) { vf::susp(a, h); }
void w_safter_s(detail::thread_pool_post_after& a, SH h) { vf::susp(a, h); }
}
