#include <cassert>
#include <type_traits>
#include "macoro/manual_reset_event.h"
#include "vf.h"
using E = macoro::async_manual_reset_event;
using AW = decltype(std::declval<const E&>().operator co_await());
static_assert(!std::is_copy_constructible_v<E> && !std::is_copy_assignable_v<E>);
extern "C" {
void w_ctor_set(void* p) { new (p) E(true); }
void w_ctor_clear(void* p) { new (p) E(false); }
void w_ctor_default(void* p) { new (p) E(); }
void w_set(E& e) { e.set(); }
void w_reset(E& e) { e.reset(); }
bool w_isset(E& e) { return e.is_set(); }
bool w_ready(AW& a) { return a.await_ready(); }
void w_susp_e(AW& a, macoro::coroutine_handle<> h) { vf::susp(a, h); }
void w_susp_m(AW& a, VH h) { vf::susp(a, h); }
void w_susp_s(AW& a, SH h) { vf::susp(a, h); }
void w_susp_se(AW& a, std::coroutine_handle<> h) { vf::susp(a, h); }
void w_coawait(E& e, void* out) { new (out) AW(e.operator co_await()); }
}
