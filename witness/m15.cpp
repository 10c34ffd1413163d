// awaiting a stop token (both configurations)
#include "macoro/config.h"
#include "macoro/stop.h"
#ifndef MACORO_HAS_STD_STOP_TOKEN
#include "macoro/detail/stop_state.cpp"
#include "macoro/detail/stop_token.cpp"
#include "macoro/detail/stop_source.cpp"
#endif
#include "vf.h"
#include <new>
using namespace macoro;
extern "C" {
void* w_susp_s(stop_awaiter& a, std::coroutine_handle<> h) { return a.await_suspend(h).address(); }
void* w_susp_m(stop_awaiter& a, coroutine_handle<> h) { return a.await_suspend(h).address(); }
bool w_ready(stop_awaiter& a) { return a.await_ready(); }
void w_resume(stop_awaiter& a) { a.await_resume(); }
void w_ctor(void* p, stop_token& t) { new (p) stop_awaiter(std::move(t)); }
}
