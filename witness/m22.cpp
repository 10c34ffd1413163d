// take_until, timeout: library coroutines over awaitables the library knows nothing about
#include "macoro/take_until.h"
#include "macoro/timeout.h"
#include "macoro/start_on.h"
#include "macoro/transfer_to.h"
#include "macoro/inline_scheduler.h"
#include "vf.h"
using namespace macoro;
struct AwI { void* x; AwI(AwI&&); ~AwI(); bool await_ready(); void await_suspend(std::coroutine_handle<>); int await_resume(); };
struct AwV { void* x; AwV(AwV&&); ~AwV(); bool await_ready(); void await_suspend(std::coroutine_handle<>); void await_resume(); };
struct AwR { void* x; AwR(AwR&&); ~AwR(); bool await_ready(); void await_suspend(std::coroutine_handle<>); int& await_resume(); };
struct AwU { void* x; AwU(AwU&&); ~AwU(); bool await_ready(); void await_suspend(std::coroutine_handle<>); int await_resume(); void request_stop(); };
template auto macoro::take_until<AwI, AwU>(AwI, AwU) -> task<int>;
template auto macoro::take_until<AwV, AwU>(AwV, AwU) -> task<void>;
template auto macoro::take_until<AwR, AwU>(AwR, AwU) -> task<int&>;
struct AwT { void* x; AwT(AwT&&); ~AwT(); bool await_ready(); void await_suspend(std::coroutine_handle<>); void await_resume(); };
using NS = std::chrono::nanoseconds;
struct Sch { AwT schedule_after(NS d, stop_token t); };
template eager_task<> timeout::make_task<Sch>(Sch&, stop_source, NS);
extern "C" {
void w_reset(timeout& t, Sch& s, NS d, stop_token* k) { t.reset(s, d, std::move(*k)); }
void w_ctor(void* p, Sch& s, NS d, stop_token* k) { new (p) timeout(s, d, std::move(*k)); }
void w_stop(timeout& t) { t.request_stop(); }
void w_token(void* p, timeout& t) { new (p) stop_token(t.get_token()); }
void w_source(void* p, timeout& t) { new (p) stop_source(t.get_source()); }
void w_move(void* p, timeout& t) { new (p) timeout(std::move(t)); }
void w_assign(timeout& a, timeout& b) { a = std::move(b); }
void w_def(void* p) { new (p) timeout(); }
void w_dtor(timeout* a) { a->~timeout(); }
}
