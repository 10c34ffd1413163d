// start_on, transfer_to, inline_scheduler: library coroutines over schedulers and awaitables the library knows nothing about
#include "macoro/start_on.h"
#include "macoro/transfer_to.h"
#include "macoro/inline_scheduler.h"
#include "vf.h"
using namespace macoro;
#define AW(N, R, ...) struct N { void* x; N(N&&); __VA_ARGS__ ~N(); bool await_ready(); void await_suspend(std::coroutine_handle<>); R await_resume(); };
AW(AwI, int) AW(AwV, void) AW(AwR, int&) AW(AwM, VT, AwM(const AwM&);) AW(AwS, void)
struct AwT { void* x[4]; bool await_ready(); void await_suspend(std::coroutine_handle<>); int await_resume(); };   // trivially copyable
struct Sch { void* x; Sch(Sch&&); Sch(const Sch&); ~Sch(); AwS schedule(); };
template<class T> using TK = eager_task<T>;
#define ALL(N, T, A) \
void w_ref_##N(void* r, Sch& s, A& a) { new (r) TK<T>(start_on(s, a)); } \
void w_val_##N(void* r, Sch& s, A& a) { new (r) TK<T>(start_on(s, std::move(a))); } \
void w_pref_##N(void* r, Sch& s, A& a) { new (r) TK<T>(a | start_on(s)); } \
void w_pval_##N(void* r, Sch& s, A& a) { new (r) TK<T>(std::move(a) | start_on(s)); }
extern "C" {
ALL(i, int, AwI) ALL(v, void, AwV) ALL(r, int&, AwR) ALL(m, VT, AwM) ALL(t, int, AwT)
void w_transfer(void* r, Sch& s) { new (r) AwS(transfer_to(s)); }
bool w_inline(inline_scheduler& s) { auto a = s.schedule(); return a.await_ready(); }
bool w_inline_t(inline_scheduler& s) { auto a = transfer_to(s); return a.await_ready(); }
}
