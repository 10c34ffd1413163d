// the coroutines the library puts around an operation it is given: make_task, make_eager, the operations of when_all and of scopes
#include "macoro/task.h"
#include "macoro/when_all.h"
#include "macoro/async_scope.h"
#include "macoro/when_all_scope.h"
#include "vf.h"
using namespace macoro;
#define AW(N, R, ...) struct N { void* x; N(N&&); __VA_ARGS__ ~N(); bool await_ready(); void await_suspend(std::coroutine_handle<>); R await_resume(); };
AW(AwI, int) AW(AwV, void) AW(AwR, int&, AwR(const AwR&);) AW(AwM, VT, AwM(const AwM&);)
struct AwT { void* x[4]; bool await_ready(); void await_suspend(std::coroutine_handle<>); int await_resume(); };   // trivially copyable
template<class T> void put(void* r, T&& t) { new (r) T(std::move(t)); }
#define ALL(N, A) \
void w_task_val_##N(void* r, A& a) { put(r, make_task(std::move(a))); } \
void w_eager_val_##N(void* r, A& a) { put(r, make_eager(std::move(a))); } \
void w_peager_val_##N(void* r, A& a) { put(r, std::move(a) | make_eager()); } \
void w_when_ref_##N(void* r, A& a) { new (r) auto(when_all_ready(a)); } \
void w_when_val_##N(void* r, A& a) { new (r) auto(when_all_ready(std::move(a))); } \
void w_add_ref_##N(void* r, A& a, async_scope& s) { put(r, s.add(a)); } \
void w_add_val_##N(void* r, A& a, async_scope& s) { put(r, s.add(std::move(a))); } \
void w_sco_ref_##N(void* r, A& a, when_all_scope::promise_type& p) { auto w = p.await_transform(scoped(a)); put(r, w.await_resume()); } \
void w_sco_val_##N(void* r, A& a, when_all_scope::promise_type& p) { auto w = p.await_transform(scoped(std::move(a))); put(r, w.await_resume()); } \
void w_psco_ref_##N(void* r, A& a, when_all_scope::promise_type& p) { auto w = p.await_transform(a | scoped()); put(r, w.await_resume()); } \
void w_psco_val_##N(void* r, A& a, when_all_scope::promise_type& p) { auto w = p.await_transform(std::move(a) | scoped()); put(r, w.await_resume()); }
extern "C" {
ALL(i, AwI) 
ALL(v, AwV) 
ALL(r, AwR) 
ALL(m, AwM) 
ALL(t, AwT) 
}
