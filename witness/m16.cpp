// sync_wait, blocking_get, make_blocking over awaitables the library knows nothing about
#include "macoro/sync_wait.h"
#include "macoro/blocking.h"
#include "vf.h"
using namespace macoro;
#define AW(N, R, S) struct N { void* x; N(N&&); ~N(); bool await_ready(); S await_suspend(std::coroutine_handle<>); R await_resume(); };
AW(AwI, int, void) AW(AwV, void, void) AW(AwR, int&, void) AW(AwM, VT, void) AW(AwB, int, bool) AW(AwH, int, std::coroutine_handle<>) AW(AwC, int, void)
struct AwT { void* x[4]; bool await_ready(); void await_suspend(std::coroutine_handle<>); int await_resume(); };   // trivially copyable
struct CoI { void* x; CoI(CoI&&); ~CoI(); AwC operator co_await(); };
#define KI(r, e) *(int*)r = (e)
#define KV(r, e) (e)
#define KR(r, e) *(int**)r = &(e)
#define KM(r, e) new (r) VT(e)
#define ALL(N, A, K) \
void w_l_##N(void* r, A& a) { K(r, sync_wait(a)); } \
void w_r_##N(void* r, A& a) { K(r, sync_wait(std::move(a))); } \
void w_bl_##N(void* r, A& a) { K(r, blocking_get(a)); } \
void w_br_##N(void* r, A& a) { K(r, blocking_get(std::move(a))); } \
void w_pl_##N(void* r, A& a) { K(r, a | sync_wait()); } \
void w_pr_##N(void* r, A& a) { K(r, std::move(a) | sync_wait()); } \
void w_mv_##N(void* r, A& a) { auto t = std::move(a) | make_blocking(); K(r, t.get()); } \
void w_mc_##N(void* r, A& a) { auto t = make_blocking(std::move(a)); K(r, t.get()); }
extern "C" {
ALL(i, AwI, KI) ALL(v, AwV, KV) ALL(r, AwR, KR) ALL(m, AwM, KM) ALL(b, AwB, KI) ALL(h, AwH, KI) ALL(c, CoI, KI) ALL(t, AwT, KI)
using BT = blocking_task<AwI>;
void w_dtor(BT* t) { t->~BT(); }
void w_move(void* o, BT& t) { new (o) BT(std::move(t)); }
void w_assign(BT& a, BT& b) { a = std::move(b); }
void w_self(BT& a) { a = std::move(a); }
}
