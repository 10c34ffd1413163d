// Results over values and errors nothing is known about.
#include "macoro/result.h"
#include "macoro/task.h"
#include "vf.h"
struct VE { VE(); VE(const VE&); VE(VE&&); VE& operator=(const VE&); VE& operator=(VE&&); ~VE(); void* p; };
bool operator==(const VT&, const VT&); bool operator==(const VE&, const VE&);
using R = macoro::result<VT, VE>;
using S = macoro::result<VT, VT>;
using V = macoro::result<void, VE>;
using X = macoro::result<VT>;
using Y = macoro::result<void>;
using macoro::Ok; using macoro::Err;
struct MO { MO(MO&&); MO& operator=(MO&&); };                       // can only be moved, and has no default
struct ND { ND(int); };
static_assert(std::is_copy_constructible_v<R> && std::is_copy_assignable_v<R> && std::is_move_constructible_v<R> && std::is_move_assignable_v<R>);
static_assert(!std::is_copy_constructible_v<macoro::result<MO, VE>> && std::is_move_constructible_v<macoro::result<MO, VE>> && std::is_move_assignable_v<macoro::result<MO, VE>>);
static_assert(std::is_same_v<decltype(std::declval<R&>().value()), VT&> && std::is_same_v<decltype(std::declval<const R&>().value()), const VT&> && std::is_same_v<decltype(std::declval<const R&>().error()), const VE&>);
static_assert(!std::is_convertible_v<R, bool> && std::is_constructible_v<bool, R&>);
namespace vf { template<class P> auto& promised(P& p) { if constexpr (requires { p.mResult; }) return p.mResult; else { auto& [v] = p; return v; } }
template<class T> T&& mv(T& t) { return static_cast<T&&>(t); } }
using vf::mv;
extern "C" {
unsigned long w_r_index(const R& r) { return vf::var(r).index(); }
VT* w_r_val(R& r) { return std::get_if<0>(&vf::var(r)); }
bool w_v_index(V& r) { return vf::var(r).has_value(); }
VE* w_v_val(V& r) { return &*vf::var(r); }
unsigned long w_x_index(const X& r) { return vf::var(r).index(); }
bool w_y_index(Y& r) { return vf::var(r).has_value(); }
unsigned long w_s_index(const S& r) { return vf::var(r).index(); }

#define COMMON(n, R) bool w_##n##_has(const R& r) { return r.has_value(); } bool w_##n##_err(const R& r) { return r.has_error(); } bool w_##n##_bool(R& r) { return static_cast<bool>(r); }
COMMON(r, R) COMMON(s, S) COMMON(v, V) COMMON(x, X) COMMON(y, Y)
#define VALUE(n, R) VT* w_##n##_value(R& r) { return &r.value(); } const VT* w_##n##_cvalue(const R& r) { return &r.value(); } \
    VT* w_##n##_star(R& r) { return &*r; } const VT* w_##n##_cstar(const R& r) { return &*r; }
VALUE(r, R) VALUE(s, S) VALUE(x, X)
void w_v_value(R&, V& r) { r.value(); } void w_v_star(R&, V& r) { *r; }
void w_y_value(R&, Y& r) { r.value(); } void w_y_star(R&, Y& r) { *r; }
#define ERROR(n, R, E) E* w_##n##_error(R& r) { return &r.error(); } const E* w_##n##_cerror(const R& r) { return &r.error(); }
ERROR(r, R, VE) ERROR(s, S, VT) ERROR(v, V, VE) ERROR(x, X, std::exception_ptr) ERROR(y, Y, std::exception_ptr)
void w_r_vor_m(void* o, R& r, VT& a) { new (o) VT(r.value_or(mv(a))); }
VT* w_r_vor_l(R& r, VT& a) { return &r.value_or(a); }
const VT* w_r_vor_c(const R& r, const VT& a) { return &r.value_or(a); }
#define EOR(n, R) void w_##n##_eor_m(void* o, R& r, VE& a) { new (o) VE(r.error_or(mv(a))); } \
    VE* w_##n##_eor_l(R& r, VE& a) { return &r.error_or(a); } const VE* w_##n##_eor_c(const R& r, const VE& a) { return &r.error_or(a); }
EOR(r, R) EOR(v, V)
// building and assigning
#define BUILD(n, R, T, E) void w_##n##_ok_l(void* o, T& v) { new (o) R(Ok(v)); } void w_##n##_ok_m(void* o, T& v) { new (o) R(Ok(mv(v))); } \
    void w_##n##_er_l(void* o, E& v) { new (o) R(Err(v)); } void w_##n##_er_m(void* o, E& v) { new (o) R(Err(mv(v))); } \
    void w_##n##_aok_l(R& o, T& v) { o = Ok(v); } void w_##n##_aok_m(R& o, T& v) { o = Ok(mv(v)); } \
    void w_##n##_aer_l(R& o, E& v) { o = Err(v); } void w_##n##_aer_m(R& o, E& v) { o = Err(mv(v)); }
BUILD(r, R, VT, VE) BUILD(s, S, VT, VT)
void w_v_ok(void* o) { new (o) V(Ok()); } void w_v_aok(V& o) { o = Ok(); }
void w_v_er_l(void* o, VE& v) { new (o) V(Err(v)); } void w_v_er_m(void* o, VE& v) { new (o) V(Err(mv(v))); }
void w_v_aer_l(V& o, VE& v) { o = Err(v); } void w_v_aer_m(V& o, VE& v) { o = Err(mv(v)); }
void w_r_def(void* o) { new (o) R(); } void w_v_def(void* o) { new (o) V(); }
void w_r_nodef(void* o) { new (o) macoro::result<ND, VE>(); }
#define COPY(n, R) void w_##n##_copy(void* o, const R& r) { new (o) R(r); } void w_##n##_move(void* o, R& r) { new (o) R(mv(r)); } \
    void w_##n##_cassign(R& o, const R& r) { o = r; } void w_##n##_massign(R& o, R& r) { o = mv(r); } void w_##n##_dtor(R& r) { r.~R(); }
COPY(r, R) COPY(v, V)
// comparing
#define CMP(n, R, K, T) bool w_##n##_eq##K##_l(const R& r, const T& v) { return r == K(v); } bool w_##n##_ne##K##_l(const R& r, const T& v) { return r != K(v); } \
    bool w_##n##_eq##K##_m(const R& r, T& v) { return r == K(mv(v)); } bool w_##n##_ne##K##_m(const R& r, T& v) { return r != K(mv(v)); }
CMP(r, R, Ok, VT) CMP(r, R, Err, VE) CMP(v, V, Err, VE)
bool w_v_eqOk(const V& r) { return r == Ok(); } bool w_v_neOk(const V& r) { return r != Ok(); }
// awaiting one
bool w_r_ready(R& r) { return r.MACORO_OPERATOR_COAWAIT().await_ready(); } bool w_v_ready(V& r) { return r.MACORO_OPERATOR_COAWAIT().await_ready(); }
void w_r_resume(void* o, R& r) { new (o) VT(r.MACORO_OPERATOR_COAWAIT().await_resume()); } void w_v_resume(R&, V& r) { r.MACORO_OPERATOR_COAWAIT().await_resume(); }
void w_x_resume(void* o, X& r) { new (o) VT(r.MACORO_OPERATOR_COAWAIT().await_resume()); } void w_y_resume(R&, Y& r) { r.MACORO_OPERATOR_COAWAIT().await_resume(); }
// coroutines that return one
using P = X::promise_type; using PH = macoro::coroutine_handle<P>;
bool w_p_has(P& p) { return vf::promised(p).has_value(); } X* w_p_val(P& p) { return &*vf::promised(p); }
void w_p_ctor(void* o) { new (o) P(); }
void w_p_return_l(P& p, VT& v) { p.return_value(Ok(v)); } void w_p_return_m(P& p, VT& v) { p.return_value(Ok(mv(v))); }
void w_p_return_r(P& p, X& v) { p.return_value(mv(v)); } void w_p_return_c(P& p, const X& v) { p.return_value(v); } void w_p_return_n(P& p, X& v) { p.return_value(v); }
void w_p_uncaught(P& p) { p.unhandled_exception(); }
void w_p_result(void* o, PH h, P& p) { P::Ret r{ h }; new (o) X(r); }
void* w_p_get(P& p) { return p.get_return_object().handle.address(); } void* w_p_mget(P& p) { return p.macoro_get_return_object().handle.address(); }
bool w_p_init(P& p) { return p.initial_suspend().await_ready(); } bool w_p_final(P& p) { return p.final_suspend().await_ready(); }
void* w_p_await_l(P& p, X& r) { auto&& a = p.await_transform(r); return const_cast<void*>(static_cast<const void*>(&a)); }
void* w_p_await_m(P& p, X& r) { auto&& a = p.await_transform(mv(r)); return const_cast<void*>(static_cast<const void*>(&a)); }
// taking the outcome of an awaiter as a result
struct AV { VT await_resume(); bool await_ready(); void await_suspend(macoro::coroutine_handle<>); void await_suspend(std::coroutine_handle<>); };
struct AL { VT& await_resume(); bool await_ready(); void await_suspend(macoro::coroutine_handle<>); void await_suspend(std::coroutine_handle<>); };
struct A0 { void await_resume(); bool await_ready(); void await_suspend(macoro::coroutine_handle<>); void await_suspend(std::coroutine_handle<>); };
void w_try_v(X& r, AV& a) { macoro::detail::try_resume(r, a); }
void w_try_l(X& r, AL& a) { macoro::detail::try_resume(r, a); }
void w_try_0(Y& r, A0& a) { macoro::detail::try_resume(r, a); }
}
