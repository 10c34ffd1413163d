// Shared opaque types for witness units.  Everything declared here is only ever
// declared: the analysis sees calls to it as events.
#pragma once
#include <coroutine>
#include <type_traits>
#include <new>
#include <utility>
#include <cstddef>
#include "macoro/coroutine_handle.h"
struct VP { void* x; };          // a user promise type the library knows nothing about
using VH = macoro::coroutine_handle<VP>;
using SH = std::coroutine_handle<VP>;
extern "C" {
void vf_mark(int) noexcept;               // program point marker
void vf_suspended(void*) noexcept;        // await_suspend returned this handle (or null)
void vf_continued() noexcept;             // await did not suspend
void vf_use(void*) noexcept;
}
// A user value type with opaque special members.
struct VT { VT(); VT(const VT&); VT(VT&&); VT& operator=(const VT&); VT& operator=(VT&&); ~VT(); void* p; };
// Awaiting by the language rules, reduced to the three awaiter calls.
namespace vf {
// await_suspend's verdict in one form: vf_suspended(nobody()) = stay suspended, the awaiting
// handle itself = continue, another handle = transfer to it
inline void* nobody() { return reinterpret_cast<void*>(1); }    // stays suspended, without a handle (a null one must not be returned)
template<class A, class H> inline void susp(A&& a, H h) {
    using R = decltype(a.await_suspend(h));
    if constexpr (std::is_void_v<R>) { a.await_suspend(h); vf_suspended(nobody()); }
    else if constexpr (std::is_same_v<R, bool>) { if (a.await_suspend(h)) vf_suspended(nobody()); else vf_suspended(h.address()); }
    else { auto r = a.await_suspend(h); vf_suspended(r.address()); }
}
// the sole member of a result, however it is called
template<class R> inline auto& var(R& r) {
    if constexpr (requires { r.mVar; }) return r.mVar;
    else if constexpr (requires { r.var(); }) return r.var();
    else { auto& [v] = r; return v; }
}
}
