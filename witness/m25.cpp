// Ordering and ranges of sequence numbers of every width.
#include "macoro/sequence_range.h"
#include "vf.h"
#include <cstdint>
template<class T> using TR = macoro::sequence_traits<T>; template<class T> using RG = macoro::sequence_range<T>; template<class T> using IT = typename RG<T>::const_iterator;
#define TYPES(T) static_assert(std::is_signed_v<TR<T>::difference_type> && sizeof(TR<T>::difference_type) == sizeof(T) && std::is_unsigned_v<TR<T>::size_type> && sizeof(TR<T>::size_type) == sizeof(T) && \
    std::is_same_v<TR<T>::value_type, T> && T(TR<T>::initial_sequence + 1) == 0 && std::is_same_v<decltype(TR<T>::difference(T(), T())), TR<T>::difference_type> && std::is_same_v<RG<T>::difference_type, TR<T>::difference_type> && std::is_same_v<RG<T>::size_type, TR<T>::size_type>);
TYPES(std::uint8_t) TYPES(std::uint16_t) TYPES(std::uint32_t) TYPES(std::uint64_t) TYPES(std::int8_t) TYPES(std::int16_t) TYPES(std::int32_t) TYPES(std::int64_t)
#define EACH(n, T) \
std::make_signed_t<T> w_diff_##n(T a, T b) { return TR<T>::difference(a, b); } \
bool w_prec_##n(T a, T b) { return TR<T>::precedes(a, b); } \
void w_make_##n(void* o, T a, T b) { new (o) RG<T>(a, b); } \
void w_none_##n(void* o) { new (o) RG<T>(); } \
T w_front_##n(const RG<T>& r) { return r.front(); } \
T w_back_##n(const RG<T>& r) { return r.back(); } \
std::make_unsigned_t<T> w_size_##n(const RG<T>& r) { return r.size(); } \
bool w_empty_##n(const RG<T>& r) { return r.empty(); } \
T w_at_##n(const RG<T>& r, std::make_unsigned_t<T> i) { return r[i]; } \
void w_first_##n(void* o, const RG<T>& r, std::make_unsigned_t<T> c) { new (o) RG<T>(r.first(c)); } \
void w_skip_##n(void* o, const RG<T>& r, std::make_unsigned_t<T> c) { new (o) RG<T>(r.skip(c)); } \
T w_begin_##n(const RG<T>& r) { return *r.begin(); } \
T w_end_##n(const RG<T>& r) { return *r.end(); } \
T w_get_##n(const IT<T>& i) { return *i; } \
const T* w_arrow_##n(const IT<T>& i) { return i.operator->(); } \
T w_inc_##n(IT<T>& i) { return *++i; } \
T w_dec_##n(IT<T>& i) { return *--i; } \
T w_pinc_##n(IT<T>& i) { return *i++; } \
T w_pdec_##n(IT<T>& i) { return *i--; } \
std::make_signed_t<T> w_dist_##n(const IT<T>& a, const IT<T>& b) { return a - b; } \
T w_plus_##n(const IT<T>& a, std::make_signed_t<T> d) { return *(a + d); } \
T w_minus_##n(const IT<T>& a, std::make_signed_t<T> d) { return *(a - d); } \
bool w_eq_##n(const IT<T>& a, const IT<T>& b) { return a == b; } \
bool w_ne_##n(const IT<T>& a, const IT<T>& b) { return a != b; }
extern "C" {
EACH(u8, std::uint8_t)
EACH(u16, std::uint16_t)
EACH(u32, std::uint32_t)
EACH(u64, std::uint64_t)
EACH(i8, std::int8_t)
EACH(i32, std::int32_t)
EACH(i64, std::int64_t)
}
