// Sequence traits whose ordering is opaque: only the two operations the traits
// advertise can tell what precedes what.
#pragma once
#include <cassert>
#include <cstdint>
struct VTr {
    using value_type = unsigned long; using difference_type = long; using size_type = unsigned long;
    static constexpr value_type initial_sequence = ~0ul;
    static difference_type difference(value_type a, value_type b) noexcept;
    static bool precedes(value_type a, value_type b) noexcept;
};
