// Entry points of the conversion: every public rounding mode for one format,
// one correct-rounding policy (CR) and one return form (RS), through the public
// function template jkj::grisu_exact.
#include "grisu_exact.h"
#include <cstddef>
namespace rm = jkj::grisu_exact_rounding_modes;
namespace cr = jkj::grisu_exact_correct_rounding;
#ifdef FLT
using F = float; using U = std::uint32_t;
#else
using F = double; using U = std::uint64_t;
#endif
using R = jkj::fp_t<F, RS>;
#define M(R_) extern "C" R m_##R_(F x) { return jkj::grisu_exact<RS>(x, rm::R_{}, cr::CR{}); }
M(nearest_to_even) M(nearest_to_odd) M(nearest_toward_plus_infinity) M(nearest_toward_minus_infinity)
M(nearest_toward_zero) M(nearest_away_from_zero) M(nearest_to_even_static_boundary) M(nearest_to_odd_static_boundary)
M(nearest_toward_plus_infinity_static_boundary) M(nearest_toward_minus_infinity_static_boundary)
M(toward_plus_infinity) M(toward_minus_infinity) M(toward_zero) M(away_from_zero)
// field access, executed symbolically on the returned object
extern "C" U get_significand(R const* v) { return v->significand; }
extern "C" int get_exponent(R const* v) { return v->exponent; }
template <class T> static bool negative_of(T const* v) {
	if constexpr (RS) { return v->is_negative; } else { (void)v; return false; }
}
extern "C" bool get_negative(R const* v) { return negative_of(v); }
extern "C" std::size_t get_size() { return sizeof(R); }
