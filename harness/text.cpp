// Entry points of the text writers: fp_to_chars_n (n_*), fp_to_chars (z_*), each
// rounding mode, one policy (CR), and with default arguments.
#ifdef WRITER
#include "fp_to_chars/fp_to_chars.cpp"
extern "C" char* w_float(jkj::unsigned_fp_t<float> v, char* b) { return jkj::fp_to_chars_detail::float_to_chars(v, b); }
extern "C" char* w_double(jkj::unsigned_fp_t<double> v, char* b) { return jkj::fp_to_chars_detail::double_to_chars(v, b); }
#else
#include "fp_to_chars.h"
namespace rm = jkj::grisu_exact_rounding_modes;
namespace cr = jkj::grisu_exact_correct_rounding;
#ifdef FLT
using F = float;
#else
using F = double;
#endif
#define M(R_) extern "C" char* n_##R_(F x, char* b) { return jkj::fp_to_chars_n(x, b, rm::R_{}, cr::CR{}); } \
	extern "C" char* z_##R_(F x, char* b) { return jkj::fp_to_chars(x, b, rm::R_{}, cr::CR{}); }
M(nearest_to_even) M(nearest_to_odd) M(nearest_toward_plus_infinity) M(nearest_toward_minus_infinity)
M(nearest_toward_zero) M(nearest_away_from_zero) M(nearest_to_even_static_boundary) M(nearest_to_odd_static_boundary)
M(nearest_toward_plus_infinity_static_boundary) M(nearest_toward_minus_infinity_static_boundary)
M(toward_plus_infinity) M(toward_minus_infinity) M(toward_zero) M(away_from_zero)
extern "C" char* n_default(F x, char* b) { return jkj::fp_to_chars_n(x, b); }
extern "C" char* z_default(F x, char* b) { return jkj::fp_to_chars(x, b); }
#endif
