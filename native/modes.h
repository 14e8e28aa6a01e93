// Dispatch table over every public rounding mode x correct-rounding tag.
#ifndef VERIF_MODES_H
#define VERIF_MODES_H
#include <algorithm>
#include <utility>
#include "grisu_exact.h"
#include "oracle.h"
namespace modes {
namespace rm = jkj::grisu_exact_rounding_modes;
namespace cr = jkj::grisu_exact_correct_rounding;
struct Out { uint64_t s; int e; bool neg; };
template <class F, class R, class C> Out run_signed(F x) { auto v = jkj::grisu_exact(x, R{}, C{}); return { v.significand, v.exponent, v.is_negative }; }
template <class F, class R, class C> Out run_unsigned(F x) { auto v = jkj::grisu_exact<false>(x, R{}, C{}); return { v.significand, v.exponent, false }; }
template <class F> using Fn = Out(*)(F);
#define ROW(R) { &FN<F, rm::R, cr::do_not_care>, &FN<F, rm::R, cr::tie_to_even>, &FN<F, rm::R, cr::tie_to_odd>, &FN<F, rm::R, cr::tie_to_up>, &FN<F, rm::R, cr::tie_to_down> }
#define ROWS { ROW(nearest_to_even), ROW(nearest_to_odd), ROW(nearest_toward_plus_infinity), ROW(nearest_toward_minus_infinity), \
	ROW(nearest_toward_zero), ROW(nearest_away_from_zero), ROW(nearest_to_even_static_boundary), ROW(nearest_to_odd_static_boundary), \
	ROW(nearest_toward_plus_infinity_static_boundary), ROW(nearest_toward_minus_infinity_static_boundary), \
	ROW(toward_plus_infinity), ROW(toward_minus_infinity), ROW(toward_zero), ROW(away_from_zero) }
#define FN run_signed
template <class F> inline Fn<F> signed_table[14][5] = ROWS;
#undef FN
#define FN run_unsigned
template <class F> inline Fn<F> unsigned_table[14][5] = ROWS;
#undef FN
static char const* const rm_names[14] = { "nearest_to_even","nearest_to_odd","nearest_toward_plus_infinity","nearest_toward_minus_infinity",
	"nearest_toward_zero","nearest_away_from_zero","nearest_to_even_static_boundary","nearest_to_odd_static_boundary",
	"nearest_toward_plus_infinity_static_boundary","nearest_toward_minus_infinity_static_boundary",
	"toward_plus_infinity","toward_minus_infinity","toward_zero","away_from_zero" };
static char const* const cr_names[5] = { "do_not_care","tie_to_even","tie_to_odd","tie_to_up","tie_to_down" };
}
#endif
