// Entry points for the helper functions under contract.  WHICH selects one, so
// that a helper that no longer exists does not hide the others.
#include "grisu_exact.h"
namespace d = jkj::grisu_exact_detail;
using u32 = std::uint32_t;
using u64 = std::uint64_t;
#if WHICH == 1
extern "C" u64 h_umul64(u32 x, u32 y) { return d::umul64(x, y); }
#elif WHICH == 2
extern "C" u64 h_umul128_hi(u64 x, u64 y) { return d::umul128(x, y).high(); }
extern "C" u64 h_umul128_lo(u64 x, u64 y) { return d::umul128(x, y).low(); }
#elif WHICH == 3
extern "C" u64 h_umul128_upper64(u64 x, u64 y) { return d::umul128_upper64(x, y); }
#elif WHICH == 4
extern "C" u64 h_umul192_upper64(u64 x, u64 yh, u64 yl) { return d::umul192_upper64(x, d::uint128{ yh, yl }); }
#elif WHICH == 5
extern "C" u32 h_umul96_upper32(u32 x, u64 y) { return d::umul96_upper32(x, y); }
#elif WHICH == 11
extern "C" int h_log10_pow2(int e) { return d::floor_log10_pow2(e); }
#elif WHICH == 12
extern "C" int h_log2_pow10(int e) { return d::floor_log2_pow10(e); }
#elif WHICH == 13
extern "C" int h_log5_pow2(int e) { return d::floor_log5_pow2(e); }
#elif WHICH == 21
extern "C" bool h_div2_32(u32 x, int n) { return d::divisible_by_power_of_2(x, n); }
extern "C" bool h_div2_64(u64 x, int n) { return d::divisible_by_power_of_2(x, n); }
#elif WHICH == 22
extern "C" bool h_div5_32(u32 x, unsigned int n) { return d::divisible_by_power_of_5(x, n); }
extern "C" bool h_div5_64(u64 x, unsigned int n) { return d::divisible_by_power_of_5(x, n); }
#elif WHICH == 31
extern "C" u64 h_cache_f(int k) { return d::get_cache<float>(k); }
extern "C" u64 h_cache_d_hi(int k) { return d::get_cache<double>(k).high(); }
extern "C" u64 h_cache_d_lo(int k) { return d::get_cache<double>(k).low(); }
extern "C" int h_min_k_f() { return d::common_info<float>::min_k; }
extern "C" int h_max_k_f() { return d::common_info<float>::max_k; }
extern "C" int h_min_k_d() { return d::common_info<double>::min_k; }
extern "C" int h_max_k_d() { return d::common_info<double>::max_k; }
extern "C" unsigned h_count_f() { return sizeof(d::cache_holder<float>::cache) / sizeof(d::cache_holder<float>::cache[0]); }
extern "C" unsigned h_count_d() { return sizeof(d::cache_holder<double>::cache) / sizeof(d::cache_holder<double>::cache[0]); }
extern "C" u64 h_table_f(unsigned i) { return d::cache_holder<float>::cache[i]; }
extern "C" u64 h_table_d_hi(unsigned i) { return d::cache_holder<double>::cache[i].high(); }
extern "C" u64 h_table_d_lo(unsigned i) { return d::cache_holder<double>::cache[i].low(); }
#elif WHICH == 41
#define BITS(F, U, S) \
extern "C" U S##roundtrip(U b) { jkj::bit_representation_t<F> r{ b }; F x = r.as_ieee754(); return jkj::get_bit_representation(x).f; } \
extern "C" U S##getbits(F x) { return jkj::get_bit_representation(x).f; } \
extern "C" F S##as_float(U b) { return jkj::bit_representation_t<F>{ b }.as_ieee754(); } \
extern "C" U S##sigbits(U b) { return jkj::bit_representation_t<F>{ b }.extract_significand_bits(); } \
extern "C" u32 S##expbits(U b) { return jkj::bit_representation_t<F>{ b }.extract_exponent_bits(); } \
extern "C" bool S##is_finite(U b) { return jkj::bit_representation_t<F>{ b }.is_finite(); } \
extern "C" bool S##is_nonzero(U b) { return jkj::bit_representation_t<F>{ b }.is_nonzero(); } \
extern "C" bool S##is_subnormal(U b) { return jkj::bit_representation_t<F>{ b }.is_subnormal(); } \
extern "C" bool S##is_negative(U b) { return jkj::bit_representation_t<F>{ b }.is_negative(); } \
extern "C" bool S##is_positive(U b) { return jkj::bit_representation_t<F>{ b }.is_positive(); } \
extern "C" bool S##is_pos_inf(U b) { return jkj::bit_representation_t<F>{ b }.is_positive_infinity(); } \
extern "C" bool S##is_neg_inf(U b) { return jkj::bit_representation_t<F>{ b }.is_negative_infinity(); } \
extern "C" bool S##is_inf(U b) { return jkj::bit_representation_t<F>{ b }.is_infinity(); } \
extern "C" bool S##is_nan(U b) { return jkj::bit_representation_t<F>{ b }.is_nan(); } \
extern "C" bool S##is_qnan(U b) { return jkj::bit_representation_t<F>{ b }.is_quiet_nan(); } \
extern "C" bool S##is_snan(U b) { return jkj::bit_representation_t<F>{ b }.is_signaling_nan(); } \
extern "C" unsigned long long S##payload(U b) { return jkj::bit_representation_t<F>{ b }.get_nan_payload().to_ullong(); } \
extern "C" u32 S##payload_len() { return (u32)jkj::bit_representation_t<F>::nan_payload_length; }
BITS(float, u32, f_)
BITS(double, u64, d_)
#endif
