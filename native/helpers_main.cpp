// Replay driver of the helper contracts: reads "fn a b c" lines, prints results.
#include "helpers.cpp"
#include <cstdio>
#include <cstring>
#include <cinttypes>
int main() {
	char fn[32]; unsigned long long a, b, c;
	while (std::scanf("%31s %llu %llu %llu", fn, &a, &b, &c) == 4) {
		unsigned long long r = 0;
#define T(name, expr) if (!std::strcmp(fn, name)) r = (unsigned long long)(expr); else
#if WHICH == 1
		T("umul64", h_umul64(a, b))
#elif WHICH == 2
		T("umul128_hi", h_umul128_hi(a, b)) T("umul128_lo", h_umul128_lo(a, b))
#elif WHICH == 3
		T("umul128_upper64", h_umul128_upper64(a, b))
#elif WHICH == 4
		T("umul192_upper64", h_umul192_upper64(a, b, c))
#elif WHICH == 5
		T("umul96_upper32", h_umul96_upper32(a, b))
#elif WHICH == 11
		T("log10_pow2", (long long)h_log10_pow2((int)a))
#elif WHICH == 12
		T("log2_pow10", (long long)h_log2_pow10((int)a))
#elif WHICH == 13
		T("log5_pow2", (long long)h_log5_pow2((int)a))
#elif WHICH == 21
		T("div2_32", h_div2_32(a, b)) T("div2_64", h_div2_64(a, b))
#elif WHICH == 22
		T("div5_32", h_div5_32(a, b)) T("div5_64", h_div5_64(a, b))
#elif WHICH == 31
		T("cache_f", h_cache_f((int)a)) T("cache_d_hi", h_cache_d_hi((int)a)) T("cache_d_lo", h_cache_d_lo((int)a))
#elif WHICH == 41
#define B(S) T(#S "roundtrip", S##roundtrip(a)) T(#S "sigbits", S##sigbits(a)) T(#S "expbits", S##expbits(a)) \
		T(#S "is_finite", S##is_finite(a)) T(#S "is_nonzero", S##is_nonzero(a)) T(#S "is_subnormal", S##is_subnormal(a)) \
		T(#S "is_negative", S##is_negative(a)) T(#S "is_positive", S##is_positive(a)) T(#S "is_pos_inf", S##is_pos_inf(a)) \
		T(#S "is_neg_inf", S##is_neg_inf(a)) T(#S "is_inf", S##is_inf(a)) T(#S "is_nan", S##is_nan(a)) \
		T(#S "is_qnan", S##is_qnan(a)) T(#S "is_snan", S##is_snan(a)) T(#S "payload", S##payload(a)) \
		T(#S "payload_len", S##payload_len())
		B(f_) B(d_)
#endif
		{}
		std::printf("%llu\n", r);
	}
}
