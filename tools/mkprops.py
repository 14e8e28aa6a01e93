#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that statements stay readable)."""
import json, os
H = "grisu_exact.h"; FH = "fp_to_chars.h"; FC = "fp_to_chars/fp_to_chars.cpp"
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=state or [], mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=observe, hook_needed=None)))
ALLIN = "every nonzero finite binary32 and binary64 bit pattern (2^32 and 2^64), every public rounding mode, every correct-rounding policy"
RND = "uniform_random_test samples about 10^7 of 2^32 / 2^64 inputs, only for nearest_to_even with tie_to_even (compared with Ryu); "
MAIN = [("grisu_exact_impl::compute", H), ("compute_mul / compute_delta", H), ("increasing_search, is_zf_smaller_than_deltaf, is_product_integer", H), ("cache tables", H)]
prop("C01", "Output always lies in the rounding interval of the input (round trip)",
 "For every nonzero finite float or double x, every rounding mode and every correct-rounding policy, the decimal number significand * 10^exponent returned by the conversion (with x's sign) lies in the set of reals that a correct parser using that rounding mode maps to x; so reading it back gives exactly x. The interval's endpoints are included exactly when that mode would resolve them to x (this covers the shorter lower gap at powers of two, subnormals, and the directed modes, where the interval is one whole ulp on the proper side).",
 ["inputs", "configurations"], ALLIN,
 RND + "the other 13 modes and 4 policies are never checked against an oracle, and boundary inputs (endpoint exactly representable) are hit with probability near 0.",
 [H], MAIN, ["jkj::grisu_exact return value"])
prop("C02", "Output is the shortest in its rounding interval",
 "For every nonzero finite float or double x, every rounding mode and every correct-rounding policy, no decimal number with fewer significant digits than the returned significand lies in the rounding interval of x for that mode.",
 ["inputs", "configurations"], ALLIN,
 RND + "a too long output needs an input whose remainder equals the integer part of the interval length, or an endpoint that is a multiple of a power of ten: too rare for sampling.",
 [H], MAIN, ["jkj::grisu_exact return value"])
prop("C03", "Output is the closest of the shortest candidates",
 "For every nonzero finite float or double x, every rounding mode and every correct-rounding policy other than do_not_care, no other decimal number in the rounding interval of x with the same (minimal) number of digits is strictly closer to the exact value of x than the returned one.",
 ["inputs", "configurations"], ALLIN + " except do_not_care",
 RND + "the directed modes' search is never executed by any test.",
 [H], [("correct rounding search (step 4 of compute)", H), ("correct_rounding_search_when_kappa_is_0", H)], ["jkj::grisu_exact return value"])
prop("C04", "Exact ties between shortest candidates follow the chosen policy",
 "When two shortest candidates in the rounding interval are at exactly the same distance from the value of x, the returned significand is the even one for tie_to_even, the odd one for tie_to_odd, the one of larger magnitude for tie_to_up and the one of smaller magnitude for tie_to_down; for every nonzero finite float or double and every rounding mode.",
 ["inputs", "configurations"], ALLIN + " except do_not_care",
 RND + "exact ties are a vanishing fraction of the inputs and three of the four policies are untested.",
 [H], [("step 4 of compute, is_product_integer, divisible_by_power_of_2/5", H)], ["jkj::grisu_exact return value"])
prop("C05", "Equivalent forms of the conversion give identical results",
 "For every nonzero finite float or double: the *_static_boundary rounding modes return the same significand and exponent as the plain mode of the same name, the signed and the unsigned return form (grisu_exact<true> / <false>) return the same significand and exponent, and a build that uses the portable 32-bit code paths returns the same as one that uses 128-bit arithmetic; this includes policy do_not_care.",
 ["inputs", "configurations"], ALLIN + ", both return forms, x86-64 and i686 code paths",
 "No test compares two modes, the two return forms, or the two code paths with each other.",
 [H], [("*_static_boundary::delegate", H), ("compute<return_sign,...>", H), ("umul128, umul192_upper64, umul96_upper32, divisible_by_power_of_2", H)], ["jkj::grisu_exact return value"])
prop("C06", "Sign is reported exactly and negation is symmetric",
 "For every nonzero finite float or double the returned is_negative equals the sign bit of the input. Negating the input leaves significand and exponent unchanged for the modes that do not depend on the sign, and for the modes toward plus infinity / minus infinity (nearest and directed) negating the input gives what the opposite mode gives for the original input.",
 ["inputs", "configurations"], ALLIN,
 "Tests compare printed strings for the default mode only; the sign-dependent modes are never run.",
 [H], [("bit_representation_t::is_negative", H), ("rounding mode operator() and delegate", H)], ["jkj::grisu_exact return value"])
prop("C07", "Significand and exponent stay within their promised ranges",
 "For every nonzero finite float or double, every rounding mode and policy, the returned significand is at least 1, is not a multiple of ten, and has at most 9 decimal digits for float and 17 for double. The scientific exponent (exponent + number of digits - 1) lies in [-45,38] for float and [-324,308] for double.",
 ["inputs", "configurations"], ALLIN,
 "String generation relies on these ranges; tests only see sampled values of the default mode.",
 [H, FC], [("initial_kappa/min_kappa/max_kappa choices", H), ("decimal_length precondition", FC)], ["jkj::grisu_exact return value"])
prop("C08", "Conversion never asserts, overflows, reads out of bounds or hangs",
 "For every nonzero finite float or double, every rounding mode and policy, the conversion terminates without failing any of the library's assertions and without undefined behaviour: no signed overflow, no over-wide shift, no read of an uninitialised value, no count-trailing-zeros of zero and no table access out of bounds.",
 ["inputs", "configurations"], ALLIN,
 "Tests run with assertions on, but only reach sampled inputs of the default mode.",
 [H], [("assert()s in the log, cache and divisibility helpers and in compute", H), ("common_info constants", H)], ["jkj::grisu_exact"])
prop("C09", "Generated text denotes exactly the converted decimal, in canonical form",
 "For every nonzero finite float or double and every rounding mode and policy, fp_to_chars_n writes: '-' exactly when x is negative; the digits of the significand, without leading zero, with a '.' after the first digit exactly when there is more than one digit; 'E'; and the exponent with '-' when negative, no '+' and no leading zero. The decimal number written is exactly significand * 10^exponent of the conversion of x under the mode and policy given.",
 ["inputs", "configurations"], "every nonzero finite float/double (every possible significand up to 9/17 digits and exponent), every mode and policy",
 "uniform_random_test compares strings for sampled inputs of the default mode; most 3-digit exponents with short significands, and every other mode, are not reached.",
 [FH, FC], [("fp_to_chars_impl, decimal_length, radix_100_table", FC), ("fp_to_chars_n", FH)], ["buffer contents"])
prop("C10", "Zeros, infinities and NaNs are written as fixed texts",
 "fp_to_chars_n writes \"0E0\" for +0 and \"-0E0\" for -0, \"Infinity\" and \"-Infinity\" for the infinities, and \"NaN\" (without a sign) for every one of the NaN bit patterns; for float and double and every mode and policy.",
 ["inputs", "configurations"], "every zero, infinity and NaN bit pattern of both formats (2^24 - 2 and 2^53 - 2 NaNs), every mode and policy",
 "No test prints a special value: the random generators produce finite nonzero values.",
 [FH, H], [("fp_to_chars_n", FH), ("is_finite, is_nonzero, is_negative", H)], ["buffer contents"])
prop("C11", "Text writers stay inside the returned range and return its end",
 "For every float or double (all bit patterns), fp_to_chars_n returns buffer + length of the text and writes no byte outside [buffer, returned pointer); fp_to_chars additionally writes one NUL at the returned pointer and nothing else. The text is at most 15 characters for float and 24 for double, so the documented 31-byte buffer always suffices.",
 ["inputs", "configurations"], "every bit pattern of both formats, every mode and policy, any buffer",
 "Tests never look at bytes beyond the text and only sample inputs.",
 [FH, FC], [("pointer arithmetic in fp_to_chars_impl", FC), ("fp_to_chars, fp_to_chars_n", FH)], ["buffer contents, returned pointer"])
prop("C12", "Default printing is exact end to end",
 "For every finite nonzero float or double x, the text that fp_to_chars(x, buffer) writes with default arguments, read back by a correct round-to-nearest-even parser, gives exactly x; no shorter digit string does, and among the shortest ones it is the closest to x (the even one on a tie).",
 ["inputs"], "every nonzero finite float and double, default arguments",
 "uniform_random_test reaches 10^7 of 2^32 / 2^64 inputs and compares with Ryu, not with a parser.",
 [H, FH, FC], MAIN + [("fp_to_chars_impl", FC)], ["buffer contents"])
prop("C13", "Power-of-ten tables are exact and complete",
 "Every entry of the two precomputed power-of-ten tables is the exact 10^k scaled by a power of two so that its top bit is bit 63 (float) or bit 127 (double), truncated for k >= 0 and rounded up for k < 0; and the table covers every k that any finite input can request.",
 ["inputs"], "every table entry (77 and 616) and every exponent of both formats",
 "generate_cache never reads the table in the header; a change in the last digit of an entry passes every test.",
 [H], [("cache_holder<float>::cache, cache_holder<double>::cache", H), ("get_cache, min_k, max_k", H)], ["cache tables"])
prop("C14", "Multi-word multiplications are exact on every code path",
 "For all operands, the 32x32, 64x64, 64x128 and 32x64-bit multiplication helpers return exactly the mathematical product or exactly its stated upper half (upper 64 of 192 bits, upper 32 of 96 bits), both in the 128-bit and in the portable 32-bit implementation.",
 ["inputs", "configurations"], "all operand values (up to 2^192 combinations), x86-64 and portable code paths",
 "Carries between partial products depend on specific operand patterns; helpers are only exercised through sampled conversions.",
 [H], [("umul64, umul128, umul128_upper64, umul192_upper64, umul96_upper32", H)], ["return values"])
prop("C15", "Integer logarithm helpers are exact on their documented ranges",
 "floor_log10_pow2(e) = floor(log10 2^e) for all e in [-1650,1650], floor_log2_pow10(e) = floor(log2 10^e) for all e in [-642,642], and floor_log5_pow2(e) = floor(log5 2^e) for all e in [-65536,65536], with no integer overflow.",
 ["inputs"], "every e of the three documented ranges",
 "verify_log_computation looks only at the few exponents where its own copy of the constants says that low bits may overflow.",
 [H], [("floor_log10_pow2, floor_log2_pow10, floor_log5_pow2", H)], ["return values"])
prop("C16", "Divisibility tests are exact",
 "divisible_by_power_of_2(x, n) is true exactly when 2^n divides x, for every nonzero x and n >= 1; divisible_by_power_of_5(x, n) is true exactly when 5^n divides x, for every x and every n of the documented table (n < 12 for 32-bit, n < 24 for 64-bit operands).",
 ["inputs", "configurations"], "all 2^32 / 2^64 operands, all n, both code paths",
 "Only reached through boundary inputs, which random sampling practically never produces.",
 [H], [("divisible_by_power_of_2, divisible_by_power_of_5", H), ("divisibility_test_table", H)], ["return values"])
prop("C17", "Bit-level view of floats agrees with IEEE-754",
 "For every bit pattern of float and double: the classification predicates (finite, nonzero, subnormal, negative, positive, positive/negative infinity, infinity, NaN, quiet NaN, signaling NaN) and the extracted significand bits, exponent bits and NaN payload are what IEEE-754 defines for that pattern (subnormal allowing zeros, as documented), and converting a value to its bit representation and back gives the same bits.",
 ["inputs"], "all 2^32 and 2^64 bit patterns",
 "No test calls these predicates on special values.",
 [H], [("bit_representation_t, get_bit_representation", H)], ["predicate results"])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
