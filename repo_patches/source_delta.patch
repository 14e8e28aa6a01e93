From 6c9a06c4caf0e57b6e27de3202fad3aca3d79e7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:36 +0000
Subject: [PATCH 1/3] fix: correct rounding search for left-closed directed
 rounding

When the displacement was exactly equal to the integer part of delta, the
calculated number of steps was never subtracted from the significand, and the
parity of floor(x) was compared with zi - (deltai - r) instead of zi - deltai.
---
 grisu_exact.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/grisu_exact.h b/grisu_exact.h
index b573382..323b8a0 100644
--- a/grisu_exact.h
+++ b/grisu_exact.h
@@ -2091,8 +2091,9 @@ namespace jkj {
 					grisu_exact_rounding_modes::left_closed_directed_tag)
 				{
 					// We already know r is at most deltai
-					deltai -= std::uint32_t(r);
+					// (approx_x should be computed from the original deltai)
 					auto const approx_x = zi - deltai;
+					deltai -= std::uint32_t(r);
 
 					auto const current_digit = ret_value.significand % 10;
 
@@ -2133,6 +2134,7 @@ namespace jkj {
 							case zf_vs_deltaf_t::zf_smaller:
 								break;
 							}
+							ret_value.significand -= steps;
 							goto return_label;
 						}
 						else {
-- 
2.43.0


From 65e53648a44f7016414cfc411adf0c557bc5024c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:19 +0000
Subject: [PATCH 2/3] fix: integer check for overflowed right endpoint in
 left-closed directed rounding

When the right endpoint is 2^q, fr wraps around to 0, which is divisible by
everything: the integer check then either accepted a non-integer z (so the
output was not the shortest) or failed the assertion of divisible_by_power_of_2.
---
 grisu_exact.h | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/grisu_exact.h b/grisu_exact.h
index 323b8a0..37ea86a 100644
--- a/grisu_exact.h
+++ b/grisu_exact.h
@@ -2011,7 +2011,20 @@ namespace jkj {
 						integer_check_case_id::fc_pm_2_to_the_q_mp_m2_generic :
 						integer_check_case_id::other;
 
-					if (is_product_integer<case_id>(fr, exponent, minus_k)) {
+					bool is_z_integer;
+					// For left-closed directed rounding, fr might have overflowed to 0;
+					// in that case, z is a power of 2 (namely, 2^(q+e)) times 10^k
+					if (IntervalTypeProvider::tag ==
+						grisu_exact_rounding_modes::left_closed_directed_tag && fr == 0)
+					{
+						is_z_integer = minus_k <= 0 &&
+							minus_k - exponent <= int(extended_precision);
+					}
+					else {
+						is_z_integer = is_product_integer<case_id>(fr, exponent, minus_k);
+					}
+
+					if (is_z_integer) {
 						// Decrease kappa until 10^kappa becomes smaller than delta
 						// If left boundary is included, 10^kappa can also be equal to delta
 						while (true) {
-- 
2.43.0


From ffafc276949d1f88b19c4e59ac8a2b9406040232 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:42 +0000
Subject: [PATCH 3/3] fix: signed overflow in floor_log2_pow10 for 617 <= |e|
 <= 642

The documented range is [-642,642], but the 32-bit product overflows for |e| > 616.
---
 grisu_exact.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/grisu_exact.h b/grisu_exact.h
index 37ea86a..99f0351 100644
--- a/grisu_exact.h
+++ b/grisu_exact.h
@@ -319,7 +319,8 @@ namespace jkj {
 
 			return int(
 				// Calculate 0x3.5269e * exp * 2^20
-				(std::int32_t(e) * log2_5_over_4_up_to_20)
+				// (the product does not fit into 32 bits if |e| > 616)
+				(std::int64_t(e) * log2_5_over_4_up_to_20)
 				// Perform arithmetic-shift
 				>> 20);
 		}
-- 
2.43.0

