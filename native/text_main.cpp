// Replay driver of the text writers: reads bit patterns (hex, one per line).
// prints "FAIL <bits> <mode> <policy> <what> <text>" with what = text | special | frame | default
#include "modes.h"
#include "fp_to_chars.h"
#include <cstdio>
#include <cstdlib>
#include <cinttypes>
#include <string>
#include <csetjmp>
#include <csignal>
#include <sys/time.h>
#ifdef FLT
using F = float; using U = uint32_t; constexpr int P = 23, EB = 8, MAXT = 15;
#else
using F = double; using U = uint64_t; constexpr int P = 52, EB = 11, MAXT = 24;
#endif
namespace rm = jkj::grisu_exact_rounding_modes;
namespace cr = jkj::grisu_exact_correct_rounding;
template <class R, class C> char* nul(F x, char* b) { return jkj::fp_to_chars(x, b, R{}, C{}); }
template <class R, class C> char* raw(F x, char* b) { return jkj::fp_to_chars_n(x, b, R{}, C{}); }
using TFn = char*(*)(F, char*);
#define TROW(FN, R) { &FN<rm::R, cr::do_not_care>, &FN<rm::R, cr::tie_to_even>, &FN<rm::R, cr::tie_to_odd>, &FN<rm::R, cr::tie_to_up>, &FN<rm::R, cr::tie_to_down> }
#define TROWS(FN) { TROW(FN, nearest_to_even), TROW(FN, nearest_to_odd), TROW(FN, nearest_toward_plus_infinity), TROW(FN, nearest_toward_minus_infinity), \
	TROW(FN, nearest_toward_zero), TROW(FN, nearest_away_from_zero), TROW(FN, nearest_to_even_static_boundary), TROW(FN, nearest_to_odd_static_boundary), \
	TROW(FN, nearest_toward_plus_infinity_static_boundary), TROW(FN, nearest_toward_minus_infinity_static_boundary), \
	TROW(FN, toward_plus_infinity), TROW(FN, toward_minus_infinity), TROW(FN, toward_zero), TROW(FN, away_from_zero) }
static TFn const rawt[14][5] = TROWS(raw);
static TFn const nult[14][5] = TROWS(nul);
static char* rawd(F x, char* b) { return jkj::fp_to_chars_n(x, b); }
static char* nuld(F x, char* b) { return jkj::fp_to_chars(x, b); }
static sigjmp_buf jb;
static volatile sig_atomic_t armed = 0;
static void onsig(int s) { if (armed) siglongjmp(jb, s); if (s != SIGALRM) _exit(3); }
static int fails;
static void fail(U bits, int r, int c, char const* what, std::string const& t) {
	if (fails < 40) { ++fails; std::string q; for (char ch : t) q += (ch >= 32 && ch < 127) ? ch : '?';
		std::printf("FAIL %" PRIx64 " %s %s %s %s\n", (uint64_t)bits, r < 0 ? "default" : modes::rm_names[r], c < 0 ? "default" : modes::cr_names[c], what, q.c_str()); std::fflush(stdout); }
}
// text written, or the reason why the frame is broken
static std::string call(TFn f, F x, bool z, bool& ok) {
	static unsigned char a[128], b[128];
	std::memset(a, 0xA5, sizeof a); std::memset(b, 0x5A, sizeof b);
	long n = f(x, (char*)a + 40) - ((char*)a + 40), m = f(x, (char*)b + 40) - ((char*)b + 40);
	ok = n == m && n >= 0 && n <= MAXT;
	if (!ok) return "?";
	for (int i = 0; i < 128; ++i) {
		bool touched = a[i] == b[i], in = i >= 40 && i < 40 + n + (z ? 1 : 0);
		if (touched != in) ok = false;
	}
	if (z && a[40 + n]) ok = false;
	return std::string((char*)a + 40, (char*)a + 40 + n);
}
static void one(U bits) {
	U sb = U(1) << (P + EB), mag = bits & ~sb, inf = ((U(1) << EB) - 1) << P;
	bool neg = bits & sb; F x; std::memcpy(&x, &bits, sizeof x);
	for (int r = -1; r < 14; ++r) for (int c = (r < 0 ? -1 : 0); c < (r < 0 ? 0 : 5); ++c) for (int z = 0; z < 2; ++z) {
		bool ok = true; std::string t, w; volatile int sg; modes::Out o{};
		armed = 1; static int cnt; struct itimerval tv = { {0,0},{2,0} }; if ((cnt++ & 1023) == 0) setitimer(ITIMER_REAL, &tv, nullptr);
		if ((sg = sigsetjmp(jb, 1)) != 0) { armed = 0; fail(bits, r, c, mag > 0 && mag < inf ? "text" : "special", "crash"); continue; }
		t = call(r < 0 ? (z ? nuld : rawd) : (z ? nult : rawt)[r][c], x, z, ok);
		if (mag > 0 && mag < inf) o = modes::signed_table<F>[r < 0 ? 0 : r][c < 0 ? 1 : c](x);
		armed = 0;
		if (!ok) fail(bits, r, c, "frame", t);
		char const* what = "special";
		if (mag > inf) w = "NaN";
		else if (mag == inf) w = neg ? "-Infinity" : "Infinity";
		else if (mag == 0) w = neg ? "-0E0" : "0E0";
		else {
			what = "text";
			std::string d = std::to_string(o.s);
			w = (neg ? "-" : "") + d.substr(0, 1) + (d.size() > 1 ? "." + d.substr(1) : "") + "E" + std::to_string(o.e + (int)d.size() - 1);
			if (r < 0) {
				std::string u = t; char* end;
				F y = sizeof(F) == 4 ? (F)std::strtof(u.c_str(), &end) : (F)std::strtod(u.c_str(), &end);
				if (std::memcmp(&x, &y, sizeof x) || *end || oracle::verdict<P, EB>(bits, 0, 1, o.s, o.e)) fail(bits, r, c, "default", t);
			}
		}
		if (t != w) fail(bits, r, c, what, t);
	}
}
int main() {
	for (int s : { SIGABRT, SIGFPE, SIGSEGV, SIGILL, SIGALRM, SIGBUS }) { struct sigaction a {}; a.sa_handler = onsig; a.sa_flags = SA_NODEFER; sigaction(s, &a, nullptr); }
	unsigned long long a;
	while (fails < 40 && std::scanf("%llx", &a) == 1) one((U)a);
}
