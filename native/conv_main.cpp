// Replay driver of the conversion contracts: exact oracle over the real code.
//   b rm cr bits           one input (hex bits), rm/cr -1 = all
//   r rm cr lo hi step     range of bit patterns
//   n rm cr seed count     random bit patterns
//   F 0 0 bits / G 0 0 seed count   compare the equivalent forms of every result with each other,
//                          and print "H bits hash" of all of them
// prints "FAIL <rm> <cr> <rs> <bits> <what> <significand> <exponent> <neg>" (at most 4 per command)
#include "modes.h"
#include <cstdio>
#include <cinttypes>
#include <csetjmp>
#include <csignal>
#include <sys/time.h>
#ifdef FLT
using F = float; using U = uint32_t; constexpr int P = 23, EB = 8;
#else
using F = double; using U = uint64_t; constexpr int P = 52, EB = 11;
#endif
static sigjmp_buf jb;
static volatile sig_atomic_t armed = 0;
static void onsig(int s) { if (armed) siglongjmp(jb, s); if (s != SIGALRM) _exit(3); }
static int fails;
static void one(int rm, int cr, U bits) {
	U mag = bits & ~(U(1) << (P + EB));
	if (mag == 0 || (mag >> P) == (U(1) << EB) - 1) return;
	F x; std::memcpy(&x, &bits, sizeof x);
	for (int rs = 1; rs >= 0; --rs) {
		modes::Out o{}; char const* what = nullptr; static char buf[64];
		volatile int sg;
		armed = 1;
		struct itimerval tv = { {0,0},{2,0} };
		static int cnt; if ((cnt++ & 1023) == 0) setitimer(ITIMER_REAL, &tv, nullptr);
		if ((sg = sigsetjmp(jb, 1)) == 0) {
			o = rs ? modes::signed_table<F>[rm][cr](x) : modes::unsigned_table<F>[rm][cr](x);
			armed = 0;
			int v = oracle::verdict<P, EB>(bits, rm, cr, o.s, o.e);
			if (rs && o.neg != bool(bits >> (P + EB))) v |= oracle::V_SIGN;
			if (v) { std::snprintf(buf, sizeof buf, "%s%s%s%s%s%s%s", v & 1 ? "interval," : "", v & 2 ? "shortest," : "", v & 4 ? "closest," : "",
				v & 8 ? "tie," : "", v & 16 ? "sign," : "", v & 32 ? "zero," : "", v & 64 ? "range," : ""); what = buf; }
		}
		else { what = sg == SIGALRM ? "hang" : "crash"; armed = 0; }
		if (what && fails < 4) { ++fails;
			std::printf("FAIL %s %s %d %" PRIx64 " %s %" PRIu64 " %d %d\n", modes::rm_names[rm], modes::cr_names[cr], rs, (uint64_t)bits, what, o.s, o.e, o.neg);
			std::fflush(stdout); }
	}
}
static void all(int rm, int cr, U bits) {
	for (int r = 0; r < 14; ++r) if (rm < 0 || r == rm) for (int c = 0; c < 5; ++c) if (cr < 0 || c == cr) one(r, c, bits);
}
// equivalent forms: static_boundary vs plain, unsigned vs signed, -x with the opposite mode vs x
static void forms(U bits) {
	U sb = U(1) << (P + EB); U mag = bits & ~sb;
	if (mag == 0 || (mag >> P) == (U(1) << EB) - 1) return;
	static int const opp[14] = { 0, 1, 3, 2, 4, 5, 6, 7, 9, 8, 11, 10, 12, 13 };
	static modes::Out o[2][14][5][2];
	volatile int sg; U nb = bits ^ sb; F x, nx; std::memcpy(&x, &bits, sizeof x); std::memcpy(&nx, &nb, sizeof nx);
	struct itimerval tv = { {0,0},{2,0} }; setitimer(ITIMER_REAL, &tv, nullptr);
	armed = 1;
	if ((sg = sigsetjmp(jb, 1)) == 0) {
		for (int r = 0; r < 14; ++r) for (int c = 0; c < 5; ++c) {
			o[0][r][c][1] = modes::signed_table<F>[r][c](x); o[0][r][c][0] = modes::unsigned_table<F>[r][c](x);
			o[1][r][c][1] = modes::signed_table<F>[r][c](nx);
		}
		armed = 0;
	}
	else { armed = 0; return; }
	auto eq = [](modes::Out const& a, modes::Out const& b) { return a.s == b.s && a.e == b.e; };
	uint64_t h = 1469598103934665603ull; auto mix = [&](uint64_t v) { h = (h ^ v) * 1099511628211ull; };
	for (int r = 0; r < 14; ++r) for (int c = 0; c < 5; ++c) {
		auto const& a = o[0][r][c][1];
		char const* w = nullptr;
		if (a.neg != bool(bits & sb)) w = "sign";
		else if (!eq(a, o[0][r][c][0])) w = "signed";
		else if (r < 4 && !eq(a, o[0][r + 6][c][1])) w = "static";
		else if (!eq(o[1][opp[r]][c][1], a)) w = "negate";
		if (w && fails < 6) { ++fails; std::printf("FAIL %s %s 1 %" PRIx64 " %s %" PRIu64 " %d %d\n", modes::rm_names[r], modes::cr_names[c], (uint64_t)bits, w, a.s, a.e, a.neg); }
		mix(a.s); mix((uint64_t)(int64_t)a.e);
	}
	std::printf("H %" PRIx64 " %" PRIx64 "\n", (uint64_t)bits, h);
}
int main() {
	for (int s : { SIGABRT, SIGFPE, SIGSEGV, SIGILL, SIGALRM, SIGBUS }) { struct sigaction a {}; a.sa_handler = onsig; a.sa_flags = SA_NODEFER; sigaction(s, &a, nullptr); }
	char op[8]; int rm, cr; unsigned long long a, b, c;
	while (std::scanf("%7s %d %d", op, &rm, &cr) == 3) {
		fails = 0;
		if (*op == 'b') { std::scanf("%llx", &a); all(rm, cr, (U)a); }
		else if (*op == 'r') { std::scanf("%llx %llx %llx", &a, &b, &c); for (unsigned long long x = a; x < b && fails < 4; x += c) all(rm, cr, (U)x); }
		else if (*op == 'F') { std::scanf("%llx", &a); forms((U)a); }
		else if (*op == 'G') { std::scanf("%llx %llu", &a, &b); uint64_t s = a * 0x9E3779B97F4A7C15ull + 1;
			for (unsigned long long i = 0; i < b && fails < 4; ++i) { s ^= s << 13; s ^= s >> 7; s ^= s << 17; forms((U)(s * 0x2545F4914F6CDD1Dull >> (64 - 8 * sizeof(U)))); } }
		else if (*op == 'n') { std::scanf("%llx %llu", &a, &b); uint64_t s = a * 0x9E3779B97F4A7C15ull + 1;
			for (unsigned long long i = 0; i < b && fails < 4; ++i) { s ^= s << 13; s ^= s >> 7; s ^= s << 17; all(rm, cr, (U)(s * 0x2545F4914F6CDD1Dull >> (64 - 8 * sizeof(U)))); } }
	}
}
