// Exact-integer oracle for shortest / correctly rounded binary->decimal conversion.
// Independent of the code under test: only IEEE-754 field decoding and big integers.
#ifndef VERIF_ORACLE_H
#define VERIF_ORACLE_H
#include <cstdint>
#include <cstring>
#include <cstdlib>
namespace oracle {
struct Big {
	static constexpr int CAP = 96;          // 32-bit limbs: 3072 bits
	uint32_t d[CAP]; int n = 0; bool overflow = false;
	Big() {}
	explicit Big(uint64_t v) { if (v) { d[n++] = (uint32_t)v; if (v >> 32) d[n++] = (uint32_t)(v >> 32); } }
	void mul_small(uint32_t m) {
		uint64_t c = 0;
		for (int i = 0; i < n; ++i) { c += (uint64_t)d[i] * m; d[i] = (uint32_t)c; c >>= 32; }
		if (c) { if (n == CAP) { overflow = true; return; } d[n++] = (uint32_t)c; }
	}
	void mul_pow10(int e) {
		while (e >= 9) { mul_small(1000000000u); e -= 9; }
		uint32_t m = 1; while (e-- > 0) m *= 10;
		if (m != 1) mul_small(m);
	}
	void shl(int s) {
		int w = s / 32, b = s % 32;
		if (n == 0) return;
		if (n + w + 1 > CAP) { overflow = true; return; }
		if (b) {
			uint32_t c = 0;
			for (int i = 0; i < n; ++i) { uint32_t t = d[i]; d[i] = (t << b) | c; c = t >> (32 - b); }
			if (c) d[n++] = c;
		}
		if (w) { for (int i = n - 1; i >= 0; --i) d[i + w] = d[i]; for (int i = 0; i < w; ++i) d[i] = 0; n += w; }
	}
	static int cmp(Big const& a, Big const& b) {
		if (a.n != b.n) return a.n < b.n ? -1 : 1;
		for (int i = a.n - 1; i >= 0; --i) if (a.d[i] != b.d[i]) return a.d[i] < b.d[i] ? -1 : 1;
		return 0;
	}
	static Big add(Big const& a, Big const& b) {
		Big r; uint64_t c = 0; int m = a.n > b.n ? a.n : b.n;
		for (int i = 0; i < m; ++i) { c += (uint64_t)(i < a.n ? a.d[i] : 0) + (i < b.n ? b.d[i] : 0); r.d[r.n++] = (uint32_t)c; c >>= 32; }
		if (c) r.d[r.n++] = (uint32_t)c;
		return r;
	}
};
// value of T*10^j versus M*2^e   -> -1,0,1   (exact)
inline int cmp_dec_bin(uint64_t T, int j, uint64_t M, int e) {
	Big a(T), b(M);
	if (j >= 0) a.mul_pow10(j); else b.mul_pow10(-j);
	if (e >= 0) b.shl(e); else a.shl(-e);
	return Big::cmp(a, b);
}
// 2*M*2^e versus T1*10^j1 + T2*10^j2
inline int cmp_mid(uint64_t T1, int j1, uint64_t T2, int j2, uint64_t M, int e) {
	int j = j1 < j2 ? j1 : j2;
	Big a(T1), b(T2), m(M);
	a.mul_pow10(j1 - j); b.mul_pow10(j2 - j);
	Big s = Big::add(a, b);
	if (j >= 0) s.mul_pow10(j); else m.mul_pow10(-j);
	e += 1;
	if (e >= 0) m.shl(e); else s.shl(-e);
	return Big::cmp(m, s);
}
enum { R_NE, R_NO, R_NPI, R_NMI, R_NTZ, R_NAZ, R_NES, R_NOS, R_NPIS, R_NMIS, R_TPI, R_TMI, R_TZ, R_AZ, R_COUNT };
enum { C_DNC, C_EVEN, C_ODD, C_UP, C_DOWN, C_COUNT };
enum { V_INTERVAL = 1, V_SHORTEST = 2, V_CLOSEST = 4, V_TIE = 8, V_SIGN = 16, V_ZERO = 32, V_RANGE = 64 };

struct Interval { uint64_t f, lo, hi; int e; bool il, ir; };   // value f*2^e, ends lo*2^e, hi*2^e (f,lo,hi scaled by 4)
template <int P, int EB> inline Interval interval_of(uint64_t bits, int rm) {
	Interval I;
	uint64_t F = bits & ((uint64_t(1) << P) - 1);
	int E = int((bits >> P) & ((1u << EB) - 1));
	bool neg = (bits >> (P + EB)) & 1;
	int bias = (1 << (EB - 1)) - 1;
	uint64_t m = E ? (F | (uint64_t(1) << P)) : F;
	int e = (E ? E : 1) - bias - P;
	bool edge = (F == 0 && E > 1);
	bool even = (m & 1) == 0;
	I.f = 4 * m; I.e = e - 2;
	uint64_t ulp_up = 4, ulp_dn = edge ? 2 : 4;
	switch (rm) {
	case R_NE: case R_NES: I.lo = I.f - ulp_dn / 2; I.hi = I.f + ulp_up / 2; I.il = I.ir = even; break;
	case R_NO: case R_NOS: I.lo = I.f - ulp_dn / 2; I.hi = I.f + ulp_up / 2; I.il = I.ir = !even; break;
	case R_NPI: case R_NPIS: I.lo = I.f - ulp_dn / 2; I.hi = I.f + ulp_up / 2; I.il = !neg; I.ir = neg; break;
	case R_NMI: case R_NMIS: I.lo = I.f - ulp_dn / 2; I.hi = I.f + ulp_up / 2; I.il = neg; I.ir = !neg; break;
	case R_NTZ: I.lo = I.f - ulp_dn / 2; I.hi = I.f + ulp_up / 2; I.il = false; I.ir = true; break;
	case R_NAZ: I.lo = I.f - ulp_dn / 2; I.hi = I.f + ulp_up / 2; I.il = true; I.ir = false; break;
	default: {
		bool down;   // magnitude truncated toward zero by the parser?
		if (rm == R_TZ) down = true; else if (rm == R_AZ) down = false;
		else if (rm == R_TPI) down = neg; else down = !neg;
		if (down) { I.lo = I.f; I.hi = I.f + ulp_up; I.il = true; I.ir = false; }
		else { I.lo = I.f - ulp_dn; I.hi = I.f; I.il = false; I.ir = true; }
	} }
	return I;
}
inline bool inside(Interval const& I, uint64_t T, int j) {
	int c = cmp_dec_bin(T, j, I.lo, I.e);
	if (c < 0 || (c == 0 && !I.il)) return false;
	c = cmp_dec_bin(T, j, I.hi, I.e);
	return c < 0 || (c == 0 && I.ir);
}
// bitmask of violated clauses for output (S, j) of a nonzero finite input
template <int P, int EB> inline int verdict(uint64_t bits, int rm, int cr, uint64_t S, int j) {
	int v = 0;
	if (S == 0) return V_ZERO;
	if (j > 400 || j < -420) return V_INTERVAL;
	if (S >= (P == 23 ? 1000000000ull : 100000000000000000ull)) v |= V_RANGE;
	Interval I = interval_of<P, EB>(bits, rm);
	if (!inside(I, S, j)) return v | V_INTERVAL;
	uint64_t q = S / 10;
	if ((q && inside(I, q, j + 1)) || inside(I, q + 1, j + 1)) v |= V_SHORTEST;
	if (cr == C_DNC) return v;
	// neighbours with the same number of digits
	uint64_t p10 = 1; while (S / p10 >= 10) p10 *= 10;
	uint64_t pT; int pj;
	if (S == p10) { pT = p10 * 10 - 1; pj = j - 1; } else { pT = S - 1; pj = j; }
	if (inside(I, pT, pj)) {
		int c = cmp_mid(pT, pj, S, j, I.f, I.e);  // 2y vs pT+S
		if (c < 0) v |= V_CLOSEST;
		else if (c == 0) {
			if (cr == C_EVEN && (S & 1)) v |= V_TIE;
			if (cr == C_ODD && !(S & 1)) v |= V_TIE;
			if (cr == C_DOWN) v |= V_TIE;
		}
	}
	if (inside(I, S + 1, j)) {
		int c = cmp_mid(S, j, S + 1, j, I.f, I.e);
		if (c > 0) v |= V_CLOSEST;
		else if (c == 0) {
			if (cr == C_EVEN && (S & 1)) v |= V_TIE;
			if (cr == C_ODD && !(S & 1)) v |= V_TIE;
			if (cr == C_UP) v |= V_TIE;
		}
	}
	return v;
}
}
#endif
