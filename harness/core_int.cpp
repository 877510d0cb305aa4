// Integer, combinatorial and bit-level functions: exact for every argument whose result is representable.
#include "common.h"
#include "theoretica.h"
using namespace theoretica;
typedef unsigned __int128 u128;

static uint64_t ref_isqrt(uint64_t n) {
	uint64_t r = (uint64_t) std::sqrt((long double) n);
	while ((u128) r * r > n) --r;
	while ((u128) (r + 1) * (r + 1) <= n) ++r;
	return r;
}
static uint64_t ref_icbrt(uint64_t n) {
	uint64_t r = (uint64_t) std::cbrt((long double) n);
	while ((u128) r * r * r > n) --r;
	while ((u128) (r + 1) * (r + 1) * (r + 1) <= n) ++r;
	return r;
}
static int ref_ilog2(uint64_t n) { int b = 0; while (n >>= 1) ++b; return b; }
static uint64_t ref_pad2(uint64_t n) { uint64_t p = 1; while (p < n) p <<= 1; return p; }

template<typename T> static void all_of(uint64_t n, bool small) {
	T x = (T) n;
	EQ("isqrt", (uint64_t) isqrt<T>(x), ref_isqrt(x));
	EQ("icbrt", (uint64_t) icbrt<T>(x), ref_icbrt(x));
	if (x) EQ("ilog2", (uint64_t) ilog2<T>(x), (uint64_t) ref_ilog2(x));
	if ((uint64_t) x <= (uint64_t(1) << (sizeof(T) * 8 - 1)))
		EQ("pad2", (uint64_t) pad2<T>(x), ref_pad2(x));
}

SECTION(u16_all) {
	for (uint32_t n = 0; n <= 0xffff; ++n)
		if (vf::begin_fast("u16", n)) all_of<uint16_t>(n, true);
}

// every boundary of isqrt on 32 bit: k^2-1, k^2, k^2+1 for all k; all k^3 neighbourhoods; all 2^k +- 64
SECTION(u32_bounds) {
	std::set<uint64_t> s;
	for (uint64_t k = 0; k < 65536; ++k) for (int d = -1; d <= 1; ++d) s.insert(k * k + d);
	for (uint64_t k = 0; k < 1626; ++k) for (int d = -1; d <= 1; ++d) s.insert(k * k * k + d);
	for (int k = 0; k <= 32; ++k) for (int64_t d = -64; d <= 64; ++d) s.insert((uint64_t(1) << k) + d);
	for (uint64_t n : s) if (n <= 0xffffffffull)
		if (vf::begin_fast("u32", (double) n)) all_of<uint32_t>(n, false);
}

SECTION(u64_bounds) {
	std::set<uint64_t> s;
	uint64_t step = vf::thorough() ? 65537 : 1048583;
	for (uint64_t k = 0; k <= 0xffffffffull; k += step)
		for (int d = -1; d <= 1; ++d) s.insert(k * k + d);
	for (uint64_t k = 0; k < 300; ++k) for (int d = -1; d <= 1; ++d) s.insert((0xffffffffull - k) * (0xffffffffull - k) + d);
	uint64_t cs = vf::thorough() ? 7 : 211;
	for (uint64_t k = 0; k <= 2642245; k += cs) for (int d = -1; d <= 1; ++d) s.insert(k * k * k + d);
	for (uint64_t k = 0; k < 300; ++k) for (int d = -1; d <= 1; ++d) s.insert((2642245 - k) * (2642245 - k) * (2642245 - k) + d);
	for (int k = 0; k <= 63; ++k) for (int64_t d = -64; d <= 64; ++d) s.insert((uint64_t(1) << k) + d);
	for (int64_t d = 0; d < 1000; ++d) s.insert(~uint64_t(0) - d);
	for (uint64_t n : s)
		if (vf::begin("u64 n=%llu", (unsigned long long) n)) all_of<uint64_t>(n, false);
}

SECTION(u32_full) {   // thorough: the complete 32-bit domain of the logarithm and padding, strided roots
	if (!vf::thorough()) { if (vf::begin_fast("u32_full", 0)) all_of<uint32_t>(0, false); return; }
	for (uint64_t n = 0; n <= 0xffffffffull; ++n) {
		if (!vf::begin_fast("u32", (double) n)) continue;
		vf::S().checks += 2;
		uint32_t x = (uint32_t) n;
		if (x && ilog2<uint32_t>(x) != (uint32_t) (31 - __builtin_clz(x))) vf::fail("ilog2", "n=%u", x);
		uint32_t r = isqrt<uint32_t>(x);
		if (!((uint64_t) r * r <= x && (uint64_t) (r + 1) * (r + 1) > x)) vf::fail("isqrt", "n=%u got %u", x, r);
	}
}

SECTION(combinatorics) {
	// fact, double_fact
	u128 f = 1;
	for (unsigned n = 0; n <= 20; ++n) {
		if (n > 1) f *= n;
		if (!vf::begin("fact n=%u", n)) continue;
		EQ("fact", fact<uint64_t>(n), (uint64_t) f);
		EQ("fact", fact(n), (uint64_t) f);
		if (n <= 12) EQ("fact32", (uint64_t) fact<uint32_t>(n), (uint64_t) f);
		if (n <= 12) EQ("fact_int", (int64_t) fact<int>(n), (int64_t) f);
	}
	for (unsigned n = 0; n <= 33; ++n) {
		u128 d = 1; for (int i = n; i > 1; i -= 2) d *= i;
		if (!vf::begin("double_fact n=%u", n)) continue;
		EQ("double_fact", (uint64_t) double_fact<uint64_t>(n), (uint64_t) d);
		EQ("double_fact", (uint64_t) double_fact(n), (uint64_t) d);
	}
	// falling / rising factorials
	for (int64_t x = -20; x <= 20; ++x) for (unsigned n = 0; n <= 12; ++n) {
		if (!vf::begin("factorials x=%lld n=%u", (long long) x, n)) continue;
		__int128 a = 1, b = 1;
		for (unsigned i = 0; i < n; ++i) { a *= x - (int) i; b *= x + (int) i; }
		if (a >= INT64_MIN && a <= INT64_MAX) EQ("falling_fact", falling_fact<int64_t>(x, n), (int64_t) a);
		if (b >= INT64_MIN && b <= INT64_MAX) EQ("rising_fact", rising_fact<int64_t>(x, n), (int64_t) b);
		NEAR("falling_fact_real", falling_fact<real>((real) x + 0.5, n), [&] { real r = 1; for (unsigned i = 0; i < n; ++i) r *= x + 0.5 - i; return r; }(), 1e-12, 0);
		NEAR("rising_fact_real", rising_fact<real>((real) x + 0.5, n), [&] { real r = 1; for (unsigned i = 0; i < n; ++i) r *= x + 0.5 + i; return r; }(), 1e-12, 0);
		if (x >= (int) n) EQ("falling_fact_u", falling_fact<uint64_t>((uint64_t) x, n), (uint64_t) a);
	}
	// binomial coefficients: the whole Pascal triangle that fits 64 bits up to row 80
	std::vector<std::vector<u128>> P(81);
	for (unsigned n = 0; n <= 80; ++n) {
		P[n].assign(n + 1, 1);
		for (unsigned m = 1; m < n; ++m) P[n][m] = P[n - 1][m - 1] + P[n - 1][m];
		for (unsigned m = 0; m <= n; ++m) {
			if (P[n][m] > (u128) ~uint64_t(0)) continue;
			if (!vf::begin("binomial n=%u m=%u", n, m)) continue;
			EQ("binomial_coeff", (uint64_t) binomial_coeff(n, m), (uint64_t) P[n][m]);
		}
	}
	for (unsigned n = 0; n <= 80; ++n) for (unsigned m = 0; m <= n; ++m) {
		if (P[n][m] <= (u128) ~uint32_t(0) && vf::begin("binomial<uint32_t> n=%u m=%u", n, m)) EQ("binomial_coeff_32", (uint64_t) binomial_coeff<uint32_t>(n, m), (uint64_t) P[n][m]);
		if (P[n][m] <= (u128) INT64_MAX && vf::begin("binomial<int64_t> n=%u m=%u", n, m)) EQ("binomial_coeff_i64", (uint64_t) binomial_coeff<int64_t>(n, m), (uint64_t) P[n][m]);
		if (vf::begin("binomial<real> n=%u m=%u", n, m)) NEAR("binomial_coeff_real", binomial_coeff<real>(n, m), (long double) P[n][m], 1e-13, 0);
	}
	for (unsigned n = 100; n <= 1000; n += 50) for (unsigned m = 0; m <= n; ++m) if (vf::begin("binomial<real> n=%u m=%u", n, m)) NEAR("binomial_coeff_real", binomial_coeff<real>(n, m), expl(lgammal(n + 1) - lgammal(m + 1) - lgammal(n - m + 1)), 1e-12, 0);
	for (unsigned n = 0; n <= 300; ++n) {
		if (!vf::begin("factorials<real> n=%u", n)) continue;
		if (n <= 170) NEAR("fact_real", fact<real>(n), expl(lgammal(n + 1.0L)), 1e-12, 0);
		long double d = 1; for (int i = n; i > 1; i -= 2) d *= i; NEAR("double_fact_real", double_fact<real>(n), d, 1e-12, 0);
	}
	u128 cat = 1;
	for (unsigned n = 0; n <= 36; ++n) {
		if (n) cat = cat * (4 * n - 2) / (n + 1);
		if (!vf::begin("catalan n=%u", n)) continue;
		EQ("catalan", (uint64_t) catalan(n), (uint64_t) cat); EQ("catalan", (uint64_t) catalan<uint64_t>(n), (uint64_t) cat);
		if (cat <= (u128) ~uint32_t(0)) EQ("catalan_32", (uint64_t) catalan<uint32_t>(n), (uint64_t) cat);
	}
	for (int i = -5; i <= 5; ++i) for (int j = -5; j <= 5; ++j)
		if (vf::begin("kronecker %d %d", i, j)) EQ("kronecker_delta", kronecker_delta(i, j), (i == j ? 1 : 0));
}

SECTION(powers) {
	for (int64_t x = -12; x <= 12; ++x) for (unsigned n = 0; n <= 70; ++n) {
		if (!vf::begin("pow x=%lld n=%u", (long long) x, n)) continue;
		__int128 p = 1; bool ok = true;
		for (unsigned i = 0; i < n; ++i) { p *= x; if (p > INT64_MAX || p < INT64_MIN) { ok = false; break; } }
		// x*x is always formed, the square of the last factor must not overflow for int types
		if (ok && std::llabs((long long) x) <= 12 && n <= 17) {
			EQ("pow_int", pow<int64_t>(x, (int) n), (int64_t) p);
			EQ("ipow_int", ipow<int64_t>(x, n), (int64_t) p);
		}
		long double q = powl((long double) x, n);
		NEAR("pow_real", th::pow<real>((real) x, (int) n), q, 1e-12, 0);
		NEAR("ipow_real", ipow<real>((real) x, n), q, 1e-12, 0);
		if (x != 0) NEAR("pow_real_neg", th::pow<real>((real) x, -(int) n), 1 / q, 1e-12, 0);
	}
	// every exponent up to a bound, bases for which the result stays representable
	int top = vf::thorough() ? 20000 : 3000;
	for (int n = 0; n <= top; ++n) {
		if (!vf::begin("pow n=%d", n)) continue;
		EQ("pow_one", th::pow<real>(1.0, n), 1.0);
		EQ("pow_minus_one", th::pow<real>(-1.0, n), (n % 2 ? -1.0 : 1.0));
		EQ("ipow_minus_one", ipow<real>(-1.0, n), (n % 2 ? -1.0 : 1.0));
		NEAR("pow_base", th::pow<real>(1.0009765625, n), powl(1.0009765625L, n), 1e-10, 0);
		NEAR("ipow_base", ipow<real>(1.0009765625, n), powl(1.0009765625L, n), 1e-10, 0);
		NEAR("pow_base_neg", th::pow<real>(1.0009765625, -n), powl(1.0009765625L, -n), 1e-10, 0);
		if (n <= 1000) EQ("pow2", th::pow<real>(2.0, n), std::ldexp(1.0, n));
		if (n <= 1000) EQ("pow2neg", th::pow<real>(2.0, -n), std::ldexp(1.0, -n));
		if (n <= 62) EQ("ipow_u64", ipow<uint64_t>(2, n), uint64_t(1) << n);
	}
}

static std::vector<uint64_t> patterns() {
	std::set<uint64_t> s = {0, 1, 2, 3, 0xffffffffull, 0x100000000ull, ~0ull, 0xaaaaaaaaaaaaaaaaull, 0x5555555555555555ull,
		0x0123456789abcdefull, 0xfedcba9876543210ull, 0xdeadbeefcafebabeull};
	for (int k = 0; k < 64; ++k) { uint64_t p = uint64_t(1) << k; s.insert(p); s.insert(p - 1); s.insert(p + 1); s.insert(~p); s.insert(~uint64_t(0) << k); }
	return std::vector<uint64_t>(s.begin(), s.end());
}

SECTION(wide_multiply) {
	auto P = patterns();
	for (uint64_t a : P) for (uint64_t b : P) {
		if (!vf::begin("mul a=%llx b=%llx", (unsigned long long) a, (unsigned long long) b)) continue;
		u128 r = (u128) a * b;
		uint64_t lo = 0xbad, hi = 0xbad;
		mul_uint128(a, b, lo, hi);
		EQ("mul_uint128_low", lo, (uint64_t) r);
		EQ("mul_uint128_high", hi, (uint64_t) (r >> 64));
		EQ("mix_mum", mix_mum(a, b), (uint64_t) r ^ (uint64_t) (r >> 64));
	}
}

template<typename T> static void rot() {
	const unsigned W = sizeof(T) * 8;
	for (uint64_t p : patterns()) for (unsigned i = 0; i < W; ++i) {
		T x = (T) p;
		if (!vf::begin("bit_rotate width=%u x=%llx i=%u", W, (unsigned long long) x, i)) continue;
		uint64_t want = 0;
		for (unsigned b = 0; b < W; ++b) if ((x >> b) & 1) want |= uint64_t(1) << ((b + i) % W);
		EQ("bit_rotate", (uint64_t) bit_rotate<T>(x, i), want);
	}
}
SECTION(rotate) { rot<uint32_t>(); rot<uint64_t>(); }

SECTION(bit_reverse) {
	unsigned M = vf::thorough() ? 14 : 11;
	for (unsigned m = 0; m <= M; ++m) {
		if (!vf::begin("swap_bit_reverse m=%u", m)) continue;
		const unsigned n = 1u << m;
		vec<real> v(n); std::vector<real> w(n);
		for (unsigned i = 0; i < n; ++i) v[i] = w[i] = i;
		swap_bit_reverse(v, m); swap_bit_reverse(w, m);
		for (unsigned i = 0; i < n; ++i) {
			unsigned j = 0; for (unsigned k = 0; k < m; ++k) if (i >> k & 1) j |= 1u << (m - 1 - k);
			EQ("bit_reverse_vec", v[i], (real) j);
			EQ("bit_reverse_std", w[i], (real) j);
		}
		swap_bit_reverse(v, m);
		for (unsigned i = 0; i < n; ++i) EQ("bit_reverse_involution", v[i], (real) i);
	}
	// too short containers: rejected and left untouched
	for (unsigned m = 1; m <= 6; ++m) for (unsigned n = 0; n < (1u << m); ++n) {
		if (!vf::begin("swap_bit_reverse short m=%u n=%u", m, n)) continue;
		vec<real> v(n); for (unsigned i = 0; i < n; ++i) v[i] = i;
		errno = 0; swap_bit_reverse(v, m);
		CHECK("bit_reverse_short_error", errno == EINVAL);
		for (unsigned i = 0; i < n; ++i) EQ("bit_reverse_short_untouched", v[i], (real) i);
	}
}
VF_MAIN
