// Dataset reductions against exact integer arithmetic, over every dataset of bounded length.
#include <cmath>
#include "common.h"
#include "enum.h"
#include "theoretica.h"
using namespace theoretica;
typedef std::vector<real> V;
typedef __int128 I;

template<class W> static W conv(const V& v) { W w; w.resize(v.size()); for (size_t i = 0; i < v.size(); ++i) w[i] = v[i]; return w; }

template<class W> static void one(const char* ty, const V& v) {
	if (!vf::begin("%s %s", ty, show(v).c_str())) return;
	const W x = conv<W>(v);
	const size_t n = v.size();
	long double s = 0, sq = 0, pr = 1, hm = 0; double mx = -INFINITY, mn = INFINITY; bool zero = false;
	for (double a : v) { s += a; sq += (long double) a * a; pr *= a; mx = std::fmax(mx, a); mn = std::fmin(mn, a); if (a == 0) zero = true; else hm += 1.0L / a; }
	errno = 0;
	EQ("sum", th::sum(x), (double) s);
	NEAR("sum_compensated", sum_compensated(x), s, 1e-15, 0);
	EQ("sum_pairwise", sum_pairwise(x), (double) s);
	CHECK("sum_error", errno == 0);
	if (n == 0) {
		errno = 0; ISNAN("product_empty", product(x)); EQ("product_empty_errno", errno, EINVAL);
		errno = 0; ISNAN("sum_squares_empty", sum_squares(x)); EQ("sum_squares_empty_errno", errno, EINVAL);
		errno = 0; ISNAN("max_empty", th::max(x)); EQ("max_empty_errno", errno, EINVAL);
		errno = 0; ISNAN("min_empty", th::min(x)); EQ("min_empty_errno", errno, EINVAL);
		errno = 0; ISNAN("mean_empty", arithmetic_mean(x)); CHECK("mean_empty_errno", errno != 0);
		errno = 0; ISNAN("hmean_empty", harmonic_mean(x)); CHECK("hmean_empty_errno", errno != 0);
		errno = 0; ISNAN("qmean_empty", quadratic_mean(x)); EQ("qmean_empty_errno", errno, EINVAL);
		errno = 0; ISNAN("gmean_empty", geometric_mean(x)); CHECK("gmean_empty_errno", errno != 0);
	} else {
		EQ("product", product(x), (double) pr);
		EQ("sum_squares", sum_squares(x), (double) sq);
		EQ("max", th::max(x), mx);
		EQ("min", th::min(x), mn);
		NEAR("arithmetic_mean", arithmetic_mean(x), s / n, 1e-14, 1e-15);
		NEAR("quadratic_mean", quadratic_mean(x), sqrtl(sq / n), 2e-8, 2e-8);
		CHECK("reduction_error", errno == 0);
		if (zero) { errno = 0; ISNAN("harmonic_zero", harmonic_mean(x)); EQ("harmonic_zero_errno", errno, ERANGE); }
		else if (fabsl(hm) > 1e-9) { errno = 0; NEAR("harmonic_mean", harmonic_mean(x), n / hm, 1e-12, 0); CHECK("harmonic_error", errno == 0); }
		errno = 0;
		if (pr >= 0 || n % 2) {
			NEAR("geometric_mean", geometric_mean(x), powl(fabsl(pr), 1.0L / n) * (pr < 0 ? -1 : 1), 2e-8, 2e-8);
			CHECK("geometric_error", errno == 0);
		} else { ISNAN("geometric_negative", geometric_mean(x)); EQ("geometric_negative_errno", errno, EDOM); }
	}
	// elementwise maps and concatenation
	auto f = [](real t) { return 3 * t - 1; };
	W y = th::map(f, x); W z = x; th::apply(f, z); W d = x; W& dr = th::map(f, x, d);
	EQ("map_size", y.size(), n);
	CHECK("map_dest_ref", &dr == &d);
	for (size_t i = 0; i < n; ++i) {
		EQ("map", y[i], f(v[i])); EQ("apply", z[i], f(v[i])); EQ("map_dest", d[i], f(v[i]));
		EQ("map_source_unchanged", x[i], v[i]);
	}
	W c = concatenate(x, y);
	EQ("concat_size", c.size(), 2 * n);
	for (size_t i = 0; i < n; ++i) { EQ("concat", c[i], v[i]); EQ("concat2", c[i + n], y[i]); }
}

SECTION(single) {
	std::vector<real> a = {-3, -1, 0, 1, 2, 5};
	words_upto(a, 0, vf::thorough() ? 7 : 5, [&](const V& v) { one<std::vector<real>>("std::vector", v); });
	words_upto(a, 0, vf::thorough() ? 6 : 4, [&](const V& v) { one<vec<real>>("vec", v); });
}
template<unsigned N> static void fixed(const std::vector<real>& a) {
	words(a, N, [&](const V& v) {
		if (!vf::begin("vec<real,%u> %s", N, show(v).c_str())) return;
		vec<real, N> x; long double s = 0, pr = 1, sq = 0; double mx = -1e9, mn = 1e9;
		for (unsigned i = 0; i < N; ++i) { x[i] = v[i]; s += v[i]; pr *= v[i]; sq += v[i] * v[i]; mx = std::fmax(mx, v[i]); mn = std::fmin(mn, v[i]); }
		EQ("sum_fixed", th::sum(x), (double) s); EQ("product_fixed", product(x), (double) pr);
		EQ("sum_squares_fixed", sum_squares(x), (double) sq); EQ("max_fixed", th::max(x), mx); EQ("min_fixed", th::min(x), mn);
		NEAR("mean_fixed", arithmetic_mean(x), s / N, 1e-14, 1e-15);
		vec<real, N> m = th::map([](real t) { return t * t + 1; }, x);
		for (unsigned i = 0; i < N; ++i) EQ("map_fixed", m[i], v[i] * v[i] + 1);
	});
}
SECTION(fixed_size) { std::vector<real> a = {-2, 0, 1, 3}; fixed<1>(a); fixed<2>(a); fixed<3>(a); fixed<4>(a); fixed<5>(a); }

template<class W> static void two(const char* ty, const V& a, const V& b, const V& c) {
	if (!vf::begin("%s x=%s y=%s z=%s", ty, show(a).c_str(), show(b).c_str(), show(c).c_str())) return;
	const W x = conv<W>(a), y = conv<W>(b), z = conv<W>(c);
	errno = 0;
	bool ok2 = a.size() == b.size() && a.size(), ok3 = ok2 && c.size() == a.size();
	if (ok2) {
		double ps = 0, pss = 0, qs = 0, ws = 0; bool div0 = false;
		for (size_t i = 0; i < a.size(); ++i) { ps += a[i] * b[i]; pss += a[i] * a[i] * b[i] * b[i]; if (b[i] == 0) div0 = true; else qs += a[i] / b[i]; ws += b[i]; }
		EQ("product_sum", product_sum(x, y), ps);
		EQ("product_sum_squares", product_sum_squares(x, y), pss);
		if (ws != 0) NEAR("weighted_mean", weighted_mean(x, y), ps / ws, 1e-14, 1e-15);
		CHECK("pair_error", errno == 0);
		errno = 0;
		if (div0) { ISNAN("quotient_zero", quotient_sum(x, y)); EQ("quotient_zero_errno", errno, ERANGE); }
		else { NEAR("quotient_sum", quotient_sum(x, y), qs, 1e-14, 1e-15); CHECK("quotient_error", errno == 0); }
	} else {
		ISNAN("product_sum_bad", product_sum(x, y)); EQ("product_sum_errno", errno, EINVAL);
		errno = 0; ISNAN("product_sum_squares_bad", product_sum_squares(x, y)); EQ("product_sum_squares_errno", errno, EINVAL);
		errno = 0; ISNAN("quotient_bad", quotient_sum(x, y)); EQ("quotient_errno", errno, EINVAL);
	}
	errno = 0;
	if (ok3) {
		double ps = 0; for (size_t i = 0; i < a.size(); ++i) ps += a[i] * b[i] * c[i];
		EQ("product_sum3", product_sum(x, y, z), ps); CHECK("product_sum3_error", errno == 0);
	} else { ISNAN("product_sum3_bad", product_sum(x, y, z)); EQ("product_sum3_errno", errno, EINVAL); }
	W cc = concatenate(x, y);
	EQ("concat_size2", cc.size(), a.size() + b.size());
	for (size_t i = 0; i < cc.size(); ++i) EQ("concat_mixed", cc[i], i < a.size() ? a[i] : b[i - a.size()]);
}
SECTION(pairs_) {
	std::vector<V> all; std::vector<real> al = {-2, 0, 1, 3};
	words_upto(al, 0, 3, [&](const V& v) { all.push_back(v); });
	for (auto& a : all) for (auto& b : all) { two<std::vector<real>>("std::vector", a, b, a); two<vec<real>>("vec", a, b, b); }
	std::vector<V> sm; words_upto(std::vector<real>{-1, 2}, 0, 3, [&](const V& v) { sm.push_back(v); });
	for (auto& a : sm) for (auto& b : sm) for (auto& c : sm) two<std::vector<real>>("std::vector", a, b, c);
}
// every length around the blocking boundaries, integer valued so that the sum is exact whatever the order
SECTION(lengths) {
	for (int n = 0; n <= (vf::thorough() ? 5000 : 1400); ++n) {
		V v(n); I s = 0, q = 0; for (int i = 0; i < n; ++i) { v[i] = (i * 7919 + n) % 1009 - 300; s += (int) v[i]; q += (I) v[i] * (I) v[i]; }
		if (!vf::begin("length %d", n)) continue;
		EQ("sum_len", th::sum(v), (double) s); EQ("sum_pairwise_len", sum_pairwise(v), (double) s); EQ("sum_compensated_len", sum_compensated(v), (double) s);
		if (n) { EQ("sum_squares_len", sum_squares(v), (double) q); EQ("product_sum_len", product_sum(v, v), (double) q); NEAR("mean_len", arithmetic_mean(v), (double) s / n, 1e-14, 0);
			EQ("max_len", th::max(v), *std::max_element(v.begin(), v.end())); EQ("min_len", th::min(v), *std::min_element(v.begin(), v.end())); }
		for (size_t base : {1, 2, 3, 7, 128}) EQ("sum_base", sum_pairwise(v, 0, 0, base), (double) s);
	}
	// every sub-range
	V v(40); for (int i = 0; i < 40; ++i) v[i] = (i * 37) % 41 - 11;
	for (size_t b = 0; b < 40; ++b) for (size_t e = b + 1; e <= 40; ++e) for (size_t base : {1, 2, 5, 64}) {
		if (!vf::begin("range %zu..%zu base %zu", b, e, base)) continue;
		double s = 0; for (size_t i = b; i < e; ++i) s += v[i];
		EQ("sum_range", sum_pairwise(v, b, e, base), s);
	}
}
// compensated summation: result is within 2 ulp + O(n^2 eps^2) sum|x| of the exact sum for every order
SECTION(compensated) {
	std::vector<real> al = {1, -1, 1e16, -1e16, 1e30, -1e30, 3e-10, 12345.678};
	words_upto(al, 0, vf::thorough() ? 7 : 5, [&](const V& v) {
		if (!vf::begin("compensated %s", show(v).c_str())) return;
		// exact sum in 256-bit-ish double-double expansion
		std::vector<double> p; double sa = 0;
		for (double x : v) { sa += std::fabs(x); std::vector<double> q; double t = x; for (double y : p) { double a = t, b = y; if (std::fabs(a) < std::fabs(b)) std::swap(a, b); volatile double hi = a + b; volatile double lo = b - (hi - a); if (lo != 0) q.push_back((double) lo); t = hi; } q.push_back(t); p = q; }
		long double ex = 0; for (double y : p) ex += y;
		double got = sum_compensated(v);
		double tol = 4e-16 * std::fabs((double) ex) + 50 * v.size() * v.size() * 5e-32 * sa;
		CHECKF("compensated", std::fabs(got - (double) ex) <= tol, "got %.17g expected %.17g", got, (double) ex);
		NEAR("pairwise_bound", th::sum(v), (double) ex, 0, 1e-14 * sa);
	});
}
// every length: all the reductions on values of both signs whose product stays in range
template<class W> static void reductions(const char* ty, int n, int sg) {
	if (!vf::begin("%s: reductions of %d values, signs %d", ty, n, sg)) return;
	V v(n), w(n); long double s = 0, s2 = 0, h = 0, lp = 0, ps = 0, pss = 0, qs = 0, p3 = 0, ws = 0; int neg = 0;
	for (int i = 0; i < n; ++i) {
		v[i] = (1 + (real) ((i * 7) % 13) / 7.3) * (i % 2 ? 0.3123456789 : 1.7654321); if (sg == 1 && i % 3 == 1) v[i] = -v[i]; if (sg == 2) v[i] = -v[i];
		w[i] = 0.4 + ((i * 5) % 11) / 9.7;
		s += v[i]; s2 += (long double) v[i] * v[i]; h += 1.0L / v[i]; lp += logl(fabsl((long double) v[i])); neg += v[i] < 0;
		ps += (long double) v[i] * w[i]; pss += (long double) v[i] * v[i] * w[i] * w[i]; qs += (long double) v[i] / w[i]; p3 += (long double) v[i] * w[i] * v[i]; ws += w[i];
	}
	const W x = conv<W>(v), y = conv<W>(w);
	const double a = 1e-14 * (n + 4), b = a * n;
	NEAR("mean_n", arithmetic_mean(x), s / n, a, a); NEAR("quadratic_mean_n", quadratic_mean(x), sqrtl(s2 / n), a + 1e-14, 0);
	if (fabsl(h) > 1e-3) NEAR("harmonic_mean_n", harmonic_mean(x), n / h, b * 100 + a, 0);
	NEAR("product_sum_n", product_sum(x, y), ps, a, b); NEAR("product_sum_squares_n", product_sum_squares(x, y), pss, a, b);
	NEAR("quotient_sum_n", quotient_sum(x, y), qs, a, b); NEAR("product_sum3_n", product_sum(x, y, x), p3, a, b);
	NEAR("weighted_mean_n", weighted_mean(x, y), ps / ws, a, b); NEAR("weighted_mean_equal", weighted_mean(x, W(x)), s2 / s, a + b / (double) fabsl(s), b);
	if (fabsl(lp) < 650) {
		NEAR("product_n", product(x), (neg % 2 ? -1 : 1) * expl(lp), a * 10, 0);
		errno = 0;
		if (neg % 2 == 0) { NEAR("geometric_mean_n", geometric_mean(x), expl(lp / n), 2e-8, 0); CHECK("geometric_error", errno == 0); }
		else if (n % 2) { NEAR("geometric_mean_n", geometric_mean(x), -expl(lp / n), 2e-8, 0); CHECK("geometric_error", errno == 0); }
		else { ISNAN("geometric_negative", geometric_mean(x)); EQ("geometric_negative_errno", errno, EDOM); }
	}
	EQ("max_n", th::max(x), *std::max_element(v.begin(), v.end())); EQ("min_n", th::min(x), *std::min_element(v.begin(), v.end()));
	// in place, where source and destination are the same dataset, and into a destination holding other data
	W z = x; auto f = [](real t) { return t * t - 3 * t; };
	W& zr = th::map(f, z, z); CHECK("map_in_place_ref", &zr == &z); EQ("map_in_place_size", z.size(), (size_t) n);
	W d = y; th::map(f, x, d); W e = x; th::apply(f, e); W g = th::map(f, x); W cc = concatenate(x, y), c2 = concatenate(x, x);
	EQ("concatenate_n_size", cc.size(), (size_t) 2 * n); EQ("concatenate_self_size", c2.size(), (size_t) 2 * n);
	for (int i = 0; i < n; ++i) {
		CHECK("map_in_place", z[i] == f(v[i])); CHECK("map_dest_n", d[i] == f(v[i])); CHECK("apply_n", e[i] == f(v[i])); CHECK("map_n", g[i] == f(v[i]));
		CHECK("concatenate_n", cc[i] == v[i] && cc[n + i] == w[i]); CHECK("concatenate_self", c2[i] == v[i] && c2[n + i] == v[i]);
	}
}
SECTION(reductions_) {
	for (int n = 1; n <= (vf::thorough() ? 2200 : 530); ++n) for (int sg = 0; sg < 3; ++sg) { reductions<std::vector<real>>("std::vector", n, sg); if (n < 80 || n % 16 == 1) reductions<vec<real>>("vec", n, sg); }
}
// the error of a pairwise sum grows with the block size and the logarithm of the length, not with the length
SECTION(pairwise_error) {
	for (int n : {128, 129, 1000, 4096, 65536, 65537, 100000, 1 << 20}) for (int k = 0; k < 5; ++k) {
		if (!vf::begin("pairwise sum of %d values, dataset %d", n, k)) continue;
		V v(n); __float128 q = 0; for (int i = 0; i < n; ++i) { v[i] = k == 0 ? 0.1 : k == 1 ? 1.0 / 3 : k == 2 ? 1e-3 + 1e-9 * i : k == 3 ? 1.1 : (i == 0 ? 1.0 : 1e-16); q += v[i]; }
		const long double s = (long double) q;
		const double u = 1.2e-16 * (140 + std::log2((double) n));
		CHECKF("pairwise_error", fabsl((long double) th::sum(v) - s) <= u * s, "got %.17g, expected %.17Lg", th::sum(v), s);
		CHECKF("pairwise_error", fabsl((long double) sum_pairwise(v) - s) <= u * s, "got %.17g, expected %.17Lg", sum_pairwise(v), s);
		CHECKF("compensated_error", fabsl((long double) sum_compensated(v) - s) <= 3e-16 * s, "got %.17g, expected %.17Lg", sum_compensated(v), s);
		CHECKF("mean_error", fabsl((long double) arithmetic_mean(v) - s / n) <= (u + 2e-16) * (s / n), "got %.17g, expected %.17Lg", arithmetic_mean(v), s / n);
	}
}
VF_MAIN
